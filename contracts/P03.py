SPEC = {'time': 120, 'contracts': [(r'^unsigned long cista::type_hash<.*>\(\)$', 'vpc_type_hash')]}
