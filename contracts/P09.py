SPEC = {'time': 300, 'loops': [(r'hash_storage', 18)]}
