C = r'^void cista::deserialize<cista::deserialization_context<\(cista::mode\)\d+>, '
SPEC = {'time': 150, 'contracts': [
    (C + r'cista::basic_string<.*> ?>\(', 'vpc_string'),
    (C + r'cista::basic_vector<unsigned int, .*>\(', 'vpc_vec'),
    (C + r'cista::basic_unique_ptr<unsigned int, .*>\(', 'vpc_uni'),
    (C + r'cista::offset_ptr<unsigned int, void> ?>\(', 'vpc_ptr')]}
