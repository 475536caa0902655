S = r'^void cista::serialize<\(anonymous namespace\)::context<\(cista::mode\)\d+>, '
C = r'^void cista::deserialize<cista::deserialization_context<\(cista::mode\)\d+>, '
SPEC = {'time': 160, 'feas_ms': 250, 'contracts': [
    (S + r'cista::offset_ptr<char const, void> ?>\(\(anonymous namespace\)::context<\(cista::mode\)\d+>&, cista::basic_string<', 'vpc_out_str'),
    (S + r'unsigned int, cista::offset::ptr, false, unsigned int>\(', 'vpc_out_vec'),
    (S + r'unsigned int, cista::offset_ptr<unsigned int, void> ?>\(.*basic_unique_ptr', 'vpc_out_uni'),
    (C + r'cista::basic_string<.*> ?>\(', 'vpc_in_str'),
    (C + r'cista::basic_vector<unsigned int, .*>\(', 'vpc_in_vec'),
    (C + r'cista::basic_unique_ptr<unsigned int, .*>\(', 'vpc_in_uni')]}
