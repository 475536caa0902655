SPEC = {'time': 250, 'contracts': [
    (r'^bool cista::deep_check_context<.*>::add_checked<', 'vpc_add_checked'),
    (r'^bool std::all_of<', 'vpc_all_of'), (r'^bool std::equal<', 'vpc_equal'), (r' std::accumulate<', 'vpc_accumulate')]}
