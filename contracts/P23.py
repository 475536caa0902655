SPEC = {'time': 150, 'feas_ms': 250, 'contracts': [
    (r'^fileno$', 'vpc_fileno'), (r'^fclose$', 'vpc_fclose'), (r'^fstat(64)?$', 'vpc_fstat'), (r'^mmap(64)?$', 'vpc_mmap'),
    (r'^munmap$', 'vpc_munmap'), (r'^msync$', 'vpc_msync'), (r'^ftruncate(64)?$', 'vpc_ftruncate'),
    (r'^.*std::_V2::rotate<unsigned char\*>', 'vpc_rotate8'), (r'^.*std::_V2::rotate<unsigned int\*>', 'vpc_rotate32'),
    (r'^.*std::_V2::rotate<unsigned long\*>', 'vpc_rotate64')]}
