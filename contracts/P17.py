from vc.veccon import vec
IDX = r'cista::dynamic_fws_multimap_base<.*>::index_type'
SPEC = {'time': 120, 'feas_ms': 700, 'contracts': vec('ridx', IDX, 'raw', True) + vec('oidx', IDX, 'offset', True) +
        vec('ru32', 'unsigned int', 'raw') + vec('ou32', 'unsigned int', 'offset')}
