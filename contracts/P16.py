from vc.veccon import vec
SPEC = {'time': 300, 'contracts': vec('ru32', 'unsigned int', 'raw') + vec('ou32', 'unsigned int', 'offset')}
