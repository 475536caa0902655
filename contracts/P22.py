SPEC = {'time': 150, 'feas_ms': 250, 'loops': [('node_choose<(true|false)', 17), ('', 6)]}
