SPEC = {'time': 240, 'feas_ms': 250}
