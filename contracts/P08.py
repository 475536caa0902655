SPEC = {'time': 120}
