SPEC = {'time': 240}
