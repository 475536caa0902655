SPEC = {'time': 200}
