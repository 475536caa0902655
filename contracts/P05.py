SPEC = {'time': 120, 'contracts': [(r'^fseek$', 'vpc_fseek'), (r'^fwrite$', 'vpc_fwrite'), (r'^fread$', 'vpc_fread'),
                      (r'^fileno$', 'vpc_fileno'), (r'^fclose$', 'vpc_fclose')]}
