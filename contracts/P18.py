from vc.veccon import vec
T = {'ru32': ('unsigned int', 'raw'), 'ou32': ('unsigned int', 'offset'), 'rchr': ('char', 'raw'), 'ru64': ('unsigned long', 'raw')}
VEC = [c for t, (e, f) in T.items() for c in vec(t, e, f)] + vec('rpage', 'cista::page<unsigned int, unsigned short>', 'raw')
BASE = VEC + [(r'^cista::paged<cista::basic_vector<char,.*>::free_list_index\(', 'vpc_list_3'),
              (r'^cista::paged<.*>::free_list_index\(', 'vpc_list_1')]


# the contracts of the pages instead of their bodies
def pages(what):
    return [(r'^cista::paged<cista::basic_vector<' + e + f', cista::{f}::ptr,' + r'.*>::' + w + r'_page\(', f'vpc_{w}_{t}')
            for t, (e, f) in T.items() for w in what if w == 'create' or t in ('ru32', 'rchr')]


OVER = {f'ob_{o}_{t}': {'contracts': BASE + pages(('create', 'resize'))} for o in ('push_room', 'push_grow', 'append', 'access') for t in ('ru32', 'rchr')}
OVER.update({f'ob_resize_grow_{t}': {'contracts': BASE + pages(('create',))} for t in T})
OVER.update({f'ob_list_index_{t}': {'contracts': VEC} for t in T})
SPEC = {'time': 160, 'feas_ms': 250, 'contracts': BASE, 'override': OVER, 'loops': [('constexpr_trailing_zeros', 34)]}
