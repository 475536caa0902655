"""call sites of cista::basic_vector's storage operations -> the contracts in vec_contracts.h"""
import re


def vec(tag, elem, flavour, regex=False):
    """elem: the element type as the demangler writes it (or a regex for it)"""
    e = elem if regex else re.escape(elem)
    v = r'^(?:\S.*? )?cista::basic_vector<' + e + r', cista::' + flavour + r'::ptr, .*>::'
    p = e + r'\*'
    return [(v + r'reserve\(', f'vpc_reserve_{tag}'),
            (v + r'insert<std::move_iterator<(?:' + e + r'(?: const)?\*|__gnu_cxx.*)> ?>\(' + p + r', std::move_iterator<[^,]*>, std::move_iterator<[^,]*>\)$', f'vpc_insert_range_{tag}'),
            (v + r'insert<' + e + r'(?: const)?\*>\(' + p + ', ' + e + r'(?: const)?\*, ' + e + r'(?: const)?\*\)$', f'vpc_insert_range_{tag}'),
            (v + r'insert<' + e + r'(?: const)?&?>\(' + p + ', ' + e + r'(?: const)?&&?\)$', f'vpc_insert_one_{tag}'),
            (v + r'insert<' + e + r'>\(' + p + r', unsigned \w+, ' + e + r' const&\)$', f'vpc_insert_copies_{tag}'),
            (v + r'erase\(' + p + ', ' + p + r'\)$', f'vpc_erase_range_{tag}')]
