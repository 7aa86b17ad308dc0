"""Harness table for the naming helpers (C25)."""


def table(thorough):
    n = 7 if thorough else 5
    T, g = [], 'package names\n\nimport (\n\tv1 "github.com/loopholelabs/polyglot/utils"\n\tv2 "github.com/loopholelabs/polyglot/v2/utils"\n)\n\n'
    for v in ('v1', 'v2'):
        for f, h, k, dots in (('CamelCase', 'camel', n, False), ('CamelCase', 'words', n, False), ('SnakeCase', 'snake', n, False)):
            T.append((f'H_C25_{v}_{h}', None, {}, ('done',)))
            g += f'func H_C25_{v}_{h}() {{ {h}({v}.{f}, name({k}, {"true" if dots else "false"})) }}\n'
        for f, h in (('CamelCase', 'camel'), ('CamelCase', 'words')):
            T.append((f'H_C25_{v}_full_{h}', None, {}, ('done',)))
            g += f'func H_C25_{v}_full_{h}() {{ {h}({v}.{f}, name({n}, true)) }}\n'
        for f, h in (('CamelCase', 'words'), ('SnakeCase', 'snake'), ('FirstLowerCase', 'first'), ('LowercaseCamelCase', 'first')):
            T.append((f'H_C25_{v}_long_{f}_{h}', None, {}, ('done',)))
            g += f'func H_C25_{v}_long_{f}_{h}() {{ {h}({v}.{f}, long()) }}\n'
        for h in ('join', 'first', 'lcc'):
            T.append((f'H_C25_{v}_{h}', None, {}, ('done',)))
    T.append(('H_C25_empty', None, {}, ('done',)))
    T.append(('H_C25_same', None, {}, ('done',)))
    g += f'func H_C25_same() {{ same(name({n - 1}, true)) }}\n'
    return T, {'names/zz_gen.go': g}, [f'names: every legal name of at most {n} bytes (full names: dots included)', 'long names: known parts of 31 to 86 bytes with any name of at most 2 bytes in front, inside or behind', 'loops: as far as the name is long']


def run(prop):
    import os
    import gocheck
    import gorun
    t, g, b = table(os.environ.get('VERIF_TIER') == 'thorough')
    return gocheck.run(prop, 'names', t, g, b, follow=gorun.FOLLOW + ['github.com/loopholelabs/polyglot/utils', 'github.com/loopholelabs/polyglot/v2/utils', 'unicode'])
