"""Harness table for the codec properties (C01..C09)."""
KN = ['Nil', 'Slice', 'Map', 'Any', 'Bytes', 'String', 'Error', 'Bool', 'U8', 'U16', 'U32', 'U64', 'I32', 'I64', 'F32', 'F64']
KINDS = [k for k in range(16) if k != 3]


def table():
    """{property: [(harness, go statement or None, opts, labels)]}"""
    T = {}

    def add(p, name, stmt, labels=('done',), **o):
        T.setdefault(p, []).append((f'H_{p}_{name}', stmt, o, labels))
    for k in KINDS:
        n = KN[k]
        for me in (1, 2):
            for md in (1, 2):
                add('C01', f'v{me}v{md}_{n}', f'roundTrip({me}, {md}, {k})')
            add('C02', f'v{me}_{n}', f'wire({me}, {k})')
            add('C03', f'v{me}_{n}', f'total({me}, {k})', ('decoded', 'rejected'))
            add('C04', f'v{me}_{n}', f'mismatch({me}, {k})', ('nil', 'other') if k == 0 else ('done',))
            add('C05', f'v{me}_{n}', f'sound({me}, {k})', ('decoded', 'rejected'))
            add('C09', f'v{me}_enc_{n}', f'isolatedEncode({me}, {k})', c09=True)
            add('C09', f'v{me}_dec_{n}', f'isolatedDecode({me}, {k})', ('decoded',), c09=True)
            if k in (4, 5, 6):
                add('C08', f'v{me}_dec_{n}', f'aliasDecode({me}, {k})', ('decoded', 'rejected'))
                add('C08', f'v{me}_enc_{n}', f'aliasEncode({me}, {k})')
            add('C06', f'v{me}_enc_{n}', f'mixed{me}({k})')
        for meth in (0, 1):
            add('C07', f'decoder{meth}_{n}', f'decoderReuse({k}, {"true" if meth else "false"})')
    for k1, k2 in ((4, 11), (5, 4), (12, 6), (2, 1), (14, 15), (9, 13), (10, 0)):
        for me in (1, 2):
            add('C01', f'pair_v{me}v{3 - me}_{KN[k1]}_{KN[k2]}', f'roundTrip2({me}, {3 - me}, {k1}, {k2})')
    add('C02', 'kinds', 'kinds()')
    for n in ('v1_write', 'v1_new', 'v2_write', 'v2_grow'):
        add('C06', n, None)
    for n in ('pool', 'global', 'two_pools'):
        add('C07', n, None)
    for n in ('v1_write', 'v2_write', 'v1_pair', 'v2_pair'):
        add('C08', n, None)
    add('C09', 'v2_pool', None, c09=True)
    return T


def generated(props):
    T = table()
    t = 'package codec\n\n'
    names = []
    for p in (sorted(T) if props is None else props):
        for n, stmt, o, l in T[p]:
            names.append(n)
            if stmt:
                t += f'func {n}() {{ {stmt} }}\n\n'
    return t, names


BOUNDS = ['byte inputs, payloads and buffers: any length from 0 to 2^40 (payloads to 2^32-1), symbolic, not unrolled',
          'scalars: every value', 'loops: unrolled until the path condition ends them, at most 48 forks per loop',
          'pairs of values in sequence: payloads below 2^14; single values: no such limit',
          'pool histories: at most 4 operations']
