"""Harness tables of the Rust crate and its C binding (C10..C17)."""
import glob, os, re
SRC = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/harness/rust/src/'
COMMON = ['byte inputs and payloads: any length from 0 to 2^33 (payloads to 2^32-1, vectors of any capacity to 2^33), symbolic, not unrolled',
          'cursor positions: 0 to 2^34, also past the end', 'scalars: every value',
          'loops: unrolled until the path condition ends them, at most 48 forks per loop']
WEIGHT = {'h_c10_str': 9, 'h_c10_string': 9, 'h_c10_error': 9, 'h_c10_pair': 9, 'h_c10_bytes': 9, 'h_c10_u64': 5, 'h_c10_i64': 5,
          'h_c11_bytes': 8, 'h_c11_str': 8, 'h_c11_string': 8, 'h_c11_error': 8}


def names(prop):
    out = []
    for f in sorted(glob.glob(SRC + '*.rs')):
        for m in re.finditer(r'\b(h_c\d+_\w+)', open(f).read()):
            n = m.group(1)
            if n.startswith(f'h_{prop.lower()}_') and n not in out:
                out.append(n)
    return out


def table(prop):
    out = []
    for n in names(prop):
        if prop in ('C12', 'C14') or '_c15_dec_' in n:
            lab = ('ok', 'err')
        elif '_c15_enc_' in n:
            lab = ('end', 'small')
        else:
            lab = ('end',)
        out.append((n, None, {'w': WEIGHT.get(n, 4 if '_c17_' in n else 0)}, lab))
    return out


def bounds(prop):
    b = list(COMMON)
    if prop in ('C15', 'C16', 'C17'):
        b += ['C buffers: every length a uint32 can state; C strings: any non-zero bytes, to 2^32-32',
              'encoders: empty or holding one uint32 before the call examined']
    if prop == 'C17':
        b += ['lifetimes: one or two decode calls (five kinds of call, seven pairs), three orders of freeing; in pairs the first declared length is 0, 1 or 16 to 127']
    return b
