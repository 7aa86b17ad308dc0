"""Harness tables of the TypeScript package (C18..C21)."""
import tsrun
COMMON = ['payloads and surrounding data: any length from 0 to 2^30, symbolic, not unrolled', 'scalars: every value (BigInts in their 64-bit range)',
          'texts: well-formed UTF-16, as any UTF-8 bytes', 'loops: unrolled until the path condition ends them, at most 48 forks per loop']
WEIGHT = {n: 9 for n in ('h_c21_string', 'h_c21_error', 'h_c21_map', 'h_c21_array', 'h_c21_bytes', 'h_c18_map', 'h_c18_array', 'h_c18_bytes', 'h_c18_string',
                         'h_c18_error', 'h_c27_enc_i64', 'h_c27_enc_u64', 'h_c27_enc_i32')}


def table(prop):
    out = []
    for n in sorted(tsrun.harnesses()):
        if n.startswith(f'h_{prop.lower()}_'):
            lab = ('end',)
            if prop == 'C21':
                lab = ('ok',) if n.endswith('_retry') else ('ok', 'err')
            out.append((n, None, {'w': WEIGHT.get(n, 0), 'time': 500}, lab))
    return out


def bounds(prop):
    b = list(COMMON)
    if prop == 'C20':
        b += ['initial buffers: the default one, or any length to 2^20, or any part of such a buffer; empty or holding one byte array of up to 2^20 bytes']
    if prop == 'C21':
        b += ['inputs: any bytes, at the start of a buffer, behind a decoded value of any length, or as any part of a larger buffer']
    if prop == 'C27':
        b += ['two encoders or two decoders in turns; of two 64-bit integers the second is at most one varint byte']
    return b
