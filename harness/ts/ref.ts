// The wire format, written independently of the package.
import * as S from "./sym";

export const K = {
  Null: 0, Array: 1, Map: 2, Any: 3, Bytes: 4, String: 5, Error: 6, Bool: 7, U8: 8, U16: 9, U32: 10, U64: 11, I32: 12, I64: 13, F32: 14, F64: 15,
};

// lengths: up to 1 GiB
export const BIG = 1 << 30;

export function cat(a: Uint8Array, b: Uint8Array): Uint8Array {
  const r = new Uint8Array(a.length + b.length);
  r.set(a);
  r.set(b, a.length);
  return r;
}

export function of(...b: number[]): Uint8Array {
  return Uint8Array.from(b);
}

// a varint in its shortest form
export function varint(n: number): Uint8Array {
  const out: number[] = [];
  let v = n;
  while (v > 127) {
    out.push((v % 128) + 128);
    v = Math.floor(v / 128);
  }
  out.push(v);
  return Uint8Array.from(out);
}

export function varintBig(n: bigint): Uint8Array {
  const out: number[] = [];
  let v = n;
  while (v > 127n) {
    out.push(Number(v % 128n) + 128);
    v /= 128n;
  }
  out.push(Number(v));
  return Uint8Array.from(out);
}

export function u32(n: number): Uint8Array {
  return cat(of(K.U32), varint(n));
}

export function zigzag(n: number): number {
  return n < 0 ? -2 * n - 1 : 2 * n;
}

export function zigzagBig(n: bigint): bigint {
  return n < 0n ? -2n * n - 1n : 2n * n;
}

export function be32(n: number): Uint8Array {
  return of(n >>> 24, (n >>> 16) & 255, (n >>> 8) & 255, n & 255);
}

export function be64(n: bigint): Uint8Array {
  return cat(be32(Number(n >> 32n)), be32(Number(n & 0xffffffffn)));
}

export function payload(kind: Uint8Array, b: Uint8Array): Uint8Array {
  return cat(cat(kind, u32(b.length)), b);
}

// what a varint of at most `bits` bits at b[at] says: its value and size, or null
export function parse(b: Uint8Array, at: number, bits: number): { v: bigint; n: number } | null {
  const max = Math.ceil(bits / 7);
  let v = 0n;
  for (let i = 0; i < max; i += 1) {
    if (at + i >= b.length) return null;
    const x = b[at + i];
    v += BigInt(x & 127) << BigInt(7 * i);
    if (x < 128) {
      return v < 1n << BigInt(bits) ? { v, n: i + 1 } : null;
    }
  }
  return null;
}

export function unzigzag(v: bigint): bigint {
  return v & 1n ? -(v + 1n) / 2n : v / 2n;
}

// a length: uint32 kind byte and varint, followed by at least that many bytes
export function parseSized(b: Uint8Array, at: number): { start: number; len: number } | null {
  if (at >= b.length || b[at] !== K.U32) return null;
  const p = parse(b, at + 1, 32);
  if (p === null) return null;
  const start = at + 1 + p.n;
  const len = Number(p.v);
  return start + len <= b.length ? { start, len } : null;
}

export { S };
