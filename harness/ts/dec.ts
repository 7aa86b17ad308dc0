// C21: a decode call succeeds only on a complete encoding of what it returns
import { Decoder, Kind } from "polyglot";
import { BIG, K, S, cat, of, parse, parseSized, payload, unzigzag } from "./ref";

interface Want {
  kind: number;
  // the value at b[at..] (behind the kind byte) and where it ends, or null
  ref: (b: Uint8Array, at: number) => { end: number; same: (v: unknown) => boolean } | null;
  // are the kind bytes (the first and the nested ones) the expected ones?
  kinds?: (b: Uint8Array) => boolean;
  // how far behind the start of a buffer
  far?: number;
}

// input: any bytes, behind a value that has been decoded (so at any position), in a
// buffer of its own or as a part of a larger one
function input(far: number): { d: Decoder; b: Uint8Array } {
  const b = S.bytes("in", 0, BIG);
  const how = S.choose("how", 3);
  if (how === 0) return { d: new Decoder(b), b };
  const pre = S.bytes("pre", 0, how === 1 ? far : BIG);
  const head = payload(of(K.Bytes), pre);
  if (how === 1) {
    const d = new Decoder(cat(head, b));
    d.uint8Array();
    return { d, b };
  }
  const all = cat(cat(pre, b), S.bytes("post", 0, BIG));
  return { d: new Decoder(all.subarray(pre.length, pre.length + b.length)), b };
}

function accepts(call: (d: Decoder) => unknown, w: Want) {
  const { d, b } = input(w.far ?? BIG);
  const n = d.length;
  S.check(n === b.length, "length is what is left");
  let v: unknown;
  let ok = true;
  try {
    v = call(d);
  } catch {
    ok = false;
  }
  const fits = w.kinds ? w.kinds(b) : b.length > 0 && b[0] === w.kind;
  if (!ok) {
    if (!fits) S.check(d.length === n, "a call that fails because the kind differs leaves the decoder where it was");
    S.reach("err");
    return;
  }
  S.check(fits, "a value of another kind is not accepted");
  const r = w.ref(b, 1);
  if (r === null) {
    S.check(false, "incomplete or out-of-range data is not accepted");
    return;
  }
  S.check(r.same(v), "the value returned is the one encoded");
  S.check(d.length === b.length - r.end, "exactly the value's bytes are consumed");
  S.reach("ok");
}

function flag(call: (d: Decoder) => boolean, kind: number) {
  const { d, b } = input(BIG);
  const n = d.length;
  const r = call(d);
  const is = b.length > 0 && b[0] === kind;
  S.check(r === is, "true exactly if the next byte is the kind");
  S.check(d.length === (is ? n - 1 : n), "only a match is consumed");
  if (is) S.reach("ok");
  else S.reach("err");
}

export function h_c21_null() {
  flag((d) => d.null(), K.Null);
}

export function h_c21_any() {
  flag((d) => d.any(), K.Any);
}

export function h_c21_bool() {
  accepts((d) => d.boolean(), {
    kind: K.Bool,
    ref: (b, at) => (at < b.length && b[at] < 2 ? { end: at + 1, same: (v) => v === (b[at] === 1) } : null),
  });
}

export function h_c21_u8() {
  accepts((d) => d.uint8(), { kind: K.U8, ref: (b, at) => (at < b.length ? { end: at + 1, same: (v) => v === b[at] } : null) });
}

const small = (bits: number, signed: boolean) => (b: Uint8Array, at: number) => {
  const p = parse(b, at, bits);
  return p && { end: at + p.n, same: (v: unknown) => v === Number(signed ? unzigzag(p.v) : p.v) };
};

const large = (signed: boolean) => (b: Uint8Array, at: number) => {
  const p = parse(b, at, 64);
  return p && { end: at + p.n, same: (v: unknown) => v === (signed ? unzigzag(p.v) : p.v) };
};

export function h_c21_u16() {
  accepts((d) => d.uint16(), { kind: K.U16, ref: small(16, false) });
}

export function h_c21_u32() {
  accepts((d) => d.uint32(), { kind: K.U32, ref: small(32, false) });
}

export function h_c21_i32() {
  accepts((d) => d.int32(), { kind: K.I32, ref: small(32, true) });
}

export function h_c21_u64() {
  accepts((d) => d.uint64(), { kind: K.U64, ref: large(false) });
}

export function h_c21_i64() {
  accepts((d) => d.int64(), { kind: K.I64, ref: large(true) });
}

export function h_c21_f32() {
  accepts((d) => d.float32(), {
    kind: K.F32,
    ref: (b, at) => {
      if (at + 4 > b.length) return null;
      const x = new DataView(b.buffer, b.byteOffset + at, 4).getFloat32(0);
      return { end: at + 4, same: (v) => S.same(v, x) };
    },
  });
}

export function h_c21_f64() {
  accepts((d) => d.float64(), {
    kind: K.F64,
    ref: (b, at) => {
      if (at + 8 > b.length) return null;
      const x = new DataView(b.buffer, b.byteOffset + at, 8).getFloat64(0);
      return { end: at + 8, same: (v) => S.same(v, x) };
    },
  });
}

const size = (b: Uint8Array, at: number) => {
  if (at >= b.length || b[at] !== K.U32) return null;
  const p = parse(b, at + 1, 32);
  return p && { end: at + 1 + p.n, same: (v: unknown) => v === Number(p.v) };
};

export function h_c21_array() {
  const k = S.choose("k", 16);
  accepts((d) => d.array(k as Kind), {
    kind: K.Array, far: 100,
    kinds: (b) => b.length > 1 && b[0] === K.Array && b[1] === k,
    ref: (b) => size(b, 2),
  });
}

export function h_c21_map() {
  const i = S.choose("i", 16);
  accepts((d) => d.map(i as Kind, (15 - i) as Kind), {
    kind: K.Map, far: 100,
    kinds: (b) => b.length > 2 && b[0] === K.Map && b[1] === i && b[2] === 15 - i,
    ref: (b) => size(b, 3),
  });
}

export function h_c21_bytes() {
  accepts((d) => d.uint8Array(), {
    kind: K.Bytes,
    ref: (b, at) => {
      const p = parseSized(b, at);
      return (
        p && {
          end: p.start + p.len,
          same: (v) => {
            S.checkBytes(v as Uint8Array, b.subarray(p.start, p.start + p.len), "the bytes returned are the ones encoded");
            return true;
          },
        }
      );
    },
  });
}

function text(b: Uint8Array, at: number, of_: (v: unknown) => unknown) {
  const p = parseSized(b, at);
  if (p === null) return null;
  const raw = b.subarray(p.start, p.start + p.len);
  if (!S.isUtf8(raw)) return null;
  return {
    end: p.start + p.len,
    same: (v: unknown) => {
      const t = of_(v);
      if (!S.isStr(t)) return false;
      S.checkBytes(S.utf8(t as string), raw, "the text returned is the one encoded");
      return true;
    },
  };
}

export function h_c21_string() {
  accepts((d) => d.string(), { kind: K.String, far: 100, ref: (b, at) => text(b, at, (v) => v) });
}

export function h_c21_error() {
  accepts((d) => d.error(), {
    kind: K.Error, far: 100,
    kinds: (b) => b.length > 1 && b[0] === K.Error && b[1] === K.String,
    ref: (b) => text(b, 2, (v) => (v instanceof Error ? v.message : null)),
  });
}

// a kind asked for in vain, then the right one
const CALLS: ((d: Decoder) => unknown)[] = [
  (d) => d.boolean(), (d) => d.uint8(), (d) => d.uint16(), (d) => d.uint32(), (d) => d.uint64(), (d) => d.int32(), (d) => d.int64(), (d) => d.float32(),
  (d) => d.float64(), (d) => d.array(Kind.Uint32), (d) => d.map(Kind.String, Kind.Uint32), (d) => d.uint8Array(), (d) => d.error(), (d) => d.string(),
];

export function h_c21_retry() {
  const v = S.str("v", 0, BIG);
  const i = S.choose("i", 13);
  const tail = S.bytes("tail", 0, BIG);
  const d = new Decoder(cat(payload(of(K.String), S.utf8(v)), tail));
  let threw = false;
  try {
    CALLS[i](d);
  } catch {
    threw = true;
  }
  S.check(threw, "another kind is refused");
  S.checkStr(d.string(), v, "the value can still be decoded");
  S.check(d.length === tail.length, "and nothing else was consumed");
  S.reach("ok");
}
