"use strict";
const fs = require("fs");
const util = require("util");

let model = {};
const names = {};
const labels = new Set();

function stop(what, msg, code) {
  for (const l of labels) fs.writeSync(1, `REACH ${l}\n`);
  fs.writeSync(1, `${what} ${msg}\n`);
  process.exit(code);
}
exports.load = (f) => {
  model = JSON.parse(fs.readFileSync(f, "utf8"));
};
exports.stop = stop;
exports.labels = labels;

function get(n) {
  const k = names[n] || 0;
  names[n] = k + 1;
  const v = model[`${n}#${k}`];
  if (v === undefined) stop("BAD-MODEL", `no value for ${n}#${k}`, 3);
  return v;
}
const int = (n) => BigInt(get(n).v);
exports.u8 = exports.u16 = exports.u32 = exports.size = exports.choose = (n) => Number(int(n));
exports.i32 = (n) => Number(BigInt.asIntN(32, int(n)));
exports.u64 = int;
exports.i64 = (n) => BigInt.asIntN(64, int(n));
exports.f32 = (n) => {
  const d = new DataView(new ArrayBuffer(4));
  d.setUint32(0, Number(int(n)));
  return d.getFloat32(0);
};
exports.f64 = (n) => {
  const d = new DataView(new ArrayBuffer(8));
  d.setBigUint64(0, int(n));
  return d.getFloat64(0);
};
exports.bool = (n) => int(n) !== 0n;
exports.bytes = (n) => {
  const v = get(n);
  let b;
  try {
    b = new Uint8Array(v.len);
  } catch {
    stop("BAD-MODEL", "out of memory", 3);
  }
  b.fill(v.def);
  for (const k of Object.keys(v.at)) if (Number(k) < v.len) b[Number(k)] = v.at[k];
  return b;
};
exports.str = (n) => {
  const b = exports.bytes(n);
  try {
    return new TextDecoder("utf-8", { fatal: true, ignoreBOM: true }).decode(b);
  } catch {
    return stop("BAD-MODEL", "not UTF-8", 3);
  }
};
exports.assume = (c) => {
  if (!c) stop("BAD-MODEL", "assumption", 3);
};
exports.check = (c, msg) => {
  if (!c) stop("ASSERT-FAIL", msg, 1);
};
const same = (a, b) => a instanceof Uint8Array && b instanceof Uint8Array && Buffer.compare(a, b) === 0;
exports.checkBytes = (a, b, msg) => exports.check(same(a, b), msg);
exports.checkStr = (a, b, msg) => exports.check(typeof a === "string" && a === b, msg);
exports.reach = (l) => {
  labels.add(l);
};
exports.same = Object.is;
exports.isUtf8 = (b) => {
  try {
    new TextDecoder("utf-8", { fatal: true }).decode(b);
    return true;
  } catch {
    return false;
  }
};
exports.isStr = (v) => typeof v === "string";
exports.utf8 = (s) => new TextEncoder().encode(s);
exports.clone = (b) => b.slice();
exports.bits32 = (v) => {
  const d = new DataView(new ArrayBuffer(4));
  d.setFloat32(0, v);
  return d.getUint32(0);
};
exports.bits64 = (v) => {
  const d = new DataView(new ArrayBuffer(8));
  d.setFloat64(0, v);
  return d.getBigUint64(0);
};
exports.run = (dir, mod, name, file) => {
  exports.load(file);
  try {
    require(`${dir}/h/${mod}.js`)[name]();
  } catch (e) {
    if (e instanceof RangeError && /allocation failed/.test(e.message)) stop("BAD-MODEL", "out of memory", 3);
    stop("PANIC", util.inspect(e).split("\n").slice(0, 2).join(" | "), 1);
  }
  stop("REPLAY-OK", "", 0);
};
