// The harness interface; the executor supplies it as module "sym", sym.cjs is its
// native counterpart for replays.
export function u8(n: string): number;
export function u16(n: string): number;
export function u32(n: string): number;
export function i32(n: string): number;
export function u64(n: string): bigint;
export function i64(n: string): bigint;
export function f32(n: string): number;
export function f64(n: string): number;
export function bool(n: string): boolean;
export function size(n: string, lo: number, hi: number): number;
export function choose(n: string, k: number): number;
export function bytes(n: string, lo: number, hi: number): Uint8Array;
export function str(n: string, lo: number, hi: number): string;
export function assume(c: boolean): void;
export function check(c: boolean, msg: string): void;
export function checkBytes(a: Uint8Array, b: Uint8Array, msg: string): void;
export function checkStr(a: string, b: string, msg: string): void;
export function reach(l: string): void;
export function same(a: unknown, b: unknown): boolean;
export function isUtf8(b: Uint8Array): boolean;
export function isStr(v: unknown): boolean;
export function utf8(s: string): Uint8Array;
export function clone(b: Uint8Array): Uint8Array;
export function bits32(v: number): number;
export function bits64(v: number): bigint;
