"""Runs one property's Rust (and C binding) harnesses: encode, explore, replay, report."""
import os, time
from concurrent.futures import ThreadPoolExecutor
import rsrun
from report import Check
from symcheck import BUDGET, conclude, options

ASSUME = [
    'llsym executes the LLVM IR rustc emits faithfully (it is cross-checked every run: sampled completed paths are run natively and must '
    'agree, and every counterexample is run natively before it is reported)',
    'the compiler preserves the meaning of the source; the IR is that of opt-level 1 with overflow and debug assertions on',
    'sequential semantics, 64-bit usize; allocation succeeds and returns fresh blocks',
    'core::str::from_utf8 is a predicate of the bytes, exact for texts of at most 4 bytes and otherwise only known to agree on equal texts '
    'and to accept what a &str holds',
    'z3 is sound',
]


def run(prop, table, bounds, assumptions=(), order=None):
    ck = Check(prop)
    ws = rsrun.Workspace()
    try:
        t1 = time.time()
        ll = ws.encode()
        enc_s = time.time() - t1
        fut = ThreadPoolExecutor(1).submit(ws.replay_bin)
        stop = ck.t0 + BUDGET[ck.tier]
        tasks = [(t[0], options(ck, t[2], stop)) for t in sorted(table, key=lambda t: -t[2].get('w', 0))]
        rs = rsrun.explore(ll, tasks, progress=bool(os.environ.get('VERIF_PROGRESS')))
        fut.result()
        return conclude(ck, ws, rs, table, bounds, ASSUME + list(assumptions), enc_s)
    finally:
        ws.close()
