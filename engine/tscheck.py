"""Runs one property's TypeScript harnesses: translate, explore, replay, report."""
import os, time
import tsrun
from report import Check
from symcheck import BUDGET, conclude, options

ASSUME = [
    'jssym executes the syntax tree of the TypeScript compiler\'s output faithfully, and its models of the built-in objects (typed arrays, DataView, TextEncoder and '
    'TextDecoder, BigInt, Math) are right (cross-checked every run: sampled completed paths are run under node and must agree, and every counterexample '
    'is run under node before it is reported)',
    'the TypeScript compiler preserves meaning; types are erased',
    'sequential semantics; allocation succeeds; built-in objects are not modified by the program',
    'TextDecoder decides validity as a predicate of the bytes, exact for texts of at most 4 bytes and otherwise only known to agree on equal texts and to '
    'accept what TextEncoder produced',
    'z3 is sound',
]


def run(prop, table, bounds, assumptions=()):
    ck = Check(prop)
    ws = tsrun.Workspace()
    try:
        t1 = time.time()
        ast = ws.encode()
        enc_s = time.time() - t1
        stop = ck.t0 + BUDGET[ck.tier]
        tasks = [(t[0], options(ck, t[2], stop)) for t in sorted(table, key=lambda t: -t[2].get('w', 0))]
        rs = tsrun.explore(ast, tasks, progress=bool(os.environ.get('VERIF_PROGRESS')))
        return conclude(ck, ws, rs, table, bounds, ASSUME + list(assumptions), enc_s)
    finally:
        ws.close()
