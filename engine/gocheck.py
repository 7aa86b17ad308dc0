"""Runs one property's table of Go harnesses: encode, explore, replay, report."""
import os, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor
import gorun
from report import Check
from symcheck import BUDGET, conclude, options

ASSUME = [
    'gosym executes go/ssa form faithfully (it is cross-checked every run: sampled completed paths are run natively and must agree, '
    'and every counterexample is run natively before it is reported)',
    'sequential Go semantics, 64-bit int; allocation succeeds; sync.Pool.Get returns nothing or any one object put before',
    'z3 is sound',
]


def heavy(h):
    for i, p in enumerate(('C01_pair', 'C06_v1_enc_I64', 'C02_v1_I64', 'C06_v1_enc_U64', 'C02_v1_U64', 'Order', 'K_string', 'I64', 'U64', 'Map')):
        if p in h:
            return i
    return 99


def run(prop, pkg, table, generated, bounds, assumptions=(), follow=None, ws=None, also=()):
    """table: [(harness, stmt, opts, labels)]; generated: {file: text}"""
    ck = Check(prop)
    tmp = tempfile.mkdtemp(prefix='polyverif-bin-')
    try:
        return _run(ck, tmp, prop, pkg, table, generated, bounds, assumptions, follow, ws)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        if ws:
            ws.close()


def _run(ck, tmp, prop, pkg, table, generated, bounds, assumptions, follow, ws):
    ws = ws or gorun.Workspace([pkg], generated)
    try:
        return explore(ck, prop, ws, {pkg: table}, bounds, assumptions, follow, tmp)
    finally:
        ws.close()


def symbolic(ck, ws, tables, follow=None, tmp=None):
    """encodes and explores the harnesses of {package: table}; (results, seconds spent encoding)"""
    gossa = (tmp or ws.dir) + '/gossa'
    gorun.build_gossa(gossa)
    table = [t for p in tables for t in tables[p]]
    ws.registry({p: [t[0] for t in tables[p]] for p in tables})
    t1 = time.time()
    ssa = ws.encode(list(tables), gossa, follow or gorun.FOLLOW)
    enc_s = time.time() - t1
    pool = ThreadPoolExecutor(8)
    fut = pool.submit(ws.replay_bin)
    fut2 = pool.submit(ws.replay_bin, True) if any(o.get('c09') for _, _, o, _ in table) else None
    stop = ck.t0 + BUDGET[ck.tier]
    tasks = []
    for n, s, o, l in sorted(table, key=lambda t: heavy(t[0])):
        o = options(ck, o, stop)
        tasks.append((n, o))
    rs = gorun.explore(ssa, tasks, progress=bool(os.environ.get('VERIF_PROGRESS')))
    fut.result()
    if fut2:
        fut2.result()
    return rs, enc_s


def explore(ck, prop, ws, tables, bounds, assumptions, follow, tmp=None):
    rs, enc_s = symbolic(ck, ws, tables, follow, tmp)
    return conclude(ck, ws, rs, [t for p in tables for t in tables[p]], bounds, ASSUME + list(assumptions), enc_s)
