"""What a run of symbolic harnesses concludes: replays counterexamples and witnesses
natively, says what was not covered and writes the evidence."""
import re
from concurrent.futures import ThreadPoolExecutor

BUDGET = {'quick': 560, 'thorough': 3000}


def options(ck, o, stop):
    o = dict(o, stop=stop, seed=ck.seed)
    if ck.thorough:
        o.setdefault('time', 1500)
        o.update(recheck=60000, solver_ms=60000, witnesses=8, paths=200000)
    return o


def describe(model):
    out = {}
    for k, v in model.items():
        if 'len' in v:
            n = min(v['len'], 24)
            b = bytes(v['at'].get(str(i), v['def']) for i in range(n))
            out[k] = f'{b.hex()}{"..." if v["len"] > n else ""} (len {v["len"]}, cap {v["cap"]})'
        else:
            out[k] = v['v']
    return out


def conclude(ck, ws, rs, table, bounds, assumptions, enc_s):
    """table: [(harness, statement, options, labels that must be reached)]"""
    pool = ThreadPoolExecutor(8)
    # counterexamples: nothing is reported that the real code does not show
    for r in rs:
        for v in r['violations']:
            ok, text, used = False, 'no model', None
            for m in v['models']:
                ok, text = ws.replay(r['harness'], m, **({'race': True} if v['kind'] == 'race' else {'kind': v['kind']} if v['kind'] in ('memory', 'alloc') else {}))
                used = m
                if ok:
                    break
            if ok:
                ck.violation(r['harness'], v['msg'], f'{text}; inputs {describe(used)}',
                             {'engine': ws.engine, 'harness': r['harness'], 'kind': v['kind'], 'model': used})
            else:
                ck.notes.append(f"{r['harness']}: solver counterexample to '{v['msg']}' did not reproduce natively ({text})")
    wits = [(r['harness'], w) for r in rs for w in r.get('witnesses', [])]

    def wit(hw):
        ok, text = ws.replay(hw[0], hw[1]['model'], mem=3)
        return hw, ok, text
    validated, unreal, samples = 0, 0, []
    bad = {(v[0]) for v in ck.violations}
    for (h, w), ok, text in pool.map(wit, wits):
        reached = sorted(set(re.findall(r'REACH (\S+)', text)))
        if ok:
            if h not in bad:
                ck.violation(h, 'a path judged correct fails natively', f'{text}; inputs {describe(w["model"])}',
                             {'engine': ws.engine, 'harness': h, 'kind': 'witness', 'model': w['model']})
        elif 'REPLAY-OK' in text and reached == w['labels']:
            validated += 1
            if len(samples) < 12 and w['model'] and (len(samples) < 4 or h[-3:] not in str([s['harness'] for s in samples])):
                samples.append({'harness': h, 'inputs': describe(w['model']), 'reached': reached})
        elif 'BAD-MODEL' in text:
            unreal += 1
        else:
            ck.notes.append(f'{h}: a completed path was not confirmed natively ({text[:200]})')
    want = {t[0]: t[3] for t in table}
    tot = {}
    outcomes = {}
    encoded = set()
    asserts = {}
    for r in rs:
        h = r['harness']
        short = r['unsupported'] + r['bounds'] + r['undecided']
        for u in r['unsupported']:
            ck.notes.append(f'{h}: not encoded: {u}')
        for u in r['bounds']:
            ck.notes.append(f'{h}: bound reached: {u}')
        for u in sorted(set(r['undecided'])):
            ck.notes.append(f'{h}: solver gave up on: {u}')
        if r.get('error'):
            ck.notes.append(f'{h}: engine error: {r["error"][-300:]}')
        miss = [l for l in want[h] if l not in r['labels']]
        if miss and not short and not r.get('error') and not any(v[0] == h for v in ck.violations) and not r['violations']:
            ck.notes.append(f'{h}: vacuous: no feasible path reaches {miss}')
        for k, v in r['stats'].items():
            tot[k] = max(tot.get(k, 0), v) if k == 'max_query_s' else round(tot.get(k, 0) + v, 3)
        for k, v in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
        encoded |= set(r['encoded'])
        for m, a in r['asserts'].items():
            b = asserts.setdefault(m, {'checked': 0, 'by_solver': 0})
            b['checked'] += a['n']
            b['by_solver'] += a['solver']
    if rs and all(r.get('error') or r['unsupported'] for r in rs):
        ck.errors.append('no harness could be encoded: ' + str(rs[0].get('error') or rs[0]['unsupported']))
    repo_fns = sorted(f for f in encoded if ws.of_repo(f))
    cov = {
        'states': sum(outcomes.values()), 'transitions': tot.get('instructions', 0),
        'traces_validated_against_impl': validated, 'samples': samples or [{'harness': r['harness'], 'outcomes': r['outcomes']} for r in rs[:3]],
        'explanation': 'states: symbolic paths explored to their end; transitions: instructions executed symbolically; '
                       'traces_validated_against_impl: concrete witnesses of completed paths run against the compiled code with the same outcome',
        'witnesses_without_concrete_text': unreal, 'harnesses': len(rs), 'path_outcomes': outcomes, 'functions_encoded': repo_fns,
        'other_functions_encoded': len(encoded) - len(repo_fns), 'bounds': bounds, 'solver': tot, 'assertions': asserts,
        'encode_s': round(enc_s, 2),
        'exhaustive': not ck.notes,
    }
    return ck.finish('model_checking', cov, list(assumptions))
