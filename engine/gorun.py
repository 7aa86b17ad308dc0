"""Builds a Go harness workspace, encodes it with gossa, explores the harnesses
symbolically (in parallel) and replays every counterexample natively."""
import json, resource, multiprocessing as mp, os, random, re, shutil, subprocess, sys, tempfile, time, traceback
import z3
from gosym import mem as M
from gosym.ex import Program, Executor, OBytes, isc, bv
from gosym.intr import I

sys.setrecursionlimit(100000)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
GO124 = '/opt/veriftools/go1.24.13/bin'
FOLLOW = ['verif/*', 'github.com/loopholelabs/polyglot', 'github.com/loopholelabs/polyglot/v2', 'encoding/binary', 'bytes',
          'strings', 'slices', 'cmp', 'math/bits', 'unicode/utf8', 'strconv', 'sort', 'io', 'internal/bytealg',
          'internal/stringslite', 'iter', 'maps']


def goenv(go124=True):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOSUMDB='off', GONOSUMDB='*', GONOSUMCHECK='1',
             HOME=e.get('HOME', '/root'))
    if go124:
        e['PATH'] = GO124 + ':' + e['PATH']
    return e


def build_gossa(dst):
    e = goenv(False)
    r = subprocess.run(['go', 'build', '-o', dst, '.'], cwd=ROOT + '/engine/gossa', env=e, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('gossa build failed: ' + r.stderr[-2000:])


class Workspace:
    engine = 'go'

    @staticmethod
    def of_repo(fn):
        return 'loopholelabs' in fn

    def __init__(self, pkgs, generated, extra=None, repo=REPO):
        """pkgs: harness directories copied; generated: {relative file: text}"""
        self.dir = tempfile.mkdtemp(prefix='polyverif-')
        src = ROOT + '/harness/go'
        shutil.copytree(src + '/sym', self.dir + '/sym')
        shutil.copytree(src + '/replay', self.dir + '/replay')
        for p in pkgs:
            shutil.copytree(f'{src}/{p}', f'{self.dir}/{p}')
        for f, t in generated.items():
            os.makedirs(os.path.dirname(f'{self.dir}/{f}'), exist_ok=True)
            open(f'{self.dir}/{f}', 'w').write(t)
        open(self.dir + '/go.mod', 'w').write(f'''module verif/harness

go 1.23

require (
	github.com/loopholelabs/polyglot v0.0.0
	github.com/loopholelabs/polyglot/v2 v2.0.0
)

replace github.com/loopholelabs/polyglot => {repo}
replace github.com/loopholelabs/polyglot/v2 => {repo}/v2
''')
        sums = set()
        for f in (repo + '/go.sum', repo + '/v2/go.sum'):
            if os.path.exists(f):
                sums.update(open(f).read().splitlines())
        open(self.dir + '/go.sum', 'w').write('\n'.join(sorted(sums)) + '\n')
        self.bin = None
        self.racebin = None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def registry(self, pkg_funcs):
        t = 'package main\n\nimport (\n'
        for p in pkg_funcs:
            t += f'\t{p.replace("/", "_")} "verif/harness/{p}"\n'
        t += ')\n\nvar registry = map[string]func(){\n'
        for p, fs in pkg_funcs.items():
            for f in fs:
                t += f'\t"{f}": {p.replace("/", "_")}.{f},\n'
        t += '}\n'
        open(self.dir + '/replay/registry.go', 'w').write(t)

    def encode(self, pkgs, gossa, follow=FOLLOW):
        out = self.dir + '/ssa.json'
        cmd = [gossa, '-dir', self.dir, '-o', out, '-follow', ','.join(follow), './sym'] + ['./' + p for p in pkgs]
        r = subprocess.run(cmd, env=goenv(), capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('encoding failed:\n' + r.stderr[-4000:])
        return out

    def replay_bin(self, race=False):
        attr = 'racebin' if race else 'bin'
        if getattr(self, attr) is None:
            dst = f'{self.dir}/{attr}'
            r = subprocess.run(['go', 'build'] + (['-race'] if race else []) + ['-o', dst, './replay'], cwd=self.dir,
                               env=goenv(), capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError('replay build failed:\n' + r.stderr[-4000:])
            setattr(self, attr, dst)
        return getattr(self, attr)

    def replay(self, harness, model, race=False, timeout=120, mem=16, kind=None):
        """returns (reproduced, text)"""
        fd, f = tempfile.mkstemp(suffix='.json', dir=self.dir)
        os.write(fd, json.dumps(model).encode())
        os.close(fd)
        cmd = [self.replay_bin(race), harness, f] + (['race'] if race else [])
        try:
            pre = None if race else (lambda: resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30)))
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, preexec_fn=pre)
        except subprocess.TimeoutExpired:
            return False, 'replay timed out'
        out = r.stdout[-2000:]
        if race:
            return 'DATA RACE' in r.stderr, 'DATA RACE' if 'DATA RACE' in r.stderr else out
        if r.returncode == 1 and ('ASSERT-FAIL' in out or 'PANIC' in out):
            return True, out.strip()
        if 'out of memory' in r.stderr or 'cannot allocate memory' in r.stderr:
            return kind == 'alloc', 'out of memory'
        if r.returncode == 2 and ('fatal error' in r.stderr or 'panic' in r.stderr):
            return True, r.stderr.strip().splitlines()[0]
        return False, f'exit {r.returncode}: {out.strip()} {r.stderr[-300:].strip()}'


SIZES = None


def growcap(old, newlen):
    """growslice for 1-byte elements (runtime/slice.go), as a z3 term"""
    global SIZES
    if SIZES is None:
        # runtime/sizeclasses.go
        SIZES = [8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448,
                 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456,
                 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384,
                 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768]
    o, n = bv(old), bv(newlen)
    g = o
    cand = []
    c = o
    for _ in range(24):
        c = c + z3.LShR(c + 768, 2)
        cand.append(c)
    big = cand[-1]
    for c in reversed(cand):
        big = z3.If(z3.UGE(c, n), c, big)
    nc = z3.If(z3.UGT(n, o * 2), n, z3.If(z3.ULT(o, 256), o * 2, big))
    r = (nc + 8191) & z3.BitVecVal(~8191 & ((1 << 64) - 1), 64)
    for s in reversed(SIZES):
        r = z3.If(z3.ULE(nc, s), z3.BitVecVal(s, 64), r)
    return r


def extract(ex, v, exact, small=False):
    """a concrete input assignment for a violation, with small sizes if possible"""
    st = v['state']
    cs = list(st.pc)
    if exact:
        for c, old, nl in st.caps:
            cs.append(c == growcap(old, nl))
    lens = [t[2][1] for t in st.inputs if t[1] == 'bytes'] + [t[2][2] for t in st.inputs if t[1] == 'bytes']
    lens += [t[2] for t in st.inputs if t[3] == 'size']
    lens = [x for x in lens if not isc(x)]
    m = None
    r = 'unknown'
    i = z3.BitVec('any', 64)
    soft = [z3.ForAll([i], z3.ULT(f(i), 128)) for f in st.pools.get('texts') or ()]
    for f in st.pools.get('facts') or ():
        if f[0] == 'nz' and isc(f[2]) and f[2] == 0:
            soft.append(z3.ForAll([i], z3.Implies(z3.ULT(i, bv(f[3])), f[1](i) != 0)))
        if f[0] == 'utf8' and not isinstance(f[4], bool):
            # texts the path holds valid are ASCII, the others start with a byte no text has
            _, tm, to, tn, tb = f
            soft.append(z3.Implies(tb, z3.ForAll([i], z3.Implies(z3.ULT(i, bv(tn)), z3.ULT(bv(M.read(tm, M.add(to, i)), 8), 128)))))
            soft.append(z3.Implies(z3.Not(tb), bv(M.read(tm, to), 8) == 255))
    for lim in (4, 12, 40, 200, 600, 5000, 40000, 1 << 22, (1 << 28) + 64, (1 << 31) + 64):
        r, m = ex.xcheck(cs + [z3.ULE(x, lim) for x in lens] + (soft if lim > 4 else []))
        if r == 'sat' or small and lim >= 40000:
            break
    if r != 'sat' and soft:
        r, m = ex.xcheck(cs + [z3.ULE(x, 5000) for x in lens])
    if r != 'sat' and not small:
        r, m = ex.xcheck(cs)
    if r != 'sat':
        return None if r == 'unsat' else False
    out = {}
    for n, k, t, w in st.inputs:
        if k == 'const':
            out[n] = {'v': t}
        elif k == 'int':
            out[n] = {'v': m.eval(t, model_completion=True).as_long()}
        else:
            f, ln, cap = t
            ln = ln if isc(ln) else m.eval(ln, model_completion=True).as_long()
            cap = cap if isc(cap) else m.eval(cap, model_completion=True).as_long()
            d = {'len': ln, 'cap': cap, 'def': 0, 'at': {}}
            try:
                fi = m[f]
                ev = fi.else_value() if fi is not None else None
                if ev is not None and z3.is_bv_value(ev):
                    d['def'] = ev.as_long()
                if fi is not None:
                    for i in range(fi.num_entries()):
                        e = fi.entry(i)
                        d['at'][str(e.arg_value(0).as_long())] = e.value().as_long()
            except z3.Z3Exception:
                pass
            for i in list(range(min(cap, 2048))) + [x for x in range(cap - 16, cap) if x >= 2048]:
                x = m.eval(f(z3.BitVecVal(i, 64)), model_completion=True).as_long()
                if x != d['def'] or str(i) in d['at']:
                    d['at'][str(i)] = x
            out[n] = d
    return out


_G = {}


def _init_worker():
    pass


def _run(task):
    name, opts = task
    base = _G['base']
    ex = _G['mk'](opts.get('solver_ms', 20000))
    ex.LOOP_FORKS = opts.get('loop', Executor.LOOP_FORKS)
    ex.RECHECK = opts.get('recheck')
    t0 = time.time()
    if opts.get('stop') and t0 > opts['stop']:
        return {'harness': name, 'outcomes': {}, 'violations': [], 'unsupported': [], 'bounds': ['not started: time budget of the check used up'], 'labels': [],
                'asserts': {}, 'undecided': [], 'stats': {}, 'encoded': [], 'time': 0, 'witnesses': []}
    limit = min(t0 + opts.get('time', 300), opts.get('stop', t0 + 1e9))
    rng = random.Random(f"{opts.get('seed', 1)}/{name}")
    wit = []
    nret = 0
    res = {'harness': name, 'outcomes': {}, 'violations': [], 'unsupported': [], 'bounds': [], 'labels': set()}
    seen = {}
    try:
        for out, st in ex.explore(base, _G['entry'][name], deadline=limit, max_paths=opts.get('paths', 20000)):
            k = out[0]
            if st is not None and k == 'ret' and st.labels - res['labels']:
                # is the label really reached?
                if ex.xcheck(st.pc)[0] == 'sat':
                    res['labels'] |= st.labels
            if k == 'ret':
                # reservoir sample of completed paths, replayed natively later
                nret += 1
                if len(wit) < opts.get('witnesses', 2):
                    wit.append(st)
                elif rng.randrange(nret) < len(wit):
                    wit[rng.randrange(len(wit))] = st
            if k == 'panic':
                rec = out[1]
                msg = 'no call panics: ' + rec['what'] + ' in ' + rec['fn']
                if seen.get(msg, 0) < opts.get('per_msg', 2):
                    r, _ = ex.xcheck(st.pc)
                    if r == 'unsat':
                        k = 'infeasible'
                    elif r == 'unknown':
                        ex.undecided.append(msg)
                    else:
                        ex.violations.append({'msg': msg, 'kind': 'panic', 'state': st})
            elif k == 'unsupported':
                if ex.xcheck(st.pc)[0] == 'unsat':
                    k = 'infeasible'
                else:
                    res['unsupported'].append(out[1])
            elif k in ('bound', 'timeout'):
                if st is not None and ex.xcheck(st.pc)[0] == 'unsat':
                    k = 'infeasible'
                else:
                    res['bounds'].append(out[1])
            real = False
            if opts.get('c09') and st is not None:
                for e in st.events:
                    if e[0] == 'gstore':
                        ex.violations.append({'msg': f'store to package-level memory in {e[1]}', 'kind': 'race', 'state': st})
            for v in ex.violations:
                s = seen.setdefault(v['msg'], 0)
                if s >= opts.get('per_msg', 2):
                    real = True
                    continue
                mods = []
                for exact in ((False, True) if v['state'].caps else (False,)):
                    m = extract(ex, v, exact)
                    if m:
                        mods.append(m)
                    elif m is None and not exact:
                        break
                else:
                    real = True
                    seen[v['msg']] = s + 1
                    res['violations'].append({'msg': v['msg'], 'kind': v['kind'], 'models': mods})
            ex.violations = []
            if k == 'violated' and not real:
                k = 'infeasible'
            res['outcomes'][k] = res['outcomes'].get(k, 0) + 1
        res['witnesses'] = []
        for st in wit:
            m = extract(ex, {'state': st}, bool(st.caps), True)
            if m:
                res['witnesses'].append({'model': m, 'labels': sorted(st.labels)})
    except Exception:
        res.setdefault('witnesses', [])
        res['error'] = traceback.format_exc()[-3000:]
    res['labels'] = sorted(res['labels'])
    res['asserts'] = ex.asserts
    res['undecided'] = ex.undecided
    s = ex.stats
    res['stats'] = {'queries': s.queries, 'solver_s': round(s.qtime, 3), 'sat': s.sat, 'unsat': s.unsat, 'unknown': s.unknown,
                    'exact_queries': s.xqueries, 'exact_solver_s': round(s.xtime, 3), 'exact_sat': s.xsat, 'exact_unsat': s.xunsat,
                    'exact_unknown': s.xunknown, 'instructions': s.steps, 'rechecked': s.rechecked, 'recheck_unknown': s.recheck_unknown, 'max_query_s': round(s.maxq, 3)}
    show = _G.get('show')
    res['encoded'] = sorted(show(n) if show else n for n in ex.encoded)
    res['time'] = round(time.time() - t0, 2)
    res['bounds'] = sorted(set(res['bounds']))[:10]
    res['unsupported'] = sorted(set(res['unsupported']))[:10]
    return res


def explore(ssa, tasks, jobs=8, progress=False):
    """tasks: [(harness, opts)]"""
    prog = Program(ssa)
    ex = Executor(prog, I)
    I.cache.clear()
    base = ex.initial()
    ex.run_inits(base)
    # errors.Is is executed from the harness's own implementation
    tgt = prog.roots.get('H_rt_ErrorsIs')
    if tgt is not None:
        from gosym.ex import CALLED

        def h(e, st, fr, fn, args, ins):
            e.push(st, prog.fns[tgt], args, (), ins.get('r'), 'call')
            return CALLED
        I.t['errors.Is'] = h
    _G.update(mk=lambda ms: Executor(prog, I, timeout_ms=ms), base=base, entry=prog.roots)
    return pool_run(tasks, jobs, progress)


def pool_run(tasks, jobs=8, progress=False):
    out = []
    ctx = mp.get_context('fork')
    with ctx.Pool(jobs, maxtasksperchild=8) as pool:
        for r in pool.imap_unordered(_run, tasks, chunksize=1):
            if progress:
                print(r['harness'], r['time'], r['outcomes'], r['stats'].get('queries'), r['stats'].get('solver_s'), 'VIOL' if r['violations'] else '',
                      r['unsupported'], r['bounds'], r.get('error', ''), flush=True)
            out.append(r)
    return out
