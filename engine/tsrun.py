"""The TypeScript package's harness workspace: compiles the package and the harnesses
with the TypeScript compiler, explores their syntax trees symbolically and replays
counterexamples under node."""
import glob, json, os, re, shutil, subprocess, sys, tempfile
import gorun
from jssym.ex import JSExecutor

ROOT, REPO = gorun.ROOT, gorun.REPO
NODE = shutil.which('node') or '/usr/bin/node'


def harnesses():
    """harness -> module"""
    out = {}
    for f in sorted(glob.glob(ROOT + '/harness/ts/*.ts')):
        if f.endswith('.d.ts'):
            continue
        for h in re.findall(r'^export (?:function|const) (h_c\d+_\w+)', open(f).read(), re.M):
            out[h] = os.path.basename(f)[:-3]
    return out


class Program:
    def __init__(self, path):
        self.d = json.load(open(path))

    def __getitem__(self, k):
        return self.d[k]


class Workspace:
    engine = 'ts'

    @staticmethod
    def of_repo(fn):
        return fn.startswith('polyglot/')

    def __init__(self, repo=REPO):
        self.dir = tempfile.mkdtemp(prefix='polyverif-')
        self.repo = repo
        self.mods = harnesses()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def encode(self):
        d = self.dir
        os.makedirs(d + '/h', exist_ok=True)
        shutil.copy(ROOT + '/harness/ts/sym.cjs', d + '/h/sym.js')
        r = subprocess.run([NODE, ROOT + '/engine/jsast/export.cjs', d + '/ast.json', d, self.repo, ROOT + '/harness/ts'] + sorted(set(self.mods.values())),
                           capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('encoding failed:\n' + r.stderr[-3000:])
        return d + '/ast.json'

    def replay_bin(self, race=False):
        return None

    def replay(self, harness, model, race=False, timeout=120, mem=16, kind='assert'):
        fd, f = tempfile.mkstemp(suffix='.json', dir=self.dir)
        m = {k: dict(v, v=str(v['v'])) if 'v' in v else v for k, v in model.items()}
        os.write(fd, json.dumps(m).encode())
        os.close(fd)
        js = f'require({json.dumps(self.dir + "/h/sym.js")}).run({json.dumps(self.dir)}, {json.dumps(self.mods[harness])}, {json.dumps(harness)}, {json.dumps(f)})'
        try:
            r = subprocess.run([NODE, '-e', js], capture_output=True, text=True, timeout=timeout, cwd=self.dir)
        except subprocess.TimeoutExpired:
            return False, 'replay timed out'
        out = r.stdout[-2000:].strip()
        if r.returncode == 1 and re.search(r'^(ASSERT-FAIL|PANIC)', out, re.M):
            return True, out
        return False, f'exit {r.returncode}: {out} {r.stderr[-300:].strip()}'


def explore(ast, tasks, jobs=8, progress=False):
    prog = Program(ast)
    mods = harnesses()

    def mk(ms):
        e = JSExecutor(prog, None, timeout_ms=ms)
        e.prune = True
        return e
    gorun._G.update(mk=mk, base=None, entry={h: ('h/' + mods[h], h) for h, _ in tasks}, show=None)
    return gorun.pool_run(tasks, jobs, progress)
