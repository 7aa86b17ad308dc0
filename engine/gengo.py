"""C22 and C23 (and the Go half of C24): the Go generators are run on the schema family and the code they write is executed symbolically."""
import json, os, subprocess
import gorun
from gogen import Gen
from schemas import Msg

FAM = ['fam1', 'fam2']


class GenWorkspace(gorun.Workspace):
    """a workspace holding the code the repository's generators write"""
    def __init__(self, gens):
        super().__init__(['gendrv'], {'s.json': json.dumps(gens[0].desc)})
        self.problems = []
        e = gorun.goenv()
        r = subprocess.run(['go', 'build', '-o', self.dir + '/gd', './gendrv'], cwd=self.dir, env=e, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('the generators do not build:\n' + r.stderr[-3000:])

    def generate(self, lang, out):
        os.makedirs(os.path.dirname(f'{self.dir}/{out}') or self.dir, exist_ok=True)
        try:
            r = subprocess.run(['./gd', 's.json', lang, out], cwd=self.dir, env=gorun.goenv(), capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            return 'the generator does not end'
        if r.returncode:
            return 'the generator fails: ' + ' '.join((r.stdout + r.stderr).split('\n')[-4:] if 'goroutine' not in r.stderr else r.stderr.split('\n')[:2])[-300:]
        return None

    def compiles(self, pkg):
        r = subprocess.run(['go', 'build', './' + pkg], cwd=self.dir, env=gorun.goenv(), capture_output=True, text=True)
        return None if r.returncode == 0 else 'the generated code does not compile: ' + ' '.join(r.stderr.split('\n')[1:4])


def tables(prop, gens):
    """{package: [(harness, text, opts, labels)]}"""
    out = {}
    for g in gens:
        rows = []

        def add(kind, m, labels=('done',), **o):
            n, t = getattr(g, kind)(m, f'H_{prop}_v{g.v}_{kind}')
            rows.append((n, t, o, labels))
        for m in g.msgs:
            if g.v == 1 and g.recursive(m):
                continue
            if m.o.get('known'):
                continue
            if prop == 'C22':
                add('trip', m)
                if m.name[:2] not in ('K_',):
                    add('reuse', m)
                if m.name[:2] in ('N_', 'Or', 'Na', 'S_'):
                    add('nils', m)
            elif prop == 'C23':
                add('total', m, ('decoded', 'rejected') if m.fields else ('decoded',))
                if any(f.card != 'one' for f in m.fields) and not m.o.get('full'):
                    add('alloc', m)
            elif prop == 'C24':
                add('wire', m)
        if prop == 'C22':
            n = f'H_C22_v{g.v}_known'
            rows.append((n + '_first_nil', g.ambiguous(n), {}, ()))
            rows.append((n + '_empty_then_nil', '', {}, ()))
        out[f'h{g.v}'] = rows
    return out


BOUNDS = ['schemas: the family of engine/schemas.py: every scalar kind and enums as single field, list and map value, every map key kind, nested, optional, '
          'oneof, recursive and empty messages, one schema file',
          'values: every value of a field that stands alone (payloads to 2^32-1 bytes); beside other fields or elements: integers of one varint byte, payloads to 100 bytes',
          'lists and maps: at most 2 elements (1 beside other fields)', 'recursion of messages: 3 levels',
          'inputs (C23): any length to 2^36']


def prepare(ck, prop, gens):
    """the workspace, or None after reporting that a generator's output cannot be used"""
    ws = GenWorkspace(gens)
    for g in gens:
        why = ws.generate(f'go{g.v}', f'fam{g.v}/fam.go') or ws.compiles(f'fam{g.v}')
        if why:
            ck.violation(f'go{g.v}', why, 'schema: the family of engine/schemas.py', {'engine': 'generator', 'generator': f'go{g.v}', 'schema': g.desc})
    if ck.violations:
        return ws, None
    t = tables(prop, gens)
    for g in gens:
        os.makedirs(f'{ws.dir}/h{g.v}', exist_ok=True)
        open(f'{ws.dir}/h{g.v}/zz_gen.go', 'w').write(g.text([r[1] for r in t[f'h{g.v}']]))
    return ws, t


def run(prop):
    from report import Check
    import gocheck
    ck = Check(prop)
    gens = [Gen(1, ck.thorough), Gen(2, ck.thorough)]
    ws, t = prepare(ck, prop, gens)
    try:
        if t is None:
            return ck.finish('model_checking', {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'bounds': BOUNDS}, [])
        return gocheck.explore(ck, prop, ws, t, BOUNDS, ['the family stands for all schemas: the generators treat fields alike by kind, cardinality and position'], None)
    finally:
        ws.close()
