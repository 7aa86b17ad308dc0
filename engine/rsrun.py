"""Builds the Rust harnesses, encodes them from LLVM IR, explores and replays."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
import multiprocessing as mp
import gorun
from llsym.ir import Module
from llsym.ex import LLExecutor
from llsym.intr import I
from gosym.ex import isc

ROOT, REPO = gorun.ROOT, gorun.REPO
LOCK = '''version = 4

[[package]]
name = "byteorder"
version = "1.5.0"
source = "registry+https://github.com/rust-lang/crates.io-index"
checksum = "1fd0f2584146f6f2ef48085050886acf353beff7305ebd1ae69500e27c67f64b"

[[package]]
name = "polyglot_rs"
version = "0.0.0"
dependencies = ["byteorder"]

[[package]]
name = "polyglot_c"
version = "0.0.0"
dependencies = ["polyglot_rs"]

[[package]]
name = "vh"
version = "0.1.0"
dependencies = ["polyglot_c", "polyglot_rs"]

[[package]]
name = "vr"
version = "0.1.0"
dependencies = ["polyglot_c", "polyglot_rs"]
'''
LOCK_GEN = '''version = 4

[[package]]
name = "byteorder"
version = "1.5.0"
source = "registry+https://github.com/rust-lang/crates.io-index"
checksum = "1fd0f2584146f6f2ef48085050886acf353beff7305ebd1ae69500e27c67f64b"

[[package]]
name = "polyglot_rs"
version = "0.0.0"
dependencies = ["byteorder"]

[[package]]
name = "num_enum"
version = "0.0.0"

[[package]]
name = "vh"
version = "0.1.0"
dependencies = ["num_enum", "polyglot_rs"]

[[package]]
name = "vr"
version = "0.1.0"
dependencies = ["num_enum", "polyglot_rs"]
'''
PROFILE = '''
[profile.release]
opt-level = 1
codegen-units = 1
panic = "abort"
debug-assertions = true
overflow-checks = true
'''


def cargo_env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTUP_TOOLCHAIN=e.get('RUSTUP_TOOLCHAIN', 'stable'))
    e.pop('RUSTFLAGS', None)
    return e


def crate(dst, name, kind, files, deps, src):
    os.makedirs(dst, exist_ok=True)
    for f in files:
        shutil.copy(f, dst)
    d = ''.join(f'{n} = {v}\n' for n, v in deps.items())
    open(dst + '/Cargo.toml', 'w').write(f'[package]\nname = "{name}"\nversion = "{"0.1.0" if name in ("vh", "vr") else "0.0.0"}"\nedition = "2021"\n[{kind}]\n{src}\n[dependencies]\n{d}')


class Workspace:
    engine = 'rust'

    @staticmethod
    def of_repo(fn):
        return 'polyglot' in fn

    def __init__(self, extra=None, repo=REPO):
        """extra: {file: text}, sources of harnesses for generated code in place of the usual ones"""
        self.dir = d = tempfile.mkdtemp(prefix='polyverif-')
        crate(d + '/pg', 'polyglot_rs', 'lib', glob.glob(repo + '/*.rs'), {'byteorder': '"1"'}, 'path = "lib.rs"')
        deps = {'polyglot_rs': '{ path = "../pg" }'}
        members, lock = ['pg', 'vh', 'vr'], LOCK
        if extra is None:
            crate(d + '/pc', 'polyglot_c', 'lib', glob.glob(repo + '/c_bindings/*.rs'), deps, 'path = "lib.rs"')
            deps['polyglot_c'] = '{ path = "../pc" }'
            members.append('pc')
        else:
            crate(d + '/ne', 'num_enum', 'lib', glob.glob(ROOT + '/harness/rust/num_enum/*.rs'), {}, 'path = "lib.rs"\nproc-macro = true')
            deps['num_enum'] = '{ path = "../ne" }'
            members.append('ne')
            lock = LOCK_GEN
        crate(d + '/vh', 'vh', 'lib', [], deps, 'crate-type = ["cdylib"]\npath = "src/lib.rs"')
        crate(d + '/vr', 'vr', 'bin', [], deps, 'name = "vr"\npath = "src/main.rs"')
        t = open(d + '/vr/Cargo.toml').read().replace('[bin]', '[[bin]]')
        open(d + '/vr/Cargo.toml', 'w').write(t)
        src = ROOT + '/harness/rust/src'
        if extra is not None:
            src = d + '/src'
            os.makedirs(src)
            for f in ('sym.rs', 'native.rs'):
                shutil.copy(f'{ROOT}/harness/rust/src/{f}', src)
            for f, t in extra.items():
                open(f'{src}/{f}', 'w').write(t)
            mods = sorted(['sym'] + [f[:-3] for f in extra])
            open(src + '/lib.rs', 'w').write(''.join(f'pub mod {m};\n' for m in mods))
        shutil.copytree(src, d + '/vh/src')
        shutil.copytree(src, d + '/vr/src')
        os.remove(d + '/vh/src/native.rs')
        mods = [os.path.basename(f)[:-3] for f in glob.glob(src + '/*.rs')]
        mods = sorted(m for m in mods if m not in ('lib', 'native', 'main'))
        self.harnesses = []
        table = ''
        for m in mods:
            for h in re.findall(r'\b(h_c\d+_\w+)', open(f'{src}/{m}.rs').read()):
                self.harnesses.append(h)
                table += f'        "{h}" => {m}::{h}(),\n'
        open(d + '/vr/src/main.rs', 'w').write('#![allow(dead_code)]\n' + ''.join(f'mod {m};\n' for m in mods) + '''mod native;
#[global_allocator]
static A: native::Checked = native::Checked;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| native::fail("PANIC", &i.to_string().replace('\\n', " "))));
    native::load(&a[2]);
    match a[1].as_str() {
''' + table + '''        _ => native::fail("NO-HARNESS", &a[1]),
    }
    println!("REPLAY-OK");
}
''')
        open(d + '/Cargo.toml', 'w').write('[workspace]\nmembers = ' + json.dumps(members) + '\nresolver = "2"\n' + PROFILE)
        open(d + '/Cargo.lock', 'w').write(lock)
        self.bin = None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, cmd, **env):
        e = cargo_env()
        e.update(env)
        r = subprocess.run(cmd, cwd=self.dir, env=e, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError(' '.join(cmd[:4]) + ' failed:\n' + r.stderr[-4000:])
        return r

    def compiles(self, text):
        """why this generated file does not compile against the crate, or None"""
        d = self.dir + '/vg'
        shutil.rmtree(d, ignore_errors=True)
        crate(d, 'vg', 'lib', [], {'polyglot_rs': '{ path = "../pg" }', 'num_enum': '{ path = "../ne" }'}, 'path = "lib.rs"')
        open(d + '/Cargo.toml', 'a').write('[workspace]\n')
        open(d + '/lib.rs', 'w').write(text)
        r = subprocess.run(['cargo', 'check', '--offline', '--target-dir', self.dir + '/t-gen'], cwd=d, env=cargo_env(), capture_output=True, text=True)
        if r.returncode == 0:
            return None
        errs = re.findall(r'^error[^\n]*\n[^\n]*', r.stderr, re.M)
        if not any(e.startswith('error[E') or 'expected' in e or 'lib.rs' in e for e in errs):
            raise RuntimeError('cargo check of the generated code failed:\n' + r.stderr[-3000:])
        return 'the generated code does not compile: ' + ' '.join(errs[:3]).replace('\n', ' ')

    def encode(self):
        self.run(['cargo', 'rustc', '--offline', '--release', '-p', 'vh', '--target-dir', self.dir + '/t-ir', '--', '--emit=llvm-ir', '-C', 'save-temps',
                  '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'], CARGO_PROFILE_RELEASE_LTO='fat')
        bc = glob.glob(self.dir + '/t-ir/release/deps/*.lto.input.bc')
        if len(bc) != 1:
            raise RuntimeError('no merged bitcode: ' + str(bc))
        sysroot = subprocess.run(['rustc', '--print', 'sysroot'], env=cargo_env(), capture_output=True, text=True, cwd=self.dir).stdout.strip()
        dis = glob.glob(sysroot + '/lib/rustlib/*/bin/llvm-dis')
        if not dis:
            raise RuntimeError('no llvm-dis in the Rust toolchain')
        self.run([dis[0], bc[0], '-o', self.dir + '/all.ll'])
        return self.dir + '/all.ll'

    def replay_bin(self, race=False):
        if self.bin is None:
            self.run(['cargo', 'build', '--offline', '--release', '-p', 'vr', '--target-dir', self.dir + '/t-bin'])
            self.bin = self.dir + '/t-bin/release/vr'
        return self.bin

    def replay(self, harness, model, race=False, timeout=120, mem=16, kind='assert'):
        import resource
        fd, f = tempfile.mkstemp(suffix='.model', dir=self.dir)
        lines = []
        for k, v in model.items():
            if 'len' in v:
                lines.append(f'{k} bytes {v["len"]} {v["cap"]} {v["def"]} ' + ' '.join(f'{i}:{b}' for i, b in v['at'].items()))
            else:
                lines.append(f'{k} int {v["v"]}')
        os.write(fd, ('\n'.join(lines) + '\n').encode())
        os.close(fd)
        try:
            r = subprocess.run([self.replay_bin(), harness, f], capture_output=True, text=True, timeout=timeout,
                               preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30)))
        except subprocess.TimeoutExpired:
            return False, 'replay timed out'
        out = r.stdout[-2000:].strip()
        if r.returncode == 1 and re.search(r'^(ASSERT-FAIL|PANIC|MEMORY)', out, re.M):
            return True, out
        if 'memory allocation of' in r.stderr or 'OOM' in out:
            return False, 'out of memory'
        if r.returncode < 0:
            return True, f'killed by signal {-r.returncode} {out}'
        if r.returncode == 0 and kind == 'memory' and shutil.which('valgrind'):
            try:
                v = subprocess.run(['valgrind', '-q', '--error-exitcode=9', self.replay_bin(), harness, f], capture_output=True, text=True, timeout=timeout * 2,
                                   env=dict(os.environ, REPLAY_FREE='1'))
            except subprocess.TimeoutExpired:
                return False, 'replay timed out'
            if v.returncode == 9:
                first = [l.split('==')[-1].strip() for l in v.stderr.splitlines() if '==' in l][:3]
                return True, 'valgrind: ' + '; '.join(first)
        return False, f'exit {r.returncode}: {out} {r.stderr[-300:].strip()}'


def demangled(mod, names):
    import shutil as sh
    tool = sh.which('c++filt') or sh.which('llvm-cxxfilt-18') or sh.which('llvm-cxxfilt')
    if not tool:
        return {}
    r = subprocess.run([tool], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, [re.sub(r'\[[0-9a-f]{8,}\]', '', x) for x in r.stdout.splitlines()]))


def explore(ll, tasks, jobs=8, progress=False):
    mod = Module(ll)
    mod.fns = {}
    names = demangled(mod, sorted(set(mod.defs) | set(mod.decls)))
    LLExecutor.names = names
    I.cache.clear()

    def mk(ms):
        return LLExecutor(mod, I, timeout_ms=ms)
    ex = mk(20000)
    gorun._G.update(mk=mk, base=ex.initial(), entry={n: n for n, _ in tasks}, show=lambda n: names.get(n, n))
    return gorun.pool_run(tasks, jobs, progress)
