"""Builds the engine, the harness IR and the native replayers, and runs jobs on a pool of engines."""
import fcntl, hashlib, json, os, queue, shutil, subprocess, sys, threading, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))
B = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
ENTRIES = ['h_tpl', 'h_nopanic', 'h_alloc', 'h_trunc', 'h_chunk', 'h_fail', 'h_custom', 'h_render', 'h_twice', 'h_many', 'h_hint', 'h_eq', 'h_where', 'h_work']


class BuildError(Exception):
    pass


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO_', 'RUSTFLAGS', 'RUSTC', 'RUSTDOC')) or k == 'CARGO_HOME'}
    e['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    return e


def sh(cmd, cwd, extra=None, what=''):
    e = env()
    e.update(extra or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode != 0:
        raise BuildError(f'{what or cmd[0]} failed ({p.returncode}):\n{p.stdout[-4000:]}')
    return p.stdout


def tree_hash(*roots):
    h = hashlib.sha256()
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', '.build', '__pycache__'))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, r).encode() + b'\0')
                try:
                    with open(p, 'rb') as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
                except OSError:
                    pass
    return h.hexdigest()


def _copy_if_changed(src, dst, text=None):
    data = text.encode() if text is not None else open(src, 'rb').read()
    if os.path.exists(dst) and open(dst, 'rb').read() == data:
        return
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, 'wb') as f:
        f.write(data)


def _stamp(name, h):
    p = os.path.join(B, 'stamp', name)
    try:
        return open(p).read() == h
    except OSError:
        return False


def _set_stamp(name, h):
    p = os.path.join(B, 'stamp', name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        f.write(h)


def _forget(target):
    """cargo judges freshness by time stamps; the content hash is what counts here"""
    for pat in ('*/.fingerprint/wadec*', '*/.fingerprint/harness*', '*/.fingerprint/hcli*'):
        for d in glob.glob(os.path.join(target, pat)):
            shutil.rmtree(d, ignore_errors=True)


def build_engine():
    h = tree_hash(os.path.join(VERIF, 'symex'))
    out = os.path.join(B, 'engine', 'release', 'symex')
    if _stamp('engine', h) and os.path.exists(out):
        return
    sh(['cargo', 'build', '--release', '--offline', '--locked'], os.path.join(VERIF, 'symex'), {'CARGO_TARGET_DIR': os.path.join(B, 'engine')}, 'building the engine')
    _set_stamp('engine', h)


def harness_dir():
    return os.path.join(B, 'h')


def cli_dir():
    return os.path.join(B, 'hc')


def prepare_cli():
    """the crate around the command line program, whose sources become a module of it"""
    src, dst = os.path.join(VERIF, 'cli'), cli_dir()
    want = {}
    for d, ds, fs in os.walk(src):
        ds[:] = [x for x in ds if x != 'target']
        for f in fs:
            if f not in ('Cargo.toml.in',):
                want[os.path.relpath(os.path.join(d, f), src)] = open(os.path.join(d, f)).read()
    want['Cargo.toml'] = open(os.path.join(src, 'Cargo.toml.in')).read().replace('@REPO@', REPO)
    want['src/replay.rs'] = open(os.path.join(VERIF, 'harness', 'src', 'replay.rs')).read().replace('harness::ENTRIES', 'hcli::ENTRIES')
    r = os.path.join(REPO, 'wadec-cli', 'src')
    for d, ds, fs in os.walk(r):
        for f in fs:
            if f.endswith('.rs'):
                n = os.path.relpath(os.path.join(d, f), r)
                t = open(os.path.join(d, f)).read()
                if n == 'main.rs':
                    n = 'mod.rs'
                    t += '\npub fn verif_main() -> i32 { std::process::Termination::report(main()).0 as i32 }\n'
                want['src/cli/' + n] = t
    for d, ds, fs in os.walk(os.path.join(dst, 'src')):
        for f in fs:
            n = os.path.relpath(os.path.join(d, f), dst)
            if n not in want:
                os.unlink(os.path.join(d, f))
    for n, t in want.items():
        _copy_if_changed(None, os.path.join(dst, n), t)


def prepare_harness():
    src = os.path.join(VERIF, 'harness')
    t = open(os.path.join(src, 'Cargo.toml.in')).read().replace('@REPO@', REPO)
    _copy_if_changed(None, os.path.join(harness_dir(), 'Cargo.toml'), t)
    # cargo may extend the lock file for the changed path; start from the committed one
    _copy_if_changed(os.path.join(src, 'Cargo.lock'), os.path.join(harness_dir(), 'Cargo.lock'))
    for f in os.listdir(os.path.join(src, 'src')):
        _copy_if_changed(os.path.join(src, 'src', f), os.path.join(harness_dir(), 'src', f))


def llvm_bin():
    p = subprocess.run(['rustc', '--print', 'sysroot'], env=env(), stdout=subprocess.PIPE, text=True).stdout.strip()
    g = glob.glob(os.path.join(p, 'lib/rustlib/*/bin/llvm-dis'))
    if not g:
        raise BuildError('no llvm-dis in the Rust toolchain')
    return os.path.dirname(g[0])


def build_ir(h, name='ir', crate='harness', where=harness_dir, out='f.ll', entries=ENTRIES):
    out = os.path.join(B, out)
    if _stamp(name, h) and os.path.exists(out):
        return
    t = os.path.join(B, 't-' + name)
    _forget(t)
    for f in glob.glob(os.path.join(t, 'release/deps/*.bc')):
        os.unlink(f)
    sh(['cargo', 'rustc', '--release', '--offline', '--lib', '--crate-type', 'cdylib', '--', '-C', 'save-temps', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'],
       where(), {'CARGO_TARGET_DIR': t}, 'compiling the harness')
    bcs = [f for f in glob.glob(os.path.join(t, f'release/deps/{crate}*cgu.0.rcgu.bc')) if '.no-opt' not in f and '.lto.' not in f]
    if len(bcs) != 1:
        raise BuildError(f'expected one bitcode file, found {bcs}')
    lb = llvm_bin()
    pub = ','.join(entries)
    opt = os.path.join(lb, 'opt')
    tmp = out + '.bc'
    if not os.path.exists(opt):
        raise BuildError('no opt in the Rust toolchain')
    sh([opt, '-passes=internalize,globaldce', f'--internalize-public-api-list={pub}', bcs[0], '-o', tmp], B, None, 'opt')
    sh([os.path.join(lb, 'llvm-dis'), tmp, '-o', out + '.tmp'], B, None, 'llvm-dis')
    os.rename(out + '.tmp', out)
    os.unlink(tmp)
    for f in glob.glob(os.path.join(t, 'release/deps/*.bc')) + glob.glob(os.path.join(t, 'release/deps/*.o')):
        os.unlink(f)
    _set_stamp(name, h)


REPLAY = {'rel': 'rel', 'dev': 'debug', 'rel-cli': 'rel', 'dev-cli': 'debug'}


def replay_bin(profile):
    return os.path.join(B, 't-' + profile, REPLAY[profile], 'replay')


def build_replay(profile, h, where=harness_dir):
    if _stamp(profile, h) and os.path.exists(replay_bin(profile)):
        return
    t = os.path.join(B, 't-' + profile)
    _forget(t)
    sh(['cargo', 'build', '--profile', profile[:3], '--features', 'native', '--bin', 'replay', '--offline'], where(), {'CARGO_TARGET_DIR': t}, f'building the {profile} replayer')
    _set_stamp(profile, h)


def program():
    return os.path.join(B, 't-program', 'release', 'wadec')


def build_program(h):
    """the command line program itself"""
    if _stamp('program', h) and os.path.exists(program()):
        return
    t = os.path.join(B, 't-program')
    _forget(t)
    sh(['cargo', 'build', '--release', '--offline', '--locked', '-p', 'wadec-cli'], REPO, {'CARGO_TARGET_DIR': t}, 'building the command line program')
    _set_stamp('program', h)


class Builder:
    """Builds what a check needs; holds a lock so that concurrent checks do not disturb each other."""

    def __init__(self, cli=False):
        os.makedirs(B, exist_ok=True)
        self.lk = open(os.path.join(B, 'lock'), 'w')
        fcntl.flock(self.lk, fcntl.LOCK_EX)
        prepare_harness()
        if cli:
            prepare_cli()
        v = subprocess.run(['rustc', '-V'], env=env(), stdout=subprocess.PIPE, text=True).stdout
        self.h = tree_hash(REPO, os.path.join(VERIF, 'harness')) + REPO + v
        if cli:
            self.hc = self.h + tree_hash(os.path.join(VERIF, 'cli'))
        self.threads, self.errs, self.times = {}, {}, {}

    def start(self, name):
        if name in self.threads:
            return
        f = {'engine': lambda: build_engine(), 'ir': lambda: build_ir(self.h), 'rel': lambda: build_replay('rel', self.h), 'dev': lambda: build_replay('dev', self.h),
             'ir-cli': lambda: build_ir(self.hc, 'ir-cli', 'hcli', cli_dir, 'f-cli.ll', ['h_cli']), 'rel-cli': lambda: build_replay('rel-cli', self.hc, cli_dir), 'dev-cli': lambda: build_replay('dev-cli', self.hc, cli_dir), 'program': lambda: build_program(self.h)}[name]

        def go():
            t0 = time.time()
            try:
                f()
            except Exception as e:
                self.errs[name] = e
            self.times[name] = round(time.time() - t0, 1)
        self.threads[name] = threading.Thread(target=go)
        self.threads[name].start()

    def need(self, *names):
        for n in names:
            self.start(n)
        for n in names:
            self.threads[n].join()
        for n in names:
            if n in self.errs:
                raise self.errs[n]


# ---------------------------------------------------------------- native replay
def replay(profile, lines, timeout=60, verbose=False, mem_gb=8):
    """Runs lines one after another in one process; returns (outputs, how it ended)."""
    e = dict(os.environ)
    if verbose:
        e['REPLAY_VERBOSE'] = '1'
    e['RUST_BACKTRACE'] = '0'

    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        p = subprocess.run([replay_bin(profile)], input='\n'.join(lines) + '\n', env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, preexec_fn=lim)
    except subprocess.TimeoutExpired as x:
        return (x.stdout or b'').decode(errors='replace').splitlines() if isinstance(x.stdout, bytes) else [], 'timeout', ''
    return p.stdout.splitlines(), p.returncode, p.stderr


def jobline(job, hexbytes):
    return f"{job['entry']} {hexbytes or '-'} " + ' '.join(str(a) for a in job['args'])


# ---------------------------------------------------------------- engine pool
class Worker:
    def __init__(self, ir):
        self.ir = ir
        self.p = None

    def start(self):
        self.p = subprocess.Popen([os.path.join(B, 'engine', 'release', 'symex'), '--ir', self.ir], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def ask(self, line, timeout):
        if self.p is None or self.p.poll() is not None:
            self.start()
        t = threading.Timer(timeout, self.p.kill)
        t.start()
        try:
            self.p.stdin.write(line + '\n')
            self.p.stdin.flush()
            r = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            r = ''
        finally:
            t.cancel()
        if not r:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
            self.p = None
            return None
        return json.loads(r)

    def rss(self):
        try:
            return int(open(f'/proc/{self.p.pid}/statm').read().split()[1]) * 4096
        except (OSError, AttributeError, ValueError, IndexError):
            return 0

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


class Cov:
    def __init__(self):
        self.hit, self.miss, self.funcs = {}, {}, set()

    def add(self, r):
        if not r or 'cov' not in r:
            return
        for f, x in r['cov'].items():
            self.hit.setdefault(f, set()).update(x['hit'])
            self.miss.setdefault(f, set()).update(x['miss'])
        self.funcs.update(r['funcs'])


def run_jobs(jobs, workers=8, deadline=None, stop_on_violation=True, on_result=None, cov=None, covprefix=None, rss_limit=2.2e9, ir='f.ll'):
    """Runs all jobs; returns {job id: result}. Jobs not run get status 'skipped'."""
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    res, lock, stop = {}, threading.Lock(), threading.Event()
    ir = os.path.join(B, ir)

    def loop():
        w = Worker(ir)
        try:
            while not stop.is_set():
                try:
                    j = q.get_nowait()
                except queue.Empty:
                    break
                left = deadline - time.time() if deadline else 1e9
                if left < 1:
                    r = {'status': 'skipped', 'msg': 'out of time'}
                else:
                    secs = max(1, min(j.get('secs', 60), int(left)))
                    line = f"run x {j['entry']} {j.get('paths', 3000000)} {secs} {j.get('steps', 20000000)} {j.get('samples', 2)} " + ' '.join(str(a) for a in j['args'])
                    r = w.ask(line, secs * 1.5 + 60)
                    if r is None:
                        r = {'status': 'incomplete', 'msg': 'engine died or ran out of time'}
                with lock:
                    res[j['id']] = r
                    if on_result:
                        on_result(j, r)
                if r['status'] == 'violation' and stop_on_violation and not j.get('known'):
                    stop.set()
                if w.p is not None and w.rss() > rss_limit:
                    if cov is not None:
                        c = w.ask('cov ' + covprefix, 60)
                        with lock:
                            cov.add(c)
                    w.stop()
            if cov is not None and w.p is not None:
                c = w.ask('cov ' + covprefix, 60)
                with lock:
                    cov.add(c)
        finally:
            w.stop()
    ts = [threading.Thread(target=loop) for _ in range(min(workers, max(1, len(jobs))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for j in jobs:
        res.setdefault(j['id'], {'status': 'skipped', 'msg': 'stopped'})
    return res
