"""Shared machinery of the checks: builds the MIR dumps from /repo's current tree, records
obligations, writes evidence, and turns violations into the output the interface asks for."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LISO_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
EVID = os.path.join(VERIF, 'evidence')
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.path.insert(0, os.path.join(VERIF, 'props'))

FEATURES = {
    'default': [],
    'all': ['--all-features'],
    'none': ['--no-default-features'],
    'stderr': ['--features', 'capture-stderr'],
    'noglobal': ['--no-default-features', '--features', 'wrap,history,completion'],
}
# bodies of std items that are analysed rather than modelled
STD = ','.join(['std::option::', 'std::result::', 'std::convert::', 'std::ops::', 'std::cmp::',
                '~ as std::ops::Try>::', '~ as std::ops::FromResidual', '~ as std::convert::Into<', '~<std::option::Option<T> as std::convert::From<'])


class Broken(Exception):
    """the tree cannot be analysed"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def base_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(('CARGO_TARGET', 'RUSTC', 'RUSTFLAGS', 'CARGO_BUILD', 'CARGO_ENCODED', 'RUSTUP_TOOLCHAIN', 'MIRDUMP')): e.pop(k)
    e['HOME'] = '/root'
    e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    return e


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        r = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=base_env())
        _sysroot = r.stdout.strip()
    return _sysroot


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + '.lock')

    def __enter__(self):
        self.f = open(self.p, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_driver():
    exe = os.path.join(BUILD, 'driver', 'debug', 'mirdump')
    src = [os.path.join(VERIF, 'driver', x) for x in ('Cargo.toml', 'src/main.rs', 'src/json.rs')]
    h = hashlib.sha256(b''.join(open(x, 'rb').read() for x in src)).hexdigest()
    stamp = os.path.join(BUILD, 'driver.stamp')
    with Lock('driver'):
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h: return exe
        e = base_env()
        e['LD_LIBRARY_PATH'] = sysroot() + '/lib'
        r = sh(['cargo', '+nightly', 'build', '--offline', '--target-dir', os.path.join(BUILD, 'driver'),
                '--manifest-path', os.path.join(VERIF, 'driver', 'Cargo.toml')], env=e)
        if not os.path.exists(exe) or r.returncode: raise Broken('driver does not build:\n' + r.stdout[-3000:])
        open(stamp, 'w').write(h)
    return exe


def tree_files():
    out = []
    for root, ds, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs: out.append(os.path.join(root, f))
    out.append(os.path.join(REPO, 'Cargo.toml'))
    return sorted(out)


def tree_hash(extra=()):
    h = hashlib.sha256()
    for f in tree_files():
        h.update(f.encode() + b'\0')
        h.update(open(f, 'rb').read())
    for x in ('driver/src/main.rs', 'driver/src/json.rs'):
        h.update(open(os.path.join(VERIF, x), 'rb').read())
    h.update(STD.encode())
    for x in extra: h.update(str(x).encode())
    return h.hexdigest()[:24]


class LockFile:
    """/repo/Cargo.lock is not tracked; put back the resolved one while building if it is missing"""

    def __enter__(self):
        p = os.path.join(REPO, 'Cargo.lock')
        self.made = None
        if not os.path.exists(p):
            src = os.path.join(VERIF, 'Cargo.lock.liso')
            shutil.copy(src, p)
            self.made = p

    def __exit__(self, *a):
        pass


def cargo_target(name):
    return os.path.join(BUILD, 'tgt-' + name)


def make_dump(feat):
    """path of the dump of the crate with this feature set, made from the current tree"""
    exe = build_driver()
    os.makedirs(os.path.join(BUILD, 'dumps'), exist_ok=True)
    with Lock('dump-' + feat):
        key = tree_hash((feat,))
        out = os.path.join(BUILD, 'dumps', '%s-%s.json' % (feat, key))
        if os.path.exists(out): return out
        for f in os.listdir(os.path.join(BUILD, 'dumps')):
            if f.startswith(feat + '-'): os.unlink(os.path.join(BUILD, 'dumps', f))
        e = base_env()
        e['LD_LIBRARY_PATH'] = sysroot() + '/lib'
        e.update(RUSTC_WORKSPACE_WRAPPER=exe, MIRDUMP_CRATE='liso', MIRDUMP_OUT=out, MIRDUMP_STD=STD)
        tgt = cargo_target(feat)
        for attempt in (0, 1):
            # cargo's freshness cache would skip the driver: forget what it knows about this crate
            if os.path.isdir(tgt):
                subprocess.run(['find', tgt, '-maxdepth', '4', '-name', 'liso*', '-prune', '-exec', 'rm', '-rf', '{}', '+'])
            if attempt and os.path.isdir(tgt): shutil.rmtree(tgt, ignore_errors=True)
            with LockFile():
                r = sh(['cargo', '+nightly', 'check', '--offline', '--lib', '-p', 'liso', '--target-dir', tgt] + FEATURES[feat], env=e, cwd=REPO)
            if r.returncode:
                raise Broken('the crate does not build with %s:\n%s' % (FEATURES[feat], r.stdout[-3000:]))
            if os.path.exists(out): return out
        raise Broken('no dump was produced for %s:\n%s' % (feat, r.stdout[-2000:]))


def load_known():
    known = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m: known[(m.group(1), m.group(2))] = m.group(3).strip()
    return known


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obs = []           # discharged obligations
        self.bads = {}          # key -> message
        self.counts = {}
        self.analysed = {}
        self.samples = []
        self.notes = []
        self.dumps = {}
        self.assumptions = []

    def dump(self, feat='default'):
        from mirp import Dump
        if feat not in self.dumps:
            self.dumps[feat] = Dump(make_dump(feat))
            self.dumps[feat].feat = feat
        return self.dumps[feat]

    def ok(self, rule, what=''):
        self.obs.append((rule, what))

    def bad(self, key, msg):
        key = re.sub(r'\s+', '_', key)
        if key not in self.bads: self.bads[key] = msg

    def ob(self, cond, key, what, msg=None):
        """an obligation: what must hold; key identifies its violation"""
        if cond: self.obs.append((key, what))
        else: self.bad(key, (msg or 'not established') + ' [' + what + ']')
        return cond

    def floor(self, name, n, least):
        """the analysis must have found at least this many instances of what it is about"""
        self.counts[name] = n
        if n < least: self.bad('anchor:' + name, 'found %d instance(s) of "%s", expected at least %d: the construct this rule is about is missing' % (n, name, least))

    def engine_stats(self, name, e):
        a = self.analysed.setdefault(name, {})
        a['blocks_interpreted'] = a.get('blocks_interpreted', 0) + e.steps
        a['functions'] = len(e.visited_fns) if not isinstance(a.get('functions'), int) else max(a['functions'], len(e.visited_fns))
        a['end_states'] = a.get('end_states', 0) + len(e.exits)


def run(pid, level='other'):
    import importlib
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    ctx = Ctx(pid, tier, seed)
    os.makedirs(EVID, exist_ok=True)
    mod = None
    try:
        mod = importlib.import_module(pid.lower())
        mod.check(ctx)
    except Broken as x:
        ctx.bad('analysis:build', str(x))
    except Exception as x:
        ctx.bad('analysis:' + type(x).__name__, 'the analysis could not be completed, so the property is not established:\n' + traceback.format_exc(limit=-8))
    known = load_known()
    viol = {}
    for k, m in ctx.bads.items():
        if (pid, k) in known:
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, known[(pid, k)]))
        else: viol[k] = m
    expl = ' '.join((getattr(mod, '__doc__', '') or '').split())
    rules = {}
    for r, w in ctx.obs: rules[r.split(':')[0]] = rules.get(r.split(':')[0], 0) + 1
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'explanation': expl or 'static analysis of the MIR of /repo',
            'obligations': len(ctx.obs) + len(ctx.bads), 'discharged': len(ctx.obs),
            'obligations_by_rule': rules,
            'instances': ctx.counts, 'analysed': ctx.analysed,
            'samples': (ctx.samples or [{'rule': r, 'what': w} for r, w in ctx.obs[:12]])[:20],
            'exhaustive': False,
        },
        'assumptions': ctx.assumptions + ctx.notes,
        'wall_s': round(time.time() - ctx.t0, 2), 'violations': len(viol),
    }
    with open(os.path.join(EVID, pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, sort_keys=True)
    rep = os.path.join(EVID, pid + '.report.txt')
    if viol:
        with open(rep, 'w') as f:
            for k, m in viol.items(): f.write('%s\n    %s\n\n' % (k, m.replace('\n', '\n    ')))
        for k, m in list(viol.items())[:12]:
            print('%s: %s' % (k, m[:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        sys.stdout.flush()
        return 1
    if os.path.exists(rep): os.unlink(rep)
    print('%s holds: %d obligations discharged, %s' % (pid, len(ctx.obs), ', '.join('%s=%s' % x for x in sorted(ctx.counts.items()))))
    return 0
