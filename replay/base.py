"""Runs the real krill-sync binary on generated sources inside a scratch directory and watches what it does."""
import os, sys, json, shutil, subprocess, hashlib, base64, tempfile, time, random, re, stat
import xml.etree.ElementTree as ET
HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(os.path.dirname(HERE), '.cache')
REPO = '/repo'
NS = '{http://www.ripe.net/rpki/rrdp}'
NOBODY = 65534
class Fail(Exception):
    """the code under test breaks a property"""
    def __init__(s, prop, msg): s.prop, s.msg = prop, msg; s.props = set(prop.split()); super().__init__(f'{prop}: {msg}')
class All:
    """runs every judge and then reports everything that failed"""
    def __init__(s): s.fs = []
    def do(s, f, *a, **k):
        try: return f(*a, **k)
        except Fail as x: s.fs.append(x)
    def fail(s, prop, msg): s.fs.append(Fail(prop, msg))
    def end(s):
        if len(s.fs) == 1: raise s.fs[0]
        if s.fs: raise Fail(' '.join(sorted(set().union(*[x.props for x in s.fs]))), ' | '.join(str(x) for x in s.fs))

def sha(b): return hashlib.sha256(b).hexdigest()

# ---------------------------------------------------------------- building
def build():
    """builds the current tree of /repo; returns the directory with the programs"""
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_INCREMENTAL='0', CARGO_TARGET_DIR=CACHE + '/rb',
               RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TERM_COLOR='never')
    env.pop('RUSTC_WRAPPER', None); env.pop('RUSTC_WORKSPACE_WRAPPER', None)
    os.makedirs(CACHE, exist_ok=True)
    import fcntl
    with open(CACHE + '/build.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = CACHE + '/rb/debug'
        key = srckey(); kf = CACHE + '/rb.key'
        if not (os.path.exists(kf) and open(kf).read() == key and os.path.exists(out + '/ks')):
            man = HERE + '/Cargo.toml'
            subprocess.run(['cargo', 'clean', '--offline', '-q', '--manifest-path', man, '-p', 'krill-sync', '-p', 'replay'], env=env, stderr=subprocess.DEVNULL)
            r = subprocess.run(['cargo', 'build', '--offline', '-q', '--manifest-path', man], env=env, capture_output=True, text=True)
            if r.returncode: raise RuntimeError('build failed: ' + r.stderr[-2000:])
            subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', out + '/shim.so', HERE + '/shim.c', '-ldl'], check=True)
            open(kf, 'w').write(key)
    return out
def srckey():
    """content of everything the programs are built from"""
    h = hashlib.sha256()
    fs = [REPO + '/Cargo.toml', REPO + '/Cargo.lock', HERE + '/Cargo.toml', HERE + '/Cargo.lock', HERE + '/shim.c']
    for d in (REPO + '/src', HERE + '/src'):
        for r, ds, ns in os.walk(d): fs += [os.path.join(r, n) for n in ns]
    for f in sorted(fs):
        if os.path.exists(f): h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()

# ---------------------------------------------------------------- a source
class Notif:
    def __init__(s, session, serial, snap, deltas): s.session, s.serial, s.snap, s.deltas = session, serial, snap, deltas
    # snap: (uri, hash), deltas: [(serial, uri, hash)]
def parse_notif(b):
    """the published or served notification; None if it is not a complete one"""
    try: t = ET.fromstring(b)
    except ET.ParseError: return None
    if t.tag != NS + 'notification': return None
    sn = t.findall(NS + 'snapshot')
    if len(sn) != 1: return None
    try:
        return Notif(t.get('session_id').lower(), int(t.get('serial')), (sn[0].get('uri'), sn[0].get('hash').lower()), [(int(d.get('serial')), d.get('uri'), d.get('hash').lower()) for d in t.findall(NS + 'delta')])
    except (TypeError, ValueError, AttributeError): return None
def esc(u): return u.replace('&', '&amp;').replace('"', '&quot;').replace('<', '&lt;')
def notif_xml(n):
    return (f'<notification xmlns="{NS[1:-1]}" version="1" session_id="{n.session}" serial="{n.serial}">\n  <snapshot uri="{esc(n.snap[0])}" hash="{n.snap[1]}" />\n'
        + ''.join(f'  <delta serial="{a}" uri="{esc(u)}" hash="{h}" />\n' for a, u, h in n.deltas) + '</notification>\n').encode()
def snap_xml(session, serial, objs):
    return (f'<snapshot xmlns="{NS[1:-1]}" version="1" session_id="{session}" serial="{serial}">\n' + ''.join(f'  <publish uri="{esc(u)}">{base64.b64encode(b).decode()}</publish>\n' for u, b in objs.items() ) + '</snapshot>\n').encode()
def delta_xml(session, serial, els):
    """els: (uri, new or None, old hash or None)"""
    o = f'<delta xmlns="{NS[1:-1]}" version="1" session_id="{session}" serial="{serial}">\n'
    for u, b, h in els:
        if b is None: o += f'  <withdraw uri="{esc(u)}" hash="{h}"/>\n'
        else: o += f'  <publish uri="{esc(u)}"' + (f' hash="{h}"' if h else '') + f'>{base64.b64encode(b).decode()}</publish>\n'
    return (o + '</delta>\n').encode()
BASE = 'https://rrdp.example.net/rrdp/'
def uuid(n): return f'{n:08x}-1111-4222-8333-{n:012x}'

class Session:
    """an honest history of one session"""
    def __init__(s, rng, no, start=1, objs=None, host='rsync.example.net'):
        s.rng, s.id, s.no = rng, uuid(no), no
        s.serial = start; s.objs = dict(objs or {}); s.host = host
        s.hist = {}       # serial -> objects
        s.delta = {}      # serial -> (path, bytes)
        s.snap = {}       # serial -> (path, bytes)
        s.rnd = rng.random() < .5
        if not s.objs:
            for i in range(rng.randint(0, 3)): s.objs[s.newuri()] = s.data()
        s.close([(u, b, None) for u, b in s.objs.items()])
    def newuri(s): return f'rsync://{s.host}/repo/' + s.rng.choice(['', 'a/', 'b/c/', 'a/', 'b/c/', '', '%2e%2e/', 'x%2Fy/', '.../']) + f'o{s.rng.randint(0, 10**6)}.' + s.rng.choice(['cer', 'roa', 'mft', 'crl', 'gbr'])
    def data(s): return bytes(s.rng.randrange(256) for _ in range(s.rng.choice([1, 40, 3000]))) if s.rng.random() < .99 else b"large" * 210000
    def close(s, els):
        x = f'x{s.rng.randint(0, 10**5)}/' if s.rnd else ''
        if s.rng.random() < .05: x += s.rng.choice(['%2e%2e/', '%2E%2E%2Fp/', 'a%2fb/', '.../', '..x/', 'x../'])
        s.hist[s.serial] = dict(s.objs)
        s.delta[s.serial] = (f'{s.id}/{s.serial}/{x}delta.xml', delta_xml(s.id, s.serial, els))
        s.snap[s.serial] = (f'{s.id}/{s.serial}/{x}snapshot.xml', snap_xml(s.id, s.serial, s.objs))
    def step(s):
        els = []
        for u in list(s.objs):
            r = s.rng.random()
            if r < .2: els.append((u, None, sha(s.objs.pop(u))))
            elif r < .4:
                b = s.data(); els.append((u, b, sha(s.objs[u]))); s.objs[u] = b
        for i in range(s.rng.randint(0, 2)):
            u = s.newuri(); b = s.data(); s.objs[u] = b; els.append((u, b, None))
        s.serial += 1
        s.close(els)
    def leap(s, by):
        s.delta.clear(); s.serial += by; s.step()
    def notif(s, serial=None, ndeltas=None):
        serial = s.serial if serial is None else serial
        ds = [k for k in sorted(s.delta) if k <= serial]
        if ndeltas is not None: ds = ds[len(ds) - ndeltas:] if ndeltas else []
        s.rng.shuffle(ds)
        p, b = s.snap[serial]
        return Notif(s.id, serial, (BASE + p, sha(b)), [(k, BASE + s.delta[k][0], sha(s.delta[k][1])) for k in ds])
    def files(s, n):
        """the files of a notification"""
        out = {s.snap[n.serial][0]: s.snap[n.serial][1]}
        for k, u, h in n.deltas: out[s.delta[k][0]] = s.delta[k][1]
        return out

def tree(d):
    """everything below d: relative path -> ('d',) | ('l', target) | ('f', content, mtime)"""
    out = {}
    def walk(p, rel):
        for e in sorted(os.scandir(p), key=lambda e: e.name):
            r = rel + e.name
            if e.is_symlink(): out[r] = ('l', os.readlink(e.path))
            elif e.is_dir(): out[r] = ('d',); walk(e.path, r + '/')
            elif e.is_file(follow_symlinks=False):
                with open(e.path, 'rb') as f: b = f.read()
                out[r] = ('f', b, e.stat().st_mtime)
    if os.path.isdir(d): walk(d, '')
    return out
def files(t): return {k: v[1] for k, v in t.items() if v[0] == 'f'}

class Run:
    pass

class Mirror:
    """a state directory with its public directories, and what is known about its history"""
    n = 0
    def __init__(s, bindir, name='notification.xml', cleanup=1000, maxd=None, delay=0, rsync=True, host=False, moves=False, extra=(), base=None, dirs=None):
        Mirror.n += 1
        base = base or scratch()
        s.bin = bindir
        s.root = os.path.realpath(tempfile.mkdtemp(prefix='m', dir=base))
        s.out = tempfile.mkdtemp(prefix='o', dir=base)     # logs, not under watch
        s.src = s.root + '/src'
        s.name, s.cleanup, s.maxd, s.delay, s.rsync, s.host, s.moves, s.extra = name, cleanup, maxd, delay, rsync, host, moves, list(extra)
        s.state, s.rrdp, s.rsyncd = s.root + '/state', s.root + '/rrdp', s.root + '/rsync'
        os.mkdir(s.src)
        s.clock = 0
        s.tr = []
        os.chmod(base, 0o755)
        for d in (s.root, s.out, s.src): os.chmod(d, 0o777)
    def done(s):
        shutil.rmtree(s.root, ignore_errors=True); shutil.rmtree(s.out, ignore_errors=True)
    def clone(s):
        """a copy in its present condition (state files name absolute paths, so these are replaced)"""
        m = object.__new__(Mirror); m.__dict__.update(s.__dict__)
        Mirror.n += 1
        base = os.path.dirname(s.root)
        m.root = tempfile.mkdtemp(prefix='m', dir=base); m.out = tempfile.mkdtemp(prefix='o', dir=base)
        os.rmdir(m.root); 
        subprocess.run(['cp', '-a', s.root, m.root], check=True)
        m.src, m.state, m.rrdp, m.rsyncd = (m.root + x for x in ('/src', '/state', '/rrdp', '/rsync'))
        for f in ('rrdp-state.json', 'rsync-state.json'):
            p = m.state + '/' + f
            if os.path.exists(p):
                t = open(p).read(); st = os.stat(p)
                open(p, 'w').write(t.replace(s.root, m.root)); os.utime(p, (st.st_atime, st.st_mtime))
        os.chmod(m.root, 0o777); os.chmod(m.out, 0o777)
        for k in ('drops', 'replaced'):
            if hasattr(s, k): setattr(m, k, dict(getattr(s, k)))
        m.tr = list(s.tr)
        return m
    # -- source
    def serve(s, notif, fl, name=None):
        """notif: bytes or Notif; fl: relative path -> bytes"""
        shutil.rmtree(s.src); os.mkdir(s.src)
        b = notif if isinstance(notif, bytes) else notif_xml(notif)
        for p, c in list(fl.items()) + [(name or s.name, b)]:
            f = os.path.join(s.src, p); os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, 'wb') as h: h.write(c)
        for r, ds, fs in os.walk(s.src): os.chmod(r, 0o755)
    # -- running
    def args(s, extra=()):
        a = ['--state-dir', s.state, '--rrdp-dir', s.rrdp, '--rsync-dir', s.rsyncd, '--source-uri-base', s.src + '/', '--cleanup-after', str(s.cleanup)]
        if s.delay: a += ['--rrdp-notify-delay', str(s.delay)]
        if s.maxd is not None: a += ['--rrdp-max-deltas', str(s.maxd)]
        if not s.rsync: a += ['--rsync-disable']
        if s.host: a += ['--rsync-include-host']
        return a + s.extra + list(extra) + ['--', BASE + s.name]
    def run(s, extra=(), argv=None, prog=None, env=None, timeout=60, **kw):
        """kw: crash, fault, errno, torn, exdev, deny"""
        r = Run()
        log = s.out + '/log'
        if os.path.exists(log): os.unlink(log)
        e = {'PATH': '/usr/bin:/bin', 'VX_ROOT': s.root, 'VX_LOG': log, 'VX_CLOCK': str(s.clock), 'LD_PRELOAD': s.bin + '/shim.so', 'RUST_BACKTRACE': '0', 'HOME': s.root, 'TMPDIR': s.out}
        for k in ('crash', 'torn', 'fault', 'fault_to', 'errno', 'exdev', 'deny', 'reads'):
            if kw.get(k) is not None and kw.get(k) is not False: e['VX_' + k.upper()] = str(kw[k])
        if s.moves: e['KS_MOVES'] = '1'
        if env: e.update(env)
        r.before = s.look()
        a = [s.bin + '/' + (prog or ('ks' if s.moves else 'krill-sync'))] + (argv if argv is not None else s.args(extra))
        r.t0 = time.time() + s.clock
        try: p = subprocess.run(a, env=e, cwd=s.root, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, user=NOBODY, group=NOBODY, extra_groups=[])
        except subprocess.TimeoutExpired: raise Fail('C20', 'the run does not end')
        r.t1 = time.time() + s.clock + 1
        r.rc, r.err, r.outp = p.returncode, p.stderr.decode(errors='replace'), p.stdout.decode(errors='replace')
        r.ev = []
        if os.path.exists(log):
            for l in open(log, errors='replace'):
                f = l.rstrip('\n').split('\t')
                if len(f) == 4: r.ev.append((int(f[0]), f[1], f[2], f[3]))
        r.nev = sum(1 for x in r.ev if x[0] >= 0 and x[1] != 'fault')
        r.after = s.look()
        r.kw = kw
        s.tr.append((a[0].split('/')[-1], dict(clock=s.clock, rc=r.rc, **{k: v for k, v in kw.items()})))
        if 'panicked at' in r.err or r.rc == 101 or r.rc < 0: raise Fail('C20', f'panic: rc {r.rc} {r.err[-500:]}')
        return r
    def look(s):
        return {'rrdp': tree(s.rrdp), 'rsync': tree(s.rsyncd), 'state': tree(s.state)}

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        b = '/dev/shm' if os.access('/dev/shm', os.W_OK) and shutil.disk_usage('/dev/shm').free > 1 << 30 else '/tmp'
        _scratch = tempfile.mkdtemp(prefix='vxr', dir=b); os.chmod(_scratch, 0o755)
        import atexit; atexit.register(lambda p=_scratch, pid=os.getpid(): os.getpid() == pid and shutil.rmtree(p, ignore_errors=True))
    return _scratch
def publish_bin(out):
    """copies the programs to where an unprivileged user can run them"""
    d = tempfile.mkdtemp(prefix='bin', dir=scratch()); os.chmod(d, 0o755)
    for f in ('krill-sync', 'ks', 'rp', 'shim.so'):
        if os.path.exists(out + '/' + f): shutil.copy(out + '/' + f, d + '/' + f); os.chmod(d + '/' + f, 0o755)
    return d
