"""A small source and runs of krill-sync for demonstrations; everything lives in a scratch directory."""
import os, sys, base64, hashlib, json, shutil, subprocess, tempfile, time, atexit, re
BIN = os.path.join(os.getcwd(), 'target/debug/krill-sync')
ROOT = tempfile.mkdtemp(prefix='demo')
atexit.register(lambda: shutil.rmtree(ROOT, ignore_errors=True))
NS = 'http://www.ripe.net/rpki/rrdp'
BASE = 'https://rrdp.example.net/rrdp/'
def sha(b): return hashlib.sha256(b).hexdigest()
def sid(n): return f'{n:08x}-1111-4222-8333-{n:012x}'
def snapshot(session, serial, objs):
    return (f'<snapshot xmlns="{NS}" version="1" session_id="{sid(session)}" serial="{serial}">' + ''.join(f'<publish uri="{u}">{base64.b64encode(b).decode()}</publish>' for u, b in objs) + '</snapshot>').encode()
def delta(session, serial, objs=()):
    return (f'<delta xmlns="{NS}" version="1" session_id="{sid(session)}" serial="{serial}">' + ''.join(f'<publish uri="{u}">{base64.b64encode(b).decode()}</publish>' for u, b in objs) + '</delta>').encode()
def notification(session, serial, snap, deltas):
    """snap: (path, bytes or hash), deltas: [(serial, path, bytes)]"""
    return (f'<notification xmlns="{NS}" version="1" session_id="{sid(session)}" serial="{serial}"><snapshot uri="{BASE}{snap[0]}" hash="{sha(snap[1])}"/>'
        + ''.join(f'<delta serial="{s}" uri="{BASE}{p}" hash="{sha(b)}"/>' for s, p, b in deltas) + '</notification>').encode()
class Mirror:
    def __init__(s, name='notification.xml'):
        s.root = tempfile.mkdtemp(dir=ROOT); s.name = name
        s.src, s.state, s.rrdp, s.rsync = (s.root + '/' + x for x in ('src', 'state', 'rrdp', 'rsync'))
        os.mkdir(s.src)
    def put(s, p, b):
        f = s.src + '/' + p; os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, 'wb') as h: h.write(b)
    def serve(s, session, serial, objs=(), deltas=(), snap=None, snappath=None):
        """deltas: serials; the usual layout"""
        sn = snap or snapshot(session, serial, list(objs)); sp = snappath or f'{sid(session)}/{serial}/snapshot.xml'
        ds = [(d, f'{sid(session)}/{d}/delta.xml', delta(session, d)) for d in deltas]
        s.put(sp, sn)
        for d, p, b in ds: s.put(p, b)
        s.put(s.name, notification(session, serial, (sp, sn), ds))
        return sp, sn
    def args(s, *extra, cleanup=1000, dirs=True, source=None):
        a = [BIN, '--state-dir', s.state, '--source-uri-base', source or s.src + '/', '--cleanup-after', str(cleanup)]
        if dirs: a += ['--rrdp-dir', s.rrdp, '--rsync-dir', s.rsync]
        return a + list(extra) + ['--', BASE + s.name]
    def run(s, *extra, env=None, **kw):
        p = subprocess.run(s.args(*extra, **kw), cwd=s.root, stdin=subprocess.DEVNULL, capture_output=True, timeout=120, env=dict(os.environ, RUST_BACKTRACE='0', **(env or {})))
        s.err = p.stderr.decode(errors='replace')
        return p.returncode
    def files(s, d=None):
        d = d or s.rrdp; out = {}
        for r, ds, fs in os.walk(d):
            for n in fs: out[os.path.relpath(os.path.join(r, n), d)] = open(os.path.join(r, n), 'rb').read()
        return out
    def published(s):
        t = open(s.rrdp + '/' + s.name).read()
        return (re.search('session_id="([^"]*)"', t).group(1), int(re.search(' serial="([0-9]*)"', t).group(1)),
            re.search('<snapshot[^>]*uri="([^"]*)"', t).group(1), [(int(a), u) for a, u in re.findall('<delta serial="([0-9]*)" uri="([^"]*)"', t)])
def check(ok, msg):
    if not ok: print('FAILED: ' + msg); sys.exit(1)
