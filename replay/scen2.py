"""Scenarios on fetching, configuration, hostile input and object times."""
import ssl, http.server, threading, subprocess, socket
from base import *
from oracle import *
from scen import *
import base as B, oracle as O, scen as SC

def certs(d):
    """a CA with certificates for localhost and for another name"""
    q = lambda *a: subprocess.run(['openssl'] + list(a), check=True, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    q('req', '-x509', '-newkey', 'rsa:2048', '-nodes', '-keyout', 'ca.key', '-out', 'ca.pem', '-days', '3650', '-subj', '/CN=vx ca')
    for n, san in (('good', 'DNS:localhost'), ('other', 'DNS:other.example')):
        open(f'{d}/{n}.ext', 'w').write(f'subjectAltName={san}\nbasicConstraints=CA:FALSE\n')
        q('req', '-newkey', 'rsa:2048', '-nodes', '-keyout', n + '.key', '-out', n + '.csr', '-subj', '/CN=' + san[4:])
        q('x509', '-req', '-in', n + '.csr', '-CA', 'ca.pem', '-CAkey', 'ca.key', '-CAcreateserial', '-out', n + '.pem', '-days', '3000', '-extfile', n + '.ext')
    for f in os.listdir(d): os.chmod(d + '/' + f, 0o644)
class Https:
    """serves what answer(path, headers) returns: (status, headers, body); None: empty response"""
    def __init__(s, cert):
        s.log = []; s.answer = lambda p, h: (404, {}, b'')
        me = s
        class H(http.server.BaseHTTPRequestHandler):
            def do_GET(q):
                me.log.append((q.path, dict(q.headers)))
                c, h, b = me.answer(q.path, q.headers)
                q.send_response(c)
                for k, v in h.items(): q.send_header(k, v)
                q.send_header('Content-Length', str(len(b))); q.send_header('Connection', 'close'); q.end_headers()
                q.wfile.write(b)
            def log_message(q, *a): pass
        class T(http.server.ThreadingHTTPServer):
            def handle_error(q, *a): pass
        s.srv = T(('127.0.0.1', 0), H)
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); c.load_cert_chain(cert + '.pem', cert + '.key')
        s.srv.socket = c.wrap_socket(s.srv.socket, server_side=True, do_handshake_on_connect=False)
        s.port = s.srv.server_address[1]
        threading.Thread(target=s.srv.serve_forever, daemon=True).start()
    def stop(s): s.srv.shutdown(); s.srv.server_close()
def https(bindir, rng):
    d = tempfile.mkdtemp(prefix='crt', dir=scratch()); os.chmod(d, 0o755)
    certs(d)
    good, other = Https(d + '/good'), Https(d + '/other')
    old = B.BASE
    def setbase(b):
        for mod in (B, O, SC): mod.BASE = b
        globals()['BASE'] = b
    try:
        for srv in (good, other):
            for trusted in (True, False):
                for insecure in (False, True):
                    for mapped in (None, '/', '/deep/er/'):
                        home = f'https://localhost:{srv.port}/rrdp/' if mapped is None else 'https://rrdp.example.net/some/rrdp/'
                        setbase(home)
                        S = Session(rng, 1); [S.step() for i in range(3)]
                        m = Mirror(bindir)
                        try:
                            s, fl = src(S, None, 2)
                            fl[m.name] = notif_xml(s.n)
                            pre = '/rrdp/' if mapped is None else mapped
                            srv.log.clear(); srv.answer = lambda p, h: (200, {}, fl[p[len(pre):]]) if p.startswith(pre) and p[len(pre):] in fl else (404, {}, b'no')
                            a = ['--state-dir', m.state, '--rrdp-dir', m.rrdp, '--rsync-dir', m.rsyncd, '--cleanup-after', '1000']
                            if mapped is not None: a += ['--source-uri-base', f'https://localhost:{srv.port}{mapped}']
                            if insecure: a += ['--insecure']
                            r = m.run(argv=a + ['--', home + m.name], env={'SSL_CERT_FILE': d + '/ca.pem' if trusted else '/dev/null', 'SSL_CERT_DIR': d + '/none'})
                            what = f'(certificate {"of another name" if srv is other else "of localhost"}, {"known" if trusted else "unknown"} CA, insecure {insecure}, mapped {mapped})'
                            if not insecure and (srv is other or not trusted):
                                if srv.log: raise Fail('C13', f'request sent although the certificate is not acceptable {what}: {srv.log}')
                                if r.rc == 0: raise Fail('C13', f'success although the certificate is not acceptable {what}')
                                continue
                            if r.rc: raise Fail('C13', f'failure {what}: {r.err[:300]}')
                            check_run(m, r, s)
                            want = {pre + k for k in fl}
                            got = [p for p, h in srv.log]
                            if set(got) != want: raise Fail('C13', f'requests {sorted(got)}, expected {sorted(want)} {what}')
                        finally: m.done()
        # validators, error responses, references outside of the mapped base
        srv = good
        for mapped in (False, True):
            home = f'https://localhost:{srv.port}/rrdp/' if not mapped else 'https://rrdp.example.net/some/rrdp/'
            setbase(home); env = {'SSL_CERT_FILE': d + '/ca.pem'}
            S = Session(rng, 1); [S.step() for i in range(3)]
            m = Mirror(bindir)
            a = ['--state-dir', m.state, '--rrdp-dir', m.rrdp, '--rsync-dir', m.rsyncd, '--cleanup-after', '1000'] + (['--source-uri-base', f'https://localhost:{srv.port}/rrdp/'] if mapped else []) + ['--', home + m.name]
            m.args = lambda extra=(), a=a: a
            tag = {}
            def answer(p, h):
                f = p[len('/rrdp/'):]
                if f in over: return over[f]
                if f not in fl: return 404, {}, b'no'
                if f == m.name:
                    seen.append(h.get('If-None-Match'))
                    if h.get('If-None-Match') == tag.get('now') and tag.get('now'): return 304, {}, b''
                    return 200, {'ETag': tag['now']} if tag.get('now') else {}, fl[f]
                return 200, {'ETag': '"x"'}, fl[f]
            srv.answer = answer
            known = None; seen = []; want = None
            def go(ok=True, why='', bad='C02'):
                s.ok, s.why, s.bad = ok, why, bad
                seen.clear(); srv.log.clear()
                r = m.run(env=env); check_run(m, r, s, None)
                return r
            try:
                over = {}
                s, fl = src(S, None, 2); fl[m.name] = notif_xml(s.n)
                over = {s.n.snap[0][len(home):]: (304, {}, b'')}; go(False, 'the snapshot is answered with 304')
                over = {s.n.snap[0][len(home):]: (404, {}, b'gone')}; go(False, 'the snapshot is answered with 404')
                over = {s.n.snap[0][len(home):]: (200, {}, b'')}; go(False, 'the snapshot is empty')
                over = {m.name: (304, {}, b'')}
                r = m.run(env=env); check_unchanged(m, r, 'C07', '304')
                over = {m.name: (500, {}, fl[m.name])}; 
                r = m.run(env=env); check_unchanged(m, r, 'C07 C01', 'error response for the notification')
                if r.rc == 0: raise Fail('C07 C01', 'success although the notification is answered with an error')
                over = {}; tag['now'] = '"a1"'; go()
                if seen != [None]: raise Fail('C01', f'first request is conditional: {seen}')
                go()
                if seen and seen[0] not in (None, '"a1"'): raise Fail('C01', f'conditional on {seen}, the ETag of what was published last is "a1"')
                S.step(); s, fl = src(S, None, 2); fl[m.name] = notif_xml(s.n); tag['now'] = '"a2"'
                over = {s.n.snap[0][len(home):]: (304, {}, b'')}; go(False, 'the snapshot is answered with 304')
                over = {}; go()
                if seen and seen[0] == '"a2"': raise Fail('C01 C07', 'the request after a failed run is conditional on the ETag of what failed')
                tag['now'] = None; S.step(); s, fl = src(S, None, 2); fl[m.name] = notif_xml(s.n); go()
                S.step(); s, fl = src(S, None, 2); fl[m.name] = notif_xml(s.n); go()
                # somewhere else
                S.step(); s, fl = src(S, None, 2)
                s.n.snap = (f'https://localhost:{srv.port}/elsewhere/s.xml' if mapped else s.n.snap[0], s.n.snap[1]); 
                fl[m.name] = notif_xml(s.n)
                if mapped:
                    over = {}
                    go(False, 'the snapshot is not below the mapped base', 'C13 C06')
                    if any('elsewhere' in p for p, h in srv.log): raise Fail('C13', 'a URI outside of the mapped base is requested')
                    s.n.snap = ('https://rrdp.example.net/some/rrdpx/s.xml', s.n.snap[1]); fl[m.name] = notif_xml(s.n)
                    go(False, 'the snapshot is not below the mapped base', 'C13 C06')
                    if any('x/s.xml' in p for p, h in srv.log): raise Fail('C13', 'a URI outside of the mapped base is requested')
            except Fail as x: x.trace = m.tr; raise
            finally: m.done()
    finally:
        setbase(old); good.stop(); other.stop()
def mapping_files(bindir, rng):
    """mapped to directories: what is read, and what is refused"""
    m = Mirror(bindir); S = Session(rng, 1); [S.step() for i in range(3)]
    try:
        s, fl = src(S, None, 2); m.serve(s.n, fl)
        for base, ok in ((m.src, True), (m.src + '/', True), (m.src + '/' + m.name, False), (m.root + '/nothing', False), ('https://localhost:1/x', False), ('https://localhost:1/x/y', False), ('http://localhost:1/x/', False), ('rsync://localhost/x/', False)):
            c = m.clone()
            try:
                b = base.replace(m.root, c.root)
                r = c.run(argv=['--state-dir', c.state, '--rrdp-dir', c.rrdp, '--rsync-dir', c.rsyncd, '--source-uri-base', b, '--', BASE + m.name], env={'KS_CFG': '1'}, prog='ks')
                if (r.rc == 0) != ok: raise Fail('C13', f'base {base}: {"refused" if ok else "accepted"} {r.err[:200]}')
                if not ok:
                    r = c.run(argv=['--state-dir', c.state, '--rrdp-dir', c.rrdp, '--rsync-dir', c.rsyncd, '--source-uri-base', b, '--', BASE + m.name])
                    if r.rc == 0: raise Fail('C13', f'base {base} accepted')
                    check_unchanged(c, r, 'C13', 'base refused')
                else:
                    r = c.run(argv=['--state-dir', c.state, '--rrdp-dir', c.rrdp, '--rsync-dir', c.rsyncd, '--source-uri-base', b, '--', BASE + m.name], reads=1)
                    check_run(c, r, s)
                    rd = {e[2] for e in r.ev if e[1] == 'read' and e[2].startswith(c.src + '/')}
                    want = {c.src + '/' + x for x in list(fl) + [m.name]}
                    if not want <= {posixpath.normpath(x) for x in rd} or not {posixpath.normpath(x) for x in rd} <= want: raise Fail('C13', f'files read: {sorted(rd)}, expected: {sorted(want)}')
            finally: c.done()
    finally: m.done()
def dirs(bindir, rng):
    """default directories (C19)"""
    D = '/var/lib/krill-sync'
    m = Mirror(bindir)
    try:
        for st in (None, D, '', '/srv/ks', m.root + '/st', 'rel/st', D + '2', '/var/lib', D + '/sub', '/a/rrdp/b'):
            for rr in (None, '/srv/www', D + '/rrdp/x', D + '/other', 'rrdp', D + '/rsync', '/x' + D + '/rrdp'):
                for rs in (None, '/srv/rs', D + '/rsync/x', D + '/rs', D + '/rrdp', D):
                    for ins in (False, True):
                        for base in (None, m.src + '/'):
                            if (ins or base) and rng.random() < .8: continue
                            nm = rng.choice(['notification.xml', 'n', 'notify.notif.xml'])
                            a = (['--state-dir', st] if st is not None else []) + (['--rrdp-dir', rr] if rr else []) + (['--rsync-dir', rs] if rs else []) + (['--insecure'] if ins else []) + (['--source-uri-base', base] if base else []) + ['--', rng.choice([BASE, 'https://h/']) + nm]
                            p = subprocess.run([m.bin + '/ks'] + a, env={'KS_CFG': '1', 'PATH': '/bin'}, capture_output=True, text=True, cwd=m.root, user=NOBODY, group=NOBODY, extra_groups=[])
                            if p.returncode: raise Fail('C19', f'{a}: {p.stderr[:300]}')
                            j = json.loads(p.stdout)
                            s = D if st is None else st; J = posixpath.join
                            w = {'state': s, 'rrdp': rr or J(s, 'rrdp'), 'rsync': rs or J(s, 'rsync'), 'lock': J(s, 'krill-sync.lock'), 'rrdp_state': J(s, 'rrdp-state.json'), 'rsync_state': J(s, 'rsync-state.json')}
                            for k, v in w.items():
                                if k in ('lock', 'rrdp_state', 'rsync_state'):
                                    if posixpath.dirname(j[k]) != s: raise Fail('C19', f'{k} is {j[k]} with {a}')
                                elif j[k] != v: raise Fail('C19', f'{k} is {j[k]} instead of {v} with {a}')
                            for k in ('staging', 'staged'):
                                if not j[k].startswith(J(s, '')): raise Fail('C19', f'{k} is {j[k]} with {a}')
                            if j['st'] is not None:
                                try: n = j['st']['notification_source']['name']; rd = j['st']['mappings']['rrdp_dir']
                                except (KeyError, TypeError): continue
                                if n != nm: raise Fail('C19', f'the notification is named {n} with {a}')
                                if rd != w['rrdp']: raise Fail('C19', f'rrdp directory {rd} with {a}')
    finally: m.done()
def hostile(bindir, rng):
    """odd configurations, sources and left-over states: no panic, nothing outside"""
    big = 2 ** 64 - 1
    for cleanup in ('0', '-1', str(-2 ** 63), str(2 ** 63 - 1), '9' * 15):
        for maxd in (None, '0', '1', str(big)):
            m = Mirror(bindir, maxd=None); S = Session(rng, 1); [S.step() for i in range(3)]
            try:
                for i in range(3):
                    S.step(); s, fl = src(S, None, rng.choice([None, 0, 2])); m.serve(s.n, fl)
                    a = m.args(); k = a.index('--cleanup-after'); del a[k:k + 2]
                    a = [f'--cleanup-after={cleanup}'] + ([f'--rrdp-max-deltas={maxd}'] if maxd else []) + a
                    m.run(argv=a)
            finally: m.done()
    def xml(sess=uuid(1), serial='3', snap=None, deltas=(), ver='1', tail=''):
        u, h = snap or (BASE + 's.xml', sha(b'x'))
        return (f'<notification xmlns="{NS[1:-1]}" version="{ver}" session_id="{sess}" serial="{serial}"><snapshot uri="{u}" hash="{h}"/>' + ''.join(f'<delta serial="{k}" uri="{u}" hash="{h}"/>' for k, u, h in deltas) + '</notification>' + tail).encode()
    sx = snap_xml(uuid(1), 3, {'rsync://rsync.example.net/repo/a.cer': b'a'})
    dl = lambda *ks: [(k, BASE + f'd{k}.xml', sha(b'd')) for k in ks]
    cases = [xml(serial='0', deltas=dl(0)), xml(serial=str(big), snap=(BASE + 's.xml', sha(sx)), deltas=dl(big)), xml(serial=str(big + 1)), xml(serial='-1'), xml(deltas=dl(3, 3)), xml(deltas=dl(3, 1)), xml(deltas=dl(0, big)), xml(serial=str(big), deltas=dl(big, 0)),
        xml(deltas=dl(*range(1, 40))), xml(deltas=[(3, BASE, sha(b'd'))]), xml(snap=(BASE, sha(sx))), xml(snap=('https://rrdp.example.net', sha(sx))), xml(snap=('rsync://rrdp.example.net/x/y', sha(sx))), xml(snap=(BASE + 's.xml', 'zz')),
        xml(snap=(BASE + 's.xml', '')), xml(sess='x'), xml(ver='2'), b'', b'\0' * 1000, xml()[:50], xml(tail='<x/>'), b'<' * 10000, b'<a>' * 5000, xml(snap=(BASE + 'x' * 300, sha(sx))), xml(snap=(BASE + '/'.join(['y' * 200] * 30), sha(sx))),
        xml(snap=(BASE + '%2e%2e/%00', sha(sx))), xml(snap=(BASE + 's.xml?x#y', sha(sx)))]
    ev = lambda u: snap_xml(uuid(1), 3, {u: b'a'})
    P = 'rsync://rsync.example.net/repo/'
    uris = [P + '../x', P + '../../../../x', P + 'a/../../b', P, P + '/abs', P + '//x', P + './x', P + 'a//b', P + 'a/', P + '.', P + '..', P + 'x' * 300, 'rsync://../repo/x', 'rsync://rsync.example.net/../x', 'rsync://./.././x', P + '%2e%2e/x', P + '/../x', P + 'a/./b', P + 'a/..']
    snaps = [(u, ev(u)) for u in uris] + [(None, x) for x in (snap_xml(uuid(2), 3, {}), snap_xml(uuid(1), 4, {}), sx[:-10], b'', b'<snapshot/>', sx.replace(b'>YQ==<', b'>Y!!<'), sx.replace(b'>YQ==<', b'><'))]
    m = Mirror(bindir)
    try:
        S = Session(rng, 1); S.step(); s, fl = src(S); m.serve(s.n, fl); r = m.run(); check_run(m, r, s)
        for host in (False, True):
            for prior in (False, True):
                for x, c in [(None, c) for c in cases] + snaps:
                    c1 = m.clone() if prior else Mirror(bindir)
                    try:
                        c1.host = host
                        if x is None and c in cases: c1.serve(c, {'s.xml': sx, **{f'd{k}.xml': b'd' for k in range(41)}, f'd{big}.xml': b'd'})
                        else: c1.serve(xml(sess=uuid(1), serial='9', snap=(BASE + 's.xml', sha(c))), {'s.xml': c})
                        r = c1.run(); A = All(); A.do(check_events, c1, r); A.do(check_public, c1, r.after)
                        if x is not None and x in uris:
                            rel = x.split('/', 3)[3].split('/', 1)[1] if not host else x[8:]
                            if any(k in ('', '.', '..') for k in rel.split('/')) and r.rc == 0: A.fail('C06', f'success with {x} in the snapshot')
                            if r.rc == 0 and len(x) < 100:
                                A.do(check_tree, c1, r.after, {x: b'a'}, 'after a run')
                        r = c1.run(); A.do(check_events, c1, r)
                        A.end()
                    finally: c1.done()
        # left-over state
        ok = m.look()['state']['rrdp-state.json'][1]; j = json.loads(ok)
        def var(f):
            k = json.loads(ok); f(k); return json.dumps(k).encode()
        sts = [b'', b'{', b'null', b'[]', ok[:200], ok + b'x', var(lambda k: k['snapshot'].update(serial=big)), var(lambda k: k.update(snapshot=None)), var(lambda k: k.update(deltas=[])), var(lambda k: k['snapshot'].update(since=-2 ** 63) or k['snapshot'].update(since=2 ** 62)),
            var(lambda k: k.update(etag='\n')), var(lambda k: k.update(deprecated_files=[{'path': m.rrdp + '/none/there', 'since': -2 ** 62}]))]
        for b in sts:
            for f in ('rrdp-state.json', 'rsync-state.json'):
                c1 = m.clone()
                try:
                    open(c1.state + '/' + f, 'wb').write(b.replace(m.root.encode(), c1.root.encode()) if f == 'rrdp-state.json' else b)
                    S.step(); s, fl = src(S); c1.serve(s.n, fl)
                    try: c1.run()
                    except Fail as x:
                        if x.prop != 'C20': raise
                        raise
                    c1.run()
                finally: c1.done()
    finally: m.done()
def times(bindir, rng):
    """object times: real objects of every type, twice, at different clocks"""
    D = '/repo/test-resources'
    objs = {}
    for r, ds, fs in os.walk(D):
        for f in fs:
            if f == 'snapshot.xml' and len(objs) < 60:
                t = ET.parse(os.path.join(r, f)).getroot()
                for p in t.findall(NS + 'publish'):
                    u = p.get('uri'); rest = u[8:].split('/', 2)
                    if len(rest) == 3: objs['rsync://rsync.example.net/repo/' + rest[2]] = base64.b64decode(p.text or '')
    exp = {(u, b): objtime(b, u) for u, b in objs.items()}
    if not any(exp.values()): raise RuntimeError('no objects')
    extra = {'rsync://rsync.example.net/repo/z/' + n: b for n, b in (('x.cer', b'junk'), ('x.roa', b''), ('x.mft', b'\x30\x80'), ('x.crl', b'\x00'), ('x.txt', b'text'), ('noext', b'n'), ('x.gbr', b'\x30'), ('x.tak', b'\x31'))}
    for u, b in list(objs.items())[:8]: extra['rsync://rsync.example.net/repo/z/cut' + u.split('/')[-1]] = b[:-3]
    got = []
    for clock in (0, 86400 * 400):
        m = Mirror(bindir)
        try:
            m.clock = clock
            S = Session(rng, 1, objs={**objs, **extra}); S.step(); S.objs.update(extra)
            s, fl = src(S, None, 0); m.serve(s.n, fl)
            r = m.run(); 
            if r.rc: raise Fail('C18', f'failure with objects of all types: {r.err[:300]}')
            check_run(m, r, s)
            nm, fs = current(m, r.after)
            for u in s.objs:
                p = rsyncrel(m, u)
                if p not in fs: raise Fail('C18 C09', f'{p} is missing')
                if fs[p][1] != s.objs[u]: raise Fail('C18 C09', f'{p} differs')
                e = exp.get((u, s.objs[u]))
                if e is not None and int(fs[p][2]) != e: raise Fail('C18', f'{p} has time {fs[p][2]}, its own is {e}')
        finally: m.done()
def objtime(b, u):
    """the time an object determines, worked out with openssl; None: it cannot be parsed"""
    import datetime
    def q(*a, data=b):
        p = subprocess.run(['openssl'] + list(a), input=data, capture_output=True)
        return p.stdout.decode(errors='replace') if p.returncode == 0 else None
    def ts(t): return int(datetime.datetime.strptime(t.strip().replace(' GMT', ''), '%b %d %H:%M:%S %Y').replace(tzinfo=datetime.timezone.utc).timestamp())
    if u.endswith('.cer'):
        o = q('x509', '-inform', 'DER', '-noout', '-startdate')
        return ts(o.split('=', 1)[1]) if o else None
    if u.endswith('.crl'):
        o = q('crl', '-inform', 'DER', '-noout', '-lastupdate')
        return ts(o.split('=', 1)[1]) if o else None
    if u.rsplit('.', 1)[-1] in ('mft', 'roa', 'asa', 'gbr', 'tak', 'sig'):
        o = q('asn1parse', '-inform', 'DER')
        if o is None: return None
        ls = o.splitlines()
        for i, l in enumerate(ls):
            if 'signingTime' in l:
                for k in ls[i + 1:i + 4]:
                    mt = re.search(r'(UTCTIME|GENERALIZEDTIME)\s*:(\d+)Z', k)
                    if mt:
                        t = mt.group(2)
                        if len(t) == 12: t = ('20' if int(t[:2]) < 50 else '19') + t
                        return int(datetime.datetime.strptime(t, '%Y%m%d%H%M%S').replace(tzinfo=datetime.timezone.utc).timestamp())
    return None
