"""Scenarios: each drives the real program through a history and lets the oracles judge."""
import random, threading
from base import *
from oracle import *

def src(sess, serial=None, nd=None, n=None):
    n = n or sess.notif(serial, nd)
    return Src(n, sess.hist[n.serial]), sess.files(n)

def start(rng): return rng.choice([1, 1, 1, 5, 5, 253, 2**16 - 3, 2**31 - 3, 2**32 - 3, 2**53 - 3, 2**63 - 100])
def history(bindir, rng, steps=7, crash=True, bad=True, **kw):
    """random history with changing sources, waiting times, faults and interruptions"""
    cfg = dict(cleanup=rng.choice([0, 500, 500, 3600]), maxd=rng.choice([None, None, 0, 1, 3]), delay=rng.choice([0, 0, 7]), rsync=rng.random() < .8,
        moves=rng.random() < .15, name=rng.choice(['notification.xml', 'notify.xml', 'n']), host=rng.random() < .3)
    cfg.update(kw)
    m = Mirror(bindir, **cfg)
    book = Book()
    sess = [Session(rng, 1, start=start(rng))]
    for i in range(rng.randint(0, 4)): sess[0].step()
    cur = 0; known = None; lastclean = True; shown = 0
    did = set()
    try:
        for stp in range(steps):
            op = rng.choice(['next', 'next', 'next', 'same', 'back', 'reset', 'old', 'jump', 'badhash', 'missing', 'gap', 'badxml', 'evil', 'nonotif', 'leap'] if bad else ['next', 'next', 'same', 'reset', 'old', 'jump', 'leap'])
            if not lastclean and op in ('back', 'old'): op = 'next'
            if m.moves and op == 'old': op = 'next'
            nd = rng.choice([None, None, 0, 1, 2, 4])
            if op == 'reset': sess.append(Session(rng, len(sess) + 1, start=start(rng))); cur = len(sess) - 1
            elif op == 'old' and len(sess) > 1: cur = rng.randrange(len(sess)); sess[cur].step()
            elif op in ('next', 'badhash', 'missing', 'gap', 'evil'): sess[cur].step()
            elif op == 'jump': [sess[cur].step() for i in range(rng.randint(2, 5))]
            elif op == 'leap' and sess[cur].serial < 2**62: sess[cur].leap(rng.choice([2**32 - 1, 2**32 - 2, 2**31, 2**16 - 1, 255, 2**33 - 1, 2**48]))
            S = sess[cur]
            ser = S.serial
            if op == 'back' and known is not None and known.session == S.id and known.serial - 1 in S.hist: ser = known.serial - 1
            if op == 'same' and known is not None:
                k = [x for x in sess if x.id == known.session][0]; S = k; ser = known.serial; cur = sess.index(k)
            s, fl = src(S, ser, nd)
            n = s.n
            moved = known is None or known.session != n.session or n.serial > known.serial
            need = {n.snap[0][len(BASE):]}
            top = max([d[0] for d in known.deltas], default=-1) if known is not None and known.session == n.session else -1
            lim = expected(m, known, n)
            need |= {u[len(BASE):] for k, u, h in lim if k > top}
            if op == 'badhash':
                f = rng.choice(sorted(need)); fl[f] = rng.choice([fl[f] + b' ', b'', fl[f][:-1]]); s.ok, s.why, s.bad = False, f'{f} does not have the listed hash', 'C02'
            elif op == 'missing':
                f = rng.choice(sorted(need)); del fl[f]; s.ok, s.why, s.bad = False, f'{f} is missing', 'C02'
            elif op == 'gap' and len(lim) > 2:
                n.deltas.remove(lim[1]); 
                l2 = expected(m, known, n)
                if any(a[0] + 1 != b[0] for a, b in zip(l2, l2[1:])): s.ok, s.why, s.bad = False, 'there is a gap in the deltas', 'C04'
            elif op == 'evil':
                u = rng.choice(['../../x', '../x', 'a//b', './x', 'x/../../../y', '/tmp/vx', 'a/', m.name, m.name + '.tmp', '..'])
                c = b'<evil/>'
                if rng.random() < .5 or not lim: n.snap = (BASE + u, sha(c))
                else: i = n.deltas.index(lim[-1]); n.deltas[i] = (lim[-1][0], BASE + u, sha(c)); 
                s.ok, s.why, s.bad = False, f'{u} maps outside', 'C06' if u not in (m.name, m.name + '.tmp') else 'C03'
            xml = None
            if op == 'badxml': xml = notif_xml(n)[:-rng.randint(3, 60)]; s = Src(None, None, False, 'the notification is not complete', 'C07')
            m.serve(n if xml is None else xml, {k: v for k, v in fl.items() if not k.startswith('..')})
            if op == 'nonotif': os.unlink(m.src + '/' + m.name); s = Src(None, None, False, 'there is no notification', 'C07')
            if not moved and op not in ('badxml', 'nonotif') and not (op == 'gap' and not s.ok): s.ok = True
            # what an earlier run may have left behind
            if rng.random() < .3 and os.path.isdir(m.state):
                f = rng.choice(sorted(need)) if need else None
                if f and '..' not in f and not f.endswith('/'):
                    p = m.state + '/pre-validate-staging/' + f
                    try:
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        good = fl.get(f, b'x'); open(p, 'wb').write(rng.choice([b'left over', good, good, good + b'\n', good[:-1] + b'!', good[:len(good) // 2], b'left over' * 130000]))
                        for r_, ds, fs in os.walk(m.state):
                            os.chown(r_, NOBODY, NOBODY)
                            for x in fs: os.chown(os.path.join(r_, x), NOBODY, NOBODY)
                        # what is left over with the listed hash may be used although the source lacks it
                        if op == 'missing' and not s.ok and s.n and all(x in fl or (os.path.exists(m.state + '/pre-validate-staging/' + x) and sha(open(m.state + '/pre-validate-staging/' + x, 'rb').read()) == {u[len(BASE):]: h for u, h in [n.snap] + [d[1:] for d in n.deltas]}[x]) for x in need): s.ok = True
                    except OSError: pass
            elif op in ('missing', 'badhash') and not s.ok:
                d = {u[len(BASE):]: h for u, h in [n.snap] + [d[1:] for d in n.deltas]}
                if all(x in fl and sha(fl[x]) == d[x] or (os.path.exists(m.state + '/pre-validate-staging/' + x) and sha(open(m.state + '/pre-validate-staging/' + x, 'rb').read()) == d[x]) for x in need): s.ok = True
            if op == 'badhash' and not s.ok:
                d = {u[len(BASE):]: h for u, h in [n.snap] + [d[1:] for d in n.deltas]}
                if all(x in fl and sha(fl[x]) == d[x] or (os.path.exists(m.state + '/pre-validate-staging/' + x) and sha(open(m.state + '/pre-validate-staging/' + x, 'rb').read()) == d[x]) for x in need): s.ok = True
            if rng.random() < .5: m.clock += rng.choice([m.cleanup // 3 + 30, m.cleanup + 60])
            kw = {}
            if crash and not m.moves and rng.random() < .25: kw = rng.choice([dict(crash=rng.randint(0, 60)), dict(crash=rng.randint(0, 60), torn=1), dict(fault=rng.randint(0, 60), errno=rng.choice([5, 28, 13]))])
            if rng.random() < .1: kw['exdev'] = 1
            r = m.run(**kw)
            did.add(op)
            if r.rc == 137:
                A = All(); A.do(check_crash, m, r, s, s.objs); A.do(book.run, m, r, False); A.end(); lastclean = False
                known = state_of(m, known)
                continue
            A = All()
            res = check_run_(A, m, r, s, known if known is not None else False)
            A.do(book.run, m, r, res == 'published', res == 'published')
            A.end()
            if res == 'published': known = published(m, r.after); lastclean = True
            elif res == 'faulted': known = state_of(m, known); lastclean = False
    except Fail as x:
        x.trace = m.tr; raise
    finally: m.done()
    return did
def state_of(m, known):
    """the notification the persisted state is at"""
    p = m.state + '/rrdp-state.json'
    if not os.path.exists(p): return None
    try: j = json.load(open(p))
    except ValueError: raise Fail('C12', 'the state is not complete')
    try:
        return Notif(j['snapshot']['session_id'].lower(), j['snapshot']['serial'], (BASE + j['snapshot']['rel_path'], j['snapshot']['hash'].lower()), [(d['serial'], BASE + d['rel_path'], d['hash'].lower()) for d in j['deltas']])
    except (KeyError, TypeError): return published(m, m.look())

def prepared(bindir, rng, runs=3, wait=True, **kw):
    """a mirror after some normal runs, and its session"""
    m = Mirror(bindir, **kw); S = Session(rng, 1); book = Book(); known = None
    for i in range(runs):
        for k in range(rng.randint(1, 2)): S.step()
        s, fl = src(S, None, rng.choice([None, 2, 3])); m.serve(s.n, fl)
        r = m.run(); check_run(m, r, s); book.run(m, r, True)
        m.clock += m.cleanup // 2 + 40 if wait else 0
    return m, S, book
def interruptions(bindir, rng, every=1, faults=False, **kw):
    """the same run interrupted at every single effect, and run again"""
    kw.setdefault('cleanup', 300)
    m, S, book = prepared(bindir, rng, **kw)
    try:
        if rng.random() < .3: S2 = Session(rng, 2, start=3)
        else: S2 = S; [S.step() for i in range(rng.randint(1, 3))]
        s, fl = src(S2, None, rng.choice([None, 2])); m.serve(s.n, fl)
        c = m.clone(); r = c.run(); check_run(c, r, s); c.done()
        n = r.nev; cnt = 0
        for k in range(rng.randrange(every), n + 1, every):
            for torn in ([0, 1] if not faults else [0]):
                if torn and not any(e[0] == k and e[1] == 'write' for e in r.ev): continue
                c = m.clone(); b = book.copy()
                try:
                    if faults: q = c.run(fault=k, errno=rng.choice([5, 28, 13]), fault_to=k + rng.choice([0, 0, 1000]))
                    else: q = c.run(crash=k, torn=torn or None)
                    cnt += 1
                    if faults:
                        check_public(c, q.after)
                        if q.rc == 0: res = check_run(c, q, s)
                        else: check_crash(c, q, s, s.objs); res = ''
                        b.run(c, q, res == 'published', res == 'published')
                    else:
                        A = All()
                        if q.rc == 137: A.do(check_crash, c, q, s, s.objs); A.do(b.run, c, q, False); A.end()
                        else: check_run(c, q, s); b.run(c, q, True)
                    c.clock += rng.choice([0, 0, c.cleanup + 10])
                    known = state_of(c, None)
                    q = c.run()
                    if not (c.moves and q.rc != 0):
                        res = check_run(c, q, s, known)
                        if known is None or (known.session, known.serial) != (s.n.session, s.n.serial):
                            if q.rc != 0: raise Fail('C12', f'does not recover from an interruption: {q.err[:300]}')
                        b.run(c, q, True, res == 'published')
                except Fail as x:
                    x.trace = c.tr; raise
                finally: c.done()
        return cnt
    finally: m.done()

def scripts(bindir, rng):
    """validation scripts: all run, before anything is published, a failure counts with rejection only"""
    for reject in (False, True):
        for codes in ([0], [1], [0, 1], [1, 0], [0, 0, 0], [1, 1, 0], [0, 0, 1], ['x', 0], [0, 'x']):
            m = Mirror(bindir); S = Session(rng, 1); S.step()
            try:
                log = m.out + '/ran'
                ex = []
                for i, c in enumerate(codes):
                    p = f'{m.root}/script{i}'
                    open(p, 'w').write(f'#!/bin/sh\necho {i} $(ls {m.rrdp} {m.rsyncd} 2>/dev/null | wc -l) $(cat {m.rrdp}/{m.name} 2>/dev/null | md5sum | cut -c1-8) $(find {m.rrdp} -type f 2>/dev/null | wc -l) >> {log}\nexit {c}\n')
                    os.chmod(p, 0o755 if c != 'x' else 0o644); ex += ['--pre-validate', p]
                if reject: ex.append('--tal-reject-invalid')
                for rnd in range(2):
                    if os.path.exists(log): os.unlink(log)
                    S.step(); s, fl = src(S); m.serve(s.n, fl)
                    pub0 = published(m, m.look())
                    nf = len(files(m.look()['rrdp']))
                    bad = [c for c in codes if c != 0]
                    fails = 'x' in codes or (reject and bad)
                    if fails: s.ok, s.why, s.bad = False, f'scripts end with {codes}, reject {reject}', 'C08'
                    r = m.run(ex); 
                    if not fails and r.rc != 0: raise Fail('C08', f'scripts with {codes} prevent publication without rejection: {r.err[:200]}')
                    check_run(m, r, s)
                    ran = [l.split() for l in open(log)] if os.path.exists(log) else []
                    want = [str(i) for i, c in enumerate(codes)]
                    if 'x' in codes: want = want[:codes.index('x')]
                    if [x[0] for x in ran][:len(want)] != want: raise Fail('C08', f'scripts run: {[x[0] for x in ran]}, configured: {want}')
                    for x in ran:
                        if x[-1] != str(nf): raise Fail('C08', 'something was published before the script was run')
            except Fail as x: x.trace = m.tr; raise
            finally: m.done()

def lock(bindir, rng):
    """a second instance at every stage of the first"""
    m, S, book = prepared(bindir, rng, runs=1)
    try:
        S.step(); s, fl = src(S); m.serve(s.n, fl)
        c = m.clone(); r = c.run(); n = r.nev; check_run(c, r, s); c.done()
        for k in sorted(set([0, 1, n - 1] + [rng.randrange(n) for i in range(8)])):
            c = m.clone()
            gate = c.out + '/gate'; open(gate, 'w').close()
            res = {}
            def first():
                try: res['r'] = c.run(env={'VX_BLOCK': str(k), 'VX_GATE': gate})
                except Fail as x: res['f'] = x
            th = threading.Thread(target=first); th.start()
            try:
                for i in range(5000):
                    if os.path.exists(gate + '.ready') or not th.is_alive(): break
                    time.sleep(.002)
                if not os.path.exists(gate + '.ready'): raise RuntimeError('the first instance does not get there')
                c2 = object.__new__(Mirror); c2.__dict__.update(c.__dict__); c2.out = tempfile.mkdtemp(prefix='o', dir=os.path.dirname(c.out)); os.chmod(c2.out, 0o777)
                r2 = c2.run(reads=1)
                if r2.rc == 0: raise Fail('C11', f'a second instance succeeds while the first is at effect {k} of {n}')
                for e in r2.ev:
                    if e[0] >= 0 or e[1] == 'outside' or (e[1] == 'read' and 'krill-sync.lock' not in e[2]): raise Fail('C11', f'a second instance does {e[1]} {e[2]} while the first is at effect {k} of {n}')
                same(r2.before['rrdp'], r2.after['rrdp'], 'changed by a second instance', 'C11'); same(r2.before['rsync'], r2.after['rsync'], 'changed by a second instance', 'C11'); same(r2.before['state'], r2.after['state'], 'changed by a second instance', 'C11')
            finally:
                os.unlink(gate); th.join(); c.done()
            if 'f' in res: raise res['f']
            check_run(c, res['r'], s)
        # while the first one is fetching, for the very first run
        c = Mirror(bindir); c.serve(s.n, fl)
        os.unlink(c.src + '/' + c.name); os.mkfifo(c.src + '/' + c.name); os.chmod(c.src + '/' + c.name, 0o666)
        res = {}
        def first():
            e = {'PATH': '/usr/bin:/bin', 'LD_PRELOAD': c.bin + '/shim.so', 'VX_ROOT': c.root}
            res['p'] = subprocess.run([c.bin + '/krill-sync'] + c.args(), env=e, cwd=c.root, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, user=NOBODY, group=NOBODY, extra_groups=[]).returncode
        th = threading.Thread(target=first); th.start()
        f = None
        for i in range(3000):
            # the first instance has opened the notification for reading
            try: f = os.open(c.src + '/' + c.name, os.O_WRONLY | os.O_NONBLOCK); break
            except OSError: time.sleep(.002)
            if not th.is_alive(): break
        if f is None: raise RuntimeError('the first instance does not fetch')
        try:
            c2 = object.__new__(Mirror); c2.__dict__.update(c.__dict__); c2.out = tempfile.mkdtemp(prefix='o', dir=os.path.dirname(c.out)); os.chmod(c2.out, 0o777)
            try: r2 = c2.run(reads=1, timeout=5)
            except Fail: raise Fail('C11', 'a second instance waits or works while the first is fetching')
            if r2.rc == 0: raise Fail('C11', 'a second instance succeeds while the first is fetching')
            for e in r2.ev:
                if e[0] >= 0 or (e[1] == 'read' and 'krill-sync.lock' not in e[2]): raise Fail('C11', f'a second instance does {e[1]} {e[2]} while the first is fetching')
        finally:
            os.write(f, notif_xml(s.n)); os.close(f); th.join(); c.done()
    finally: m.done()

def returning(bindir, rng, every=1):
    """a source which returns to an earlier session, and with it to files which are to be cleaned up, interrupted at every effect; then it moves on"""
    m = Mirror(bindir, cleanup=300, rsync=rng.random() < .3, maxd=rng.choice([None, None, 2])); A_, B_ = Session(rng, 1), Session(rng, 2)
    try:
        for S in (A_, A_, B_):
            if S is not m: S.step()
            s, fl = src(S, None, rng.choice([None, 2])); m.serve(s.n, fl); r = m.run(); check_run(m, r, s)
        m.clock += 400
        A_.step(); s, fl = src(A_); m.serve(s.n, fl)
        c = m.clone(); r = c.run(); check_run(c, r, s); c.done()
        for k in range(rng.randrange(every), r.nev + 1, every):
            c = m.clone()
            try:
                q = c.run(crash=k)
                if q.rc == 137: check_crash(c, q, s, s.objs)
                for nx in ('same', 'next'):
                    d = c.clone()
                    try:
                        if nx == 'same': s2 = s
                        else:
                            s2, fl2 = src(B_, None, 0); B_.serial_ = 0
                            d.serve(s2.n, fl2)
                        q2 = d.run()
                        x = All(); x.do(check_events, d, q2); x.do(check_public, d, q2.after, files(q2.before['rrdp'])); x.end()
                        if q2.rc != 0: raise Fail('C12', f'does not recover from an interruption: {q2.err[:300]}')
                    except Fail as y:
                        y.trace = d.tr; raise
                    finally: d.done()
            except Fail as y:
                if not getattr(y, 'trace', None): y.trace = c.tr
                raise
            finally: c.done()
    finally: m.done()
