"""What must hold after (and during) every run, judged from outside: the public files, the events and the exit code."""
import posixpath, json
from base import *

def pubpath(m, uri):
    """where a URI maps to, relative to the RRDP directory; None if it maps nowhere"""
    if not uri.startswith(BASE): return None
    r = uri[len(BASE):]
    if any(c in ('', '.', '..') for c in r.split('/')) or r in (m.name, m.name + '.tmp'): return None
    return r
def published(m, t):
    """the public notification in a tree: None if there is none"""
    x = t['rrdp'].get(m.name)
    if x is None: return None
    if x[0] != 'f': raise Fail('C03', 'the public notification is not a file')
    n = parse_notif(x[1])
    if n is None: raise Fail('C03', f'the public notification is not complete: {x[1][:200]!r}')
    return n
def check_public(m, t, gone=None):
    n = published(m, t)
    if n is None: return None
    fl = files(t['rrdp'])
    for u, h in [n.snap] + [(u, h) for k, u, h in n.deltas]:
        p = pubpath(m, u)
        if p is None: raise Fail('C03', f'the public notification lists {u}')
        if p not in fl: raise Fail('C03 C05' if gone and p in gone else 'C03', f'{p} is listed in the public notification (serial {n.serial}) but missing')
        if sha(fl[p]) != h: raise Fail('C03 C02', f'{p} does not have the hash listed in the public notification')
    return n
def check_list(m, n):
    ks = [k for k, u, h in n.deltas]
    for a, b in zip(ks, ks[1:]):
        if a != b + 1: raise Fail('C04', f'delta list not contiguous and descending: {ks}')
    if m.maxd is not None and len(ks) > m.maxd: raise Fail('C04', f'{len(ks)} deltas published, the limit is {m.maxd}')
def rsyncrel(m, uri):
    assert uri.startswith('rsync://')
    host, mod, path = uri[8:].split('/', 2)
    return f'{host}/{mod}/{path}' if m.host else path
def current(m, t):
    """the tree 'current' refers to: (name, {path: content}) or None"""
    c = t['rsync'].get('current')
    if c is None: return None
    d = 'current/'; nm = 'current'
    if c[0] == 'l':
        nm = posixpath.normpath(c[1] if not c[1].startswith(m.rsyncd) else c[1][len(m.rsyncd) + 1:])
        if nm not in t['rsync']: raise Fail('C09', f"'current' refers to {nm} which does not exist")
        d = nm + '/'
    return nm, {k[len(d):]: v for k, v in t['rsync'].items() if k.startswith(d) and v[0] == 'f'}
def check_tree(m, t, objs, what):
    c = current(m, t)
    if c is None: raise Fail('C09', f"no 'current' {what}")
    for u, b in objs.items():
        p = rsyncrel(m, u)
        if p not in c[1]: raise Fail('C09', f"{p} of the published snapshot is missing in 'current' {what}")
        if c[1][p][1] != b: raise Fail('C09', f"{p} differs from the published object in 'current' {what}")
    return c[0]
def same(a, b, what, prop, ignore=()):
    for k in sorted(set(a) | set(b)):
        if k in ignore or any(k.startswith(i + '/') for i in ignore): continue
        if a.get(k) != b.get(k): raise Fail(prop, f'{what}: {k} changed: {str(a.get(k))[:80]} -> {str(b.get(k))[:80]}')
def check_unchanged(m, r, prop='C07', why=''):
    same(r.before['rrdp'], r.after['rrdp'], f'RRDP directory changed although nothing was published ({why})', prop)
    same(r.before['rsync'], r.after['rsync'], f'rsync directory changed although nothing was published ({why})', prop)
    same(r.before['state'], r.after['state'], f'state changed although nothing was published ({why})', prop, ('pre-validate-staging', 'krill-sync.lock', 'pre-validate-staging/' + m.name))
    for n, op, a, b in r.ev:
        if n >= 0 and op != 'mkdir' and op != 'fault':
            for x in (a, b):
                if x and (x.startswith(m.rrdp + '/') or x.startswith(m.rsyncd + '/')) : raise Fail(prop, f'{op} {x} although nothing was published ({why})')
def check_events(m, r):
    """places, order and atomicity"""
    out = [e for e in r.ev if e[1] == 'outside']
    if out: raise Fail('C06', f'{out[0][3]} outside of the configured directories: {out[0][2]}')
    dirs = [m.state, m.rrdp, m.rsyncd]
    NP = m.rrdp + '/' + m.name
    slept = 0; n0 = published(m, r.before)
    listed = set()
    if n0:
        listed = {m.rrdp + '/' + pubpath(m, u) for u in [n0.snap[0]] + [d[1] for d in n0.deltas] if pubpath(m, u)}
    seen = False
    for n, op, a, b in r.ev:
        if op == 'sleep': slept += int(a)
        if n < 0 or op == 'fault': continue
        for x in (a, b):
            if x and not any(x == d or posixpath.normpath(x).startswith(d + '/') for d in dirs) : raise Fail('C06', f'{op} outside of the configured directories: {x}')
        if op in ('create', 'openw', 'write', 'truncate', 'unlink', 'link') and a == NP: raise Fail('C03', f'the public notification is changed in place: {op}')
        if op == 'rename' and a == NP: raise Fail('C03', 'the public notification is moved away')
        if op in ('symlink',) and a == NP: raise Fail('C03', 'the public notification is replaced by a link')
        if op == 'rename' and b == NP:
            if m.delay and slept < m.delay: raise Fail('C03', f'notification published after a delay of {slept} s, {m.delay} s configured')
            seen = True
        if op == 'rename' and b and b.startswith(m.rrdp + '/') and b != NP and m.delay and slept and not seen: raise Fail('C03', f'{b} was put in place after waiting')
        if not seen and op in ('create', 'openw', 'write', 'truncate', 'unlink', 'link') and a in listed: raise Fail('C03', f'{op} on {a} which is listed in the public notification')
        if not seen and op == 'rename' and a in listed: raise Fail('C03', f'{a} is moved away but listed in the public notification')

class Src:
    """what the source serves; ok: everything can be had with the listed hash"""
    def __init__(s, n, objs, ok=True, why='', bad='C07'): s.n, s.objs, s.ok, s.why, s.bad = n, objs, ok, why, bad

def expected(m, p, n):
    """what must be published for notification n after p (None: nothing)"""
    ds = sorted(n.deltas)
    if m.maxd is not None: ds = ds[len(ds) - m.maxd:] if m.maxd and len(ds) > m.maxd else (ds if m.maxd else [])
    return ds
def check_run(m, r, s, state=None):
    """all oracles for one finished (not interrupted) run; state: the notification the persisted state is at, if that differs from the public one"""
    A = All()
    res = check_run_(A, m, r, s, state)
    A.end()
    return res
def check_run_(A, m, r, s, state):
    A.do(check_events, m, r)
    p = published(m, r.before)
    q = A.do(check_public, m, r.after, files(r.before['rrdp']))
    n = s.n
    clean = not any(r.kw.get(k) is not None for k in ('crash', 'fault', 'deny'))
    known = p if state is None else state or None
    moved = n is not None and (known is None or known.session != n.session or n.serial > known.serial)
    if q is not None and (p is None or (p.session, p.serial) != (q.session, q.serial)):
        if not moved: A.fail('C01', f'published {q.session} {q.serial} although the source has not moved forward from {p.session if p else None} {p.serial if p else None}')
    if p is not None and q is None and not A.fs: A.fail('C03', 'the public notification is gone')
    if not clean and not moved and n is not None and s.ok: return 'same' if r.rc == 0 else 'faulted'
    if not moved and n is not None and s.ok:
        lower = n.session == known.session and n.serial < known.serial
        if lower and r.rc == 0: A.fail('C01 C07', f'success although the serial went back from {known.serial} to {n.serial}')
        if not lower and r.rc != 0: A.fail('C01', f'failure although nothing changed: {r.err[:300]}')
        A.do(check_unchanged, m, r, 'C01 C07', 'source not moved forward')
        return 'lower' if lower else 'same'
    if not s.ok:
        if r.rc == 0: A.fail(s.bad + ' C07', f'success although {s.why}')
        if clean: A.do(check_unchanged, m, r, s.bad + ' C07', s.why)
        return 'failed'
    if r.rc != 0:
        if clean: A.fail('C01', f'failure although the source moved forward: {r.err[:600]}')
        return 'faulted'
    check_success(A, m, r, s, p, q, known)
    return 'published'
def check_success(A, m, r, s, p, q, known):
    n = s.n
    if q is None:
        if not A.fs: A.fail('C01 C07', 'success but nothing published')
        return
    if (q.session, q.serial) != (n.session, n.serial): A.fail('C01 C04', f'success but {q.serial} of {q.session} is published, the source has {n.serial} of {n.session}')
    if q.snap != n.snap: A.fail('C04', f'snapshot {q.snap} published, the source has {n.snap}')
    A.do(check_list, m, q)
    fl = files(r.after['rrdp'])
    listed = {u: h for k, u, h in n.deltas}; listed[n.snap[0]] = n.snap[1]
    for u, h in listed.items():
        x = pubpath(m, u)
        if x in fl and (x not in files(r.before['rrdp']) or files(r.before['rrdp'])[x] != fl[x]) and sha(fl[x]) != h: A.fail('C02', f'{x} does not have the hash the source lists')
    same_session = known is not None and known.session == n.session
    held = [d for d in known.deltas] if same_session else []
    top = max([k for k, u, h in held], default=-1)
    src = expected(m, known, n)
    low = min([k for k, u, h in src], default=n.serial)
    got = {k: (u, h) for k, u, h in q.deltas}
    for k, u, h in src:
        if k > top and got.get(k) != (u, h): A.fail('C04', f'delta {k} of the source is not published: {sorted(got)}')
    for k, (u, h) in got.items():
        if k < low: A.fail('C04', f'delta {k} is below the lowest serial {low} of the source')
        if (k, u, h) not in n.deltas and not (same_session and (k, u, h) in held): A.fail('C04', f'delta {k} {u} is neither of the source nor held before')
    for x in fl:
        if x not in files(r.before['rrdp']) and x != m.name and x not in {pubpath(m, u) for u in listed}: A.fail('C06', f'{x} is not a place a listed URI maps to')
    if m.rsync: A.do(check_switched, m, r, s)
    A.do(check_state, m, r, q)
def check_switched(m, r, s):
    n = s.n
    nm = check_tree(m, r.after, s.objs, 'after a successful run')
    if nm != 'current' and not (n.session in nm and str(n.serial) in nm): raise Fail('C09', f"'current' is {nm}")
def check_state(m, r, q):
    t = r.after['state'].get('rrdp-state.json')
    if t is None or t[0] != 'f': raise Fail('C12', 'no state after a successful run')
    try: j = json.loads(t[1])
    except ValueError: raise Fail('C12', 'the state is not complete after a successful run')
    try: got = (j['snapshot']['session_id'].lower(), j['snapshot']['serial'], j['snapshot']['hash'].lower(), j['snapshot']['rel_path'], [(d['serial'], d['rel_path'], d['hash'].lower()) for d in j['deltas']])
    except (KeyError, TypeError, AttributeError): return
    want = (q.session, q.serial, q.snap[1], pubpath(m, q.snap[0]), [(k, pubpath(m, u), h) for k, u, h in q.deltas])
    if got != want: raise Fail('C12', f'the state does not describe what is published: {got} / {want}')
def check_crash(m, r, s, newobjs):
    """after an interruption at any point"""
    A = All()
    A.do(check_events, m, r)
    q = A.do(check_public, m, r.after, files(r.before['rrdp']))
    p = published(m, r.before)
    if p is not None and q is None and not A.fs: A.fail('C03', 'the public notification is gone')
    A.do(check_crash_, m, r, newobjs)
    A.end()
def check_crash_(m, r, newobjs):
    for f in ('rrdp-state.json', 'rsync-state.json'):
        a, b = r.before['state'].get(f), r.after['state'].get(f)
        if a is not None and b is None: raise Fail('C12', f'{f} is gone after an interruption')
        if b is not None and (a is None or a[1] != b[1]):
            try: j = json.loads(b[1])
            except ValueError: raise Fail('C12', f'{f} is torn after an interruption: {b[1][:80]!r}')
    c0, c1 = current(m, r.before), current(m, r.after)
    if not m.moves and m.rsync:
        if c0 is not None and c1 is None: raise Fail('C09', "'current' is gone after an interruption")
        if c0 is not None and c1[0] == c0[0]:
            for k, v in c0[1].items():
                if k not in c1[1] or c1[1][k][1] != v[1]: raise Fail('C09', f"{k} changed in the tree in use, which was to be left in place")
        elif c1 is not None and newobjs is not None: check_tree(m, r.after, newobjs, 'after an interruption')

class Book:
    """when files and trees stopped being in use, as seen from outside"""
    def __init__(s): s.drop = {}; s.repl = {}; s.unrec = set(); s.loose = False
    def copy(s):
        b = Book(); b.drop, b.repl, b.unrec, b.loose = dict(s.drop), dict(s.repl), set(s.unrec), s.loose; return b
    def note(s, m, r, ql, c1):
        """known finding: what an interrupted run published without getting to record it is unknown to later runs"""
        def st(f):
            try: return json.loads(r.after['state'][f][1])
            except (KeyError, ValueError): return None
        j = st('rrdp-state.json')
        try: rec = {j['snapshot']['rel_path']} | {d['rel_path'] for d in j['deltas']}
        except (KeyError, TypeError): rec = set(ql) if j else set()
        s.unrec = {x for x in s.unrec | set(ql) if x not in rec or x in s.unrec and x not in ql}
        if c1:
            j = st('rsync-state.json')
            try: c = f"session_{j['current']['session_id'].lower()}_serial_{j['current']['serial']}"
            except (KeyError, TypeError): c = c1 if j else None
            if c == c1: s.unrec.discard('/' + c1)
            else: s.unrec.add('/' + c1)
    def run(s, m, r, complete, publishing=True):
        """complete: the run ended normally. Times are intervals"""
        p, q = published(m, r.before), published(m, r.after)
        pl = {pubpath(m, u) for u in [p.snap[0]] + [d[1] for d in p.deltas]} if p else set()
        ql = {pubpath(m, u) for u in [q.snap[0]] + [d[1] for d in q.deltas]} if q else set()
        bf, af = files(r.before['rrdp']), files(r.after['rrdp'])
        for f in bf:
            if f in af or f in (m.name, m.name + '.tmp'): continue
            if f in ql: raise Fail('C05', f'{f} is published but was removed')
            if f in pl:
                if r.t1 - r.t0 < m.cleanup: raise Fail('C05', f'{f} was published until now but is removed already')
                continue
            if f not in s.drop: raise Fail('C05', f'{f} was removed, it was never published')
            if r.t1 - s.drop[f][0] < m.cleanup: raise Fail('C05', f'{f} was removed {r.t1 - s.drop[f][0]:.0f} s after it was last published, clean-up time is {m.cleanup}')
        if complete and publishing:
            for f in list(s.drop):
                if f in ql: continue
                if f in af and s.drop[f][1] is not None and r.t0 - s.drop[f][1] > m.cleanup and f not in pl: raise Fail('C05', f'{f} is still there {r.t0 - s.drop[f][1]:.0f} s after it was last published, clean-up time is {m.cleanup}')
                if f not in af: del s.drop[f]
        cc = current(m, r.after) if m.rsync and not m.moves else None
        for f in pl - ql: s.drop[f] = (r.t0, r.t1 if complete else None) if f not in s.unrec else (r.t0, float('inf'))
        ur = set(s.unrec)
        s.note(m, r, ql, cc and cc[0])
        for f in ql: s.drop.pop(f, None)
        if complete and publishing:
            for f in s.drop:
                if s.drop[f][1] is None: s.drop[f] = (s.drop[f][0], r.t1)
        if m.moves:
            if not complete: s.loose = True
            return None if s.loose else s.moves(m, r, complete and publishing)
        if not m.rsync: return
        c0, c1 = current(m, r.before), current(m, r.after)
        c0, c1 = c0 and c0[0], c1 and c1[0]
        d0 = {k for k, v in r.before['rsync'].items() if v[0] == 'd' and '/' not in k}; d1 = {k for k, v in r.after['rsync'].items() if v[0] == 'd' and '/' not in k}
        if c0 != c1 and c0: s.repl[c0] = (r.t0, (r.t1 if complete else None) if '/' + c0 not in ur else float('inf'))
        s.repl.pop(c1, None)
        for d in d0:
            lost = d not in d1 or any(k.startswith(d + '/') and k not in r.after['rsync'] for k in r.before['rsync'])
            if lost:
                if d in (c0, c1) and (d == c1 or c0 == c1): raise Fail('C10', f"{d} is the tree in use but was removed")
                if d not in s.repl: raise Fail('C10', f'{d} was removed, it was never replaced')
                if r.t1 - s.repl[d][0] < m.cleanup: raise Fail('C10', f'{d} was removed {r.t1 - s.repl[d][0]:.0f} s after it was replaced, clean-up time is {m.cleanup}')
        if complete and publishing:
            for d in list(s.repl):
                if d in d1 and s.repl[d][1] is not None and r.t0 - s.repl[d][1] > m.cleanup: raise Fail('C10', f'{d} is still there {r.t0 - s.repl[d][1]:.0f} s after it was replaced, clean-up time is {m.cleanup}')
                if d not in d1: del s.repl[d]
                elif s.repl[d][1] is None: s.repl[d] = (s.repl[d][0], r.t1)
    def moves(s, m, r, ok):
        d0 = {k for k, v in r.before['rsync'].items() if v[0] == 'd' and '/' not in k}; d1 = {k for k, v in r.after['rsync'].items() if v[0] == 'd' and '/' not in k}
        if 'current' in d0 and 'current' not in d1 and ok: raise Fail('C10', "'current' is gone")
        for d in d1 - d0:
            if d != 'current' and ok: s.repl[d] = (r.t0, r.t1)
        for d in d0 - d1:
            if d == 'current': continue
            if d not in s.repl: raise Fail('C10', f'{d} was removed, it was never replaced')
            if r.t1 - s.repl[d][0] < m.cleanup: raise Fail('C10', f'{d} was removed too early')
            del s.repl[d]
        if ok:
            for d in list(s.repl):
                if d in d1 and r.t0 - s.repl[d][1] > m.cleanup: raise Fail('C10', f'{d} is still there {r.t0 - s.repl[d][1]:.0f} s after it was replaced')
