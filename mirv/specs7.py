"""Validation: the report (src/validation/report.rs)."""
import z3
from .values import *
from .engine import *
from .models import sel, qv, mappos
from .specs import *

REP = 'validation::report::ValidationReport'; RREP = 'validation::report::RepositoryReport'; VCC = 'validation::report::ValidatedCaCertificate'
VI = 'std::vec::Vec<validation::report::ValidationIssue>'; VC = 'std::vec::Vec<validation::report::ValidatedCaCertificate>'
COUNTS = ('nr_ca_certs', 'nr_roas', 'nr_vrps', 'nr_aspas', 'nr_router_certs')
class Rp:
    """vocabulary of reports"""
    def __init__(s, e):
        s.e = e; T = e.T
        s.issue = T.sort('validation::report::ValidationIssue'); s.cert = T.sort(VCC); s.rrep = T.sort(RREP)
        s.isin_i = s.member(VI, 'issue'); s.isin_c = s.member(VC, 'cert')
        m = V(e, z3.Const('m', T.sort(REP)), REP).rrdp_repositories.z
        s.key = T.map_ops(m)[0].sort().domain()
    def member(s, ty, nm):
        """x is in the vector v, with a witness"""
        e = s.e; vs = e.T.sort(ty); v = z3.Const('v', vs); ln, arr = e.T.vec_ops(v); es = arr.sort().range()
        x = z3.Const('x', es); i = z3.Int('mi')
        f = z3.Function('isin_' + nm, vs, es, B); w = z3.Function('at_' + nm, vs, es, I)
        e.axiom(z3.ForAll([v, i], z3.Implies(z3.And(0 <= i, i < ln), f(v, sel(arr, i))), patterns=[z3.MultiPattern(sel(arr, i), f(v, sel(arr, i)))]), ['isin_' + nm])
        e.axiom(z3.ForAll([v, x], z3.Implies(f(v, x), z3.And(0 <= w(v, x), w(v, x) < ln, sel(arr, w(v, x)) == x)), patterns=[f(v, x)]), ['isin_' + nm])
        e.axiom(z3.ForAll([v, x, i], z3.Implies(z3.And(0 <= i, i < ln, sel(arr, i) == x), f(v, x)), patterns=[z3.MultiPattern(f(v, x), sel(arr, i))]), ['isin_' + nm])
        return f
    def vrps(s, c):
        """number of VRPs of a certificate"""
        return z3.Function('nr_vrps_of', s.cert, I)(c.z)
    def counts(s, c):
        """what a certificate adds to the counts of its repository"""
        return dict(nr_ca_certs=c.children.len, nr_roas=c.roas.len, nr_vrps=s.vrps(c), nr_aspas=c.aspas.len, nr_router_certs=c.router_certs.len)
def build(e, S):
    g = e.G; K = g.K; T = e.T
    try: r = e.Rp = Rp(e)
    except (KeyError, Unsupported, LostAnchor): return S
    zero = z3.IntVal(0)
    vsum = lambda c: flat(c)
    def flat(c):
        """the count which the code takes over all VRPs of all ROAs"""
        rs = c.roas; es = rs.at(zero).z.sort()
        probe = z3.Const('probe:' + es.sexpr(), es)
        t = V(e, probe, rs.ety).vrps.z
        return e.uf('flatcount:' + t.sexpr().replace(' ', '').replace('\n', ''), [rs.z], 'usize')
    c0 = V(e, z3.Const('c', r.cert), VCC)
    e.axiom(z3.ForAll([c0.z], z3.And(r.vrps(c0) == flat(c0), r.vrps(c0) >= 0), patterns=[r.vrps(c0)]), ['nr_vrps_of'])
    def small(x, *reps):
        """no count reaches the range of its type (assumption)"""
        return z3.And(*[z3.And(getattr(q, f).z >= 0, getattr(q, f).z <= 2**61) for q in reps for f in COUNTS])
    def pc_req(x):
        if not x.applying: yield 'counts are in range', (), small(x, x.of(RREP))
    def issues_in(a, b): 
        v = z3.Const('vi', r.issue)
        return z3.ForAll([v], z3.Implies(r.isin_i(a, v), r.isin_i(b, v)), patterns=[r.isin_i(a, v)])
    def onlyfrom(new, *olds):
        v = z3.Const('vi', r.issue)
        return z3.ForAll([v], z3.Implies(r.isin_i(new, v), z3.Or(*[r.isin_i(o, v) for o in olds])), patterns=[r.isin_i(new, v)])
    def pr_ens(x):
        s, s2, c = x.a(0), x.a2(0), x.of(VCC)
        for f, n in r.counts(c).items(): yield f'{f} is added up', ('C17',), getattr(s2, f).z == getattr(s, f).z + n
        yield 'issues so far are kept', ('C17',), issues_in(s.issues.z, s2.issues.z)
        yield 'issues of the certificate are added', ('C17',), issues_in(c.issues.z, s2.issues.z)
        yield 'no other issues', ('C17',), onlyfrom(s2.issues.z, s.issues.z, c.issues.z)
    S.add(RREP + '::process_cert', ['&mut ' + RREP, VCC], pc_req, pr_ens)
    def ao_req(x):
        if not x.applying: yield 'counts are in range', (), small(x, x.a(0), x.a(1))
    def ao_ens(x):
        s, s2, o = x.a(0), x.a2(0), x.a(1)
        for f in COUNTS: yield f'{f} is added up', ('C17',), getattr(s2, f).z == getattr(s, f).z + getattr(o, f).z
        yield 'issues so far are kept', ('C17',), issues_in(s.issues.z, s2.issues.z)
        yield 'issues of the other are added', ('C17',), issues_in(o.issues.z, s2.issues.z)
        yield 'no other issues', ('C17',), onlyfrom(s2.issues.z, s.issues.z, o.issues.z)
    S.add(RREP + '::add_other', ['&mut ' + RREP, RREP], ao_req, ao_ens)
    # ---- a report: counts, issues and certificates
    k = z3.Const('rk', r.key); vi = z3.Const('vi', r.issue); vc = z3.Const('vc', r.cert)
    repo = lambda R: R.rrdp_repositories
    def cnt(R, f, k): return z3.If(repo(R).has(k), getattr(repo(R).get(k), f).z, zero)
    def iss(R, k, v): return z3.And(repo(R).has(k), r.isin_i(repo(R).get(k).issues.z, v))
    def hask(R, k): return repo(R).has(k)
    def crt(R, c): return r.isin_c(R.certs.z, c)
    def hs(R): return sel(T.map_ops(repo(R).z)[0], k)
    def parts(a, c, more):
        """c is a and more: more gives (count, issue, key, certificate) of what is added"""
        mc, mi, mk, mx = more
        yield 'repositories', z3.ForAll([k], hask(c, k) == z3.Or(hask(a, k), mk(k)), patterns=[hs(c), hs(a)])
        for f in COUNTS: yield f, z3.ForAll([k], cnt(c, f, k) == cnt(a, f, k) + mc(f, k), patterns=[hs(c), hs(a)])
        yield 'issues', z3.ForAll([k, vi], z3.Implies(z3.Or(iss(a, k, vi), mi(k, vi)), iss(c, k, vi)), patterns=[r.isin_i(repo(a).get(k).issues.z, vi)] + mi(None, vi))
        yield 'only those issues', z3.ForAll([k, vi], z3.Implies(iss(c, k, vi), z3.Or(iss(a, k, vi), mi(k, vi))), patterns=[r.isin_i(repo(c).get(k).issues.z, vi)])
        yield 'certificates', z3.ForAll([vc], z3.Implies(z3.Or(crt(a, vc), mx(vc)), crt(c, vc)), patterns=[crt(a, vc)] + mx(None))
        yield 'only those certificates', z3.ForAll([vc], z3.Implies(crt(c, vc), z3.Or(crt(a, vc), mx(vc))), patterns=[crt(c, vc)])
    def ofrep(b):
        return (lambda f, k: cnt(b, f, k), lambda k, v: [r.isin_i(repo(b).get(K_).issues.z, v)] if k is None else iss(b, k, v), lambda k: hask(b, k), lambda c: [crt(b, vc)] if c is None else crt(b, c))
    K_ = k
    def ofcert(c):
        u = c.ca_cert_info.sia_rrdp
        here = lambda k: z3.And(u.is_('Some'), k == r.key.constructor(0)(g.uristr(u.some.z)))
        n = r.counts(c)
        return (lambda f, k: z3.If(here(k), n[f], zero), lambda k, v: [] if k is None else z3.And(here(k), r.isin_i(c.issues.z, v)), here, lambda x: [] if x is None else x == c.z)
    def merged(a, b, c): return parts(a, c, ofrep(b))
    def added(a, x, c): return parts(a, c, ofcert(x))
    r.merged, r.added, r.cnt, r.iss, r.hask, r.crt = merged, added, cnt, iss, hask, crt
    def smallrep(R): return z3.And(*[z3.ForAll([k], z3.Implies(hask(R, k), z3.And(getattr(repo(R).get(k), f).z >= 0, getattr(repo(R).get(k), f).z <= 2**60)), patterns=[hs(R)]) for f in COUNTS])
    e.world['found'] = lambda e: z3.Const('w_found', T.sort(REP))
    e.skipframe.add('found')
    found = lambda x, i=0: V(e, x.w2('found') if i else x.w('found'), REP)
    def ac_req(x):
        if not x.applying: yield 'counts are in range', (), smallrep(x.of(REP))
    def ac_ens(x):
        i = x.ix(REP); s, s2, c = x.a(i), x.a2(i), x.of(VCC)
        for n, f in added(s, c, s2): yield f'{n}: as before and of the certificate', ('C17',), f
        yield 'the certificate is recorded', ('C17',), crt(s2, c.z)
        if not x.proving:
            for n, f in added(found(x), c, found(x, 1)): yield f'{n} found', (), f
    S.add(REP + '::add_cert', ['&mut ' + REP, VCC], ac_req, ac_ens, mods=('found',))
    def aor_req(x):
        if not x.applying: yield 'counts are in range', (), z3.And(smallrep(x.a(0)), smallrep(x.a(1)))
    def aor_ens(x):
        for n, f in merged(x.a(0), x.a(1), x.a2(0)): yield f'{n}: as before and of the other', ('C17',), f
    def aor_inv(lc):
        x = e.rootctx; s0 = V(e, e.deref(lc.entry, x.args[0]), REP); s = V(e, e.deref(lc.st, x.args[0]), REP); o = x.a(1)
        for c, v, oo in lc.iters:
            it = lc.flat(v)
            if it.seq is None: continue
            p = mappos(e, it.seq, r.key)(k)
            done = z3.And(hask(o, k), p < it.idx)
            pat = [hs(s)]
            yield 'keys', z3.ForAll([k], hask(s, k) == z3.Or(hask(s0, k), done), patterns=pat)
            for f in COUNTS: yield f, z3.ForAll([k], cnt(s, f, k) == cnt(s0, f, k) + z3.If(done, cnt(o, f, k), zero), patterns=pat)
            yield 'issues', z3.ForAll([k, vi], z3.Implies(z3.Or(iss(s0, k, vi), z3.And(done, iss(o, k, vi))), iss(s, k, vi)), patterns=[r.isin_i(repo(s0).get(k).issues.z, vi), r.isin_i(repo(o).get(k).issues.z, vi)])
            yield 'only those issues', z3.ForAll([k, vi], z3.Implies(iss(s, k, vi), z3.Or(iss(s0, k, vi), z3.And(done, iss(o, k, vi)))), patterns=[r.isin_i(repo(s).get(k).issues.z, vi)])
            yield 'certificates', s.certs.z == s0.certs.z
    S.add(REP + '::add_other', ['&mut ' + REP, REP], aor_req, aor_ens, invs=[('', aor_inv)])
    return S
