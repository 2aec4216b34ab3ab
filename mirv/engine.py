"""Forward symbolic execution of rustc MIR with contracts: generates the verification conditions."""
import z3, os, sys, time, collections
from .values import *

class LostAnchor(Exception):
    """a specification names something the current source no longer has"""
class Budget(Exception):
    pass

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
UNIT = Agg('()', 0, [])

def And(*a):
    a = [x for x in a if not z3.is_true(x)]
    return z3.And(*a) if len(a) > 1 else (a[0] if a else TRUE)

def samed(d, v): return d == v or d < 0 and any(d + 2**k == v for k in (8, 16, 32, 64, 128))

class St:
    __slots__ = ('cells', 'pc', 'seen', 'taint', 'log')
    def __init__(s):
        s.cells, s.pc, s.seen, s.taint, s.log = {}, [], set(), frozenset(), None
    def copy(s):
        n = St()
        n.cells, n.pc, n.seen, n.taint, n.log = dict(s.cells), list(s.pc), set(s.seen), s.taint, s.log
        return n
    def assume(s, *fs):
        for f in fs:
            if isinstance(f, bool): f = z3.BoolVal(f)
            if z3.is_true(f): continue
            k = f.get_id()
            if k in s.seen: continue
            s.seen.add(k); s.pc.append(f)
    def touch(s, why):
        s.taint = s.taint | {why}

class Obl:
    __slots__ = ('fn', 'name', 'tags', 'pc', 'goal', 'taint', 'at', 'kind', 'res', 'model', 'time', 'sure')
    def __init__(s, fn, name, tags, pc, goal, taint, at, kind):
        s.fn, s.name, s.tags, s.pc, s.goal, s.taint, s.at, s.kind = fn, name, tuple(tags), pc, goal, taint, at, kind
        s.res = None; s.model = None; s.time = 0; s.sure = False

class Cfg:
    """control flow facts of one body"""
    def __init__(s, b):
        bl = b['blocks']
        s.succ = {}
        for i, x in enumerate(bl):
            if not x: s.succ[i] = []; continue
            t = x['t']; k = t['t']
            if k in ('goto', 'drop', 'assert'): n = [t['to']]
            elif k == 'call': n = [t['to']] if t.get('to') is not None else []
            elif k == 'switch': n = [y[1] for y in t['v']] + ([t['else']] if t.get('else') is not None else [])
            else: n = []
            s.succ[i] = [y for y in n if y is not None and bl[y]]
        # dominators
        order, seen = [], set()
        st = [(0, iter(s.succ[0]))]; seen.add(0)
        while st:
            n, it = st[-1]
            for m in it:
                if m not in seen:
                    seen.add(m); st.append((m, iter(s.succ[m]))); break
            else:
                order.append(n); st.pop()
        s.rpo = order[::-1]
        num = {n: i for i, n in enumerate(s.rpo)}
        s.num = num
        pred = collections.defaultdict(list)
        for n in s.rpo:
            for m in s.succ[n]: pred[m].append(n)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for n in s.rpo[1:]:
                ps = [p for p in pred[n] if p in idom]
                if not ps: continue
                d = ps[0]
                for p in ps[1:]:
                    a, c = p, d
                    while a != c:
                        while num[a] > num[c]: a = idom[a]
                        while num[c] > num[a]: c = idom[c]
                    d = a
                if idom.get(n) != d: idom[n] = d; ch = True
        def dom(a, n):
            while True:
                if n == a: return True
                if n == 0: return False
                n = idom[n]
        s.loops = {}
        for n in s.rpo:
            for m in s.succ[n]:
                if dom(m, n):
                    body = s.loops.setdefault(m, {m})
                    w = [n]
                    while w:
                        x = w.pop()
                        if x in body: continue
                        body.add(x); w.extend(pred[x])
                elif num[m] <= num[n]:
                    raise Unsupported('irreducible control flow')
        # liveness of locals
        use, de = {}, {}
        for i in s.rpo:
            u, d = set(), set()
            def place(p, w=False):
                if p[1] or not w: 
                    if p[0] not in d: u.add(p[0])
                    for q in p[1]:
                        if q[0] == 'i' and q[1] not in d: u.add(q[1])
                if w and not p[1]: d.add(p[0])
            def opnd(o):
                if o and o.get('o') in ('copy', 'move'): place(o['p'])
            def rv(v):
                for k in ('a', 'b'):
                    x = v.get(k)
                    if isinstance(x, dict): opnd(x)
                    elif isinstance(x, list):
                        for y in x:
                            if isinstance(y, dict): opnd(y)
                if 'p' in v: place(v['p'])
            for st in bl[i]['s']:
                if st['s'] == '=': rv(st['v']); place(st['p'], True)
                elif st['s'] == 'sd': place(st['p'])
            t = bl[i]['t']
            for k in ('d', 'c'):
                if isinstance(t.get(k), dict): opnd(t[k])
            if t['t'] == 'call':
                for a in t['a']: opnd(a)
                opnd(t['f']); place(t['d'], True)
            if t['t'] == 'drop': place(t['p'])
            if t['t'] == 'ret': u.add(0)
            use[i], de[i] = u, d
        s.live = {i: set() for i in s.rpo}
        ch = True
        while ch:
            ch = False
            for i in reversed(s.rpo):
                o = set()
                for m in s.succ[i]: o |= s.live[m]
                n = use[i] | (o - de[i])
                if n != s.live[i]: s.live[i] = n; ch = True

FRESH = __import__('re').compile(r'!\d+$|\dsk\d_|^sk\d_|^w_|^(fs|ex|now)0$')
ARG = __import__('re').compile(r'a\d+!\d+$')
class Engine:
    def __init__(s, dumps, only=None):
        s.T = Types()
        s.fns = {}
        for d in dumps:
            s.T.load(d['types'])
            for k, v in d['fns'].items(): s.fns.setdefault(k, v)
        s.bypath = collections.defaultdict(list)
        for k, v in s.fns.items():
            if not v['test']: s.bypath[v['path']].append(k)
        s.cfgs = {}
        s.obls = []
        s.contracts = {}     # path -> Spec
        s.guards = []
        s.invs = []          # global candidate invariants
        s.models = {}
        s.prefix = []
        s.axioms = []        # (formula)
        s.litstr = {}
        s.frame = 0
        s.depth = 0
        s.quiet = 0
        s.root = None
        s.curat = ''
        s.world = {}         # name -> sort thunk
        s.stats = collections.Counter()
        s.unmod = collections.Counter()
        s.usedmodels = collections.Counter()
        s.usedcontracts = collections.Counter()
        s.inlined = collections.Counter()
        s.deadline = None; s.rootspec = None; s.skipframe = set()
        s.feas = z3.Solver(); s.feas.set('timeout', 400)
        s.fcache = {}
        s.skip_contract = set()
        s.rawbytes = {}
        s.litfacts = []
        s.globinvs, s.globguards = [], []
        s.ghostinit = lambda st: []
    # ---- obligations
    def oblige(s, st, name, goal, tags, kind='assert', at=None):
        if s.quiet: return
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if z3.is_true(goal): 
            s.stats['trivial'] += 1
            s.obls.append(Obl(s.root, name, tags, (), goal, frozenset(), at or s.curat, kind)); return
        s.obls.append(Obl(s.root, name, tags, tuple(st.pc), goal, st.taint, at or s.curat, kind))
    # ---- feasibility
    def feasible(s, st, extra=None):
        if s.deadline and time.time() > s.deadline: raise Budget('time budget')
        fs = [f for f in st.pc if not s.hasq(f)]
        if extra is not None: fs.append(extra)
        key = tuple(sorted(f.get_id() for f in fs))
        if key in s.fcache: return s.fcache[key][0]
        s.feas.push()
        s.feas.add(*fs)
        s.feas.add(*s.ground_axioms())
        r = s.feas.check() != z3.unsat
        s.feas.pop()
        s.stats['feas'] += 1
        s.fcache[key] = (r, fs)
        return r
    def ground_axioms(s):
        ls = list(s.litstr.values())
        return [z3.Distinct(*ls)] if len(ls) > 1 else []
    def hasq(s, f):
        k = f.get_id()
        c = s.__dict__.setdefault('qcache', {})
        if k in c: return c[k][0]
        r = False
        seen, w = set(), [f]
        while w:
            x = w.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): r = True; break
            w.extend(x.children())
        c[k] = (r, f)
        return r
    # ---- values and places
    def lit(s, t):
        if t not in s.litstr:
            srt = s.T.sort('str')
            s.litstr[t] = z3.Const('"' + t + '"', srt)
        return s.litstr[t]
    def litbytes(s, b):
        nm = 'b"' + str(b) + '"'
        s.rawbytes[nm] = b
        return z3.Const(nm, s.T.sort('std::vec::Vec<u8>'))
    def uf(s, name, args, rty=None, rsort=None):
        r = rsort if rsort is not None else s.T.sort(rty)
        if not args: return s.T.uf(name, [], r)
        return s.T.uf(name, [a.sort() for a in args], r)(*args)
    def z(s, v, ty=None):
        if isinstance(v, z3.ExprRef): return v
        if isinstance(v, bool): return z3.BoolVal(v)
        if isinstance(v, int): return z3.IntVal(v)
        if isinstance(v, Agg): return s.T.to_z3(v, ty or v.ty)
        if isinstance(v, Discr): return s.T.discr_int(v)
        raise Unsupported(f'not a solver value: {v!r}')
    def deref(s, st, v, ty=None):
        """the value behind a (possibly mutable) reference value"""
        while isinstance(v, Ref):
            v = s.getpath(st.cells[v.cell], v.path)
        return v
    def tynorm(s, ty):
        return s.T.strip(ty)
    def getpath(s, v, path):
        for p in path:
            if isinstance(v, Ref): raise Unsupported('path through a reference')
            if p[0] == 'f':
                v = s.T.field(v, p[1], p[2], p[3])
            elif p[0] == 'i':
                v = s.vget(v, p[1])
            elif p[0] == 'm':
                dom, val, n = s.T.map_ops(v)
                v = z3.Select(val, p[1])
            else: raise Unsupported('path ' + p[0])
        return v
    def vget(s, v, i):
        if isinstance(v, Agg):
            if z3.is_int_value(i): return v.fs[i.as_long()]
            raise Unsupported('symbolic index of aggregate')
        ln, arr = s.T.vec_ops(v)
        return z3.simplify(z3.Select(arr, i)) if z3.is_int_value(i) else z3.Select(arr, i)
    def putpath(s, v, ty, path, x):
        if not path: return x
        p = path[0]
        if p[0] == 'f':
            # the place may be uninitialised (assembled field by field)
            bty = p[4]
            old = None if v is None else s.T.field(v, p[1], p[2], p[3])
            n = x if len(path) == 1 else s.putpath(old, p[3], path[1:], x)
            if v is None: raise Unsupported('partial initialisation')
            return s.T.with_field(v, bty, p[1], p[2], n)
        if p[0] == 'i':
            ln, arr = s.T.vec_ops(v)
            n = s.z(x if len(path) == 1 else s.putpath(z3.Select(arr, p[1]), p[2], path[1:], x), p[2])
            return s.T.mk_vec(v.sort(), ln, z3.Store(arr, p[1], n))
        if p[0] == 'm':
            dom, val, n = s.T.map_ops(v)
            y = s.z(x if len(path) == 1 else s.putpath(z3.Select(val, p[1]), p[2], path[1:], x), p[2])
            return v.sort().constructor(0)(dom, z3.Store(val, p[1], y), n)
        raise Unsupported('path ' + p[0])
    def resolve(s, st, b, fr, place):
        """-> (cell, path, type) of a place; cell None means a plain value (third item)"""
        l, projs = place
        ty = b['locals'][l]
        cell, path = f'{fr}.{l}', ()
        val = None      # when the base is a value behind an erased reference
        variant = 0
        for q in projs:
            k = q[0]
            if k == '*':
                i = s.T.info(ty)
                isbox = i['k'] == 'adt'
                cur = val if val is not None else None
                if cur is None and (i['k'] in ('ref', 'ptr')):
                    cur = s.getpath(st.cells[cell], path) if cell in st.cells else None
                    if isinstance(cur, Ref):
                        cell, path, val = cur.cell, cur.path, None
                    else:
                        val = cur; cell = None; path = ()
                        if cur is None: raise Unsupported('dereference of uninitialised local')
                elif isinstance(cur, Ref):
                    cell, path, val = cur.cell, cur.path, None
                # box: erased
                if i['k'] in ('ref', 'ptr'): ty = i['t']
                elif isbox: ty = i['args'][0]
                else: raise Unsupported(f'deref of {ty}')
                variant = 0
            elif k == 'f':
                fty = q[2]
                bty = s.T.strip(ty)
                # Box internals and the like
                if s.T.info(ty)['k'] == 'adt' and s.T.info(ty)['path'] in ('std::boxed::Box', 'std::ptr::Unique', 'std::ptr::NonNull', 'std::mem::ManuallyDrop', 'std::mem::MaybeDangling'):
                    ty = fty; continue
                if cell is None: val = s.T.field(val, variant, q[1], fty)
                else: path = path + (('f', variant, q[1], fty, bty),)
                ty = fty; variant = 0
            elif k == 'd': variant = q[1]
            elif k == 'i':
                ix = s.z(st.cells[f'{fr}.{q[1]}'])
                et = s.T.info(s.T.strip(ty))
                et = et['t'] if 't' in et else et['args'][0]
                if cell is None: val = s.vget(val, ix)
                else: path = path + (('i', ix, et),)
                ty = et
            elif k == 'ci':
                base = val if cell is None else s.getpath(st.cells[cell], path)
                et = s.T.info(s.T.strip(ty)); et = et['t'] if 't' in et else et['args'][0]
                if q[3]:
                    if isinstance(base, Agg): ix = z3.IntVal(len(base.fs) - q[1])
                    else: ix = s.T.vec_ops(base)[0] - q[1]
                else: ix = z3.IntVal(q[1])
                if cell is None: val = s.vget(val, ix)
                else: path = path + (('i', ix, et),)
                ty = et
            else: raise Unsupported(f'projection {k}')
        if cell is None: return None, val, ty
        return cell, path, ty
    def read(s, st, b, fr, place):
        c, p, ty = s.resolve(st, b, fr, place)
        if c is None: v = p
        else:
            if c not in st.cells: raise Unsupported(f'read of uninitialised {c} ({ty})')
            v = s.getpath(st.cells[c], p)
        s.range_fact(st, v, ty)
        return v
    def range_fact(s, st, v, ty):
        if isinstance(v, z3.ArithRef) and not z3.is_int_value(v):
            i = s.T.info(ty)
            t = s.T.strip(ty)
            r = INTR.get(t)
            if r: st.assume(v >= r[0], v <= r[1])
            elif t == 'char': st.assume(v >= 0, v <= 0x10ffff)
    def write(s, st, cell, path, ty, v):
        if not path: st.cells[cell] = v
        else:
            st.cells[cell] = s.putpath(st.cells.get(cell), None, path, v)
        if st.log is not None:
            for l in st.log: l.add((cell, tuple(path)))
    def setw(s, st, name, v):
        s.write(st, 'w.' + name, (), None, v)
    def getw(s, st, name):
        return st.cells['w.' + name]
    def assign(s, st, b, fr, place, v):
        c, p, ty = s.resolve(st, b, fr, place)
        if c is None: raise Unsupported('write behind shared reference')
        s.write(st, c, p, ty, v)
    def newcell(s, st, v, name='t'):
        s.frame += 1
        c = f'{name}{s.frame}.c'
        st.cells[c] = v
        return c
    # ---- operands and rvalues
    def const(s, c):
        ty, v = c['ty'], c['v']
        i = s.T.info(ty)
        k = i['k']
        if k == 'fndef': return FnV(ty)
        if v == 'int':
            n = int(c['int'])
            if k == 'bool': return z3.BoolVal(n != 0)
            if k in ('int', 'char'):
                r = INTR.get(ty)
                if r and n > r[1]: n -= r[1] - r[0] + 1
                return z3.IntVal(n)
            if k == 'adt' and i['enum'] and all(not x['f'] for x in i['vs']):
                for j, x in enumerate(i['vs']):
                    if x['d'] == n: return Agg(ty, j, [])
            if k == 'adt' and i['enum'] and n == 0:
                # null pointer niche: the variant without fields
                no = [j for j, x in enumerate(i['vs']) if not x['f']]
                yes = [x for x in i['vs'] if x['f']]
                if len(no) == 1 and len(yes) == 1 and len(yes[0]['f']) == 1 and s.T.info(yes[0]['f'][0][1])['k'] in ('ref', 'ptr'):
                    return Agg(ty, no[0], [])
            if k == 'adt' and i['open'] and len(i['vs']) == 1:
                fs = [f for f in i['vs'][0]['f']]
                nz = [j for j, f in enumerate(fs) if f[1] in INTR or f[1] == 'bool']
                if len(fs) == 1: return Agg(ty, 0, [s.const({'ty': fs[0][1], 'v': 'int', 'int': n})])
            return s.uf(f'const:{c.get("named") or ""}:{n}:{ty}', [], ty)
        if v == 'adt':
            st = s.T.strip(ty)
            return Agg(st, c['variant'], [s.const(f) for f in c['fields']])
        if v == 'str': return s.lit(c['str'])
        if v == 'bytes': return s.litbytes(c['bytes'])
        if v == 'zst':
            if k == 'tuple': return Agg(ty, 0, [])
            if k == 'closure': return Agg(ty, 0, [])
            if k == 'adt' and i['open'] and i['vs'] and not i['vs'][0]['f']: return Agg(ty, 0, [])
            if k == 'adt' and not i['vs']: return Tok('zst', ty)
            if k == 'array': return s.mkarray(ty, [])
            return Tok('zst', ty)
        # indirect and pointer constants: one symbol per name
        nm = c.get('named')
        st = s.T.strip(ty)
        if s.T.info(st)['k'] == 'array' and str(c.get('int', '')) == '' and v in ('indirect', 'ptr') and not nm:
            return Tok('const', ty, str(c))
        if s.T.zable(st):
            return s.uf(f'const:{nm}', [], st) if nm else s.T.fresh(st, 'const')
        return Tok('const', ty, str(nm))
    def operand(s, st, b, fr, o):
        k = o['o']
        if k in ('copy', 'move'): return s.read(st, b, fr, o['p'])
        if k == 'const': return s.const(o['c'])
        if k == 'rtcheck': return FALSE
        raise Unsupported('operand ' + k)
    def opty(s, b, o):
        if o['o'] == 'const': return o['c']['ty']
        if o['o'] == 'rtcheck': return 'bool'
        l, projs = o['p']
        ty = b['locals'][l]
        for q in projs:
            if q[0] == '*':
                i = s.T.info(ty); ty = i['t'] if 't' in i else i['args'][0]
            elif q[0] == 'f': ty = q[2]
            elif q[0] in ('i', 'ci'):
                i = s.T.info(s.T.strip(ty)); ty = i['t'] if 't' in i else i['args'][0]
        return ty
    def mkarray(s, ty, items):
        i = s.T.info(s.T.strip(ty))
        et = i['t'] if 't' in i else i['args'][0]
        if s.T.canon(et) == 'u8':
            return s.uf('bytes:' + ','.join(str(x) for x in items), [], 'std::vec::Vec<u8>')
        if s.T.zable(et) and all(isinstance(x, (z3.ExprRef, Agg)) for x in items):
            try:
                es = s.T.sort(et)
                vs = s.T.sort('std::vec::Vec<' + et + '>')
                arr = s.T.uf('arr0:' + es.sexpr(), [], z3.ArraySort(z3.IntSort(), es))
                for j, x in enumerate(items): arr = z3.Store(arr, j, s.z(x, et))
                return s.T.mk_vec(vs, z3.IntVal(len(items)), arr)
            except Unsupported: pass
        return Agg(ty, 0, items)
    def rvalue(s, st, b, fr, v, dty):
        r = v['r']
        if r == 'use': return s.operand(st, b, fr, v['a'])
        if r == 'ref':
            if v.get('mut'):
                c, p, ty = s.resolve(st, b, fr, v['p'])
                if c is None:
                    return p     # mutable access behind erased pointers: value semantics (Box internals)
                return Ref(c, p, ty)
            return s.read(st, b, fr, v['p'])
        if r == 'cast':
            k = v['k']
            if k == 'BoxDerefTransmute': return s.read(st, b, fr, [v['a']['p'][0], []])
            a = s.operand(st, b, fr, v['a'])
            if k.startswith('IntToInt'):
                a = s.z(a); t = v['t']
                src = s.opty(b, v['a'])
                if isinstance(a, z3.BoolRef): a = z3.If(a, z3.IntVal(1), z3.IntVal(0)); src = 'u8'
                R, Q = INTR.get(t), INTR.get(s.T.strip(src))
                if R is None: return a
                if Q and Q[0] >= R[0] and Q[1] <= R[1]: return a
                n = R[1] - R[0] + 1
                m = (a - R[0]) % n + R[0]
                return z3.If(z3.And(a >= R[0], a <= R[1]), a, m)
            if k.startswith('PointerCoercion') or k.startswith('PtrToPtr') or k.startswith('Subtype'):
                return a
            if k.startswith('Transmute'):
                return z3.IntVal(0) if isinstance(a, Ref) and v['t'] == 'usize' else a
            raise Unsupported('cast ' + k)
        if r == 'bin': return s.binop(st, v['op'], s.operand(st, b, fr, v['a']), s.operand(st, b, fr, v['b']), s.opty(b, v['a']))
        if r == 'un':
            a = s.operand(st, b, fr, v['a'])
            if v['op'] == 'Not':
                a = s.z(a)
                if isinstance(a, z3.BoolRef): return z3.simplify(z3.Not(a))
                R = INTR.get(s.opty(b, v['a']))
                return R[1] - a if R[0] == 0 else -1 - a
            if v['op'] == 'Neg': return -s.z(a)
            if v['op'] == 'PtrMetadata':
                a = s.deref(st, a)
                if isinstance(a, Agg): return z3.IntVal(len(a.fs))
                return s.vlen(st, a)
            raise Unsupported('unary ' + v['op'])
        if r == 'discr':
            c, p, ty = s.resolve(st, b, fr, v['p'])
            val = p if c is None else s.getpath(st.cells[c], p)
            return Discr(val, s.T.strip(ty))
        if r == 'agg':
            items = [s.operand(st, b, fr, x) for x in v['a']]
            k = v['k']
            if k == 'array': return s.mkarray(dty, items)
            if k == 'tuple': return Agg(dty, 0, items)
            if k == 'adt': return Agg(s.T.strip(dty), v.get('v', 0), items)
            if k == 'closure': return Agg(dty, 0, items)
            raise Unsupported('aggregate ' + k)
        if r == 'repeat':
            raise Unsupported('repeat')
        raise Unsupported('rvalue ' + str(r) + ' ' + str(v)[:80])
    def vlen(s, st, v):
        d = s.T.dtinfo(v)
        if d and d[0] == 'vec':
            ln, _ = s.T.vec_ops(v)
        elif v.sort().name() in ('Bytes', 'Str'):
            ln = s.uf('len', [v], 'usize')
        else: raise Unsupported(f'length of {v.sort()}')
        if not z3.is_int_value(ln): st.assume(ln >= 0, ln <= 2**62)
        return ln
    def binop(s, st, op, a, b, ty):
        t = s.T.strip(ty)
        if op in ('Eq', 'Ne') and (isinstance(a, Discr) or isinstance(b, Discr)):
            a, b = s.z(a), s.z(b)
        a, b = s.z(a), s.z(b)
        R = INTR.get(t)
        if op in ('Eq', 'Ne'):
            if a.sort() != b.sort(): raise Unsupported('comparison of different sorts')
            r = a == b
            r = r if op == 'Eq' else z3.Not(r)
            return z3.simplify(r)
        if isinstance(a, z3.BoolRef):
            if op == 'BitAnd': return z3.simplify(z3.And(a, b))
            if op == 'BitOr': return z3.simplify(z3.Or(a, b))
            if op == 'BitXor': return z3.simplify(z3.Xor(a, b))
            if op in ('Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
                a, b = z3.If(a, 1, 0), z3.If(b, 1, 0)
        if op == 'Lt': return z3.simplify(a < b)
        if op == 'Le': return z3.simplify(a <= b)
        if op == 'Gt': return z3.simplify(a > b)
        if op == 'Ge': return z3.simplify(a >= b)
        if op == 'Cmp':
            o = s.T.sort('std::cmp::Ordering')
            c = [s.T.to_z3(Agg('std::cmp::Ordering', j, []), 'std::cmp::Ordering') for j in range(3)]
            return z3.simplify(z3.If(a < b, c[0], z3.If(a == b, c[1], c[2])))
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            x = {'Add': a + b, 'Sub': a - b, 'Mul': a * b}[base]
            if op.endswith('WithOverflow'):
                return Agg(f'({t}, bool)', 0, [z3.simplify(x), z3.simplify(z3.Or(x < R[0], x > R[1]))])
            if 'Unchecked' in op: return x
            n = R[1] - R[0] + 1
            return z3.If(z3.And(x >= R[0], x <= R[1]), x, (x - R[0]) % n + R[0])
        if base in ('Div', 'Rem') and R:
            if R[0] == 0: return a / b if base == 'Div' else a % b
            q = z3.If(a >= 0, a / b, -((-a) / b))
            return q if base == 'Div' else a - q * b
        if R and base in ('Shl', 'Shr', 'BitAnd', 'BitOr', 'BitXor'):
            a, b = z3.simplify(a), z3.simplify(b)
            n = R[1] - R[0] + 1; w = n.bit_length() - 1
            if base in ('Shl', 'Shr') and z3.is_int_value(b):
                k = b.as_long() % w
                if base == 'Shr': return z3.simplify(a / 2**k)
                x = a * 2**k
                return z3.simplify(z3.If(z3.And(x >= R[0], x <= R[1]), x, (x - R[0]) % n + R[0]))
            if base == 'BitAnd' and R[0] == 0 and z3.is_int_value(b) and (b.as_long() + 1) & b.as_long() == 0: return z3.simplify(a % (b.as_long() + 1))
            if base == 'BitAnd' and R[0] == 0 and z3.is_int_value(a) and (a.as_long() + 1) & a.as_long() == 0: return z3.simplify(b % (a.as_long() + 1))
            if z3.is_int_value(a) and z3.is_int_value(b):
                x = {'BitAnd': lambda p, q: p & q, 'BitOr': lambda p, q: p | q, 'BitXor': lambda p, q: p ^ q}[base](a.as_long(), b.as_long()) if base[0] == 'B' else 0
                return z3.IntVal(x)
            v = s.uf('bits:' + base + ':' + t, [a, b], t)
            st.assume(v >= R[0], v <= R[1])
            if base == 'BitAnd' and R[0] == 0: st.assume(v <= a, v <= b)
            if base == 'BitOr' and R[0] == 0: st.assume(v >= a, v >= b, v <= a + b)
            return v
        raise Unsupported('operator ' + op)
    # ---- body execution
    def cfg(s, fid):
        if fid not in s.cfgs: s.cfgs[fid] = Cfg(s.fns[fid])
        return s.cfgs[fid]
    def run_fn(s, fid, st, args):
        """inlines a body: list of (state, result)"""
        b = s.fns[fid]
        if s.depth > 60: raise Unsupported('recursion: ' + b['path'])
        s.frame += 1
        fr = f'{s.frame}'
        if len(args) != b['argc']:
            raise Unsupported(f'arity of {b["path"]}')
        for i, a in enumerate(args): st.cells[f'{fr}.{i + 1}'] = a
        s.depth += 1
        try:
            rets, exits, backs = s.region(fid, fr, 0, st, None, None)
        finally: s.depth -= 1
        out = []
        for st2, v in rets:
            keep = s.reach(st2, v, fr)
            for k in [k for k in st2.cells if k.startswith(fr + '.') and k not in keep]: del st2.cells[k]
            out.append((st2, v))
        return out
    def refs(s, v, acc):
        if isinstance(v, Ref): acc.add(v.cell)
        elif isinstance(v, Agg):
            for x in v.fs: s.refs(x, acc)
        elif isinstance(v, It):
            for x in (v.ref, v.inner, v.fn, v.seq): s.refs(x, acc)
        elif isinstance(v, (list, tuple)):
            for x in v: s.refs(x, acc)
        elif isinstance(v, Tok):
            for x in v.a: s.refs(x, acc)
    def reach(s, st, v, fr):
        acc = set(); s.refs(v, acc)
        w = list(acc)
        while w:
            c = w.pop()
            a2 = set(); s.refs(st.cells.get(c), a2)
            for x in a2 - acc: acc.add(x); w.append(x)
        return acc
    def region(s, fid, fr, start, st, body, header):
        b = s.fns[fid]; cfg = s.cfg(fid)
        rets, exits, backs = [], [], []
        work = [(start, st, True)]
        while work:
            bb, st, first = work.pop()
            if s.deadline and time.time() > s.deadline: raise Budget('time budget')
            if body is not None and not (first and bb == start and header == bb):
                if bb == header: backs.append(st); continue
                if bb not in body: exits.append((bb, st)); continue
            if bb in cfg.loops and not (bb == header and first):
                r2, e2 = s.loop(fid, fr, bb, st)
                rets += r2
                work += [(x, y, False) for x, y in e2]
                continue
            for nx in s.block(fid, fr, b, bb, st):
                if nx[0] == 'ret': rets.append((nx[1], nx[2]))
                else: work.append((nx[1], nx[2], False))
            s.stats['blocks'] += 1
            if s.stats['blocks'] > 400000: raise Budget('block budget')
        return rets, exits, backs
    def block(s, fid, fr, b, bb, st):
        bl = b['blocks'][bb]
        for x in bl['s']:
            k = x['s']
            if k == '=':
                s.curat = x.get('at') or s.curat
                c, p, ty = s.resolve_w(st, b, fr, x['p'])
                v = s.rvalue(st, b, fr, x['v'], ty)
                s.write(st, c, p, ty, v)
            elif k == 'dead':
                pass
            elif k == 'sd': raise Unsupported('set discriminant')
        t = bl['t']; k = t['t']
        if k == 'goto': return [('go', t['to'], st)]
        if k == 'drop':
            s.on_drop(st, b, fr, t)
            return [('go', t['to'], st)]
        if k == 'ret':
            v = st.cells.get(f'{fr}.0', UNIT)
            return [('ret', st, v)]
        if k == 'unreachable': return []
        if k == 'assert' and str(t['m']).startswith(('MisalignedPointer', 'NullPointer')): return [('go', t['to'], st)]     # pointers made by the compiler
        if k == 'assert':
            c = s.z(s.operand(st, b, fr, t['c']))
            c = c if t['e'] else z3.Not(c)
            c = z3.simplify(c)
            s.oblige(st, f'no panic: {str(t["m"])[:60]}', c, ('C20',), 'panic', t.get('at'))
            if z3.is_false(c): return []
            st.assume(c)
            return [('go', t['to'], st)]
        if k == 'switch': return s.switch(st, b, fr, t)
        if k == 'call': return s.call_term(fid, st, b, fr, t)
        raise Unsupported('terminator ' + k + str(t)[:100])
    def resolve_w(s, st, b, fr, place):
        c, p, ty = s.resolve(st, b, fr, place)
        if c is None: raise Unsupported('write behind shared reference')
        if p and c not in st.cells:
            # field by field initialisation of an aggregate
            lty = b['locals'][place[0]]
            vs = s.T.variants(lty)
            if len(vs) == 1:
                st.cells[c] = Agg(s.T.strip(lty), 0, [Tok('uninit')] * len(vs[0]['f']))
            else: raise Unsupported('partial initialisation')
        return c, p, ty
    def on_drop(s, st, b, fr, t):
        if 'LockFile' in t.get('ty', '') and s.T.head(t['ty']).endswith('LockFile'):
            h = s.models.get('drop:LockFile')
            if h: h(s, st, s.read(st, b, fr, t['p']) if f'{fr}.{t["p"][0]}' in st.cells else None)
    def switch(s, st, b, fr, t):
        v = s.operand(st, b, fr, t['d'])
        outs = []
        if isinstance(v, Discr):
            vs = s.T.variants(v.ty)
            if isinstance(v.val, Agg):
                d = vs[v.val.v]['d']
                for val, to in t['v']:
                    if samed(d, int(val)): return [('go', to, st)]
                return [('go', t['else'], st)] if t.get('else') is not None else []
            if not vs or s.T.dtinfo(v.val) is None:
                e = s.uf('discr', [v.val], 'isize')
                conds = [(e == int(val), to) for val, to in t['v']]
            else:
                conds = []
                for val, to in t['v']:
                    for j, x in enumerate(vs):
                        if samed(x['d'], int(val)):
                            conds.append((s.T.is_variant(v.val, v.ty, j), to)); break
        else:
            v = s.z(v)
            if isinstance(v, z3.BoolRef):
                conds = [((z3.Not(v) if int(val) == 0 else v), to) for val, to in t['v']]
            else:
                ty = s.opty(b, t['d']); R = INTR.get(s.T.strip(ty))
                conds = []
                for val, to in t['v']:
                    n = int(val)
                    if R and n > R[1]: n -= R[1] - R[0] + 1
                    conds.append((v == n, to))
        rest = []
        for c, to in conds:
            c = z3.simplify(c)
            rest.append(c)
            if z3.is_false(c): continue
            outs.append((c, to))
            if z3.is_true(c): break
        if t.get('else') is not None and not any(z3.is_true(c) for c in rest):
            e = z3.simplify(z3.And(*[z3.Not(c) for c in rest])) if rest else TRUE
            if not z3.is_false(e): outs.append((e, t['else']))
        res = []
        for i, (c, to) in enumerate(outs):
            if b['blocks'][to] is None: continue
            if b['blocks'][to]['t']['t'] == 'unreachable' and not b['blocks'][to]['s']: continue
            if len(outs) > 1 and not z3.is_true(c):
                if not s.feasible(st, c): continue
            n = st.copy() if i < len(outs) - 1 else st
            n.assume(c)
            res.append(('go', to, n))
        return res
    # ---- loops
    def livecells(s, fid, fr, bb, st):
        live = s.cfg(fid).live.get(bb, set())
        b = s.fns[fid]
        keep = {k for k in st.cells if not k.startswith(fr + '.') or int(k.rsplit('.', 1)[1]) in live}
        acc, w = set(keep), list(keep)
        while w:
            c = w.pop()
            r = set(); s.refs(st.cells.get(c), r)
            for x in r - acc: acc.add(x); w.append(x)
        return acc
    def loop(s, fid, fr, h, st0):
        b = s.fns[fid]; cfg = s.cfg(fid)
        body = cfg.loops[h]
        live = s.livecells(fid, fr, h, st0)
        for k in [k for k in st0.cells if k not in live]: del st0.cells[k]
        entry = st0
        at = s.curat
        mods = set()
        dropped = set()
        cands = None
        for rnd in range(40):
            st = entry.copy()
            log = set()
            st.log = (entry.log or []) + [log]
            lc = LoopCtx(s, entry, st, mods, fid, fr, h)
            s.havoc_mods(st, entry, mods)
            lc.setup()
            facts = lc.auto()
            cl = s.candidates(lc)
            cl = [(n, f) for n, f in cl if n not in dropped]
            st.assume(*facts)
            st.assume(*[f for _, f in cl])
            s.quiet += 1
            try: rets, exits, backs = s.region(fid, fr, h, st, body, h)
            finally: s.quiet -= 1
            # newly written cells
            newm = set()
            for c, p in log:
                if c not in entry.cells or c not in live: continue
                newm.add((c, s.modkey(p)))
            grown = s.normmods(mods | newm)
            if grown != mods:
                mods = grown; continue
            # candidates: entry and preservation
            bad = set()
            lce = LoopCtx(s, entry, entry, mods, fid, fr, h); lce.setup()
            ec = dict(s.candidates(lce))
            names = [n for n, _ in cl]
            for n in names:
                if n not in ec or not s.quick(entry, ec[n]): bad.add(n)
            for bs in backs:
                lcb = LoopCtx(s, entry, bs, mods, fid, fr, h); lcb.setup()
                bc = dict(s.candidates(lcb))
                for n in names:
                    if n in bad: continue
                    if n not in bc or not s.quick(bs, bc[n]): bad.add(n)
                lcb.check_shape()
            if bad:
                if os.environ.get('MIRV_DEBUG'): print('  dropped at', at, sorted(bad), file=sys.stderr)
                dropped |= bad; continue
            break
        else: raise Unsupported('loop does not stabilise')
        s.stats['loops'] += 1
        s.stats['loop rounds'] += rnd + 1
        # final pass, collecting obligations
        st = entry.copy()
        log = set(); st.log = (entry.log or []) + [log]
        lc = LoopCtx(s, entry, st, mods, fid, fr, h)
        s.havoc_mods(st, entry, mods)
        lc.setup()
        facts = lc.auto()
        cl = [(n, f) for n, f in s.candidates(lc) if n not in dropped]
        st.assume(*facts)
        st.assume(*[f for _, f in cl])
        rets, exits, backs = s.region(fid, fr, h, st, body, h)
        lce = LoopCtx(s, entry, entry, mods, fid, fr, h); lce.setup()
        ec = dict(s.candidates(lce))
        for n, _ in cl: s.oblige(entry, f'loop invariant on entry: {n}', ec[n], ('inv',), 'inv', at)
        for bs in backs:
            lcb = LoopCtx(s, entry, bs, mods, fid, fr, h); lcb.setup()
            bc = dict(s.candidates(lcb))
            for n, _ in cl: s.oblige(bs, f'loop invariant kept: {n}', bc[n], ('inv',), 'inv', at)
        # writes inside the loop must be seen by enclosing loops
        outs = []
        for bb, e in exits:
            e.log = entry.log
            outs.append((bb, e))
        ro = []
        for e, v in rets:
            e.log = entry.log; ro.append((e, v))
        if entry.log is not None:
            for l in entry.log: l |= {(c, p) for c, p in log}
        return ro, outs
    def modkey(s, p):
        k = []
        for q in p:
            if q[0] != 'f' or len(s.T.variants(q[4])) > 1: break
            k.append(q)
        return tuple(k)
    def normmods(s, m):
        out = set()
        for c, p in m:
            if any(c == c2 and p != p2 and p[:len(p2)] == p2 for c2, p2 in m): continue
            out.add((c, p))
        return out
    def havoc_mods(s, st, entry, mods):
        for c, p in sorted(mods, key=str):
            try: old = s.getpath(entry.cells[c], p)
            except Unsupported: old = None; 
            if old is None or isinstance(old, Tok):
                # several variants possible: forget the whole cell
                raise Unsupported('loop writes into an enum payload')
            new = s.havoc_value(st, old, p[-1][3] if p else None)
            st.cells[c] = s.putpath(st.cells[c], None, p, new) if p else new
    def havoc_value(s, st, v, ty=None):
        if isinstance(v, z3.ExprRef): return s.T.fresh_sort(v.sort(), 'h')
        if isinstance(v, Agg):
            if s.T.zable(v.ty):
                try: return s.T.fresh(v.ty, 'h')
                except Unsupported: pass
            return Agg(v.ty, v.v, [s.havoc_value(st, x) for x in v.fs])
        if isinstance(v, It):
            if v.kind in ('filter', 'map', 'enumerate', 'chain', 'skip', 'take', 'rev', 'peek'):
                return v.but(inner=s.havoc_value(st, v.inner), idx=s.T.fresh_sort(z3.IntSort(), 'ix') if v.idx is not None else None)
            return v.but(idx=s.T.fresh_sort(z3.IntSort(), 'ix'))
        if isinstance(v, (FnV, Tok, Ref)): return v
        if isinstance(v, Discr): return s.T.fresh_sort(z3.IntSort(), 'd')
        raise Unsupported(f'loop modifies {v!r}')
    def candidates(s, lc):
        out = []
        for name, f in s.invs:
            try:
                for k, e in f(lc): out.append((f'{name}{k}', e))
            except (LostAnchor, Unsupported, z3.Z3Exception): continue
        return out
    def quick(s, st, goal, ms=2000):
        """is the goal implied? (used to choose invariants; the final obligations are checked again)"""
        if z3.is_true(z3.simplify(goal)): return True
        key = ('q', tuple(sorted(f.get_id() for f in st.pc)), goal.get_id())
        if key in s.fcache: return s.fcache[key][0]
        r = s.prove(list(st.pc), goal, min(ms, 600), ematch=True)[0] == 'ok' or \
            s.prove(list(st.pc), goal, 600)[0] == 'ok' or \
            (ms > 600 and s.prove(list(st.pc), goal, ms, ematch=True)[0] == 'ok')
        s.fcache[key] = (r, (list(st.pc), goal))
        return r
    # ---- solving
    def prove(s, pc, goal, ms, want_model=False, ematch=False):
        if ematch:
            # instances found by matching only: quick to give up
            sol = z3.SimpleSolver(); sol.set('auto_config', False); sol.set('mbqi', False)
        else: sol = z3.Solver()
        sol.set('timeout', ms)
        fs = list(pc) + [z3.Not(goal)]
        sol.add(*fs)
        sol.add(*s.relevant(fs))
        r = sol.check()
        if r == z3.unsat: return 'ok', None
        if r == z3.sat: return 'sat', (sol.model() if want_model else None)
        why = sol.reason_unknown()
        return ('timeout' if 'timeout' in why or 'canceled' in why or 'resource' in why else 'unknown'), None
    def consts(s, f):
        return {n for n in s.symbols(f) if FRESH.search(n) and not ARG.match(n)}
    def slices(s, pc, goal):
        """ever larger parts of the path condition, the closest to the goal first"""
        num = lambda f: max([int(n.rsplit('!', 1)[1]) for n in s.consts(f) if '!' in n] + [-1])
        top = num(goal)
        last = 0
        for back in (True, False):
            if back and top < 0: continue
            # (what was introduced later than anything in the goal seldom matters)
            fs = [f for f in pc if num(f) <= top + 8] if back else pc
            have = s.consts(goal); keep = [not s.consts(f) for f in fs]
            for d in range(4 if back else 3):
                new = [i for i, f in enumerate(fs) if not keep[i] and s.consts(f) & have]
                for i in new: keep[i] = True
                if d and not new: break
                for i in new: have |= s.consts(fs[i])
                if all(keep) and not back: return
                if sum(keep) == last: continue
                last = sum(keep)
                yield [f for i, f in enumerate(fs) if keep[i]]
    def prove_sliced(s, pc, goal, ms, want_model=False):
        for sl in s.slices(pc, goal):
            if s.prove(sl, goal, min(ms, 1000), ematch=True)[0] == 'ok': return 'ok', None
        if s.prove(pc, goal, min(ms, 5000), ematch=True)[0] == 'ok': return 'ok', None
        return s.prove(pc, goal, ms, want_model)
    def symbols(s, f):
        c = s.__dict__.setdefault('symcache', {})
        k = f.get_id()
        if k in c: return c[k][0]
        out, seen, w = set(), set(), [f]
        while w:
            x = w.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x):
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED: out.add(d.name())
                w.extend(x.children())
            elif z3.is_quantifier(x): w.append(x.body())
        c[k] = (out, f)
        return out
    def relevant(s, fs):
        have = set()
        for f in fs: have |= s.symbols(f)
        ax = list(s.axioms)
        out = []
        ch = True
        while ch:
            ch = False
            for a in list(ax):
                req, f = a
                if req <= have:
                    ax.remove(a); out.append(f); ch = True
                    have |= s.symbols(f)
        ls = [v for k, v in s.litstr.items() if v.decl().name() in have]
        if len(ls) > 1: out.append(z3.Distinct(*ls))
        lits = [(k, v) for k, v in s.litstr.items() if v.decl().name() in have]
        for f in s.litfacts: out += f(s, lits, have)
        return out
    def axiom(s, f, need=None):
        """an axiom is used when all symbols named in need (or all its own) occur"""
        s.axioms.append((set(need) if need is not None else set(s.symbols(f)), f))
    # ---- calls
    def call_term(s, fid, st, b, fr, t):
        s.curat = t.get('at') or s.curat
        args = [s.operand(st, b, fr, a) for a in t['a']]
        f = t['f']
        dty = s.opty(b, {'o': 'copy', 'p': t['d']})
        if f['o'] == 'const':
            fi = s.T.info(f['c']['ty'])
            res = s.call(st, fi, args, [s.opty(b, a) for a in t['a']], dty, t)
        else:
            fv = s.operand(st, b, fr, f)
            if isinstance(fv, FnV):
                res = s.call(st, s.T.info(fv.ty), args, [s.opty(b, a) for a in t['a']], dty, t)
            else: raise Unsupported('indirect call')
        out = []
        for st2, v in res:
            if t.get('to') is None: continue
            c, p, ty = s.resolve_w(st2, b, fr, t['d'])
            s.write(st2, c, p, ty, v)
            out.append(('go', t['to'], st2))
        return out
    PANICS = ('core::panicking', 'std::rt::panic', 'std::rt::begin_panic', 'unwrap_failed', 'expect_failed', 'core::slice::index', 'std::process::exit', 'core::result::unwrap_failed', 'std::alloc::handle_alloc_error', 'core::cell::panic', 'core::str::slice_error_fail', 'std::panicking')
    def call(s, st, fi, args, atys, dty, t):
        if fi['k'] != 'fndef': raise Unsupported('call of ' + fi['k'])
        base, res = fi['base'], fi.get('res') or fi['base']
        diverges = t is not None and t.get('to') is None
        if diverges and (any(p in res or p in base for p in s.PANICS) or dty == '!'):
            if 'process::exit' in base:
                m = s.models.get('std::process::exit')
                if m: m(s, st, args)
                return []
            s.oblige(st, f'no panic: {base.split("::")[-1]}', FALSE, ('C20',), 'panic')
            return []
        if fi.get('shim') == 'ctor':
            i = s.T.info(s.T.strip(dty))
            nm = base.split('::')[-1]
            vs = s.T.variants(dty)
            for j, x in enumerate(vs):
                if x['n'] == nm or len(vs) == 1: return [(st, Agg(s.T.strip(dty), j, args))]
            raise Unsupported('constructor ' + base)
        if not fi.get('id') and not fi.get('rargs') and len(s.bypath.get(res, ())) == 1: fi = dict(fi, id=s.bypath[res][0])     # the program calling the library
        c = Call(s, st, fi, args, atys, dty, t)
        # contracts of the crate's own functions
        if fi.get('id') and fi['id'] in s.fns:
            body = s.fns[fi['id']]
            sp = s.contracts.get(body['path'])
            if sp and not sp.kw.get('inline') and body['path'] not in s.skip_contract and sp.fits(s, body):
                s.usedcontracts[(s.root, body['path'])] += 1
                return s.apply_contract(sp, body, c)
        m = s.models.get(res) or s.models.get(base)
        if m is None and base == 'std::clone::Clone::clone' and not (fi.get('id') and fi['id'] in s.fns and s.fns[fi['id']]['local']):
            return s.generic(c)
        if m is None:
            for p, f in s.prefix:
                if res.startswith(p) or base.startswith(p): m = f; break
        if m:
            r = m(c)
            if r is not NotImplemented:
                s.usedmodels[base] += 1
                return r
        if base in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call'):
            return s.call_closure(st, args[0], list(args[1].fs) if isinstance(args[1], Agg) else [args[1]], dty)
        if fi.get('id') and fi['id'] in s.fns:
            body = s.fns[fi['id']]
            r = s.derived(c, body, base)
            if r is not None: return r
            s.inlined[body['path']] += 1
            return s.run_fn(fi['id'], st, args)
        r = s.generic(c)
        if r is not None: return r
        return s.unknown(c)
    def call_closure(s, st, f, args, dty=None):
        if isinstance(f, FnV):
            fi = s.T.info(f.ty)
            return s.call(st, fi, args, [getattr(a, 'ty', '?') for a in args], dty or fi.get('out', '?'), None)
        fv = f
        ref = None
        if isinstance(f, Ref): ref = f; fv = s.deref(st, f)
        if not isinstance(fv, Agg): raise Unsupported(f'call of closure value {f!r}')
        ci = s.T.info(fv.ty)
        if ci['k'] != 'closure': raise Unsupported('call of ' + fv.ty)
        fid = ci['id']
        if fid not in s.fns: raise Unsupported('closure body missing')
        b = s.fns[fid]
        ety = b['locals'][1]
        i = s.T.info(ety)
        env = fv
        if i['k'] == 'ref' and i['mut']:
            env = ref or Ref(s.newcell(st, fv, 'cl'), (), fv.ty)
        s.inlined[b['path']] += 1
        return s.run_fn(fid, st, [env] + args)
    def derived(s, c, body, base):
        if base == 'std::clone::Clone::clone' and (body.get('derived') or True):
            if body.get('derived') or not body['local']:
                return [(c.st, s.deref(c.st, c.args[0]))]
        if body.get('derived') and base in ('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne'):
            return s.generic(c)
        return None
    def generic(s, c):
        base = c.base
        if base == 'std::clone::Clone::clone': return [(c.st, s.deref(c.st, c.args[0]))]
        if base in ('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne'):
            try:
                a, b = c.z(0), c.z(1)
                if a.sort() == b.sort():
                    r = z3.simplify(a == b)
                    return [(c.st, r if base.endswith('eq') else z3.simplify(z3.Not(r)))]
            except Unsupported: pass
            return None
        if base in ('std::ops::Deref::deref', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow', 'std::borrow::ToOwned::to_owned', 'std::ops::DerefMut::deref_mut',
                    'std::iter::IntoIterator::into_iter', 'std::convert::From::from', 'std::convert::Into::into', 'std::hint::must_use'):
            # conversions that keep the representation
            a = c.args[0]
            if isinstance(a, Ref) and base.endswith('_mut') and s.T.canon(a.ty) == s.T.canon(s.T.info(c.dty).get('t', '')): return [(c.st, a)]
            a = s.deref(c.st, a)
            if isinstance(a, z3.ExprRef) and s.T.zable(c.dty) and s.T.sort(c.dty) == a.sort(): return [(c.st, a)]
            if isinstance(a, Agg) and s.T.strip(a.ty) == s.T.strip(c.dty): return [(c.st, a)]
        return None
    EFFECT = ('std::fs', 'std::io', 'std::process', 'std::os', 'std::net', 'std::thread', 'std::env', 'filetime', 'reqwest', 'tokio', 'fslock', 'std::time', 'libc')
    def unknown(s, c):
        nm = c.res
        if any(c.base.startswith(p) or nm.startswith(p) or nm.startswith('<' + p) for p in s.EFFECT):
            raise Unsupported('effect without a model: ' + nm)
        s.unmod[nm] += 1
        return c.opaque(taint=f'no model for {nm}')
    # ---- contracts
    def apply_contract(s, sp, body, c):
        st = c.st
        pre = st.copy()
        x = Ctx(s, body, c.args, pre, None); x.applying = True
        for name, tags, f in sp.clauses('req', x):
            s.oblige(st, f'{sp.short}: precondition {name}', f, tags, 'pre')
            st.assume(f)
        ev = sp.kw.get('event')
        if ev and not s.quiet:
            evs = ev(x)
            for kind, kw in evs if isinstance(evs, list) else [evs]:
                for gd in s.guards:
                    for name, tags, f in gd(s, st, kind, kw) or (): s.oblige(st, f'{kind}: {name}', f, tags, 'guard')
        # effects on mutable arguments
        for i, a in enumerate(c.args):
            if isinstance(a, Ref) and sp.writes(i, body):
                old = s.deref(st, a)
                new = s.havoc_value(st, old)
                s.write(st, a.cell, a.path, a.ty, new)
        for w in sp.modifies(s):
            if 'w.' + w in st.cells: s.setw(st, w, s.havoc_value(st, s.getw(st, w)))
        ret = s.fresh_value(st, c.dty, 'r')
        y = Ctx(s, body, c.args, pre, st, ret)
        sp.assign(s, y)
        for name, tags, f in sp.clauses('ens', y): st.assume(f)
        for f in y.extra: st.assume(f)
        s.range_fact(st, ret, c.dty)
        return [(st, ret)]
    def fresh_value(s, st, ty, nm='v'):
        t = s.T.strip(ty)
        i = s.T.info(t)
        if i['k'] == 'tuple' and not i['ts']: return UNIT
        if s.T.zable(t): 
            v = s.T.fresh(t, nm)
            s.range_fact(st, v, t)
            return v
        if i['k'] == 'ref' and i['mut']:
            return Ref(s.newcell(st, s.fresh_value(st, i['t'], nm), 'm'), (), i['t'])
        if i['k'] == 'tuple' or (i['k'] == 'adt' and i['open'] and len(i['vs']) == 1):
            return Agg(t, 0, [s.fresh_value(st, f[1], nm) for f in s.T.variants(t)[0]['f']])
        raise Unsupported('symbolic value of ' + ty)
    def verify(s, sp):
        """generates the obligations of one function under contract"""
        ids = s.bypath.get(sp.path, [])
        if not ids: raise LostAnchor(f'{sp.path} is not in the source any more')
        if len(ids) > 1: raise LostAnchor(f'{sp.path} has several instances')
        fid = ids[0]; body = s.fns[fid]
        if not sp.fits(s, body): raise LostAnchor(f'{sp.path} has another signature')
        s.root = sp.path
        s.rootspec = sp
        s.invs = list(s.globinvs) + list(sp.kw.get('invs', ()))
        s.guards = list(s.globguards) + list(sp.kw.get('guards', ()))
        s.frame = 0
        st = St()
        for w, mk in s.world.items(): st.cells['w.' + w] = mk(s)
        args = []
        for i in range(body['argc']):
            ty = body['locals'][i + 1]
            args.append(s.fresh_value(st, ty, f'a{i}'))
        pre = st.copy()
        x = Ctx(s, body, args, pre, None)
        if not sp.kw.get('midway'):
            for f in s.wassume(st): st.assume(f)
        for name, tags, f in sp.clauses('req', x): st.assume(f)
        for f in x.extra: st.assume(f)
        pre = st.copy()
        s.rootctx = x
        rets = s.run_fn_root(fid, st, args)
        covered = False
        for st2, v in rets:
            y = Ctx(s, body, args, pre, st2, v)
            y.proving = True
            sp.assign(s, y)
            cl = list(sp.clauses('ens', y))
            for f in y.extra: st2.assume(f)
            for name, tags, f in cl:
                s.oblige(st2, f'postcondition {name}', f, tags, 'post', body['at'])
                if '+' in tags: st2.assume(f)    # a lemma for those which follow
            mod = set(sp.modifies(s)) | set(sp.kw.get('frameskip', ())) | s.skipframe
            for w in s.world:
                if w in mod: continue
                a, b2 = pre.cells['w.' + w], st2.cells['w.' + w]
                if not veq(a, b2):
                    s.oblige(st2, f'frame: {w} unchanged', s.z(a) == s.z(b2), ('frame',), 'frame', body['at'])
            covered = True
        return len(rets)
    def run_fn_root(s, fid, st, args):
        return s.run_fn(fid, st, args)
    def wassume(s, st): return s.ghostinit(st)

class Call:
    """a call being modelled"""
    def __init__(s, e, st, fi, args, atys, dty, t):
        s.e, s.st, s.fi, s.args, s.atys, s.dty, s.t = e, st, fi, args, atys, dty, t
        s.base, s.res = fi['base'], fi.get('res') or fi['base']
        s.T = e.T
    def a(s, i): return s.e.deref(s.st, s.args[i])
    def z(s, i):
        v = s.a(i)
        return s.e.z(v, s.T.strip(s.atys[i]) if not isinstance(v, Agg) else v.ty)
    def ret(s, v=UNIT): return [(s.st, v)]
    def set(s, i, v):
        r = s.args[i]
        if not isinstance(r, Ref): raise Unsupported(f'{s.base}: argument {i} is not a place')
        s.e.write(s.st, r.cell, r.path, r.ty, v)
    def variant(s, ty, name):
        for j, v in enumerate(s.T.variants(ty)):
            if v['n'] == name: return j
        raise Unsupported(f'variant {name} of {ty}')
    def mk(s, ty, name, *fs):
        ty = s.T.strip(ty)
        return Agg(ty, s.variant(ty, name), fs)
    def split(s, *alts):
        """alts: (cond, thunk(state) -> value) explored separately"""
        out = []
        for cnd, th in alts:
            cnd = z3.simplify(cnd) if not isinstance(cnd, bool) else z3.BoolVal(cnd)
            if z3.is_false(cnd): continue
            if not z3.is_true(cnd) and not s.e.feasible(s.st, cnd): continue
            n = s.st.copy(); n.assume(cnd)
            v = th(n)
            out.append((n, v))
        return out
    def okerr(s, ok_thunk, why=None, okcond=None):
        """Result: Ok(thunk) or Err(fresh)"""
        okty, errty = s.T.info(s.T.strip(s.dty))['args'][:2]
        def err(n): return s.mk(s.dty, 'Err', s.e.fresh_value(n, errty, 'err'))
        def ok(n):
            v = ok_thunk(n)
            return s.mk(s.dty, 'Ok', v)
        if okcond is None:
            s.T.nfresh += 1
            okcond = z3.Const(f'ok!{s.T.nfresh}', z3.BoolSort())
        return s.split((okcond, ok), (z3.Not(okcond), err))
    def pure(s, name=None, *idx):
        """deterministic function of the arguments"""
        ar = [s.z(i) for i in (idx or range(len(s.args)))]
        v = s.e.uf(name or s.base, ar, s.dty)
        s.e.range_fact(s.st, v, s.dty)
        return s.ret(v)
    def opaque(s, taint=None):
        st = s.st
        if taint: st.touch(taint)
        ismut = False
        for a in s.args:
            rs = set(); s.e.refs(a, rs)
            for r in rs:
                ismut = True
                s.e.write(st, r, (), None, s.e.havoc_value(st, st.cells[r]))
        if not ismut and s.T.zable(s.dty):
            try:
                ar = [s.z(i) for i in range(len(s.args))]
                return s.ret(s.e.uf(s.res, ar, s.dty))
            except Unsupported: pass
        return s.ret(s.e.fresh_value(st, s.dty))

class V:
    """field access by name on values, for specifications"""
    def __init__(s, e, v, ty):
        s.__dict__.update(_e=e, _v=v, _ty=e.T.strip(ty))
    @property
    def z(s): return s._e.z(s._v, s._ty)
    def f(s, name, variant=0):
        vs = s._e.T.variants(s._ty)
        if isinstance(variant, str):
            variant = s._vi(variant)
        if variant >= len(vs): raise LostAnchor(f'{s._ty}')
        for j, (n, t) in enumerate(vs[variant]['f']):
            if n == name: return V(s._e, s._e.T.field(s._v, variant, j, t), t)
        raise LostAnchor(f'{s._ty} has no field {name}')
    def __getattr__(s, name):
        if name.startswith('_'): raise AttributeError(name)
        return s.f(name)
    def _vi(s, name):
        for j, v in enumerate(s._e.T.variants(s._ty)):
            if v['n'] == name: return j
        raise LostAnchor(f'{s._ty} has no variant {name}')
    def is_(s, name): 
        r = s._e.T.is_variant(s._v, s._ty, s._vi(name))
        return r
    def pay(s, name, k=0):
        vi = s._vi(name)
        t = s._e.T.variants(s._ty)[vi]['f'][k][1]
        if isinstance(s._v, Agg) and s._v.v != vi:
            return V(s._e, s._e.uf('undef:' + t, [], t), t) if s._e.T.zable(t) and s._e.T.canon(t) != '()' else V(s._e, UNIT, t)
        return V(s._e, s._e.T.field(s._v, vi, k, t), t)
    @property
    def some(s): return s.pay('Some')
    @property
    def ok(s): return s.pay('Ok')
    @property
    def len(s): return s._e.T.vec_ops(s.z)[0]
    @property
    def ety(s):
        i = s._e.T.info(s._ty); return i['t'] if 't' in i else i['args'][0]
    def at(s, i):
        return V(s._e, z3.Select(s._e.T.vec_ops(s.z)[1], i), s.ety)
    def has(s, k): return z3.Select(s._e.T.map_ops(s.z)[0], k)
    def get(s, k):
        i = s._e.T.info(s._ty)
        return V(s._e, z3.Select(s._e.T.map_ops(s.z)[1], k), i['args'][1])

class Ctx:
    """what a contract sees"""
    def __init__(s, e, body, args, pre, post, ret=None):
        s.e, s.body, s.args, s.pre, s.post, s.retv = e, body, args, pre, post, ret
        s.extra = []
        s.proving = s.applying = False
    def aty(s, i):
        t = s.body['locals'][i + 1]
        j = s.e.T.info(t)
        return j['t'] if j['k'] == 'ref' else t
    def ix(s, ty):
        k = [i for i in range(s.body['argc']) if s.e.T.canon(s.aty(i)) == ty]
        if len(k) != 1: raise LostAnchor(f'{s.body["path"]} has {len(k)} arguments of type {ty}')
        return k[0]
    def has(s, ty): return sum(s.e.T.canon(s.aty(i)) == ty for i in range(s.body['argc'])) == 1
    def of(s, ty): return s.a(s.ix(ty))
    def of2(s, ty): return s.a2(s.ix(ty))
    def a(s, i):
        """argument before the call"""
        return V(s.e, s.e.deref(s.pre, s.args[i]), s.aty(i))
    def a2(s, i):
        """argument after the call"""
        return V(s.e, s.e.deref(s.post, s.args[i]), s.aty(i))
    @property
    def ret(s):
        return V(s.e, s.e.deref(s.post, s.retv), s.body['locals'][0])
    def hint(s, *ts):
        """terms the argument needs (says nothing about them)"""
        for t in ts: s.extra.append(z3.Function('hint!' + t.sort().name(), t.sort(), z3.BoolSort())(t))
    def w(s, n): return s.pre.cells['w.' + n]
    def w2(s, n): return s.post.cells['w.' + n]

class LoopCtx:
    """what invariant candidates see"""
    def __init__(s, e, entry, st, mods, fid, fr, h):
        s.e, s.entry, s.st, s.mods, s.fid, s.fr, s.h = e, entry, st, mods, fid, fr, h
    def setup(s):
        s.cells = s.st.cells
        s.iters = []      # (cell, It now, It at entry)
        for c, p in sorted(s.mods, key=str):
            if p: continue
            v, o = s.cells.get(c), s.entry.cells.get(c)
            if isinstance(v, It) and isinstance(o, It): s.iters.append((c, v, o))
            elif isinstance(v, Agg):
                for x, y in zip(v.fs, getattr(o, 'fs', ())):
                    if isinstance(x, It): s.iters.append((c, x, y))
    def flat(s, it):
        while it.inner is not None: it = it.inner
        return it
    def auto(s):
        out = []
        for c, v, o in s.iters:
            v, o = s.flat(v), s.flat(o)
            if v.seq is None or v.idx is None: continue
            ln = s.e.T.vec_ops(v.seq)[0]
            out += [v.idx >= o.idx, v.idx <= ln, ln >= 0]
        return out
    def check_shape(s):
        for c, v, o in s.iters:
            a, b = s.flat(v), s.flat(o)
            if not veq(a.seq, b.seq): raise Unsupported('iterator over a changing sequence')
        for c, p in s.mods:
            if p: continue
            v, o = s.cells.get(c), s.entry.cells.get(c)
            s.shape(v, o)
    def shape(s, v, o):
        if isinstance(o, (Ref, FnV, Tok)):
            if not veq(v, o): raise Unsupported('loop changes a reference')
        elif isinstance(o, It):
            if not isinstance(v, It) or v.kind != o.kind: raise Unsupported('loop changes an iterator')
            if o.inner is not None: s.shape(v.inner, o.inner)
        elif isinstance(o, Agg) and not s.e.T.zable(o.ty):
            if not isinstance(v, Agg) or v.v != o.v: raise Unsupported('loop changes the shape of a value')
            for x, y in zip(v.fs, o.fs): s.shape(x, y)
    def locals_of(s, pred):
        """modified cells whose value satisfies pred: (index, name, value now, value at entry)"""
        k = 0
        for c, p in sorted(s.mods, key=str):
            try: v, o = s.e.getpath(s.cells[c], p), s.e.getpath(s.entry.cells[c], p)
            except (Unsupported, KeyError): continue
            if c.startswith('w.'): continue
            if pred(v, o): yield k, c, v, o; k += 1
    def w(s, n): return s.cells['w.' + n]
    def w0(s, n): return s.entry.cells['w.' + n]

class Spec:
    def __init__(s, path, args=None, req=None, ens=None, mods=(), tags=(), noframe=False, **kw):
        s.path, s.argt, s.req_, s.ens_, s.mods_, s.tags = path, args, req, ens, mods, tags
        s.short = path.split('::', 1)[-1] if path.count('::') > 1 else path
        s.kw = kw
    def fits(s, e, body):
        if s.argt is None: return True
        if len(s.argt) != body['argc']: return False
        for want, i in zip(s.argt, range(body['argc'])):
            if want is None: continue
            t = body['locals'][i + 1]
            j = e.T.info(t)
            m = ''
            if j['k'] == 'ref':
                if j['mut']: m = '&mut '
                t = j['t']
            if m + e.T.canon(t) != want: return False
        return True
    def clauses(s, kind, x):
        f = s.req_ if kind == 'req' else s.ens_
        if f is None: return
        for c in f(x) or ():
            name, tags, e = c
            yield name, tags, e
    def assign(s, e, x):
        g = s.kw.get('ghost')
        for n, v in (g(x) if g else {}).items(): e.setw(x.post, n, v)
    def writes(s, i, body): return True
    def modifies(s, e): return s.mods_
