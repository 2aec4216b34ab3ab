"""Types, SMT sorts and symbolic values."""
import z3, re, functools

class Unsupported(Exception):
    pass

class Agg:
    """a structured value kept outside the solver (may hold references, iterators, closures)"""
    __slots__ = ('ty', 'v', 'fs')
    def __init__(s, ty, v, fs):
        s.ty, s.v, s.fs = ty, v, tuple(fs)
    def __repr__(s):
        return f'Agg({s.ty},{s.v},{s.fs})'

class Ref:
    """a mutable reference: a place"""
    __slots__ = ('cell', 'path', 'ty')
    def __init__(s, cell, path, ty):
        s.cell, s.path, s.ty = cell, tuple(path), ty
    def __repr__(s):
        return f'Ref({s.cell},{s.path})'

class It:
    """an iterator over a sequence value: items arr[idx..len)"""
    __slots__ = ('kind', 'seq', 'idx', 'ety', 'inner', 'fn', 'ref')
    def __init__(s, kind, seq=None, idx=None, ety=None, inner=None, fn=None, ref=None):
        s.kind, s.seq, s.idx, s.ety, s.inner, s.fn, s.ref = kind, seq, idx, ety, inner, fn, ref
    def but(s, **k):
        d = dict(kind=s.kind, seq=s.seq, idx=s.idx, ety=s.ety, inner=s.inner, fn=s.fn, ref=s.ref)
        d.update(k)
        return It(**d)
    def __repr__(s):
        return f'It({s.kind},{s.idx},{s.inner})'

class FnV:
    __slots__ = ('ty',)
    def __init__(s, ty): s.ty = ty
    def __repr__(s): return f'FnV({s.ty})'

class Discr:
    """the discriminant of an enum value"""
    __slots__ = ('val', 'ty')
    def __init__(s, val, ty): s.val, s.ty = val, ty

class Tok:
    """an opaque python-side token (format arguments and the like)"""
    __slots__ = ('kind', 'a')
    def __init__(s, kind, *a): s.kind, s.a = kind, a
    def __repr__(s): return f'Tok({s.kind},{s.a})'

class Pure:
    """mark on closures evaluated as terms"""

def veq(a, b):
    """syntactic equality of values"""
    if a is b: return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if type(a) is not type(b): return False
    if isinstance(a, Agg):
        return a.ty == b.ty and a.v == b.v and len(a.fs) == len(b.fs) and all(veq(x, y) for x, y in zip(a.fs, b.fs))
    if isinstance(a, Ref): return a.cell == b.cell and patheq(a.path, b.path)
    if isinstance(a, It):
        return a.kind == b.kind and veq(a.seq, b.seq) and veq(a.idx, b.idx) and veq(a.inner, b.inner) and veq(a.fn, b.fn) and veq(a.ref, b.ref)
    if isinstance(a, FnV): return a.ty == b.ty
    if isinstance(a, Discr): return veq(a.val, b.val)
    if isinstance(a, Tok): return a.kind == b.kind and len(a.a) == len(b.a) and all(veq(x, y) for x, y in zip(a.a, b.a))
    if isinstance(a, tuple): return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    return a == b

def patheq(p, q):
    return len(p) == len(q) and all(x[0] == y[0] and all(veq(i, j) for i, j in zip(x[1:], y[1:])) for x, y in zip(p, q))

INTR = {'u8': (0, 2**8-1), 'u16': (0, 2**16-1), 'u32': (0, 2**32-1), 'u64': (0, 2**64-1), 'u128': (0, 2**128-1), 'usize': (0, 2**64-1),
        'i8': (-2**7, 2**7-1), 'i16': (-2**15, 2**15-1), 'i32': (-2**31, 2**31-1), 'i64': (-2**63, 2**63-1), 'i128': (-2**127, 2**127-1), 'isize': (-2**63, 2**63-1)}

def split_top(s):
    out, d, cur, prev = [], 0, '', ''
    for c in s:
        if c in '<([{': d += 1
        elif c in ')]}' or (c == '>' and prev != '-'): d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else: cur += c
        prev = c
    if cur.strip(): out.append(cur.strip())
    return out

class Types:
    def __init__(self):
        self.t = {}
        self.sorts = {}
        self.dt = {}        # sort name -> ('adt', ty, [(ctor, tester, [accessors])]) / ('vec',...)
        self.building = set()
        self.ufs = {}
        self.nfresh = 0
    def load(self, types):
        for k, v in types.items():
            if k == 'std::cmp::Ordering':
                for x in v['vs']: x['d'] = {'Less': -1, 'Equal': 0, 'Greater': 1}[x['n']]
            self.t.setdefault(k, v)
    def info(self, ty):
        if ty not in self.t:
            # synthesise references, options, tuples made up by models
            if ty.startswith('&mut '): self.t[ty] = {'k': 'ref', 'mut': True, 't': ty[5:]}
            elif ty.startswith('&'): self.t[ty] = {'k': 'ref', 'mut': False, 't': ty[1:]}
            elif ty.startswith('std::option::Option<'):
                a = ty[len('std::option::Option<'):-1]
                self.t[ty] = {'k': 'adt', 'path': 'std::option::Option', 'args': [a], 'local': False, 'enum': True, 'open': True,
                              'vs': [{'n': 'None', 'd': 0, 'f': []}, {'n': 'Some', 'd': 1, 'f': [['0', a]]}]}
            elif ty.startswith('('):
                self.t[ty] = {'k': 'tuple', 'ts': split_top(ty[1:-1])}
            elif ty in INTR: self.t[ty] = {'k': 'int', 'n': ty}
            elif ty == 'bool': self.t[ty] = {'k': 'bool'}
            elif ty.startswith('std::vec::Vec<'):
                self.t[ty] = {'k': 'adt', 'path': 'std::vec::Vec', 'args': [split_top(ty[14:-1])[0]], 'local': False, 'enum': False, 'open': False, 'vs': []}
            else: self.t[ty] = {'k': 'opaque'}
        return self.t[ty]
    def strip(self, ty):
        """removes shared references, boxes and reference counters"""
        while True:
            i = self.info(ty)
            if i['k'] == 'ref' and not i['mut']: ty = i['t']
            elif i['k'] == 'ptr' and not i['mut']: ty = i['t']
            elif i['k'] == 'adt' and i['path'] in ('std::boxed::Box', 'std::sync::Arc', 'std::rc::Rc', 'std::mem::ManuallyDrop', 'std::panic::AssertUnwindSafe'): ty = i['args'][0]
            else: return ty
    def head(self, ty):
        ty = self.strip(ty)
        i = self.info(ty)
        return i['path'] if i['k'] == 'adt' else i['k']
    def canon(self, ty):
        ty = self.strip(ty)
        i = self.info(ty)
        k = i['k']
        if k == 'str': return 'Str'
        if k == 'adt':
            p = i['path']
            if p in ('std::string::String',): return 'Str'
            if p == 'std::borrow::Cow':
                return self.canon(i['args'][-1])
            if p in ('std::path::PathBuf', 'std::path::Path', 'std::ffi::OsStr', 'std::ffi::OsString', 'std::path::Display'): return 'Path'
            if p == 'std::vec::Vec':
                e = self.canon(i['args'][0])
                return 'Bytes' if e == 'u8' else f'Vec<{e}>'
            if p == 'bytes::Bytes': return 'Bytes'
            if p == 'std::collections::HashMap': return f'Map<{self.canon(i["args"][0])},{self.canon(i["args"][1])}>'
            if p == 'std::collections::BTreeMap': return f'Map<{self.canon(i["args"][0])},{self.canon(i["args"][1])}>'
            if p in ('std::collections::HashSet', 'std::collections::BTreeSet'): return f'Map<{self.canon(i["args"][0])},()>'
            if p in ('anyhow::Error',): return 'Error'
            a = ','.join(self.canon(x) for x in i['args'])
            return f'{p}<{a}>' if a else p
        if k in ('slice', 'array'):
            e = self.canon(i['t'])
            return 'Bytes' if e == 'u8' else f'Vec<{e}>'
        if k == 'tuple': return '(' + ','.join(self.canon(x) for x in i['ts']) + ')'
        if k == 'ref' or k == 'ptr': return '&mut ' + self.canon(i['t'])
        return ty
    def zable(self, ty, seen=()):
        """can values of the type live in the solver?"""
        ty = self.strip(ty)
        i = self.info(ty)
        k = i['k']
        if k in ('int', 'bool', 'char', 'str', 'param', 'opaque', 'never'): return k != 'opaque' or not ty.startswith('dyn ')
        if k in ('ref', 'ptr', 'closure', 'fndef'): return False
        if k == 'tuple': return all(self.zable(t, seen) for t in i['ts'])
        if k in ('slice', 'array'): return self.zable(i['t'], seen)
        if k == 'adt':
            if i['path'].startswith(('std::fmt::', 'core::fmt::', 'std::iter::', 'std::slice::', 'std::vec::IntoIter', 'std::collections::hash_map::', 'core::str::', 'std::str::Split')): return False
            if ty in seen: return True
            if not all(self.zable(a, seen + (ty,)) for a in i['args']): return False
            if i['open']:
                return all(self.zable(f[1], seen + (ty,)) for v in i['vs'] for f in v['f'])
            return True
        return False
    def sort(self, ty):
        c = self.canon(ty)
        if c in self.sorts: return self.sorts[c]
        s = self.mk_sort(c, ty)
        self.sorts[c] = s
        return s
    def mk_sort(self, c, ty):
        if c in ('Str', 'Path', 'Bytes', 'Error'): return z3.DeclareSort(c)
        ty = self.strip(ty)
        i = self.info(ty)
        k = i['k']
        if k == 'bool': return z3.BoolSort()
        if k in ('int', 'char'): return z3.IntSort()
        if c in self.building: 
            return z3.DeclareSort(c + '#rec')
        self.building.add(c)
        try:
            if c.startswith('Vec<'):
                ety = i['args'][0] if k == 'adt' else i['t']
                e = self.sort(ety)
                d = z3.Datatype(c)
                d.declare('mk', ('len', z3.IntSort()), ('arr', z3.ArraySort(z3.IntSort(), e)))
                s = d.create()
                self.dt[c] = ('vec', ety, s)
                return s
            if c.startswith('Map<'):
                kt = i['args'][0]
                vt = i['args'][1] if len(i['args']) > 1 and 'Map' in i['path'] else '()'
                d = z3.Datatype(c)
                d.declare('mk', ('dom', z3.ArraySort(self.sort(kt), z3.BoolSort())), ('val', z3.ArraySort(self.sort(kt), self.sort(vt))), ('n', z3.IntSort()))
                s = d.create()
                self.dt[c] = ('map', (kt, vt), s)
                return s
            if k == 'tuple':
                if not i['ts']:
                    d = z3.Datatype('()'); d.declare('unit'); return self._reg(c, ty, d, [('unit', [])])
                d = z3.Datatype(c)
                fs = [(f'{c}.{j}', self.sort(t)) for j, t in enumerate(i['ts'])]
                d.declare('T' + c, *fs)
                return self._reg(c, ty, d, [('T', i['ts'])])
            if k == 'adt' and i['open'] and self.zable(ty):
                if not i['vs']:
                    return z3.DeclareSort(c)
                d = z3.Datatype(c)
                for vi, v in enumerate(i['vs']):
                    d.declare(f'{c}::{v["n"]}', *[(f'{c}.{vi}.{f[0]}', self.sort(f[1])) for f in v['f']])
                return self._reg(c, ty, d, [(v['n'], [f[1] for f in v['f']]) for v in i['vs']])
            return z3.DeclareSort(c)
        finally:
            self.building.discard(c)
    def _reg(self, c, ty, d, vs):
        s = d.create()
        info = []
        for vi, (n, fts) in enumerate(vs):
            con = s.constructor(vi)
            info.append((con, s.recognizer(vi), [s.accessor(vi, j) for j in range(len(fts))], n, fts))
        self.dt[c] = ('adt', ty, info)
        return s
    def dtinfo(self, e):
        n = e.sort().name()
        return self.dt.get(n)
    # ---- construction and inspection
    def variants(self, ty):
        ty = self.strip(ty)
        i = self.info(ty)
        if i['k'] == 'tuple': return [{'n': '', 'd': 0, 'f': [[str(j), t] for j, t in enumerate(i['ts'])]}]
        if i['k'] == 'closure': return [{'n': '', 'd': 0, 'f': [[str(j), t] for j, t in enumerate(i['up'])]}]
        return i.get('vs', [])
    def field_ty(self, ty, v, f):
        vs = self.variants(ty)
        return vs[v]['f'][f][1]
    def to_z3(self, v, ty):
        if isinstance(v, z3.ExprRef): return v
        if isinstance(v, Agg):
            s = self.sort(ty)
            d = self.dt.get(self.canon(ty))
            if not d or d[0] != 'adt': raise Unsupported(f'to_z3 {ty}')
            con, _, _, _, fts = d[2][v.v]
            if len(fts) != len(v.fs): raise Unsupported(f'to_z3 arity {ty}')
            args = [self.to_z3(x, t) for x, t in zip(v.fs, fts)]
            for x, k in zip(args, range(con.arity())):
                if x.sort() != con.domain(k): raise Unsupported(f'sort mismatch {x.sort()} vs {con.domain(k)} in {ty}')
            return con(*args) if args else con()
        if isinstance(v, Discr):
            return self.discr_int(v)
        raise Unsupported(f'to_z3 of {v!r} at {ty}')
    def discr_int(self, d):
        vs = self.variants(d.ty)
        if isinstance(d.val, Agg): return z3.IntVal(vs[d.val.v]['d'])
        r = z3.IntVal(vs[-1]['d'])
        for i in range(len(vs) - 2, -1, -1):
            r = z3.If(self.is_variant(d.val, d.ty, i), z3.IntVal(vs[i]['d']), r)
        return r
    def is_variant(self, val, ty, i):
        if isinstance(val, Agg): return z3.BoolVal(val.v == i)
        d = self.dtinfo(val)
        if not d: raise Unsupported(f'variant test on {val.sort()}')
        if len(d[2]) == 1: return z3.BoolVal(True)
        if val.num_args() == d[2][0][0].arity() or True:
            for j, (con, *_x) in enumerate(d[2]):
                if val.decl().eq(con): return z3.BoolVal(i == j)
        return d[2][i][1](val)
    def field(self, val, v, f, fty=None):
        if isinstance(val, Agg):
            if val.v != v: raise Unsupported('field of other variant')
            return val.fs[f]
        if isinstance(val, z3.ExprRef):
            d = self.dtinfo(val)
            if d and d[0] == 'adt':
                con, _, acc, _, _ = d[2][v]
                if val.decl().eq(con): return val.arg(f)
                if z3.is_app_of(val, z3.Z3_OP_ITE):
                    a, b = self.field(val.arg(1), v, f, fty), self.field(val.arg(2), v, f, fty)
                    return a if a.eq(b) else z3.If(val.arg(0), a, b)
                return acc[f](val)
            if fty is None: raise Unsupported(f'field {f} of {val.sort()}')
            return self.uf(f'proj{v}_{f}', [val.sort()], self.sort(fty))(val)
        raise Unsupported(f'field of {val!r}')
    def explode(self, val, ty, v):
        if isinstance(val, Agg): return val
        n = len(self.variants(ty)[v]['f'])
        return Agg(ty, v, [self.field(val, v, i, self.field_ty(ty, v, i)) for i in range(n)])
    def with_field(self, val, ty, v, f, x):
        """val with field f replaced"""
        if isinstance(val, Agg) and 'MaybeUninit' in val.ty or isinstance(val, Agg) and 'ManuallyDrop' in val.ty:
            return Agg(val.ty, val.v, [x if i == f else y for i, y in enumerate(val.fs)])
        vs = self.variants(ty)
        if not vs or v >= len(vs): raise Unsupported(f'update field of {ty}')
        a = self.explode(val, ty, v)
        fs = list(a.fs)
        fs[f] = x
        a = Agg(ty, v, fs)
        if self.zable(ty) and all(isinstance(y, (z3.ExprRef, Agg)) for y in fs):
            try: return self.to_z3(a, ty)
            except Unsupported: return a
        return a
    def uf(self, name, dom, rng):
        full = name + ':' + ','.join(s.sexpr() if hasattr(s, 'sexpr') else str(s) for s in dom) + '>' + str(rng)
        if full not in self.ufs:
            self.ufs[full] = z3.Function(name if not dom or name in ('x',) else f'{name}!{"_".join(s.name() for s in dom)}', *dom, rng) if dom else z3.Const(name, rng)
        return self.ufs[full]
    def fresh(self, ty, name='v'):
        ty = self.strip(ty)
        if not self.zable(ty): raise Unsupported(f'symbolic value of {ty}')
        self.nfresh += 1
        return z3.Const(f'{name}!{self.nfresh}', self.sort(ty))
    def fresh_sort(self, s, name='v'):
        self.nfresh += 1
        return z3.Const(f'{name}!{self.nfresh}', s)
    def vec_ops(self, v):
        """(len, arr) of a vector value"""
        d = self.dtinfo(v)
        if not d or d[0] != 'vec': raise Unsupported(f'not a vector: {v.sort()}')
        s = d[2]
        con = s.constructor(0)
        if v.decl().eq(con): return v.arg(0), v.arg(1)
        return s.accessor(0, 0)(v), s.accessor(0, 1)(v)
    def mk_vec(self, sort, ln, arr):
        return sort.constructor(0)(ln, arr)
    def map_ops(self, v):
        d = self.dtinfo(v)
        if not d or d[0] != 'map': raise Unsupported(f'not a map: {v.sort()}')
        s = d[2]
        con = s.constructor(0)
        if v.decl().eq(con): return v.arg(0), v.arg(1), v.arg(2)
        return s.accessor(0, 0)(v), s.accessor(0, 1)(v), s.accessor(0, 2)(v)
