"""Models of the standard library and of the crate's dependencies (the trusted base of the proofs)."""
import z3
from .values import *
from .engine import *

M = {}
PREFIX = []
def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d

I = z3.IntSort()
class Terms:
    """symbols shared by models and specifications"""
    def __init__(s, e):
        s.e = e
        T = e.T
        s.Str, s.Path, s.Bytes = T.sort('str'), T.sort('std::path::PathBuf') if 'std::path::PathBuf' in T.t else z3.DeclareSort('Path'), T.sort('std::vec::Vec<u8>')
        B = z3.BoolSort()
        F = z3.Function
        s.cat = F('cat', s.Str, s.Str, s.Str)
        s.isprefix = F('isprefix', s.Str, s.Str, B)       # isprefix(p, s)
        s.suffix = F('suffix', s.Str, s.Str, s.Str)       # suffix(p, s): s without p
        s.path_of = F('path_of', s.Str, s.Path)
        s.pathstr = F('pathstr', s.Path, s.Str)
        s.pjoin = F('pjoin', s.Path, s.Path, s.Path)
        s.parent = F('parent', s.Path, s.Path)
        s.hasparent = F('hasparent', s.Path, B)
        s.under = F('under', s.Path, s.Path, B)           # strictly inside a directory
        s.relok = F('relok', s.Str, B)                    # non-empty, only normal components, canonical
        s.withext = F('withext', s.Path, s.Str, s.Path)
        s.bytes_of = F('bytes_of', s.Str, s.Bytes)
        s.bcat = F('bcat', s.Bytes, s.Bytes, s.Bytes)
        s.empty = z3.Const('bytes:', s.Bytes)
        nd = z3.Datatype('Node'); nd.declare('absent'); nd.declare('file', ('content', s.Bytes)); s.Node = nd.create()
        s.FS = z3.ArraySort(s.Path, s.Node)
        s.EX = z3.ArraySort(s.Path, B)
        a, b, c = z3.Consts('a b c', s.Str)
        p, q, r = z3.Consts('p q r', s.Path)
        x = z3.Const('x', s.Bytes)
        A = e.axiom
        A(z3.ForAll([a, b], z3.Implies(s.isprefix(a, b), s.cat(a, s.suffix(a, b)) == b), patterns=[s.suffix(a, b)]), ['suffix'])
        A(z3.ForAll([a, b], z3.And(s.isprefix(a, s.cat(a, b)), s.suffix(a, s.cat(a, b)) == b), patterns=[s.cat(a, b)]), ['cat', 'suffix'])
        A(z3.ForAll([a, b], s.isprefix(a, s.cat(a, b)), patterns=[s.cat(a, b)]), ['cat', 'isprefix'])
        # joining a relative name of normal components stays inside and is one to one
        A(z3.ForAll([p, a], z3.Implies(s.relok(a), s.under(s.pjoin(p, s.path_of(a)), p)), patterns=[s.pjoin(p, s.path_of(a))]), ['pjoin', 'path_of', 'under', 'relok'])
        unjoin = s.unjoin = F('unjoin', s.Path, s.Path, s.Str)
        A(z3.ForAll([p, a], z3.Implies(s.relok(a), unjoin(s.pjoin(p, s.path_of(a)), p) == a), patterns=[s.pjoin(p, s.path_of(a))]), ['pjoin', 'path_of', 'relok'])
        A(z3.ForAll([p, q, r], z3.Implies(z3.And(s.under(p, q), s.under(q, r)), s.under(p, r)), patterns=[z3.MultiPattern(s.under(p, q), s.under(q, r))]), ['under'])
        A(z3.ForAll([p], z3.Not(s.under(p, p)), patterns=[s.under(p, p)]), ['under'])
        A(z3.ForAll([p], z3.And(s.parent(p) != p, z3.Implies(s.hasparent(p), s.under(p, s.parent(p)))), patterns=[s.parent(p)]), ['parent'])
        # the parent of something inside d is d or inside d
        A(z3.ForAll([p, q], z3.Implies(s.under(p, q), z3.And(s.hasparent(p), z3.Or(s.parent(p) == q, s.under(s.parent(p), q)))), patterns=[z3.MultiPattern(s.under(p, q), s.parent(p))]), ['under', 'parent'])
        unbytes = F('unbytes', s.Bytes, s.Str)
        A(z3.ForAll([a], unbytes(s.bytes_of(a)) == a, patterns=[s.bytes_of(a)]), ['bytes_of'])
        A(z3.ForAll([x], s.bcat(s.empty, x) == x, patterns=[s.bcat(s.empty, x)]), ['bcat'])
        A(z3.ForAll([a], s.pathstr(s.path_of(a)) == a, patterns=[s.path_of(a)]), ['path_of'])
        A(z3.ForAll([p], s.path_of(s.pathstr(p)) == p, patterns=[s.pathstr(p)]), ['pathstr'])
        s.uristr = None
    def join(s, p, name): return s.pjoin(p, s.path_of(name))
    def isfile(s, n): return s.Node.is_file(n)
    def content(s, n): return s.Node.content(n)

# ---------------------------------------------------------------- helpers
def as_path(c, i):
    v = c.z(i)
    t = c.e.K
    if v.sort() == t.Path: return v
    if v.sort() == t.Str: return t.path_of(v)
    raise Unsupported(f'path from {v.sort()}')

def vec(c, i=0): return c.T.vec_ops(c.z(i))
def setvec(c, i, ln, arr):
    v = c.z(i)
    c.set(i, c.T.mk_vec(v.sort(), ln, arr))
def lenfact(st, ln):
    if not z3.is_int_value(ln): st.assume(ln >= 0, ln <= 2**62)
def sel(a, i): return z3.Select(a, i)
def ety(c, ty):
    i = c.T.info(c.T.strip(ty))
    if i['k'] == 'ref': return ety(c, i['t'])
    return i['t'] if 't' in i else i['args'][0]
def isbytes(c, ty):
    i = c.T.info(ty)
    while i['k'] == 'ref': ty = i['t']; i = c.T.info(ty)
    return c.T.canon(ty) in ('Bytes', 'Str')
def qv(c, n='i'):
    c.T.nfresh += 1
    return z3.Int(f'{n}?{c.T.nfresh}')
def freshf(c, n, *sorts):
    c.T.nfresh += 1
    return z3.Function(f'{n}!{c.T.nfresh}', *sorts)
def gelem(T, c, v):
    """element sort of a vec"""
    return c.T.vec_ops(v)[1].sort().range()

def tooption(c, st, v, ty=None):
    return c.mk(ty or c.dty, 'Some', v)

# ---------------------------------------------------------------- vectors
@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', 'std::string::String::new', 'std::path::PathBuf::new')
def vec_new(c):
    k = c.T.canon(c.dty)
    if k == 'Bytes': return c.ret(c.e.K.empty)
    if k == 'Str': return c.ret(c.e.lit(''))
    if not c.T.zable(c.dty): return c.ret(Agg(c.T.strip(c.dty), 0, []))
    s = c.T.sort(c.dty)
    return c.ret(c.T.mk_vec(s, z3.IntVal(0), c.T.uf('arr0:' + c.T.sort(ety(c, c.dty)).sexpr(), [], s.accessor(0, 1).range())))

@model('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'core::str::<impl str>::len', 'std::string::String::len', 'bytes::Bytes::len')
def vec_len(c):
    v = c.a(0)
    if isinstance(v, Agg) and c.T.info(v.ty)['k'] == 'array': return c.ret(z3.IntVal(len(v.fs)))
    return c.ret(c.e.vlen(c.st, c.z(0)))
@model('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty', 'bytes::Bytes::is_empty', 'std::string::String::is_empty')
def vec_empty(c): return c.ret(z3.simplify(c.e.vlen(c.st, c.z(0)) == 0))

@model('std::vec::Vec::<T, A>::push')
def vec_push(c):
    if isbytes(c, c.atys[0]): return NotImplemented
    ln, arr = vec(c); lenfact(c.st, ln)
    x = c.args[1]
    x = c.e.z(c.e.deref(c.st, x) if isinstance(x, Ref) else x, ety(c, c.atys[0]))
    new = z3.Store(arr, ln, x)
    if not z3.is_int_value(ln):
        r = c.T.fresh_sort(arr.sort(), 'psh'); i = qv(c)
        c.st.assume(sel(r, ln) == x, z3.ForAll([i], z3.Implies(i != ln, sel(r, i) == sel(arr, i)), patterns=[sel(r, i), sel(arr, i)]))
        new = r
    setvec(c, 0, z3.simplify(ln + 1), new)
    return c.ret()

def concat(c, st, a, b):
    (n1, a1), (n2, a2) = c.T.vec_ops(a), c.T.vec_ops(b)
    lenfact(st, n1); lenfact(st, n2)
    if z3.is_int_value(n2) and n2.as_long() == 0: return a
    if z3.is_int_value(n1) and n1.as_long() == 0: return b
    if z3.is_int_value(n2) and n2.as_long() < 4:
        arr = a1
        for k in range(n2.as_long()): arr = z3.Store(arr, n1 + k, sel(a2, k))
        return c.T.mk_vec(a.sort(), z3.simplify(n1 + n2), arr)
    r = c.T.fresh_sort(a1.sort(), 'cat')
    i = qv(c)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n1), sel(r, i) == sel(a1, i)), patterns=[sel(r, i), sel(a1, i)]))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n2), sel(r, n1 + i) == sel(a2, i)), patterns=[sel(a2, i)]))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(n1 <= i, i < n1 + n2), sel(r, i) == sel(a2, i - n1)), patterns=[sel(r, i)]))
    for x in (z3.IntVal(0), n1 - 1, n1, n1 + n2 - 1): st.assume(c.T.fresh_sort(r.sort().range(), 'at') == sel(r, x))
    return c.T.mk_vec(a.sort(), z3.simplify(n1 + n2), r)

@model('std::vec::Vec::<T, A>::append')
def vec_append(c):
    a, b = c.z(0), c.z(1)
    if isbytes(c, c.atys[0]): return NotImplemented
    c.set(0, concat(c, c.st, a, b))
    n, arr = c.T.vec_ops(b)
    c.set(1, c.T.mk_vec(b.sort(), z3.IntVal(0), arr))
    return c.ret()

@model('<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend', '<std::vec::Vec<T, A> as std::iter::Extend<&\'a T>>::extend', 'std::vec::Vec::<T, A>::extend_from_slice', 'std::iter::Extend::extend')
def vec_extend(c):
    if isbytes(c, c.atys[0]):
        c.set(0, c.e.K.bcat(c.z(0), c.z(1))); return c.ret()
    x = c.a(1)
    if isinstance(x, z3.ExprRef) and c.T.dtinfo(x) and c.T.dtinfo(x)[0] == 'vec': b = x
    elif isinstance(x, It): b = to_vec(c, c.st, x, 'std::vec::Vec<' + ety(c, c.atys[0]) + '>')
    elif c.T.head(c.atys[1]) == 'std::option::Option':
        ov = V(c.e, x, c.atys[1]); v = c.z(0); ln, arr = c.T.vec_ops(v); lenfact(c.st, ln)
        def some(n):
            r = c.args[0]; y = c.e.z(ov.some.z, ety(c, c.atys[0]))
            c.e.write(n, r.cell, r.path, r.ty, c.T.mk_vec(v.sort(), z3.simplify(ln + 1), z3.Store(arr, ln, y)))
            return UNIT
        return c.split((ov.is_('Some'), some), (ov.is_('None'), lambda n: UNIT))
    else: return NotImplemented
    c.set(0, concat(c, c.st, c.z(0), b)); return c.ret()

@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last')
def vec_first(c):
    ln, arr = vec(c); lenfact(c.st, ln)
    ix = z3.IntVal(0) if c.base.endswith('first') else ln - 1
    return c.split((ln > 0, lambda n: tooption(c, n, sel(arr, ix))), (ln <= 0, lambda n: c.mk(c.dty, 'None')))
@model('core::slice::<impl [T]>::get')
def vec_get(c):
    ln, arr = vec(c); lenfact(c.st, ln); ix = c.z(1)
    if not isinstance(ix, z3.ArithRef): return NotImplemented
    return c.split((ix < ln, lambda n: tooption(c, n, sel(arr, ix))), (ix >= ln, lambda n: c.mk(c.dty, 'None')))
@model('core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last_mut', 'core::slice::<impl [T]>::get_mut')
def vec_first_mut(c):
    r = c.args[0]
    if not isinstance(r, Ref): return NotImplemented
    ln, arr = vec(c); lenfact(c.st, ln)
    ix = z3.IntVal(0) if 'first' in c.base else (ln - 1 if 'last' in c.base else c.z(1))
    et = ety(c, c.atys[0])
    return c.split((z3.And(ix >= 0, ix < ln), lambda n: tooption(c, n, Ref(r.cell, r.path + (('i', ix, et),), et))), (z3.Not(z3.And(ix >= 0, ix < ln)), lambda n: c.mk(c.dty, 'None')))
@model('std::vec::Vec::<T, A>::pop')
def vec_pop(c):
    ln, arr = vec(c); lenfact(c.st, ln)
    v = c.z(0)
    def some(n):
        r = c.args[0]
        c.e.write(n, r.cell, r.path, r.ty, c.T.mk_vec(v.sort(), ln - 1, arr))
        return tooption(c, n, sel(arr, ln - 1))
    return c.split((ln > 0, some), (ln <= 0, lambda n: c.mk(c.dty, 'None')))
@model('std::vec::Vec::<T, A>::truncate')
def vec_trunc(c):
    ln, arr = vec(c); lenfact(c.st, ln)
    setvec(c, 0, z3.If(c.z(1) < ln, c.z(1), ln), arr); return c.ret()
@model('std::vec::Vec::<T, A>::clear')
def vec_clear(c):
    if isbytes(c, c.atys[0]): c.set(0, c.e.K.empty); return c.ret()
    ln, arr = vec(c); setvec(c, 0, z3.IntVal(0), arr); return c.ret()
@model('std::mem::take')
def mem_take(c):
    r = c.args[0]
    old = c.a(0)
    k = c.T.canon(r.ty)
    h = c.T.head(r.ty)
    if h == 'std::vec::Vec': new = vec_new(c)[0][1] if c.T.canon(c.dty) == k else None
    elif h == 'std::option::Option': new = c.mk(r.ty, 'None')
    elif k == 'Str': new = c.e.lit('')
    elif k == 'bool': new = FALSE
    else: return NotImplemented
    c.set(0, new)
    return c.ret(old)
@model('std::mem::replace')
def mem_replace(c):
    old = c.a(0); c.set(0, c.args[1]); return c.ret(old)
@model('std::mem::swap')
def mem_swap(c):
    x, y = c.a(0), c.a(1); c.set(0, y); c.set(1, x); return c.ret()
@model('std::mem::drop')
def mem_drop(c):
    if 'LockFile' in c.atys[0]:
        h = c.e.models.get('drop:LockFile'); h(c.e, c.st, c.args[0])
    return c.ret()
@model('std::option::Option::<T>::insert', )
def opt_insert(c): return NotImplemented

@model('core::slice::<impl [T]>::reverse')
def vec_rev(c):
    ln, arr = vec(c); lenfact(c.st, ln)
    setvec(c, 0, ln, reversed_arr(c, c.st, ln, arr)); return c.ret()
def reversed_arr(c, st, ln, arr):
    r = c.T.fresh_sort(arr.sort(), 'rev'); i = qv(c)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), sel(r, i) == sel(arr, ln - 1 - i)), patterns=[sel(r, i)]))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), sel(arr, i) == sel(r, ln - 1 - i)), patterns=[sel(arr, i)]))
    return r
def permuted(c, st, ln, arr):
    r = c.T.fresh_sort(arr.sort(), 'srt')
    p, q = freshf(c, 'perm', I, I), freshf(c, 'inv', I, I); i = qv(c)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), z3.And(0 <= p(i), p(i) < ln, q(p(i)) == i, sel(r, i) == sel(arr, p(i)))), patterns=[sel(r, i), p(i)]))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), z3.And(0 <= q(i), q(i) < ln, p(q(i)) == i, sel(arr, i) == sel(r, q(i)))), patterns=[sel(arr, i), q(i)]))
    return r, p, q
def sortedfact(c, st, ln, r, le, strictorder=None):
    i, j = qv(c), qv(c, 'j')
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < ln), le(sel(r, i), sel(r, j))), patterns=[z3.MultiPattern(sel(r, i), sel(r, j))]))
@model('std::slice::<impl [T]>::sort_by_key', 'core::slice::<impl [T]>::sort_unstable_by_key', 'std::slice::<impl [T]>::sort_by_cached_key')
def sort_by_key(c):
    ln, arr = vec(c); lenfact(c.st, ln)
    et = ety(c, c.atys[0])
    key = lambda x: keyint(c, pure_fn(c, c.st, c.args[1], x, et))
    r, p, q = permuted(c, c.st, ln, arr)
    sortedfact(c, c.st, ln, r, lambda x, y: key(x) <= key(y))
    consecutive(c, c.st, ln, arr, r, p, key)
    setvec(c, 0, ln, r); return c.ret()
def consecutive(c, st, ln, arr, r, p, key):
    """lemma: n different integers which span n - 1 only are consecutive once sorted"""
    st.assume(z3.ForAll([i0 := qv(c)], z3.Implies(z3.And(0 <= i0, i0 < ln), key(sel(r, 0)) <= key(sel(arr, i0))), patterns=[sel(arr, i0)]))
    k1, k2, k3 = (c.T.fresh_sort(I, 'dk') for _ in range(3)); i = qv(c); lo = key(sel(r, 0))
    st.assume(z3.Or(z3.And(0 <= k1, k1 < k2, k2 < ln, key(sel(arr, k1)) == key(sel(arr, k2))), z3.And(0 <= k3, k3 < ln, key(sel(arr, k3)) > lo + ln - 1),
        z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), key(sel(r, i)) == lo + i), patterns=[sel(r, i)])))
def keyint(c, k):
    if isinstance(k, z3.ArithRef): return k
    if isinstance(k, Agg) and len(k.fs) == 1: return -keyint(c, k.fs[0]) if 'Reverse' in k.ty else keyint(c, k.fs[0])
    if isinstance(k, z3.ExprRef) and 'Reverse' in k.sort().name(): return -keyint(c, c.T.field(k, 0, 0))
    if isinstance(k, z3.ExprRef):
        d = c.T.dtinfo(k)
        if d and d[0] == 'adt' and len(d[2]) == 1 and len(d[2][0][2]) == 1: return keyint(c, c.T.field(k, 0, 0))
    raise Unsupported('sort key')
@model('std::slice::<impl [T]>::sort_by', 'core::slice::<impl [T]>::sort_unstable_by')
def sort_by(c):
    ln, arr = vec(c); lenfact(c.st, ln)
    et = ety(c, c.atys[0])
    def le(x, y):
        o = pure_fn2(c, c.st, c.args[1], x, y, et)
        return z3.Not(c.T.is_variant(o, 'std::cmp::Ordering', 2))
    r, p, q = permuted(c, c.st, ln, arr)
    sortedfact(c, c.st, ln, r, le)
    setvec(c, 0, ln, r); return c.ret()

def subset(c, st, ln, arr, pred):
    """the subsequence of elements satisfying pred: (len, arr)"""
    r = c.T.fresh_sort(arr.sort(), 'sub'); n = c.T.fresh_sort(I, 'n')
    g, h = freshf(c, 'src', I, I), freshf(c, 'dst', I, I)
    i, j = qv(c), qv(c, 'j')
    st.assume(n >= 0, n <= ln)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= g(i), g(i) < ln, h(g(i)) == i, sel(r, i) == sel(arr, g(i)), pred(sel(r, i)))), patterns=[sel(r, i), g(i)]))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln, pred(sel(arr, i))), z3.And(0 <= h(i), h(i) < n, g(h(i)) == i, sel(r, h(i)) == sel(arr, i))), patterns=[sel(arr, i), h(i)]))
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), g(i) < g(j)), patterns=[z3.MultiPattern(g(i), g(j))]))
    return n, r
@model('std::vec::Vec::<T, A>::retain')
def vec_retain(c):
    ln, arr = vec(c); lenfact(c.st, ln)
    et = ety(c, c.atys[0])
    n, r = subset(c, c.st, ln, arr, lambda x: pure_fn(c, c.st, c.args[1], x, et))
    setvec(c, 0, n, r); return c.ret()

@model('std::vec::Vec::<T, A>::drain', 'std::vec::Vec::<T, A>::split_off')
def vec_drain(c):
    ln, arr = vec(c); lenfact(c.st, ln)
    v = c.z(0); et = ety(c, c.atys[0])
    rg = c.a(1)
    if c.base.endswith('split_off'): h = 'std::ops::RangeFrom'; lo = c.z(1); hi = ln
    else:
        h = c.T.head(c.atys[1])
        if h == 'std::ops::RangeFull' or isinstance(rg, Tok): lo, hi = z3.IntVal(0), ln
        elif h == 'std::ops::RangeFrom': lo, hi = c.e.z(c.T.field(rg, 0, 0, 'usize')), ln
        elif h == 'std::ops::RangeTo': lo, hi = z3.IntVal(0), c.e.z(c.T.field(rg, 0, 0, 'usize'))
        elif h == 'std::ops::Range': lo, hi = (c.e.z(c.T.field(rg, 0, k, 'usize')) for k in (0, 1))
        else: return NotImplemented
    okc = z3.And(lo <= hi, hi <= ln)
    c.e.oblige(c.st, 'no panic: range of drain', okc, ('C20',), 'panic')
    c.st.assume(okc)
    r = c.T.fresh_sort(arr.sort(), 'drn'); i = qv(c)
    c.st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < hi - lo), sel(r, i) == sel(arr, lo + i)), patterns=[sel(r, i)]))
    c.st.assume(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), sel(arr, i) == sel(r, i - lo)), patterns=[sel(arr, i)]))
    out = c.T.mk_vec(v.sort(), z3.simplify(hi - lo), r)
    if hi is ln: setvec(c, 0, lo, arr)
    else:
        k = c.T.fresh_sort(arr.sort(), 'kept')
        c.st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln - (hi - lo)), sel(k, i) == z3.If(i < lo, sel(arr, i), sel(arr, i + (hi - lo)))), patterns=[sel(k, i)]))
        c.st.assume(z3.ForAll([i], z3.Implies(z3.Or(z3.And(0 <= i, i < lo), z3.And(hi <= i, i < ln)), z3.If(i < lo, sel(k, i), sel(k, i - (hi - lo))) == sel(arr, i)), patterns=[sel(arr, i)]))
        setvec(c, 0, z3.simplify(ln - (hi - lo)), k)
    if c.base.endswith('split_off'): return c.ret(out)
    return c.ret(It('seq', seq=out, idx=z3.IntVal(0), ety=et))
@model('std::vec::Vec::<T, A>::remove')
def vec_remove(c):
    return NotImplemented
@model('core::slice::<impl [T]>::contains')
def vec_contains(c):
    ln, arr = vec(c); x = c.z(1); i = qv(c)
    lenfact(c.st, ln)
    return c.ret(z3.Exists([i], z3.And(0 <= i, i < ln, sel(arr, i) == x)))
@model('core::slice::<impl [T]>::to_vec', 'core::slice::<impl [T]>::to_vec_in', 'std::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::into_vec')
def to_vec_m(c): return c.ret(c.a(0))
@model('std::boxed::Box::<T>::new_uninit')
def new_uninit(c): 
    mu = c.T.strip(c.dty)
    arr = c.T.info(mu)['args'][0]
    cell = c.e.newcell(c.st, Agg(mu, 0, [UNIT, Agg(f'std::mem::ManuallyDrop<{arr}>', 0, [Tok('uninit')])]), 'box')
    return c.ret(Ref(cell, (), mu))
@model('std::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(c):
    a = c.a(0)
    if isinstance(a, Agg) and 'MaybeUninit' in a.ty: a = a.fs[-1]
    if isinstance(a, Agg) and 'MaybeUninit' in a.ty: a = a.fs[-1]
    if isinstance(a, Agg) and 'ManuallyDrop' in a.ty: a = a.fs[-1]
    return c.ret(a)
@model('std::boxed::Box::<T>::new', 'std::sync::Arc::<T>::new', 'std::rc::Rc::<T>::new')
def box_new(c): return c.ret(c.args[0])
@model('std::ops::Index::index', 'core::slice::index::<impl std::ops::Index<I> for [T]>::index', '<std::vec::Vec<T, A> as std::ops::Index<I>>::index')
def vec_index(c):
    v = c.a(0)
    ix = c.a(1)
    d = isinstance(v, z3.ExprRef) and c.T.dtinfo(v)
    if d and d[0] == 'map':
        k = mapkey(c, 1, v)
        c.e.oblige(c.st, 'no panic: map index', sel(c.T.map_ops(v)[0], k), ('C20',), 'panic')
        c.st.assume(sel(c.T.map_ops(v)[0], k))
        return c.ret(sel(c.T.map_ops(v)[1], k))
    if not d or d[0] != 'vec':
        h = c.T.head(c.atys[1])
        if isinstance(v, z3.ExprRef) and v.sort().name() in ('Str', 'Bytes') and h.startswith('std::ops::Range'):
            # slicing text may panic unless the range is in bounds
            okc = c.e.uf('slice_ok:' + h, [v] + [c.e.z(x) for x in (c.T.explode(ix, c.T.strip(c.atys[1]), 0).fs if not isinstance(ix, Tok) else [])], 'bool')
            c.e.oblige(c.st, 'no panic: slice index', okc, ('C20',), 'panic')
            c.st.assume(okc)
            return c.opaque(taint='text slicing')
        return NotImplemented
    if not isinstance(ix, z3.ArithRef):
        ln, arr = vec(c); h = c.T.head(c.atys[1])
        f = lambda k: c.e.z(c.T.field(ix, 0, k, 'usize'))
        lo, hi = (f(0), ln) if h == 'std::ops::RangeFrom' else (z3.IntVal(0), f(0)) if h == 'std::ops::RangeTo' else (f(0), f(1)) if h == 'std::ops::Range' else (z3.IntVal(0), ln)
        okc = z3.And(lo <= hi, hi <= ln)
        c.e.oblige(c.st, 'no panic: slice index', okc, ('C20',), 'panic'); c.st.assume(okc)
        r = c.T.fresh_sort(arr.sort(), 'slc'); i = qv(c)
        c.st.assume(z3.ForAll([i], sel(r, i) == sel(arr, lo + i), patterns=[sel(r, i)]))
        c.st.assume(z3.ForAll([i], sel(arr, i) == sel(r, i - lo), patterns=[sel(arr, i)]))
        return c.ret(c.T.mk_vec(v.sort(), z3.simplify(hi - lo), r))
    ln, arr = vec(c); lenfact(c.st, ln)
    c.e.oblige(c.st, 'no panic: index in range', z3.And(ix >= 0, ix < ln), ('C20',), 'panic')
    c.st.assume(ix >= 0, ix < ln)
    return c.ret(sel(arr, ix))

# ---------------------------------------------------------------- closures as terms
def pure_term(c, st, f, xs, rty=None):
    base = st.copy()
    log = set(); base.log = (st.log or []) + [log]
    n0 = len(base.pc)
    res = c.e.call_closure(base, f, list(xs), rty)
    own = {k for k in st.cells}
    if any(cc in own for cc, p in log): raise Unsupported('closure with effects')
    new = []
    for s2, v in res:
        if s2.taint - st.taint: st.taint = st.taint | s2.taint
        conds = [p for p in s2.pc[n0:]]
        v = c.e.deref(s2, v)
        if isinstance(v, Discr): v = c.e.z(v)
        new.append((conds, v))
    if not new: raise Unsupported('closure never returns')
    def conv(v): return c.e.z(v, v.ty if isinstance(v, Agg) else None)
    r = conv(new[-1][1])
    for conds, v in reversed(new[:-1]): 
        v = conv(v)
        r = v if v.eq(r) else z3.If(And(*conds), v, r)
    return z3.simplify(r) if isinstance(r, z3.BoolRef) else r
def pure_fn(c, st, f, x, et):
    """applies a closure to a term; cached on a placeholder"""
    cache = c.__dict__.setdefault('pf', {})
    if 'f' not in cache:
        y = c.T.fresh_sort(x.sort(), 'el')
        n0 = c.T.nfresh
        cache['f'] = (y, pure_term(c, st, f, [y]))
    y, t = cache['f']
    return z3.substitute(t, (y, x))
def pure_fn2(c, st, f, x, y, et):
    cache = c.__dict__.setdefault('pf2', {})
    if 'f' not in cache:
        a, b = c.T.fresh_sort(x.sort(), 'el'), c.T.fresh_sort(x.sort(), 'el')
        cache['f'] = (a, b, pure_term(c, st, f, [a, b]))
    a, b, t = cache['f']
    return z3.substitute(t, (a, x), (b, y))
def term_of(c, st, f, sort):
    y = c.T.fresh_sort(sort, 'el')
    t = pure_term(c, st, f, [y])
    return lambda x: z3.substitute(t, (y, x))

# ---------------------------------------------------------------- iterators
def elem_sort(it): return it.seq.sort().accessor(0, 1).range().range() if it.seq is not None else None
@model('core::slice::<impl [T]>::iter', "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       '<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter', 'rpki::repository::roa::RoaIpAddresses::iter', 'core::array::<impl std::iter::IntoIterator for [T; N]>::into_iter', 'core::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter')
def slice_iter(c):
    v = c.a(0)
    if isinstance(v, Agg) and c.T.info(v.ty)['k'] == 'array': return c.ret(It('list', seq=tuple(v.fs), idx=0))
    if not isinstance(v, z3.ExprRef) or not c.T.dtinfo(v):
        if isinstance(v, z3.ExprRef) and v.sort().name() not in ('Bytes', 'Str'):
            # opaque containers: their content is a function of the value
            it = c.T.info(c.T.strip(c.dty))
            return c.ret(It('opaque', seq=None, idx=None, ref=None, ety=None, fn=None, inner=None)) if False else opaque_iter(c, v)
        return NotImplemented
    ln, arr = c.T.vec_ops(v); lenfact(c.st, ln)
    return c.ret(It('seq', seq=v, idx=z3.IntVal(0), ety=ety(c, c.atys[0])))
def opaque_iter(c, v, item=None):
    et = item or opaque_item(c)
    vt = 'std::vec::Vec<' + et + '>'
    w = c.e.uf('items', [v], vt)
    lenfact(c.st, c.T.vec_ops(w)[0])
    return c.ret(It('seq', seq=w, idx=z3.IntVal(0), ety=et))
OPAQUE_ITEMS = {'rpki::repository::roa::RoaIpAddressIter': 'rpki::repository::roa::RoaIpAddress', 'rpki::repository::aspa::ProviderAsIter': 'rpki::resources::Asn'}
def opaque_item(c):
    h = c.T.head(c.dty)
    for k, t in OPAQUE_ITEMS.items():
        if k in c.dty: return t
    raise Unsupported('iterator over ' + c.dty)
@model("core::slice::<impl [T]>::iter_mut", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter")
def iter_mut(c):
    r = c.args[0]
    if not isinstance(r, Ref): return NotImplemented
    ln, arr = vec(c); lenfact(c.st, ln)
    return c.ret(It('mut', seq=c.z(0), idx=z3.IntVal(0), ety=ety(c, c.atys[0]), ref=r))
def mappos(e, seq, ks):
    """place of a key in an enumeration"""
    f = z3.Function('mappos:' + seq.sort().name(), seq.sort(), ks, I)
    return lambda k: f(seq, k)
def map_seq(c, st, m, kt, vt):
    """an arbitrary enumeration of a map"""
    dom, val, n = c.T.map_ops(m)
    tt = f'({kt}, {vt})'
    c.T.t.setdefault(tt, {'k': 'tuple', 'ts': [kt, vt]})
    vs = 'std::vec::Vec<' + tt + '>'
    c.T.t.setdefault(vs, {'k': 'adt', 'path': 'std::vec::Vec', 'args': [tt], 'local': False, 'enum': False, 'open': False, 'vs': []})
    seq = c.T.fresh(vs, 'enum')
    ln, arr = c.T.vec_ops(seq)
    i, j = qv(c), qv(c, 'j')
    key = lambda x: c.T.field(x, 0, 0); vl = lambda x: c.T.field(x, 0, 1)
    pos = mappos(c.e, seq, dom.sort().domain())
    k = z3.Const(f'k?{c.T.nfresh}', dom.sort().domain())
    st.assume(ln >= 0, ln == n)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), z3.And(sel(dom, key(sel(arr, i))), vl(sel(arr, i)) == sel(val, key(sel(arr, i))), pos(key(sel(arr, i))) == i)), patterns=[sel(arr, i)]))
    st.assume(z3.ForAll([k], z3.Implies(sel(dom, k), z3.And(0 <= pos(k), pos(k) < ln, key(sel(arr, pos(k))) == k, sel(val, k) == vl(sel(arr, pos(k))))), patterns=[sel(dom, k), pos(k)]))
    return It('seq', seq=seq, idx=z3.IntVal(0), ety=tt)
def is_map(c, v):
    d = isinstance(v, z3.ExprRef) and c.T.dtinfo(v)
    return d and d[0] == 'map'
@model('<std::collections::HashMap<K, V, S, A> as std::iter::IntoIterator>::into_iter', "<&'a std::collections::HashMap<K, V, S, A> as std::iter::IntoIterator>::into_iter", 'std::collections::HashMap::<K, V, S, A>::iter', 'std::collections::HashMap::<K, V, S, A>::drain')
def hm_iter(c):
    v = c.z(0)
    kt, vt = c.T.dtinfo(v)[1]
    return c.ret(map_seq(c, c.st, v, kt, vt))
@model('std::collections::HashMap::<K, V, S, A>::values', 'std::collections::HashMap::<K, V, S, A>::into_values', 'std::collections::HashMap::<K, V, S, A>::keys', 'std::collections::HashMap::<K, V, S, A>::into_keys')
def hm_values(c):
    v = c.z(0); kt, vt = c.T.dtinfo(v)[1]
    k = 1 if 'values' in c.base else 0
    return c.ret(It('proj', inner=map_seq(c, c.st, v, kt, vt), fn=k, ety=(kt, vt)[k]))

@model('std::iter::Iterator::filter', 'std::iter::Iterator::map', 'std::iter::Iterator::filter_map', 'std::iter::Iterator::flat_map', 'std::iter::Iterator::take_while', 'std::iter::Iterator::skip_while')
def it_adapt(c):
    a = c.a(0)
    if not isinstance(a, It): raise Unsupported('iterator ' + c.atys[0])
    return c.ret(It(c.base.split('::')[-1], inner=a, fn=c.args[1]))
@model('std::iter::Iterator::cloned', 'std::iter::Iterator::copied', 'std::iter::Iterator::by_ref', '<I as std::iter::IntoIterator>::into_iter', 'std::iter::Iterator::fuse')
def it_same(c):
    if c.base.endswith('by_ref'): return c.ret(c.args[0])
    a = c.args[0]
    if isinstance(a, (It, Ref)): return c.ret(a)
    v = c.a(0)
    if isinstance(v, z3.ExprRef) and (v.sort().name().startswith('Vec')): return slice_iter(c)
    if isinstance(v, Agg) or isinstance(v, z3.ExprRef): return c.ret(v)     # ranges, opaque iterators
    return NotImplemented
@model('std::iter::Iterator::enumerate')
def it_enum(c): return c.ret(It('enumerate', inner=c.a(0), idx=z3.IntVal(0)))
@model('std::iter::Iterator::rev')
def it_rev(c):
    a = c.a(0)
    if not isinstance(a, It) or a.kind != 'seq': return NotImplemented
    ln, arr = c.T.vec_ops(a.seq)
    if not (z3.is_int_value(a.idx) and a.idx.as_long() == 0): return NotImplemented
    r = reversed_arr(c, c.st, ln, arr)
    return c.ret(a.but(seq=c.T.mk_vec(a.seq.sort(), ln, r)))
@model('std::iter::Iterator::skip', 'std::iter::Iterator::take')
def it_skip(c):
    a = c.a(0); n = c.z(1)
    if not isinstance(a, It) or a.kind != 'seq': return NotImplemented
    ln, arr = c.T.vec_ops(a.seq)
    if c.base.endswith('skip'): return c.ret(a.but(idx=z3.If(a.idx + n < ln, a.idx + n, ln)))
    return c.ret(a.but(seq=c.T.mk_vec(a.seq.sort(), z3.If(a.idx + n < ln, a.idx + n, ln), arr)))
@model('std::iter::Iterator::chain')
def it_chain(c):
    a, b = c.a(0), c.a(1)
    if isinstance(b, z3.ExprRef) and b.sort().name().startswith('Vec'): b = It('seq', seq=b, idx=z3.IntVal(0), ety=ety(c, c.atys[1]))
    if isinstance(a, It) and isinstance(b, It) and a.kind == b.kind == 'seq' and a.seq.sort() == b.seq.sort() and all(z3.is_int_value(x.idx) and x.idx.as_long() == 0 for x in (a, b)):
        return c.ret(a.but(seq=concat(c, c.st, a.seq, b.seq)))
    return NotImplemented

def it_next(c, st, it):
    """-> list of (state, element or None, new iterator)"""
    T = c.T
    if it.kind == 'list':
        if it.idx >= len(it.seq): return [(st, None, it)]
        return [(st, it.seq[it.idx], it.but(idx=it.idx + 1))]
    if it.kind in ('seq', 'mut'):
        ln, arr = T.vec_ops(it.seq)
        lenfact(st, ln)
        out = []
        if c.e.feasible(st, it.idx < ln):
            n = st.copy(); n.assume(it.idx < ln, it.idx >= 0)
            x = sel(arr, it.idx) if it.kind == 'seq' else Ref(it.ref.cell, it.ref.path + (('i', it.idx, it.ety),), it.ety)
            if it.kind == 'seq' and z3.is_int_value(it.idx): x = z3.simplify(x)
            out.append((n, x, it.but(idx=z3.simplify(it.idx + 1))))
        if c.e.feasible(st, it.idx >= ln):
            n = st.copy(); n.assume(it.idx >= ln)
            out.append((n, None, it))
        return out
    if it.kind == 'proj':
        return [(s, None if x is None else T.field(x, 0, it.fn), it.but(inner=i)) for s, x, i in it_next(c, st, it.inner)]
    if it.kind == 'enumerate':
        return [(s, None if x is None else Agg('(usize, ?)', 0, [it.idx, x]), it.but(inner=i, idx=it.idx + 1)) for s, x, i in it_next(c, st, it.inner)]
    if it.kind == 'map':
        out = []
        for s, x, i in it_next(c, st, it.inner):
            if x is None: out.append((s, None, it.but(inner=i))); continue
            for s2, v in c.e.call_closure(s, it.fn, [x]): out.append((s2, v, it.but(inner=i)))
        return out
    if it.kind == 'filter':
        inn = it.inner
        if inn.kind != 'seq':
            raise Unsupported('filter over ' + inn.kind)
        ln, arr = T.vec_ops(inn.seq); lenfact(st, ln)
        pred = term_of(c, st, it.fn, arr.sort().range())
        j = T.fresh_sort(I, 'nx'); k = qv(c)
        out = []
        n = st.copy()
        n.assume(inn.idx <= j, j < ln, j >= 0, pred(sel(arr, j)))
        n.assume(z3.ForAll([k], z3.Implies(z3.And(inn.idx <= k, k < j), z3.Not(pred(sel(arr, k)))), patterns=[sel(arr, k)]))
        if c.e.feasible(n): out.append((n, sel(arr, j), it.but(inner=inn.but(idx=j + 1))))
        n = st.copy()
        n.assume(z3.ForAll([k], z3.Implies(z3.And(inn.idx <= k, k < ln), z3.Not(pred(sel(arr, k)))), patterns=[sel(arr, k)]))
        out.append((n, None, it.but(inner=inn.but(idx=ln))))
        return out
    raise Unsupported('next of ' + it.kind)

@model('std::iter::Iterator::next')
def m_next(c):
    r = c.args[0]
    if not isinstance(r, Ref): return NotImplemented
    it = c.a(0)
    if isinstance(it, Agg) and 'std::ops::Range<' in it.ty:
        lo, hi = (c.e.z(x) for x in it.fs)
        out = []
        def some(n):
            c.e.write(n, r.cell, r.path, r.ty, Agg(it.ty, 0, [z3.simplify(lo + 1), hi])); return c.mk(c.dty, 'Some', lo)
        return c.split((lo < hi, some), (lo >= hi, lambda n: c.mk(c.dty, 'None')))
    if not isinstance(it, It): raise Unsupported(f'next of {it!r}')
    out = []
    for st, x, ni in it_next(c, c.st, it):
        c.e.write(st, r.cell, r.path, r.ty, ni)
        out.append((st, c.mk(c.dty, 'None') if x is None else c.mk(c.dty, 'Some', x)))
    return out

def seq_of(c, st, it, item_ty=None):
    """(len, fn index -> term, elemsort) of what is left of a pure iterator"""
    T = c.T
    if it.kind == 'seq':
        ln, arr = T.vec_ops(it.seq); lenfact(st, ln)
        if z3.is_int_value(it.idx) and it.idx.as_long() == 0: return ln, (lambda i: sel(arr, i)), arr.sort().range()
        return ln - it.idx, (lambda i: sel(arr, i + it.idx)), arr.sort().range()
    if it.kind == 'proj':
        ln, f, s = seq_of(c, st, it.inner)
        g = lambda i: T.field(f(i), 0, it.fn)
        return ln, g, g(z3.IntVal(0)).sort()
    if it.kind == 'map':
        ln, f, s = seq_of(c, st, it.inner)
        t = term_of(c, st, it.fn, s)
        return ln, (lambda i: t(f(i))), t(f(z3.IntVal(0))).sort()
    if it.kind == 'filter':
        ln, f, s = seq_of(c, st, it.inner)
        arr = arr_of(c, st, ln, f, s)
        pred = term_of(c, st, it.fn, s)
        n, r = subset(c, st, ln, arr, pred)
        return n, (lambda i: sel(r, i)), s
    if it.kind == 'filter_map':
        ln, f, s = seq_of(c, st, it.inner)
        t = term_of(c, st, it.fn, s)
        o = t(f(z3.IntVal(0)))
        arr = arr_of(c, st, ln, lambda i: t(f(i)), o.sort())
        d = c.T.dtinfo(o)
        n, r = subset(c, st, ln, arr, lambda x: c.T.is_variant(x, d[1], 1))
        return n, (lambda i: c.T.field(sel(r, i), 1, 0)), c.T.field(o, 1, 0).sort()
    if it.kind == 'list':
        raise Unsupported('sequence of list')
    raise Unsupported('sequence of ' + it.kind)
def arr_of(c, st, ln, f, s):
    t = f(z3.Int('i?0'))
    if z3.is_select(t) and t.arg(1).eq(z3.Int('i?0')): return t.arg(0)
    r = c.T.fresh_sort(z3.ArraySort(I, s), 'seq'); i = qv(c)
    body = f(i)
    pats = [sel(r, i)]
    inner = find_sel(body, i)
    if inner is not None: pats.append(inner)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), sel(r, i) == body), patterns=pats))
    return r
def find_sel(t, i):
    w = [t]
    while w:
        x = w.pop()
        if z3.is_select(x) and x.arg(1).eq(i): return x
        w.extend(x.children())
    return None
def to_vec(c, st, it, ty):
    vt = c.T.sort(ty)
    if it.kind == 'seq' and it.seq.sort() == vt and z3.is_int_value(it.idx) and it.idx.as_long() == 0: return it.seq
    ln, f, s = seq_of(c, st, it)
    if s != vt.accessor(0, 1).range().range(): raise Unsupported('collected element sort')
    return c.T.mk_vec(vt, ln, arr_of(c, st, ln, f, s))
@model('std::iter::Iterator::collect')
def it_collect(c):
    it = c.a(0)
    if not isinstance(it, It): return NotImplemented
    h = c.T.head(c.dty)
    if h == 'std::vec::Vec': return c.ret(to_vec(c, c.st, it, c.dty))
    if h in ('std::collections::HashMap', 'std::collections::BTreeMap', 'std::collections::HashSet', 'std::collections::BTreeSet'):
        i = c.T.info(c.T.strip(c.dty))
        ms = c.T.sort(c.dty)
        if it.kind == 'list': raise Unsupported('map from list')
        ln, f, s = seq_of(c, c.st, it)
        m = c.T.fresh_sort(ms, 'map')
        dom, val, n = c.T.map_ops(m)
        isset = 'Set' in h
        key = (lambda j: f(j)) if isset else (lambda j: c.T.field(f(j), 0, 0)); vl = lambda j: c.T.field(f(j), 0, 1)
        src = freshf(c, 'srcof', dom.sort().domain(), I)
        j = qv(c); k = z3.Const(f'k?{c.T.nfresh}', dom.sort().domain())
        fs = find_sel(f(j), j)
        pats = [fs] if fs is not None else []
        kw = dict(patterns=pats) if pats else {}
        c.st.assume(n >= 0, n <= ln, ln >= 0)
        c.st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln), sel(dom, key(j))), **kw))
        body = z3.And(0 <= src(k), src(k) < ln, key(src(k)) == k)
        if not isset: body = z3.And(body, sel(val, k) == vl(src(k)))
        c.st.assume(z3.ForAll([k], z3.Implies(sel(dom, k), body), patterns=[sel(dom, k), sel(val, k)] if not isset else [sel(dom, k)]))
        c.st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ln), src(key(j)) >= j), **kw))
        return c.ret(m)
    if h == 'std::result::Result':
        ok, er = c.T.info(c.T.strip(c.dty))['args'][:2]
        if c.T.head(ok) != 'std::vec::Vec': return NotImplemented
        ln, f, s = seq_of(c, c.st, it)
        d = c.T.dt.get(s.name())
        if not d or d[0] != 'adt': return NotImplemented
        rt = d[1]; i = qv(c)
        allok = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), c.T.is_variant(f(i), rt, 0)))
        j = c.T.fresh_sort(I, 'bad')
        def mkok(n):
            g = lambda i: c.T.field(f(i), 0, 0)
            vt = c.T.sort(ok)
            return c.mk(c.dty, 'Ok', c.T.mk_vec(vt, ln, arr_of(c, n, ln, g, g(z3.IntVal(0)).sort())))
        def mkerr(n):
            n.assume(j >= 0, j < ln, c.T.is_variant(f(j), rt, 1))
            return c.mk(c.dty, 'Err', c.T.field(f(j), 1, 0))
        c.T.nfresh += 1
        b = z3.Const(f'allok!{c.T.nfresh}', z3.BoolSort())
        c.st.assume(b == allok)
        return c.split((b, mkok), (z3.Not(b), mkerr))
    return NotImplemented
@model('std::iter::Iterator::any', 'std::iter::Iterator::all')
def it_any(c):
    it = c.a(0)
    if not isinstance(it, It): return NotImplemented
    ln, f, s = seq_of(c, c.st, it)
    p = term_of(c, c.st, c.args[1], s)
    anyv = c.base.endswith('any')
    j = c.T.fresh_sort(I, 'w'); i = qv(c)
    c.T.nfresh += 1
    r = z3.Const(f'any!{c.T.nfresh}', z3.BoolSort())
    good = (lambda x: p(x)) if anyv else (lambda x: z3.Not(p(x)))
    fs = find_sel(f(i), i)
    kw = dict(patterns=[fs]) if fs is not None else {}
    some = z3.And(0 <= j, j < ln, good(f(j)))
    none = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), z3.Not(good(f(i)))), **kw)
    if isinstance(c.args[0], Ref): pass
    yes = TRUE if anyv else FALSE
    def a(n): n.assume(some); return yes
    def b(n): n.assume(none); return z3.Not(yes) if False else (FALSE if anyv else TRUE)
    return c.split((r, a), (z3.Not(r), b))
@model('std::iter::Iterator::position', 'std::iter::Iterator::find', '<std::slice::Iter<\'a, T> as std::iter::Iterator>::position')
def it_pos(c):
    it = c.a(0)
    if not isinstance(it, It): return NotImplemented
    ln, f, s = seq_of(c, c.st, it)
    p = term_of(c, c.st, c.args[1], s)
    j = c.T.fresh_sort(I, 'fst'); i = qv(c)
    c.T.nfresh += 1
    r = z3.Const(f'found!{c.T.nfresh}', z3.BoolSort())
    fs = find_sel(f(i), i)
    kw = dict(patterns=[fs]) if fs is not None else {}
    pos = 'position' in c.base
    def a(n):
        n.assume(0 <= j, j < ln, p(f(j)), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < j), z3.Not(p(f(i)))), **kw))
        return c.mk(c.dty, 'Some', j if pos else f(j))
    def b(n):
        n.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), z3.Not(p(f(i)))), **kw))
        return c.mk(c.dty, 'None')
    return c.split((r, a), (z3.Not(r), b))
@model('std::iter::Iterator::count')
def it_count(c):
    it = c.a(0)
    if isinstance(it, It) and it.kind == 'flat_map':
        # number of inner items: a function of the sequence
        inn = it.inner
        t = term_of(c, c.st, it.fn, elem_sort(inn))
        y = z3.Int('y?')
        return c.ret(flatcount(c, c.st, inn, t))
    ln, f, s = seq_of(c, c.st, it)
    return c.ret(ln)
@model('<std::iter::FlatMap<I, U, F> as std::iter::Iterator>::count')
def fm_count(c): return it_count(c)
def flatcount(c, st, it, t):
    s = elem_sort(it)
    probe = z3.Const('probe:' + s.sexpr(), s)
    r = t(probe)
    name = 'flatcount:' + r.sexpr().replace(' ', '').replace('\n', '')
    v = c.e.uf(name, [it.seq], 'usize')
    st.assume(v >= 0, v <= 2**60)
    return v
@model('std::iter::Iterator::last', 'std::iter::Iterator::max', 'std::iter::Iterator::min', 'std::iter::Iterator::sum', 'std::iter::Iterator::fold', 'std::iter::Iterator::for_each', 'std::iter::Iterator::try_for_each', 'std::iter::Iterator::max_by_key', 'std::iter::Iterator::min_by_key', 'std::iter::Iterator::flatten', 'std::iter::Iterator::peekable', 'std::iter::Iterator::zip', 'std::iter::Iterator::partition', 'std::iter::Iterator::find_map', 'std::iter::Iterator::nth', 'std::iter::Iterator::step_by', 'std::iter::Iterator::inspect')
def it_unsup(c): raise Unsupported(c.base)

# ---------------------------------------------------------------- maps
def mapkey(c, i, m):
    k = c.z(i)
    want = c.T.map_ops(m)[0].sort().domain()
    if k.sort() != want: raise Unsupported(f'key {k.sort()} for {want}')
    return k
@model('std::collections::HashMap::<K, V>::new', 'std::collections::HashSet::<T>::new', '<std::collections::HashMap<K, V, S> as std::default::Default>::default', 'std::collections::BTreeMap::<K, V>::new')
def hm_new(c):
    s = c.T.sort(c.dty)
    d, v = s.accessor(0, 0).range(), s.accessor(0, 1).range()
    return c.ret(s.constructor(0)(z3.K(d.domain(), FALSE), c.T.uf('val0:' + s.sexpr(), [], v), z3.IntVal(0)))
@model('std::collections::HashMap::<K, V, S, A>::get', 'std::collections::BTreeMap::<K, V, A>::get')
def hm_get(c):
    m = c.z(0); k = mapkey(c, 1, m); dom, val, n = c.T.map_ops(m)
    return c.split((sel(dom, k), lambda st: c.mk(c.dty, 'Some', sel(val, k))), (z3.Not(sel(dom, k)), lambda st: c.mk(c.dty, 'None')))
@model('std::collections::HashMap::<K, V, S, A>::contains_key', 'std::collections::HashSet::<T, S, A>::contains')
def hm_has(c):
    m = c.z(0); return c.ret(z3.simplify(sel(c.T.map_ops(m)[0], mapkey(c, 1, m))))
@model('std::collections::HashMap::<K, V, S, A>::get_mut')
def hm_get_mut(c):
    m = c.z(0); k = mapkey(c, 1, m); dom, val, n = c.T.map_ops(m)
    r = c.args[0]; vt = c.T.dtinfo(m)[1][1]
    return c.split((sel(dom, k), lambda st: c.mk(c.dty, 'Some', Ref(r.cell, r.path + (('m', k, vt),), vt))), (z3.Not(sel(dom, k)), lambda st: c.mk(c.dty, 'None')))
@model('std::collections::HashMap::<K, V, S, A>::insert')
def hm_insert(c):
    m = c.z(0); k = mapkey(c, 1, m); dom, val, n = c.T.map_ops(m)
    v = c.e.z(c.a(2), c.T.dtinfo(m)[1][1])
    new = m.sort().constructor(0)(z3.Store(dom, k, TRUE), z3.Store(val, k, v), z3.If(sel(dom, k), n, n + 1))
    r = c.args[0]
    def put(st, x): c.e.write(st, r.cell, r.path, r.ty, new); return x
    return c.split((sel(dom, k), lambda st: put(st, c.mk(c.dty, 'Some', sel(val, k)))), (z3.Not(sel(dom, k)), lambda st: put(st, c.mk(c.dty, 'None'))))
@model('std::collections::HashSet::<T, S, A>::insert')
def hs_insert(c):
    m = c.z(0); k = mapkey(c, 1, m); dom, val, n = c.T.map_ops(m)
    c.set(0, m.sort().constructor(0)(z3.Store(dom, k, TRUE), val, z3.If(sel(dom, k), n, n + 1)))
    return c.ret(z3.Not(sel(dom, k)))
@model('std::collections::HashMap::<K, V, S, A>::remove')
def hm_remove(c):
    m = c.z(0); k = mapkey(c, 1, m); dom, val, n = c.T.map_ops(m)
    r = c.args[0]
    def put(st, x):
        c.e.write(st, r.cell, r.path, r.ty, m.sort().constructor(0)(z3.Store(dom, k, FALSE), val, z3.If(sel(dom, k), n - 1, n))); return x
    return c.split((sel(dom, k), lambda st: put(st, c.mk(c.dty, 'Some', sel(val, k)))), (z3.Not(sel(dom, k)), lambda st: put(st, c.mk(c.dty, 'None'))))
@model('std::collections::HashMap::<K, V, S, A>::len', 'std::collections::HashSet::<T, S, A>::len')
def hm_len(c):
    n = c.T.map_ops(c.z(0))[2]; c.st.assume(n >= 0, n <= 2**62); return c.ret(n)
@model('std::collections::HashMap::<K, V, S, A>::is_empty')
def hm_empty(c):
    n = c.T.map_ops(c.z(0))[2]; c.st.assume(n >= 0); return c.ret(n == 0)
@model('std::collections::HashMap::<K, V, S, A>::entry')
def hm_entry(c): return c.ret(Tok('entry', c.args[0], c.args[1]))
def entry_get(c, default):
    t = c.args[0]
    if not isinstance(t, Tok) or t.kind != 'entry': return NotImplemented
    r, key = t.a
    m = c.e.z(c.e.deref(c.st, r)); vt = c.T.dtinfo(m)[1][1]
    k = c.e.z(c.e.deref(c.st, key), c.T.dtinfo(m)[1][0]); dom, val, n = c.T.map_ops(m)
    out = []
    if c.e.feasible(c.st, sel(dom, k)):
        a = c.st.copy(); a.assume(sel(dom, k)); out.append((a, Ref(r.cell, r.path + (('m', k, vt),), vt)))
    if c.e.feasible(c.st, z3.Not(sel(dom, k))):
        a = c.st.copy(); a.assume(z3.Not(sel(dom, k)))
        for b, v in default(a, vt):
            new = m.sort().constructor(0)(z3.Store(dom, k, TRUE), z3.Store(val, k, c.e.z(v, vt)), n + 1)
            c.e.write(b, r.cell, r.path, r.ty, new)
            out.append((b, Ref(r.cell, r.path + (('m', k, vt),), vt)))
    return out
@model("std::collections::hash_map::Entry::<'a, K, V>::or_default")
def entry_def(c): return entry_get(c, lambda st, vt: default_of(c, st, vt))
@model("std::collections::hash_map::Entry::<'a, K, V>::or_insert", "std::collections::hash_map::Entry::<'a, K, V, A>::or_insert")
def entry_ins(c): return entry_get(c, lambda st, vt: [(st, c.args[1])])
@model("std::collections::hash_map::Entry::<'a, K, V>::or_insert_with", "std::collections::hash_map::Entry::<'a, K, V, A>::or_insert_with")
def entry_insw(c): return entry_get(c, lambda st, vt: c.e.call_closure(st, c.args[1], [], vt))
def default_of(c, st, ty):
    t = c.T.strip(ty); k = c.T.canon(t); h = c.T.head(t)
    if t in INTR: return [(st, z3.IntVal(0))]
    if t == 'bool': return [(st, FALSE)]
    if k == 'Str': return [(st, c.e.lit(''))]
    if k == 'Bytes': return [(st, c.e.K.empty)]
    sub = Call(c.e, st, {'base': '', 'res': ''}, [], [], t, None)
    if h == 'std::vec::Vec': return vec_new(sub)
    if h in ('std::collections::HashMap', 'std::collections::HashSet'): return hm_new(sub)
    if h == 'std::option::Option': return [(st, sub.mk(t, 'None'))]
    # the type's own Default
    cand = [i for i, f in c.e.fns.items() if str(f.get('trait')).endswith(' as std::default::Default>') and f['argc'] == 0 and c.T.strip(f['locals'][0]) == t]
    if len(cand) == 1:
        for p in (): pass
        return c.e.run_fn(cand[0], st, [])
    raise Unsupported('default of ' + ty)
@model('std::default::Default::default')
def m_default(c):
    return default_of(c, c.st, c.dty)

# ---------------------------------------------------------------- text
def disp(c, st, v, ty):
    """the Display text of a value"""
    T = c.T; K = c.e.K
    v = c.e.deref(st, v)
    t = T.strip(ty)
    while T.info(t)['k'] == 'ref': t = T.strip(T.info(t)['t'])
    if isinstance(v, Agg) and T.info(v.ty)['k'] != 'opaque': t = v.ty if T.info(t)['k'] == 'opaque' else t
    k = T.canon(t)
    if k == 'Str': return c.e.z(v)
    if k == 'Path': return K.pathstr(c.e.z(v))
    if t == 'rpki::uri::Https': return uristr(c, c.e.z(v))
    if t == 'rpki::uri::Rsync': return c.e.uf('rsyncstr', [c.e.z(v)], 'str')
    if t.endswith('validator::UriString'): return c.e.z(T.field(v, 0, 0, 'std::string::String'))
    if isinstance(v, z3.ExprRef): return c.e.uf('disp', [v], 'str')
    if isinstance(v, Agg):
        try: return c.e.uf('disp', [c.e.z(v, t)], 'str')
        except Unsupported: pass
    return c.e.uf(f'disp?{t}', [], 'str')
def uristr(c, u): return c.e.uf('uristr', [u], 'str')
@model("core::fmt::rt::Argument::<'_>::new_display")
def fmt_disp(c):
    return c.ret(Tok('arg', disp(c, c.st, c.args[0], c.atys[0])))
@model("core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_lower_hex", "core::fmt::rt::Argument::<'_>::new_upper_hex")
def fmt_dbg(c):
    v = c.a(0)
    try: t = c.e.uf('debug:' + c.base[-5:], [c.e.z(v, c.T.strip(c.atys[0]))], 'str')
    except Unsupported: t = c.e.uf('debug?', [], 'str')
    return c.ret(Tok('arg', t))
@model("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::new_const", "std::fmt::Arguments::<'a>::from_str_nonconst")
def fmt_str(c):
    v = c.a(0)
    return c.ret(Tok('fmt', c.e.z(v)) if isinstance(v, z3.ExprRef) else Tok('fmt', c.e.uf('text?', [], 'str')))
@model("std::fmt::Arguments::<'a>::new")
def fmt_new(c):
    K = c.e.K
    a = c.args[1]
    a = c.e.deref(c.st, a)
    items = list(a.fs) if isinstance(a, Agg) else None
    if items is None or not all(isinstance(x, Tok) and x.kind == 'arg' for x in items):
        return c.ret(Tok('fmt', c.e.uf('text?', [], 'str')))
    raw = fmt_raw(c)
    if raw is None: return c.ret(Tok('fmt', c.e.uf('text?', [], 'str')))
    parts, i, k = [], 0, 0
    good = True
    while i < len(raw):
        n = raw[i]; i += 1
        if n == 0: break
        if n < 128:
            parts.append(c.e.lit(bytes(raw[i:i + n]).decode('utf8', 'replace'))); i += n
        elif n == 0xC0:
            parts.append(items[k].a[0]); k += 1
        else: good = False; break
    if not good or k != len(items):
        return c.ret(Tok('fmt', c.e.uf('text:' + str(raw), [x.a[0] for x in items], 'str')))
    if not parts: return c.ret(Tok('fmt', c.e.lit('')))
    r = parts[-1]
    for p in reversed(parts[:-1]): r = K.cat(p, r)
    return c.ret(Tok('fmt', r))
def fmt_raw(c):
    o = c.t['a'][0] if c.t else None
    x = c.args[0]
    if isinstance(x, z3.ExprRef) and x.decl().name().startswith('b"'):
        pass
    raw = c.e.rawbytes.get(x.decl().name()) if isinstance(x, z3.ExprRef) else None
    return raw
@model('std::fmt::format', 'std::fmt::Arguments::<\'a>::as_str')
def fmt_format(c):
    a = c.a(0)
    if isinstance(a, Tok): return c.ret(a.a[0])
    return NotImplemented
@model('std::hint::must_use', 'anyhow::__private::must_use', 'std::convert::identity')
def must_use(c): return c.ret(c.args[0])
@model("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Write::write_fmt", "std::fmt::Formatter::<'a>::write_str")
def write_fmt(c): return c.ret(c.mk(c.dty, 'Ok', UNIT))
@model('std::string::ToString::to_string', 'std::string::String::as_str', 'std::borrow::ToOwned::to_owned', 'std::string::String::into_boxed_str', 'std::str::<impl str>::to_owned', 'core::str::<impl str>::to_string')
def to_string(c):
    t = c.T.strip(c.atys[0])
    if c.T.canon(c.dty) == 'Str': 
        ti = c.T.info(t)
        # the crate's own Display impls
        return c.ret(disp(c, c.st, c.args[0], c.atys[0]))
    return NotImplemented
@model('core::str::<impl str>::as_bytes', 'std::string::String::as_bytes', 'std::string::String::into_bytes')
def as_bytes(c): return c.ret(c.e.K.bytes_of(c.z(0)))
@model('core::str::<impl str>::strip_prefix')
def strip_prefix(c):
    K = c.e.K; s, p = c.z(0), c.a(1)
    if not isinstance(p, z3.ExprRef) or p.sort() != K.Str: return NotImplemented
    return c.split((K.isprefix(p, s), lambda n: c.mk(c.dty, 'Some', K.suffix(p, s))), (z3.Not(K.isprefix(p, s)), lambda n: c.mk(c.dty, 'None')))
@model('core::str::<impl str>::starts_with')
def starts_with(c):
    p = c.a(1)
    if not isinstance(p, z3.ExprRef) or p.sort() != c.e.K.Str: return NotImplemented
    return c.ret(c.e.K.isprefix(p, c.z(0)))
@model('core::str::<impl str>::ends_with', 'core::str::<impl str>::contains', 'core::str::<impl str>::trim', 'core::str::<impl str>::rsplit_once', 'core::str::<impl str>::split_once', 'core::str::<impl str>::strip_suffix', 'core::str::<impl str>::trim_end_matches', 'core::str::<impl str>::trim_start_matches', 'core::str::<impl str>::to_lowercase', 'core::str::<impl str>::eq_ignore_ascii_case')
def str_pure(c):
    if not c.base.endswith('ends_with'): c.st.touch(f'{c.base} is not interpreted')
    try: return c.pure(c.base.split('::')[-1] if True else None)
    except Unsupported: return NotImplemented
@model('core::str::traits::<impl std::cmp::PartialEq for str>::eq', '<std::string::String as std::cmp::PartialEq>::eq', '<std::string::String as std::cmp::PartialEq<str>>::eq', "<std::string::String as std::cmp::PartialEq<&'a str>>::eq")
def str_eq(c): return c.ret(z3.simplify(c.z(0) == c.z(1)))
@model('std::str::from_utf8', 'core::str::<impl str>::from_utf8', 'std::string::String::from_utf8_lossy', 'std::string::String::from_utf8')
def from_utf8(c):
    h = c.T.head(c.dty)
    v = c.z(0)
    if h == 'std::result::Result':
        return c.okerr(lambda n: c.e.uf('utf8', [v], 'str'), okcond=c.e.uf('isutf8', [v], 'bool'))
    return c.ret(c.e.uf('utf8', [v], 'str'))

@model('core::str::<impl str>::split', 'core::str::<impl str>::split_terminator')
def str_split(c):
    x = c.z(0); p = c.a(1)
    if not isinstance(p, z3.ExprRef) or not (z3.is_int(p) or p.sort() == c.e.K.Str): return NotImplemented
    if z3.is_string_value(p): return NotImplemented
    if p.sort() == c.e.K.Str and p.eq(c.e.lit('/')): p = z3.IntVal(47)
    seq = c.e.uf('split' if c.base.endswith('split') else 'split_terminator', [x, p], 'std::vec::Vec<&str>')
    c.st.assume(c.T.vec_ops(seq)[0] >= 1)
    lenfact(c.st, c.T.vec_ops(seq)[0])
    return c.ret(It('seq', seq=seq, idx=z3.IntVal(0), ety='&str'))

# ---------------------------------------------------------------- numbers
def num(c):
    import re as _re
    m = _re.match(r'core::num::<impl (\w+)>::(\w+)$', c.base)
    if not m or m.group(1) not in INTR: return NotImplemented
    t, op = m.groups(); lo, hi = INTR[t]
    a = c.z(0); b = c.z(1) if len(c.args) > 1 else None
    clamp = lambda x: z3.If(x < lo, z3.IntVal(lo), z3.If(x > hi, z3.IntVal(hi), x))
    wrap = lambda x: z3.If(z3.And(x >= lo, x <= hi), x, (x - lo) % (hi - lo + 1) + lo)
    ar = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b}
    k, _, o = op.partition('_')
    if k == 'saturating' and o in ar: return c.ret(z3.simplify(clamp(ar[o]())))
    if k == 'wrapping' and o in ar: return c.ret(z3.simplify(wrap(ar[o]())))
    if k == 'checked' and o in ar:
        x = ar[o](); inr = z3.And(x >= lo, x <= hi)
        return c.split((inr, lambda n: c.mk(c.dty, 'Some', z3.simplify(x))), (z3.Not(inr), lambda n: c.mk(c.dty, 'None')))
    if k == 'overflowing' and o in ar:
        x = ar[o](); return c.ret(Agg(f'({t}, bool)', 0, [wrap(x), z3.Or(x < lo, x > hi)]))
    if op == 'abs_diff': return c.ret(z3.If(a > b, a - b, b - a))
    return NotImplemented
PREFIX.append(('core::num::', num))
def is_int_ty(c, i=0): return c.T.strip(c.atys[i]) in INTR or (c.T.info(c.atys[i])['k'] == 'ref' and c.T.strip(c.T.info(c.atys[i])['t']) in INTR)
def intkey(c, i):
    v = c.a(i)
    if isinstance(v, z3.ArithRef): return v
    t = c.T.strip(c.atys[i]); vs = c.T.variants(t)
    if len(vs) == 1 and len(vs[0]['f']) == 1 and vs[0]['f'][0][1] in INTR: return c.e.z(c.T.field(v, 0, 0, vs[0]['f'][0][1]))
    return None
@model('std::cmp::Ord::max', 'std::cmp::Ord::min', 'std::cmp::max', 'std::cmp::min')
def ord_max(c):
    a, b = intkey(c, 0), intkey(c, 1)
    if a is None: return NotImplemented
    x, y = c.z(0), c.z(1)
    return c.ret(z3.If(b >= a, y, x) if c.base.endswith('max') else z3.If(b < a, y, x))

# ---------------------------------------------------------------- logging
@model('config::initialize_logging', 'config::try_init_logging')
def log_init(c): return c.ret()      # trusted: sets up logging only
@model('<log::Level as std::cmp::PartialOrd<log::LevelFilter>>::partial_cmp', '<log::Level as std::cmp::PartialOrd<log::LevelFilter>>::le')
def log_cmp(c):
    if c.T.strip(c.dty) == 'bool': return c.ret(FALSE)
    return c.ret(c.mk(c.dty, 'Some', Agg('std::cmp::Ordering', 2, [])))
@model('log::max_level')
def log_max(c): return c.ret(Tok('lvl'))
@model('<log::LevelFilter as std::cmp::PartialOrd>::partial_cmp')
def log_cmp2(c): return c.ret(c.mk(c.dty, 'Some', Agg('std::cmp::Ordering', 2, [])))
@model('log::__private_api::log', 'log::__private_api::loc', 'log::__private_api::enabled', 'std::io::_eprint', 'std::io::_print')
def log_nop(c): return c.ret(UNIT if c.T.strip(c.dty) == '()' else (FALSE if c.dty == 'bool' else Tok('loc')))

# ---------------------------------------------------------------- errors
def fresh_err(c, st=None):
    return c.e.fresh_value(st or c.st, 'anyhow::Error', 'err')
@model('anyhow::__private::format_err', 'anyhow::error::<impl anyhow::Error>::msg', 'anyhow::error::<impl std::convert::From<E> for anyhow::Error>::from', 'anyhow::kind::Adhoc::new', 'anyhow::error::<impl anyhow::Error>::new', 'anyhow::error::<impl anyhow::Error>::context', 'anyhow::kind::Trait::new')
def err_new(c): return c.ret(fresh_err(c))
@model('anyhow::__private::kind::AdhocKind::anyhow_kind', 'anyhow::__private::kind::TraitKind::anyhow_kind')
def err_kind(c): return c.ret(Tok('kind'))
@model('anyhow::context::<impl anyhow::Context<T, E> for std::result::Result<T, E>>::with_context', 'anyhow::context::<impl anyhow::Context<T, E> for std::result::Result<T, E>>::context', 'anyhow::Context::with_context', 'anyhow::Context::context')
def with_context(c):
    v = c.args[0]; T = c.T
    ty = T.strip(c.atys[0])
    h = T.head(ty)
    if h == 'std::option::Option':
        return c.split((T.is_variant(v, ty, 1), lambda n: c.mk(c.dty, 'Ok', T.field(v, 1, 0, None))), (T.is_variant(v, ty, 0), lambda n: c.mk(c.dty, 'Err', fresh_err(c, n))))
    return c.split((T.is_variant(v, ty, 0), lambda n: c.mk(c.dty, 'Ok', T.field(v, 0, 0, T.field_ty(ty, 0, 0)))), (T.is_variant(v, ty, 1), lambda n: c.mk(c.dty, 'Err', fresh_err(c, n))))

# ---------------------------------------------------------------- generic conversions
@model('<bytes::Bytes as std::convert::From<std::vec::Vec<u8>>>::from', '<std::path::PathBuf as std::convert::From<&T>>::from', '<std::path::PathBuf as std::convert::From<std::string::String>>::from')
def conv_from(c):
    v = c.z(0)
    if c.T.canon(c.dty) == 'Path': return c.ret(as_path(c, 0))
    return c.ret(v)
@model('std::path::Path::new')
def path_new(c): return c.ret(as_path(c, 0))
@model('std::path::Path::join')
def path_join(c):
    p = as_path(c, 1)
    if p.num_args() == 1 and p.decl().name() == 'path_of':
        for t, v in c.e.litstr.items():
            if v.eq(p.arg(0)) and t and all(x not in ('', '.', '..') for x in t.split('/')): c.st.assume(c.e.K.relok(v))
    return c.ret(c.e.K.pjoin(as_path(c, 0), p))
@model('std::path::PathBuf::push')
def path_push(c): c.set(0, c.e.K.pjoin(c.z(0), as_path(c, 1))); return c.ret()
@model('std::path::Path::to_path_buf', 'std::path::Path::display', 'std::path::PathBuf::as_path', 'std::path::Path::as_os_str', 'std::path::PathBuf::into_os_string')
def path_same(c): return c.ret(c.z(0))
@model('std::path::Path::to_string_lossy', 'std::ffi::OsStr::to_string_lossy')
def path_lossy(c): return c.ret(c.e.K.pathstr(as_path(c, 0)))
@model('std::path::Path::parent')
def path_parent(c):
    K = c.e.K; p = as_path(c, 0)
    def some(n):
        if 'w.ex' in n.cells:
            ex, fs = n.cells['w.ex'], n.cells['w.fs']
            n.assume(z3.Implies(z3.Or(sel(ex, p), K.isfile(sel(fs, p))), z3.And(sel(ex, K.parent(p)), z3.Not(K.isfile(sel(fs, K.parent(p)))))))
        return c.mk(c.dty, 'Some', K.parent(p))
    return c.split((K.hasparent(p), some), (z3.Not(K.hasparent(p)), lambda n: c.mk(c.dty, 'None')))
@model('std::path::PathBuf::set_extension')
def set_ext(c):
    x = c.z(1)
    c.set(0, c.e.K.withext(c.z(0), x)); 
    return c.ret(c.T.fresh('bool', 'se'))
@model('std::path::Path::with_extension')
def with_ext(c): return c.ret(c.e.K.withext(c.z(0), c.z(1)))
@model('<std::path::PathBuf as std::cmp::PartialEq>::eq', '<std::path::PathBuf as std::cmp::PartialEq<&std::path::Path>>::eq', '<std::path::PathBuf as std::cmp::PartialEq<std::path::Path>>::eq', '<std::path::Path as std::cmp::PartialEq>::eq')
def path_eq(c): return c.ret(z3.simplify(as_path(c, 0) == as_path(c, 1)))

# ---------------------------------------------------------------- time
@model('chrono::Local::now', 'chrono::Utc::now')
def now(c):
    v = c.e.fresh_value(c.st, c.dty, 'now'); st = c.st
    r = c.e.uf('timestamp', [v], 'i64')
    st.assume(r >= 0, r <= 2**45, r >= st.cells['w.now'])
    c.e.setw(st, 'now', r)
    return c.ret(v)
@model('chrono::DateTime::<Tz>::timestamp')
def timestamp(c):
    v = c.z(0)
    r = c.e.uf('timestamp', [v], 'i64')
    c.st.assume(r >= -(2**45), r <= 2**45)     # chrono's date range
    return c.ret(r)
@model('rpki::repository::x509::Time::now')
def rpki_now(c): return c.ret(c.e.fresh_value(c.st, c.dty, 'tnow'))
def rt_int(c, v): return c.e.uf('timestamp', [v], 'i64')
@model('<rpki::repository::x509::Time as std::cmp::PartialOrd>::partial_cmp')
def rt_cmp(c):
    return c.ret(c.mk(c.dty, 'Some', c.e.binop(c.st, 'Cmp', c.e.uf('rtime', [c.z(0)], 'i64'), c.e.uf('rtime', [c.z(1)], 'i64'), 'i64')))
@model('<rpki::repository::x509::Time as std::cmp::PartialOrd>::lt', '<rpki::repository::x509::Time as std::cmp::PartialOrd>::gt', '<rpki::repository::x509::Time as std::cmp::PartialOrd>::le', '<rpki::repository::x509::Time as std::cmp::PartialOrd>::ge')
def rt_ord(c):
    a, b = (c.e.uf('rtime', [c.z(i)], 'i64') for i in (0, 1))
    return c.ret({'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[c.res.split('::')[-1]])
@model('<rpki::repository::x509::Time as std::ops::Deref>::deref')
def rt_deref(c): return c.ret(c.e.uf('as_datetime', [c.z(0)], c.dty))
@model('<rpki::repository::x509::Time as std::ops::Sub<chrono::TimeDelta>>::sub', 'chrono::TimeDelta::minutes', 'std::time::Duration::from_secs', 'std::time::Duration::from_millis', 'chrono::DateTime::<Tz>::to_rfc3339', 'filetime::FileTime::from_unix_time', 'chrono::TimeDelta::seconds', 'chrono::TimeDelta::hours')
def time_pure(c): return c.pure(c.base.split('::')[-1] + ':' + c.T.canon(c.dty)[-12:])
@model('chrono::TimeZone::timestamp_opt')
def ts_opt(c): return c.ret(c.e.uf('timestamp_opt', [c.z(1)], c.dty))
@model('chrono::offset::LocalResult::<T>::unwrap')
def lr_unwrap(c):
    v = c.z(0)
    okc = c.e.uf('local_ok', [v], 'bool')
    c.e.oblige(c.st, 'no panic: LocalResult::unwrap', okc, ('C20',), 'panic')
    c.st.assume(okc)
    return c.ret(c.e.uf('local_value', [v], c.dty))
@model('std::thread::sleep')
def sleep(c):
    d = c.z(0); n = d.decl().name()
    s = d.arg(0) if n.startswith('from_secs') else d.arg(0) / 1000 if n.startswith('from_millis') else c.T.fresh('u64', 'slp')
    c.e.setw(c.st, 'slept', s)
    return c.ret()

# ---------------------------------------------------------------- opaque structures of the dependencies
def pure_prefix(c):
    """a getter or constructor without effects: a function of its arguments"""
    for a in c.args:
        rs = set(); c.e.refs(a, rs)
        if rs: return NotImplemented
    d = c.T.strip(c.dty)
    i = c.T.info(d)
    if not c.T.zable(d): return NotImplemented
    try: ar = [c.z(k) for k in range(len(c.args))]
    except Unsupported: return NotImplemented
    v = c.e.uf(c.base, ar, d)
    c.e.range_fact(c.st, v, d)
    return c.ret(v)
for p in ('rpki::', '<rpki::', 'uuid::', '<uuid::', 'bytes::Bytes', '<bytes::Bytes'): PREFIX.append((p, pure_prefix))
@model('<bytes::Bytes as std::convert::AsRef<[u8]>>::as_ref', '<bytes::Bytes as std::ops::Deref>::deref', '<std::path::PathBuf as std::ops::Deref>::deref', '<std::string::String as std::ops::Deref>::deref', '<std::sync::Arc<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::Deref>::deref', "<std::borrow::Cow<'_, B> as std::ops::Deref>::deref", '<std::boxed::Box<T, A> as std::ops::Deref>::deref', 'std::convert::AsRef::as_ref', '<std::string::String as std::convert::AsRef<str>>::as_ref')
def deref_same(c):
    v = c.a(0)
    if c.base.endswith('as_ref') and isinstance(v, z3.ExprRef) and c.T.zable(c.dty) and c.T.sort(c.dty) != v.sort():
        if c.T.canon(c.dty) == 'Path': return c.ret(as_path(c, 0))
        return NotImplemented
    return c.ret(v)
@model('<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut', 'std::vec::Vec::<T, A>::as_mut_slice', 'std::vec::Vec::<T, A>::as_slice', '<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut')
def deref_mut(c): return c.ret(c.args[0])
for n in ('rpki::uri::Https', 'rpki::uri::Rsync', 'rpki::crypto::PublicKey', 'uuid::Uuid', 'rpki::rrdp::Hash', 'rpki::resources::Asn', 'reqwest::StatusCode'):
    M[f'<{n} as std::cmp::PartialEq>::eq'] = lambda c: c.ret(z3.simplify(c.z(0) == c.z(1)))
@model('<bytes::Bytes as std::cmp::PartialEq>::eq', '<bytes::Bytes as std::cmp::PartialEq<[u8]>>::eq', '<bytes::Bytes as std::cmp::PartialEq<std::vec::Vec<u8>>>::eq', '<bytes::Bytes as std::cmp::PartialEq>::ne')
def bytes_eq(c):
    a, b = c.z(0), c.z(1)
    if a.sort() != b.sort(): return NotImplemented
    return c.ret(a == b if c.base.endswith('eq') and not c.res.endswith('ne') else a != b)
@model('rpki::uri::Https::as_str')
def https_str(c): return c.ret(uristr(c, c.z(0)))
@model('<rpki::uri::Https as std::convert::AsRef<str>>::as_ref')
def https_asref(c): return c.ret(uristr(c, c.z(0)))
@model('rpki::uri::Https::parent')
def https_parent(c):
    u = c.z(0); K = c.e.K
    ok = c.e.uf('https_hasparent', [u], 'bool')
    r = c.e.uf('https_parent', [u], 'rpki::uri::Https')
    def some(n):
        n.assume(K.isprefix(uristr(c, r), uristr(c, u)), c.e.uf('https_isdir', [r], 'bool'))
        return c.mk(c.dty, 'Some', r)
    return c.split((ok, some), (z3.Not(ok), lambda n: c.mk(c.dty, 'None')))
@model('rpki::uri::Https::join')
def https_join(c):
    u, b = c.z(0), c.z(1); K = c.e.K
    r = c.e.uf('https_join', [u, b], 'rpki::uri::Https')
    s = b.arg(0) if b.decl().eq(K.bytes_of) else None
    def ok(n):
        if s is not None:
            n.assume(z3.Implies(c.e.uf('https_isdir', [u], 'bool'), uristr(c, r) == K.cat(uristr(c, u), s)))
        return r
    return c.okerr(ok, okcond=c.e.uf('https_join_ok', [b], 'bool'))
@model('<rpki::uri::Https as std::str::FromStr>::from_str', 'rpki::uri::Https::from_str')
def https_from_str(c):
    s = c.z(0)
    r = c.e.uf('https_parse', [s], 'rpki::uri::Https')
    def ok(n): n.assume(uristr(c, r) == s); return r
    return c.okerr(ok, okcond=c.e.uf('https_valid', [s], 'bool'))

def install(e):
    e.models.update(M)
    e.prefix += PREFIX
    e.K = Terms(e)
    e.NOW = z3.Int('run_start')
    https = e.T.sort('rpki::uri::Https')
    us = e.T.uf('uristr', [https], e.K.Str)
    uu = z3.Function('unuri', e.K.Str, https)
    u = z3.Const('u', https)
    e.axiom(z3.ForAll([u], uu(us(u)) == u, patterns=[us(u)]), [us.name()])
    b = z3.Const('bb', e.K.Bytes)
    hj = e.T.uf('https_join_ok', [e.K.Bytes], z3.BoolSort())
