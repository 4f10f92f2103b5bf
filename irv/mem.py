"""Values, pointers and memory objects of the symbolic executor."""
import z3
from math import gcd

BV64 = z3.BitVecSort(64)
M64 = (1 << 64) - 1


class ToolLimit(Exception):
    pass


class Obj:
    """Identity of a memory object."""
    _n = 0
    __slots__ = ('id', 'name', 'size', 'kind', 'ro', 'default', 'fref', 'base', 'init', 'nofree', 'nested', 'ctx', 'align',
                 'lazyptr', 'stride', 'prov', 'lims')

    def __init__(self, name, size, kind, default='undef', ro=False):
        Obj._n += 1
        self.id = Obj._n
        self.name = name
        self.size = size
        self.kind = kind
        self.default = default
        self.ro = ro
        self.fref = None
        self.base = None
        self.init = None
        self.nested = None
        self.ctx = ()
        self.align = 16
        self.lazyptr = None
        self.stride = None
        self.prov = None
        self.lims = None
        self.nofree = False

    def __repr__(self):
        return '<%s#%d>' % (self.name, self.id)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%r,%s)' % (self.obj, self.off)


NULL = Ptr(None, 0)


def isnull(v):
    return isinstance(v, Ptr) and v.obj is None and isinstance(v.off, int) and v.off == 0


def bv(v, bits):
    if isinstance(v, int):
        return z3.BitVecVal(v, bits)
    return v


def is_sym(v):
    return isinstance(v, z3.ExprRef)


# ---- linear forms over BV64 -------------------------------------------------
_lincache = {}


def linear(e):
    """e: int or BV expr -> (const, {id: (term, coef)}) modulo 2^w"""
    if isinstance(e, int):
        return (e, {})
    key = e.get_id()
    r = _lincache.get(key)
    if r is not None and r[0].eq(e):
        return r[1]
    w = e.size()
    m = (1 << w) - 1
    r = _lin(e, m)
    _lincache[key] = (e, r)
    return r


def _addlin(a, b, m, s=1):
    c = (a[0] + s * b[0]) & m
    d = dict(a[1])
    for k, (t, co) in b[1].items():
        if k in d:
            n = (d[k][1] + s * co) & m
            if n:
                d[k] = (t, n)
            else:
                del d[k]
        else:
            n = (s * co) & m
            if n:
                d[k] = (t, n)
    return (c, d)


def _scale(a, k, m):
    d = {}
    for i, (t, co) in a[1].items():
        n = (co * k) & m
        if n:
            d[i] = (t, n)
    return ((a[0] * k) & m, d)


def _lin(e, m):
    dk = e.decl().kind()
    if z3.is_bv_value(e):
        return (e.as_long(), {})
    if dk == z3.Z3_OP_BADD:
        r = (0, {})
        for c in e.children():
            r = _addlin(r, linear(c), m)
        return r
    if dk == z3.Z3_OP_BSUB:
        ch = e.children()
        r = linear(ch[0])
        for c in ch[1:]:
            r = _addlin(r, linear(c), m, -1)
        return r
    if dk == z3.Z3_OP_BNEG:
        return _scale(linear(e.arg(0)), -1, m)
    if dk == z3.Z3_OP_BMUL:
        ch = e.children()
        if len(ch) == 2:
            if z3.is_bv_value(ch[0]):
                return _scale(linear(ch[1]), ch[0].as_long(), m)
            if z3.is_bv_value(ch[1]):
                return _scale(linear(ch[0]), ch[1].as_long(), m)
    if dk == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)):
        return _scale(linear(e.arg(0)), 1 << e.arg(1).as_long(), m)
    if dk == z3.Z3_OP_CONCAT and e.num_args() == 2 and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() == 0:
        # concat(extract(hi..0) x, 0s) == x << n
        n = e.arg(1).size()
        x = e.arg(0)
        if x.decl().kind() == z3.Z3_OP_EXTRACT:
            hi, lo = x.params()
            if lo == 0 and x.arg(0).size() == e.size() and hi == e.size() - n - 1:
                return _scale(linear(x.arg(0)), 1 << n, m)
    return (0, {e.get_id(): (e, 1)})


def sgn(c, w=64):
    return c - (1 << w) if c >> (w - 1) else c


def lin_expr(l, w=64):
    c, d = l
    if not d:
        return c & ((1 << w) - 1)
    r = None
    for k in sorted(d):
        t, co = d[k]
        s = sgn(co, w)
        if s == 1:
            x = t
        else:
            x = t * z3.BitVecVal(co, w)
        r = x if r is None else r + x
    if c:
        r = r + z3.BitVecVal(c, w)
    return r


def norm_off(e):
    """canonical offset (int or BV64)"""
    if isinstance(e, int):
        return e & M64
    l = linear(e)
    if not l[1]:
        return l[0]
    return lin_expr(l)


def off_add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & M64
    return lin_expr(_addlin(linear(a), linear(b), M64))


def off_sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & M64
    return lin_expr(_addlin(linear(a), linear(b), M64, -1))


def off_scale(a, k):
    if isinstance(a, int):
        return (a * k) & M64
    return lin_expr(_scale(linear(a), k & M64, M64))


def split_off(off, stride):
    """off = stride*idx + c -> (idx int|BV, c) or None"""
    c, d = linear(off)
    c = sgn(c)
    for k, (t, co) in d.items():
        s = sgn(co)
        if s % stride:
            if t.decl().kind() == z3.Z3_OP_ITE:
                # the same remainder on both branches
                m = (1 << t.size()) - 1
                rest = (c & m, {x: y for x, y in d.items() if x != k})
                a, b = (split_off(lin_expr(_addlin(rest, _scale(linear(t.arg(i)), co, m), m), t.size()), stride) for i in (1, 2))
                if a is None or b is None or a[1] != b[1]:
                    return None
                return z3.If(t.arg(0), bv(a[0], 64), bv(b[0], 64)), a[1]
            return None
    r = c % stride
    q = c // stride
    nd = {}
    for k, (t, co) in d.items():
        s = sgn(co)
        nd[k] = (t, (s // stride) & M64)
    return lin_expr((q & M64, nd)), r


class Cells:
    """concrete-offset byte addressed contents"""
    __slots__ = ('c', 'owner', 'maxn')

    def __init__(self, owner):
        self.c = {}
        self.owner = owner
        self.maxn = 1

    def copy(self, owner):
        n = Cells(owner)
        n.c = dict(self.c)
        n.maxn = self.maxn
        return n


class Arr:
    """stride-structured contents; fields: (off,n) -> z3 array BV64->BV(8n)"""
    __slots__ = ('stride', 'f', 'owner')

    def __init__(self, stride, owner):
        self.stride = stride
        self.f = {}
        self.owner = owner

    def copy(self, owner):
        n = Arr(self.stride, owner)
        n.f = dict(self.f)
        return n
