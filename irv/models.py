"""Models (assumed contracts) of functions outside the verified code:
allocation, C string functions, exception runtime, logging, streams."""
import re
import z3
import interval
from mem import *
from engine import Throw, Infeasible, ForkOn, simp, asbool, b2bv, Exc, State, Poison

MODELS = []


def model(rx):
    def d(f):
        MODELS.append((re.compile(rx), f))
        return f
    return d


def cstr(en, st, p):
    if not isinstance(p, Ptr) or p.obj is None:
        return '?'
    c = en.content(st, p.obj)
    s = bytearray()
    i = p.off
    while True:
        v = en.read_cells(st, p.obj, c, i, 1)
        if not isinstance(v, int) or v == 0:
            break
        s.append(v)
        i += 1
    return s.decode('latin1')


# ---- harness intrinsics ------------------------------------------------------
@model(r'^irv_(u64|u32|u16|u8|bool|i64|u128)$')
def m_nondet(en, st, env, ins, name, a, tys):
    nm = cstr(en, st, a[0])
    k = name[4:]
    w = ins.ty.bits
    if k == 'bool' or w == 1:
        v = en.fresh(st, nm, z3.BoolSort())
        st.trace.append(('val', nm, v))
        return v
    v = en.fresh(st, nm, z3.BitVecSort(w))
    st.trace.append(('val', nm, v))
    return v


@model(r'^irv_len$')
def m_len(en, st, env, ins, name, a, tys):
    """length of an unbounded input sequence (assumed < 2^40)"""
    nm = cstr(en, st, a[0])
    if en.o.get('maxlen') is not None:
        n = en.o['maxlen']
        v = en.fresh(st, nm, z3.BitVecSort(64))
        st.trace.append(('len', nm, v))
        st.pc.append(z3.ULE(v, n))
        en.bounded = 'lengths at most %d' % n
        # split on the concrete length
        outs = []
        for i in range(n + 1):
            s = st.clone()
            s.pc.append(v == i)
            if en.feasible(s, z3.BoolVal(True)):
                outs.append(('ret', s, i))
        return outs
    v = en.fresh(st, nm, z3.BitVecSort(64))
    en.mark_len(v)
    st.trace.append(('len', nm, v))
    st.pc.append(z3.ULT(v, z3.BitVecVal(1 << 40, 64)))
    st.idx.append(v)
    en.assumed.add('sequence lengths below 2^40 elements')
    return v


@model(r'^irv_bytes$')
def m_bytes(en, st, env, ins, name, a, tys):
    nm = cstr(en, st, a[0])
    p, n = a[1], a[2]
    vs = []
    i = 0
    while i < n:
        w = 8 if n - i >= 8 else 1
        v = en.fresh(st, nm + '_%d' % i, z3.BitVecSort(8 * w))
        en.write(st, p.obj, off_add(p.off, i), w, v)
        for b in range(w):
            vs.append(z3.Extract(8 * b + 7, 8 * b, v))
        i += w
    st.trace.append(('bytes', nm, vs))
    return None


@model(r'^irv_assume$')
def m_assume(en, st, env, ins, name, a, tys):
    en.assume(st, a[0] if not is_sym(a[0]) else asbool(a[0]))
    if not en.feasible(st, z3.BoolVal(True)):
        raise Infeasible()
    return None


@model(r'^irv_assert$')
def m_assert(en, st, env, ins, name, a, tys):
    en.obligation(st, a[0] if not is_sym(a[0]) else asbool(a[0]), cstr(en, st, a[1]), en.where(ins))
    return None


@model(r'^irv_range$')
def m_range(en, st, env, ins, name, a, tys):
    """assert lo <= x <= hi and keep it as a fact for the interval analysis"""
    x = a[0]
    c = z3.And(z3.ULE(bv(a[1], 64), bv(x, 64)), z3.ULE(bv(x, 64), bv(a[2], 64)))
    r = interval.urange(bv(x, 64), st.pc)
    if isinstance(a[1], int) and isinstance(a[2], int) and r[0] >= a[1] and r[1] <= a[2]:
        if not en.quiet:
            en.record(cstr(en, st, a[3]), en.where(ins), 'proved', 'interval analysis', 0.0, st, None)
    else:
        en.obligation(st, c, cstr(en, st, a[3]), en.where(ins))
    if is_sym(x):
        st.pc.append(c)
    return None


@model(r'^irv_cover$')
def m_cover(en, st, env, ins, name, a, tys):
    nm = cstr(en, st, a[0])
    if en.quiet:
        return None
    if en.covers.get(nm) is not True:
        en.covers[nm] = False
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(st.pc)
        s.add(en.instantiate(st))
        r = s.check()
        if r == z3.sat:
            en.covers[nm] = True
    return None


@model(r'^irv_and$')
def m_and(en, st, env, ins, name, a, tys):
    return simp(z3.And(asbool(a[0]), asbool(a[1])))


@model(r'^irv_or$')
def m_or(en, st, env, ins, name, a, tys):
    return simp(z3.Or(asbool(a[0]), asbool(a[1])))


@model(r'^irv_implies$')
def m_implies(en, st, env, ins, name, a, tys):
    return simp(z3.Implies(asbool(a[0]), asbool(a[1])))


@model(r'^irv_iff$')
def m_iff(en, st, env, ins, name, a, tys):
    return simp(asbool(a[0]) == asbool(a[1]))


@model(r'^irv_array$')
def m_array(en, st, env, ins, name, a, tys):
    """void* irv_array(name, count, stride, layout): fresh read/write array of count elements;
    layout "off:size,off:size..." lists the leaf fields."""
    nm = cstr(en, st, a[0])
    cnt, stride = a[1], a[2]
    lay = parse_layout(cstr(en, st, a[3]))
    en.nfresh += 1
    uid = en.nfresh
    lims = {z[0]: z.lim for z in lay if isinstance(z, Lim) and z.lim}
    if isinstance(cnt, int):
        o = en.new_obj(st, nm, cnt * stride, 'heap')
        rows = []
        for i in range(cnt):
            for off, n, vec in lay:
                if vec:
                    ln = en.fresh(st, '%s_%d_%d_len' % (nm, i, off), BV64)
                    dat = en.fresh(st, '%s_%d_%d_dat' % (nm, i, off), z3.ArraySort(BV64, z3.BitVecSort(8 * n)))
                    st.pc.append(z3.ULE(ln, 4))
                    q = Obj('%s[%d].%d' % (nm, i, off), off_scale(ln, n), 'nest')
                    q.stride = n
                    q.prov = ('flat', ln, dat, n)
                    sub = [z.sub for z in lay if isinstance(z, Lim) and z.sub and z[0] == off]
                    if sub:
                        q.lims = {sub[0][:2]: sub[0][2]}
                    en.write(st, o, i * stride + off, 8, Ptr(q, 0))
                    en.write(st, o, i * stride + off + 8, 8, Ptr(q, off_scale(ln, n)))
                    en.write(st, o, i * stride + off + 16, 8, Ptr(q, off_scale(ln, n)))
                    rows.append(('nest', ln, dat, n))
                    continue
                v = en.fresh(st, '%s_%d_%d' % (nm, i, off), z3.BitVecSort(8 * n))
                if lims.get(off):
                    st.pc.append(z3.ULT(v, lims[off]))
                if not any(z[2] and z[0] < off + n and off < z[0] + 24 for z in lay):
                    en.write(st, o, i * stride + off, n, v)
                rows.append(('val', v, n))
        o.stride = stride
        if any(z[2] for z in lay):
            o.nested = ConcreteNest(o, stride, lay, rows)
        st.trace.append(('arrc', nm, rows))
        return Ptr(o, 0)
    o = en.new_obj(st, nm, off_scale(cnt, stride), 'heap')
    c = Arr(stride, st.owner)
    st.mem[o] = c
    o.stride = stride
    fs = []
    vecs = {}
    for off, n, vec in lay:
        if vec:
            pre = '%s#%d{%d}' % (nm, uid, off)
            la = en.fresh(st, pre + 'len', z3.ArraySort(BV64, BV64))
            da = en.fresh(st, pre + 'dat', z3.ArraySort(BV64, z3.ArraySort(BV64, z3.BitVecSort(8 * n))))
            vecs[off] = (n, la, da)
            fs.append(('nest', la, da, n))
        else:
            if any(z[2] and z[0] < off + n and off < z[0] + 24 for z in lay):
                # shares storage with a vector (union): kept apart
                arr = en.fresh(st, '%s#%d{%d:%d}' % (nm, uid, off, n), z3.ArraySort(BV64, z3.BitVecSort(8 * n)))
                vecs[(off, n)] = arr
            else:
                arr = c.f[(off, n)] = en.arr_default(st, o, off, n, stride)
                if lims.get(off):
                    o.lims = dict(o.lims or {})
                    o.lims[(off, n)] = (arr, lims[off])
            fs.append(('val', arr, n))
    if vecs:
        o.nested = SymNest(vecs, {z[0]: z.sub for z in lay if isinstance(z, Lim) and z.sub})
        en.assumed.add('nested sequence lengths below 2^32 elements')
    st.trace.append(('arr', nm, (cnt, fs)))
    return Ptr(o, 0)


def parse_layout(txt):
    out = []
    for x in txt.split(','):
        if x.startswith('w'):
            continue
        x = x.split('@')[0]
        x, _, lim = x.partition('<')
        off, n = x.split(':')
        n, _, sub = n.partition('/')    # v<size>/off.size.limit: field of the nested elements below limit
        out.append((int(off), int(n.lstrip('v')), n.startswith('v')))
        if sub:
            out[-1] = Lim(out[-1])
            out[-1].sub = tuple(int(y) for y in sub.split('.'))
        if lim:
            out[-1] = Lim(out[-1])
            out[-1].lim = int(lim)
    return out


class Lim(tuple):
    """field whose value is below lim in every element (a type invariant of the input)"""
    lim = None
    sub = None


class SymNest:
    """std::vector fields inside the elements of a symbolic array"""

    def __init__(self, vecs, subs=None):
        self.v = vecs
        self.subs = subs or {}

    def __call__(self, en, st, obj, idx, r, n):
        if (r, n) in self.v:
            return simp(z3.Select(self.v[(r, n)], bv(idx, 64)))
        for base in (r, r - 8, r - 16):
            x = self.v.get(base)
            if x is None or n != 8 or isinstance(x, z3.ExprRef):
                continue
            q = self.obj(en, obj, base, idx)
            ln = q.prov[5]
            st.pc.append(z3.ULT(ln, z3.BitVecVal(1 << 32, 64)))
            return Ptr(q, 0 if base == r else off_scale(ln, x[0]))
        return None

    def obj(self, en, obj, base, idx):
        ib = bv(idx, 64)
        key = (obj.id, base, ib.get_id())
        if key in en.nestobjs:
            return en.nestobjs[key][0]
        es, la, da = self.v[base]
        ln = simp(z3.Select(la, ib))
        q = Obj('%s[].%d' % (obj.name, base), off_scale(ln, es), 'nest')
        q.stride = es
        q.prov = ('nest', obj, base, ib, es, ln, z3.Select(da, ib))
        if base in self.subs:
            o, n, lim = self.subs[base]
            q.lims = {(o, n): lim}
        en.nestobjs[key] = (q, ib)
        return q


class ConcreteNest:
    def __init__(self, o, stride, lay, rows):
        self.v = {}
        k = 0
        cnt = len(rows) // max(1, len(lay))
        for i in range(cnt):
            for off, n, vec in lay:
                if not vec:
                    self.v[(i, off, n)] = rows[k][1]
                k += 1
        self.cov = {(off, n) for off, n, vec in lay if not vec and any(z[2] and z[0] < off + n and off < z[0] + 24 for z in lay)}
        self.stride = stride

    def __call__(self, en, st, obj, off, n):
        if not isinstance(off, int):
            return None
        i, r = divmod(off, self.stride)
        if (r, n) in self.cov:
            return self.v.get((i, r, n))
        return None


@model(r'^irv_uf(64|32|bool)_(\d)$')
def m_uf(en, st, env, ins, name, a, tys):
    """uninterpreted spec function of scalar arguments"""
    nm = cstr(en, st, a[0])
    args = [bv(en.tobits(x, 8) if not isinstance(x, int) else x, t.bits) for x, t in zip(a[1:], tys[1:])]
    so = z3.BoolSort() if ins.ty.bits == 1 else z3.BitVecSort(ins.ty.bits)
    return z3.Function('uf_' + nm, *([x.sort() for x in args] + [so]))(*args)


@model(r'^irv_ufm(64|32|8|bool)$')
def m_ufm(en, st, env, ins, name, a, tys):
    """uninterpreted function of n bytes of memory: (name, ptr, n)"""
    nm = cstr(en, st, a[0])
    x = readbv(en, st, a[1], a[2])
    so = z3.BoolSort() if ins.ty.bits == 1 else z3.BitVecSort(ins.ty.bits)
    return z3.Function('ufm_%s_%d' % (nm, a[2]), x.sort(), so)(x)


def readbv(en, st, p, n):
    parts, sizes = [], []
    i = 0
    if isinstance(en.content(st, p.obj), Arr):
        v = en.read(st, p.obj, p.off, n)
        return bv(en.tobits(v, n), 8 * n)
    while i < n:
        w = 8 if n - i >= 8 else 1
        parts.append(en.tobits(en.read(st, p.obj, off_add(p.off, i), w), w))
        sizes.append(w)
        i += w
    return bv(en.concat(parts, sizes), 8 * n)


@model(r'^irv_symbolic$')
def m_symbolic(en, st, env, ins, name, a, tys):
    return 1


@model(r'^irv_bounded$')
def m_bounded(en, st, env, ins, name, a, tys):
    en.bounded = cstr(en, st, a[0])
    return None


@model(r'^irv_ghost_(inc|get|reset)$')
def m_ghost(en, st, env, ins, name, a, tys):
    nm = 'g:' + cstr(en, st, a[0])
    if name.endswith('reset'):
        st.ghost[nm] = 0
        return None
    if name.endswith('inc'):
        st.ghost[nm] = en.binop('add', 64, st.ghost.get(nm, 0), 1)
        return None
    return st.ghost.get(nm, 0)


@model(r'^irv_same_object$')
def m_sameobj(en, st, env, ins, name, a, tys):
    return int(a[0].obj is a[1].obj)


@model(r'^irv_lazy_object$')
def m_lazyobj(en, st, env, ins, name, a, tys):
    """void* irv_lazy_object(name, size): object of unknown contents"""
    o = en.new_obj(st, cstr(en, st, a[0]), a[1], 'heap', 'lazy')
    return Ptr(o, 0)


@model(r'^irv_keep$')
def m_keep(en, st, env, ins, name, a, tys):
    """the specification keeps using this object after the code under test has freed its copy"""
    a[0].obj.nofree = True
    return None


@model(r'^irv_debug$')
def m_debug(en, st, env, ins, name, a, tys):
    print('   [debug]', cstr(en, st, a[0]), [str(x)[:3000] for x in a[1:]])
    return None


# ---- allocation ------------------------------------------------------------
@model(r'^(operator new(\[\])?\(unsigned long(, std::align_val_t|, std::nothrow_t const&)?\)|malloc)$')
def m_new(en, st, env, ins, name, a, tys):
    o = en.new_obj(st, 'heap', a[0], 'heap')
    en.assumed.add('allocation never fails; blocks are disjoint')
    return Ptr(o, 0)


@model(r'^calloc$')
def m_calloc(en, st, env, ins, name, a, tys):
    o = en.new_obj(st, 'heap', en.binop('mul', 64, a[0], a[1]), 'heap', 'zero')
    return Ptr(o, 0)


@model(r'^(operator delete(\[\])?\(.*\)|free)$')
def m_del(en, st, env, ins, name, a, tys):
    p = a[0]
    if isinstance(p, Ptr) and p.obj is not None:
        if p.obj in st.freed:
            en.obligation(st, 0, 'mem.double-free', en.where(ins))
            raise Infeasible()
        if p.obj.nofree:
            return None
        if p.obj.kind == 'heap':
            st.mem.pop(p.obj, None)
            st.freed.add(p.obj)
    return None


# ---- C library ---------------------------------------------------------------
@model(r'^(memcmp|bcmp)$')
def m_memcmp(en, st, env, ins, name, a, tys):
    p, q, n = a
    if not isinstance(n, int):
        n = simp(n)
    if not isinstance(n, int):
        ub = en.upper_bound(st, n, 64)
        if ub is None:
            raise ToolLimit('memcmp symbolic length')
        raise ForkOn(simp(n == ub))
    if n == 0:
        return 0
    p, q = en.toptr(st, p), en.toptr(st, q)
    en.bounds(st, p, n, 'memcmp', ins)
    en.bounds(st, q, n, 'memcmp', ins)
    x, y = readbv(en, st, p, n), readbv(en, st, q, n)
    e = simp(x == y)
    if isinstance(e, int) and e:
        return 0
    # lexicographic order = big-endian comparison
    xb = z3.Concat([z3.Extract(8 * i + 7, 8 * i, x) for i in range(n)]) if n > 1 else x
    yb = z3.Concat([z3.Extract(8 * i + 7, 8 * i, y) for i in range(n)]) if n > 1 else y
    return simp(z3.If(x == y, z3.BitVecVal(0, 32), z3.If(z3.ULT(xb, yb), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32))))


@model(r'^strlen$')
def m_strlen(en, st, env, ins, name, a, tys):
    p = a[0]
    if isinstance(en.content(st, p.obj), Arr):
        raise ToolLimit('strlen of symbolic string')
    i = p.off
    if not isinstance(i, int) and isinstance(p.obj.size, int) and p.obj.size <= 4096:
        z = [j for j in range(p.obj.size) if en.read(st, p.obj, j, 1) == 0]
        if z == [p.obj.size - 1]:       # a literal: the rest of it
            en.bounds(st, p, 1, 'strlen', ins)
            return simp(z3.BitVecVal(z[0], 64) - i)
        raise ToolLimit('strlen of symbolic string')
    while True:
        v = en.read(st, p.obj, i, 1)
        if not isinstance(v, int):
            raise ToolLimit('strlen of symbolic string')
        if v == 0:
            return i - p.off
        i += 1


@model(r'^strcmp$')
def m_strcmp(en, st, env, ins, name, a, tys):
    x, y = cstr(en, st, a[0]), cstr(en, st, a[1])
    return 0 if x == y else (1 if x > y else 0xffffffff)


@model(r'^strncmp$')
def m_strncmp(en, st, env, ins, name, a, tys):
    x, y = cstr(en, st, a[0])[:a[2]], cstr(en, st, a[1])[:a[2]]
    return 0 if x == y else (1 if x > y else 0xffffffff)


@model(r'^memchr$')
def m_memchr(en, st, env, ins, name, a, tys):
    p, ch, n = a
    if not (isinstance(n, int) and isinstance(p.off, int)):
        raise ToolLimit('memchr symbolic')
    if isinstance(ch, int):
        ch &= 255
        for i in range(n):
            v = en.read(st, p.obj, p.off + i, 1)
            if isinstance(v, int):
                if v == ch:
                    return Ptr(p.obj, p.off + i)
            else:
                raise ForkOn(simp(v == ch))
        return NULL
    for i in range(n):
        v = en.read(st, p.obj, p.off + i, 1)
        e = en.icmp(st, 'eq', en.cast('trunc', _T(8), _T(32), ch), v, 8)
        if isinstance(e, int):
            if e:
                return Ptr(p.obj, p.off + i)
            continue
        raise ForkOn(e)
    return NULL


class _T:
    k = 'int'

    def __init__(s, b):
        s.bits = b


@model(r'^abort$|^exit$|^_exit$|^__assert_fail|^std::terminate\(\)$|^__cxa_pure_virtual$|^__clang_call_terminate$')
def m_abort(en, st, env, ins, name, a, tys):
    if en.o.get('noabort', True):
        en.obligation(st, 0, 'no.abort', en.where(ins))
    raise Infeasible()


@model(r'^__errno_location$')
def m_errno(en, st, env, ins, name, a, tys):
    o = en.globals.get('errno')
    if o is None:
        o = en.globals['errno'] = Obj('errno', 4, 'heap', 'lazy')
    if o not in st.mem:
        st.mem[o] = Cells(st.owner)
    return Ptr(o, 0)


# ---- exceptions -----------------------------------------------------------------
@model(r'^__cxa_allocate_exception$')
def m_cxaalloc(en, st, env, ins, name, a, tys):
    o = en.new_obj(st, 'exc', a[0], 'heap', 'lazy')
    return Ptr(o, 0)


@model(r'^__cxa_free_exception$|^__cxa_end_catch$|^__cxa_get_exception_ptr$')
def m_cxanop(en, st, env, ins, name, a, tys):
    if 'end_catch' in name and st.caught:
        st.caught = st.caught[:-1]
    return a[0] if a else None


@model(r'^__cxa_throw$')
def m_throw(en, st, env, ins, name, a, tys):
    ti = en.tinames.get(a[1].obj, a[1].obj.name if a[1].obj else '?')
    return [('throw', st, Exc(ti, a[0]))]


@model(r'^__cxa_rethrow$|^std::rethrow_exception')
def m_rethrow(en, st, env, ins, name, a, tys):
    if st.caught:
        return [('throw', st, st.caught[-1])]
    raise Throw('?')


@model(r'^std::current_exception')
def m_curexc(en, st, env, ins, name, a, tys):
    return NULL if ins.ty.k != 'void' else None


@model(r'^__cxa_begin_catch$')
def m_begin(en, st, env, ins, name, a, tys):
    return a[0]


for _n, _ti in (('length_error', 'St12length_error'), ('out_of_range', 'St12out_of_range'), ('out_of_range_fmt', 'St12out_of_range'),
                ('logic_error', 'St11logic_error'), ('invalid_argument', 'St16invalid_argument'), ('bad_alloc', 'St9bad_alloc'),
                ('bad_array_new_length', 'St20bad_array_new_length'), ('bad_cast', 'St8bad_cast'),
                ('runtime_error', 'St13runtime_error'), ('system_error', 'St12system_error'), ('overflow_error', 'St14overflow_error'),
                ('bad_function_call', 'St17bad_function_call'), ('domain_error', 'St12domain_error'), ('range_error', 'St11range_error')):
    def _mk(ti):
        def f(en, st, env, ins, name, a, tys):
            raise Throw(ti)
        return f
    MODELS.append((re.compile(r'^std::__throw_%s\(' % _n), _mk(_ti)))


@model(r'^std::(runtime_error|logic_error|length_error|out_of_range|invalid_argument|exception|bad_alloc|domain_error|system_error|overflow_error|range_error|bad_cast)::~?(runtime_error|logic_error|length_error|out_of_range|invalid_argument|exception|bad_alloc|domain_error|system_error|overflow_error|range_error|bad_cast)\(')
def m_excctor(en, st, env, ins, name, a, tys):
    return None


@model(r'^std::(exception|runtime_error|logic_error)::what\(\) const$')
def m_what(en, st, env, ins, name, a, tys):
    o = Obj('what', 1, 'heap', 'zero')
    st.mem[o] = Cells(st.owner)
    return Ptr(o, 0)


@model(r'^__cxa_(guard_acquire)$')
def m_guard(en, st, env, ins, name, a, tys):
    return 1


@model(r'^__cxa_(guard_release|guard_abort|atexit|thread_atexit)$|^__dso_handle$')
def m_guard2(en, st, env, ins, name, a, tys):
    return 0 if ins.ty.k == 'int' else None


# ---- locks (sequential semantics) ---------------------------------------------------
@model(r'^pthread_|^__pthread|^std::(recursive_)?mutex::|^std::(unique_lock|lock_guard)<|^std::(__shared_)?(shared_)?timed_mutex|^std::condition_variable|^std::call_once')
def m_lock(en, st, env, ins, name, a, tys):
    en.assumed.add('locks have sequential semantics (no concurrency)')
    return 0 if ins.ty.k == 'int' else None


# ---- logging ------------------------------------------------------------------------
@model(r'^logging::LoggerRef::operator\(\)')
def m_logger(en, st, env, ins, name, a, tys):
    # returns LoggerMessage by sret: leave it undefined
    en.assumed.add('logging has no effect on verified state')
    return None


@model(r'^logging::(LoggerMessage|LoggerRef|CommonLogger|LoggerGroup|LoggerManager|ILogger)::')
def m_logger2(en, st, env, ins, name, a, tys):
    if ins.ty.k == 'ptr':
        return a[0]
    if ins.ty.k == 'int':
        return 0
    return None


@model(r'^(std::basic_ostream<char, std::char_traits<char> >& )?(std::operator<<|std::basic_ostream<.*>::operator<<|std::ostream::|logging::operator<<|cn::operator<<|crypto::operator<<|common::operator<<|boost::operator<<|operator<<)')
def m_ostream(en, st, env, ins, name, a, tys):
    if ins.ty.k == 'ptr':
        return a[0]
    return None


@model(r'^std::basic_ostream<|^std::ostream|^std::basic_ios<|^std::ios_base|^std::basic_streambuf<|^std::(endl|flush)|^std::locale|^std::__ostream_insert|^std::setw|^std::basic_stringbuf|^std::__cxx11::basic_stringbuf|^std::basic_iostream')
def m_ostream2(en, st, env, ins, name, a, tys):
    if ins.ty.k == 'ptr':
        return a[0] if a else NULL
    if ins.ty.k == 'int':
        return 0
    return None


@model(r'^std::(__cxx11::)?basic_(o|i)?stringstream<.*>::~?basic_(o|i)?stringstream\(|^std::__cxx11::basic_(o|i)?stringstream')
def m_sstream(en, st, env, ins, name, a, tys):
    d = en.demangle(name)
    if '::str() const' in d:
        # sret string: fresh empty string
        p = a[0]
        en.write(st, p.obj, p.off, 8, Ptr(p.obj, off_add(p.off, 16)))
        en.write(st, p.obj, off_add(p.off, 8), 8, 0)
        en.write(st, p.obj, off_add(p.off, 16), 1, 0)
        return None
    if ins.ty.k == 'ptr':
        return a[0]
    return None


@model(r'^(common::podToHex|std::string common::podToHex|.* common::podToHex<)')
def m_podtohex(en, st, env, ins, name, a, tys):
    p = a[0]
    en.write(st, p.obj, p.off, 8, Ptr(p.obj, off_add(p.off, 16)))
    en.write(st, p.obj, off_add(p.off, 8), 8, 0)
    en.write(st, p.obj, off_add(p.off, 16), 1, 0)
    en.assumed.add('podToHex used only for logging')
    return None


# ---- libm -----------------------------------------------------------------------------
@model(r'^(floor|ceil|round|trunc|rint|nearbyint)(f|l)?$')
def m_round(en, st, env, ins, name, a, tys):
    b = name.rstrip('fl') if name not in ('floor', 'ceil') else name
    b = re.match(r'(floor|ceil|round|trunc|rint|nearbyint)', name).group(1)
    rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA()}.get(b, z3.RNE())
    return simp(z3.fpRoundToIntegral(rm, a[0]))


@model(r'^(pow|log|log2|log10|exp|sqrt)(f|l)?$')
def m_libm(en, st, env, ins, name, a, tys):
    so = a[0].sort()
    en.assumed.add('libm %s uninterpreted' % name)
    return z3.Function('uf_' + name, *([x.sort() for x in a] + [so]))(*a)


@model(r'^time$')
def m_time(en, st, env, ins, name, a, tys):
    v = en.fresh(st, 'time', z3.BitVecSort(64))
    return v
