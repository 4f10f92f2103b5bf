"""Integer-arithmetic back end: bit-vector obligations are translated to integer arithmetic
(polynomials over range-tracked variables, explicit wrap-around quotients) and refuted by z3's
linear arithmetic plus generated lemmas for the non-linear monomials.  Every abstraction step
over-approximates the bit-vector semantics, so only the answer 'unsat' is used."""
import z3, time

MAXMON = 400


class Abort(Exception):
    pass


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + s * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > MAXMON:
        raise Abort('polynomial too large')
    return r


def pconst(k):
    return {(): k} if k else {}


class Contradiction(Exception):
    pass


class Tr:
    def __init__(self):
        self.vars = []          # var id -> (name, lo, hi)
        self.side = []          # z3 side conditions
        self.cache = {}
        self.bcache = {}
        self.cuts = {}
        self.segs = {}
        self.mons = {}
        self.cmps = []          # polynomials compared
        self.keep = []
        self.divs = []
        self.rng = {}
        self.rem = {}
        self.wraps = {}
        self.rawc = {}
        self.wrapq = {}

    # variables
    def var(self, lo, hi, name='v'):
        if lo == hi:
            return pconst(lo)
        i = len(self.vars)
        self.vars.append((z3.Int('%s_%d' % (name, i)), lo, hi))
        z = self.vars[i][0]
        self.side.append(z3.And(z >= lo, z <= hi))
        return {(i,): 1}

    def mrange(self, m):
        lo = hi = 1
        for i in m:
            _, l, h = self.vars[i]
            cs = [lo * l, lo * h, hi * l, hi * h]
            lo, hi = min(cs), max(cs)
        return lo, hi

    def prange(self, p):
        lo = hi = 0
        for m, c in p.items():
            l, h = self.mrange(m)
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        return lo, hi

    def zmon(self, m):
        if len(m) == 0:
            return z3.IntVal(1)
        if len(m) == 1:
            return self.vars[m[0]][0]
        z = self.mons.get(m)
        if z is None:
            z = z3.Int('m_' + '_'.join(map(str, m)))
            self.mons[m] = z
        return z

    def z(self, p):
        if not p:
            return z3.IntVal(0)
        ts = []
        for m, c in p.items():
            if m == ():
                ts.append(z3.IntVal(c))
            elif c == 1:
                ts.append(self.zmon(m))
            else:
                ts.append(z3.IntVal(c) * self.zmon(m))
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    # ranged terms: (poly, lo, hi)
    def mk(self, p, lo=None, hi=None):
        l, h = self.prange(p)
        if lo is not None:
            l = max(l, lo)
        if hi is not None:
            h = min(h, hi)
        return (p, l, h)

    def define(self, p, lo, hi):
        """fresh variable equal to p (used to keep polynomials small)"""
        v = self.var(lo, hi, 'd')
        self.side.append(self.z(v) == self.z(p))
        return v

    def wrap(self, t, w):
        """value modulo 2^w"""
        p, lo, hi = t
        M = 1 << w
        if lo >= 0 and hi < M:
            return t
        ql, qh = lo // M, hi // M
        if ql == qh:
            p = padd(p, pconst(ql * M), -1)
            return self.mk(p, 0, M - 1)
        key = (tuple(sorted(p.items())), w)
        r = self.wraps.get(key)
        if r is None:
            q = self.var(ql, qh, 'q')
            p = padd(p, pscale(q, M), -1)
            z = self.z(p)
            self.side.append(z3.And(z >= 0, z < M))
            r = self.wraps[key] = (p, 0, M - 1)
            self.wrapq[key] = q
        return r

    def bvt(self, e):
        k = e.get_id()
        r = self.cache.get(k)
        if r is not None:
            return r
        r = self._bvt(e)
        if k in self.rng:
            lo, hi = self.rng[k]
            r = (r[0], max(r[1], lo), min(r[2], hi))
            if len(r[0]) == 1:
                (m, c), = r[0].items()
                if len(m) == 1 and c == 1:
                    z, l, h = self.vars[m[0]]
                    self.vars[m[0]] = (z, max(l, lo), min(h, hi))
            if r[1] > r[2]:
                raise Contradiction()
            self.side.append(z3.And(self.z(r[0]) >= lo, self.z(r[0]) <= hi))
        self.keep.append(e)
        self.cache[k] = r
        return r

    def ranges(self, hyp):
        """top-level comparisons of a term with a constant"""
        def note(t, lo, hi):
            k = t.get_id()
            l, h = self.rng.get(k, (0, (1 << t.size()) - 1))
            self.rng[k] = (max(l, lo), min(h, hi))
            self.keep.append(t)
            if t.decl().kind() == z3.Z3_OP_CONCAT and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0:
                note(t.arg(1), lo, min(hi, (1 << t.arg(1).size()) - 1))
        for h in hyp:
            neg = False
            while z3.is_not(h):
                h = h.arg(0)
                neg = not neg
            if not z3.is_app(h) or h.num_args() != 2 or not z3.is_bv(h.arg(0)):
                continue
            k = h.decl().kind()
            a, b = h.arg(0), h.arg(1)
            M = (1 << a.size()) - 1
            if k == z3.Z3_OP_EQ:
                if z3.is_bv_value(a):
                    a, b = b, a
                if z3.is_bv_value(b):
                    v = b.as_long()
                    if not neg:
                        note(a, v, v)
                    elif v == 0:
                        note(a, 1, M)
                continue
            if k == z3.Z3_OP_UGEQ:
                a, b, k = b, a, z3.Z3_OP_ULEQ
            elif k == z3.Z3_OP_UGT:
                a, b, k = b, a, z3.Z3_OP_ULT
            if k not in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT):
                continue
            strict = k == z3.Z3_OP_ULT
            if neg:
                a, b, strict = b, a, not strict
            # a <= b  or a < b
            if z3.is_bv_value(b) and not z3.is_bv_value(a):
                note(a, 0, b.as_long() - (1 if strict else 0))
            elif z3.is_bv_value(a) and not z3.is_bv_value(b):
                note(b, a.as_long() + (1 if strict else 0), M)

    def seg(self, e):
        """segments of e at its cut points: list of (lowbit, width, term)"""
        k = e.get_id()
        if k in self.segs:
            return self.segs[k]
        w = e.size()
        t = self.bvt(e)
        cs = sorted({0, w} | {c for c in self.cuts.get(k, ()) if 0 < c < w})
        if len(cs) == 2:
            r = [(0, w, t)]
        elif len(cs) == 3 and (tuple(sorted(t[0].items())), cs[1]) in self.wrapq:
            key = (tuple(sorted(t[0].items())), cs[1])
            q = self.wrapq[key]
            r = [(0, cs[1], self.wraps[key]), (cs[1], w - cs[1], (q, 0, t[2] >> cs[1]))]
        else:
            r = []
            sm = {}
            for a, b in zip(cs, cs[1:]):
                hi = min((1 << (b - a)) - 1, t[2] >> a)
                v = self.var(0, hi, 's')
                r.append((a, b - a, (v, 0, hi)))
                sm = padd(sm, pscale(v, 1 << a))
            self.side.append(self.z(sm) == self.z(t[0]))
            key = tuple(sorted(t[0].items()))
            low = {}
            for a, b, sg in r[:-1]:
                low = padd(low, pscale(sg[0], 1 << a))
                self.wraps[(key, a + b)] = (low, 0, (1 << (a + b)) - 1)
            # substitute the segmented form from now on
            self.cache[k] = (sm, t[1], t[2])
        self.segs[k] = r
        self.keep.append(e)
        return r

    def cut(self, e, *bits):
        self.cuts.setdefault(e.get_id(), set()).update(bits)

    def precut(self, es):
        seen = set()
        st = list(es)
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if not z3.is_app(e):
                continue
            k = e.decl().kind()
            ch = e.children()
            if k == z3.Z3_OP_EXTRACT:
                hi, lo = e.params()
                self.cut(ch[0], lo, hi + 1)
            elif k in (z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR) and z3.is_bv_value(ch[1]):
                self.cut(ch[0], ch[1].as_long())
            elif k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
                self.cut(ch[0], e.size() - ch[1].as_long())
            elif k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
                w = e.size()
                for c in ch:
                    if z3.is_bv_value(c):
                        v = c.as_long()
                        bs = [i for i in range(1, w) if ((v >> i) & 1) != ((v >> (i - 1)) & 1)]
                        for d in ch:
                            if not z3.is_bv_value(d):
                                self.cut(d, *bs)
            elif k in (z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ, z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM):
                pass
            st.extend(ch)

    def ite(self, c, a, b):
        if a[0] == b[0]:
            return a
        lo, hi = min(a[1], b[1]), max(a[2], b[2])
        v = self.var(lo, hi, 'i')
        zv = self.z(v)
        self.side.append(z3.If(c, zv == self.z(a[0]), zv == self.z(b[0])))
        return (v, lo, hi)

    def opaque(self, e):
        v = self.var(0, (1 << e.size()) - 1, 'x')
        return (v, 0, (1 << e.size()) - 1)

    def div(self, a, b, w):
        """(q, r) with a = q*b + r"""
        for (a0, b0, w0, q0, r0) in self.divs:
            if a0 == a[0] and b0 == b[0] and w0 == w:
                return q0, r0
        M = 1 << w
        if b[1] == b[2]:
            d = b[1]
            if d == 0:
                return (pconst(M - 1), M - 1, M - 1), a
            q = self.var(a[1] // d, a[2] // d, 'dq')
            r = self.var(0, min(d - 1, a[2]), 'dr')
            self.side.append(self.z(a[0]) == self.z(padd(pscale(q, d), r)))
            res = (q, a[1] // d, a[2] // d), (r, 0, min(d - 1, a[2]))
        else:
            bp = b[0]
            if len(bp) > 1 or any(c != 1 for c in bp.values()):
                bp = self.define(bp, b[1], b[2])
            qm = M - 1 if b[1] == 0 else a[2] // b[1]
            if b[1] > 0:
                # a = c*rem + s, rem a remainder by the same divisor, 0 <= s < c   =>   a/b < c
                for m, c in a[0].items():
                    if len(m) == 1 and c > 0 and self.rem.get(m[0]) == b[0]:
                        o = dict(a[0])
                        del o[m]
                        l, h = self.prange(o)
                        if l >= 0 and h < c:
                            qm = min(qm, c - 1)
            q = self.var(0, qm, 'dq')
            r = self.var(0, min(a[2], b[2] - 1) if b[1] > 0 else a[2], 'dr')
            for m in r:
                if len(m) == 1 and b[1] > 0:
                    self.rem[m[0]] = b[0]
            ok = self.z(padd(pmul(q, bp), r)) == self.z(a[0])
            zb = self.z(b[0])
            self.side.append(z3.If(zb == 0, z3.And(self.z(q) == M - 1, self.z(r) == self.z(a[0])),
                                   z3.And(ok, self.z(r) < zb, self.z(q) <= self.z(a[0]))))
            res = self.mk(q), self.mk(r)
        self.divs.append((a[0], b[0], w) + res)
        return res

    def signed(self, e):
        t = self.bvt(e)
        w = e.size()
        H = 1 << (w - 1)
        if t[2] < H:
            return t
        if t[1] >= H:
            return (padd(t[0], pconst(2 * H), -1), t[1] - 2 * H, t[2] - 2 * H)
        neg = self.z(t[0]) >= H
        return self.ite(neg, (padd(t[0], pconst(2 * H), -1), -H, min(-1, t[2] - 2 * H)), (t[0], t[1], H - 1))

    def bits(self, e, v, f):
        """bitwise operation with constant v: f(bit of v) in {'keep','zero','one','not'}"""
        w = e.size()
        bs = [0] + [i for i in range(1, w) if ((v >> i) & 1) != ((v >> (i - 1)) & 1)] + [w]
        self.cut(e, *bs)
        if e.get_id() in self.segs:
            have = {s[0] for s in self.segs[e.get_id()]} | {w}
            if not set(bs) <= have:
                return self.opaque(e)
        p = {}
        for lo, n, t in self.seg(e):
            m = f((v >> lo) & 1)
            if m == 'keep':
                p = padd(p, pscale(t[0], 1 << lo))
            elif m == 'one':
                p = padd(p, pconst(((1 << n) - 1) << lo))
            elif m == 'not':
                p = padd(p, pconst(((1 << n) - 1) << lo))
                p = padd(p, pscale(t[0], 1 << lo), -1)
        return self.mk(p, 0, (1 << w) - 1)

    def tz(self, p):
        """power of two dividing every coefficient"""
        n = 64
        for c in p.values():
            k = 0
            while k < n and c % (1 << (k + 1)) == 0:
                k += 1
            n = min(n, k)
        return n

    def raw(self, e, top=False):
        """a polynomial congruent to e modulo 2^w (no intermediate wrap-around)"""
        k = e.decl().kind()
        if not top and (k not in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BMUL) or e.get_id() in self.rng):
            return self.bvt(e)
        if not top:
            r = self.rawc.get(e.get_id())
            if r is not None:
                return r
        w = e.size()
        M = 1 << w
        ts = []
        for c in e.children():
            if z3.is_bv_value(c) and c.as_long() >= M // 2:
                d = c.as_long() - M
                ts.append((pconst(d), d, d))
            else:
                t = self.raw(c)
                if t[2] - t[1] >= 1 << (3 * w):
                    t = self.bvt(c)
                ts.append(t)
        p, lo, hi = ts[0]
        if k == z3.Z3_OP_BNEG:
            p, lo, hi = pscale(p, -1), -hi, -lo
        for t in ts[1:]:
            if k == z3.Z3_OP_BADD:
                p, lo, hi = padd(p, t[0]), lo + t[1], hi + t[2]
            elif k == z3.Z3_OP_BSUB:
                p, lo, hi = padd(p, t[0], -1), lo - t[2], hi - t[1]
            else:
                if len(p) * len(t[0]) > MAXMON:
                    raise Abort('product too large')
                p = pmul(p, t[0])
                cs = [lo * t[1], lo * t[2], hi * t[1], hi * t[2]]
                lo, hi = min(cs), max(cs)
        l, h = self.prange(p)
        r = (p, max(l, lo), min(h, hi))
        if not top:
            self.rawc[e.get_id()] = r
            self.keep.append(e)
        return r

    def _bvt(self, e):
        w = e.size()
        M = 1 << w
        if z3.is_bv_value(e):
            v = e.as_long()
            return (pconst(v), v, v)
        k = e.decl().kind()
        ch = e.children()
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BMUL):
            return self.wrap(self.raw(e, True), w)
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            a, b = self.bvt(ch[0]), self.bvt(ch[1])
            q, r = self.div(a, b, w)
            return q if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else r
        if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I):
            a, b = self.signed(ch[0]), self.signed(ch[1])
            if b[1] <= 0:
                return self.opaque(e)
            if a[1] >= 0:
                q, r = self.div(a, b, w)
            else:
                za = self.z(a[0])
                m = self.ite(za < 0, (pscale(a[0], -1), max(0, -a[2]), -a[1]), (a[0], max(a[1], 0), max(a[2], 0)))
                q, r = self.div(m, b, w)
                q = self.ite(za < 0, (pscale(q[0], -1), -q[2], -q[1]), q)
                r = self.ite(za < 0, (pscale(r[0], -1), -r[2], -r[1]), r)
            return self.wrap(q if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) else r, w)
        if k == z3.Z3_OP_CONCAT:
            p = {}
            sh = 0
            for c in reversed(ch):
                t = self.bvt(c)
                p = padd(p, pscale(t[0], 1 << sh))
                sh += c.size()
            return self.mk(p, 0, M - 1)
        if k == z3.Z3_OP_ZERO_EXT:
            return self.bvt(ch[0])
        if k == z3.Z3_OP_SIGN_EXT:
            return self.wrap(self.signed(ch[0]), w)
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            t0 = self.bvt(ch[0])
            if lo == 0 and t0[1] >= 0 and t0[2] < M:
                return t0
            sg = self.seg(ch[0])
            p = {}
            ok = False
            for l, n, t in sg:
                if l >= lo and l + n <= hi + 1:
                    p = padd(p, pscale(t[0], 1 << (l - lo)))
                elif l < hi + 1 and l + n > lo:
                    return self.opaque(e)
            return self.mk(p, 0, M - 1)
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]):
            n = ch[1].as_long()
            if n >= w:
                return (pconst(0), 0, 0)
            p = {}
            for l, m, t in self.seg(ch[0]):
                if l >= n:
                    p = padd(p, pscale(t[0], 1 << (l - n)))
                elif l + m > n:
                    return self.opaque(e)
            return self.mk(p, 0, M - 1)
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            n = ch[1].as_long()
            if n >= w:
                return (pconst(0), 0, 0)
            t0 = self.bvt(ch[0])
            if t0[2] << n < M:
                return self.mk(pscale(t0[0], 1 << n), t0[1] << n, t0[2] << n)
            p = {}
            for l, m, t in self.seg(ch[0]):
                if l + m <= w - n:
                    p = padd(p, pscale(t[0], 1 << (l + n)))
                elif l < w - n:
                    return self.opaque(e)
            return self.mk(p, 0, M - 1)
        if k == z3.Z3_OP_BNOT:
            t = self.bvt(ch[0])
            return self.mk(padd(pconst(M - 1), t[0], -1), M - 1 - t[2], M - 1 - t[1])
        if k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
            cs = [c for c in ch if z3.is_bv_value(c)]
            vs = [c for c in ch if not z3.is_bv_value(c)]
            if len(vs) == 1 and len(cs) == 1:
                v = cs[0].as_long()
                f = {z3.Z3_OP_BAND: lambda b: 'keep' if b else 'zero', z3.Z3_OP_BOR: lambda b: 'one' if b else 'keep',
                     z3.Z3_OP_BXOR: lambda b: 'not' if b else 'keep'}[k]
                return self.bits(vs[0], v, f)
            if k in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR) and not cs and len(vs) == 2:
                a, b = self.bvt(vs[0]), self.bvt(vs[1])
                for x, y in ((a, b), (b, a)):
                    if x[2] < (1 << self.tz(y[0])):
                        return self.mk(padd(x[0], y[0]), 0, M - 1)
            return self.opaque(e)
        if k == z3.Z3_OP_ITE:
            c = self.bool(ch[0])
            return self.ite(c, self.bvt(ch[1]), self.bvt(ch[2]))
        if k == z3.Z3_OP_UNINTERPRETED and ch and all(z3.is_bv(c) for c in ch):
            f = z3.Function('f_' + e.decl().name() + '_%d' % len(ch), *([z3.IntSort()] * (len(ch) + 1)))
            x = f(*[self.z(self.bvt(c)[0]) for c in ch])
            v = self.var(0, M - 1, 'u')
            self.side.append(self.z(v) == x)
            return (v, 0, M - 1)
        if k == z3.Z3_OP_SELECT and all(z3.is_bv(c) for c in ch[1:]) and len(ch) == 2:
            a = self.arr(ch[0])
            if a is not None:
                x = z3.Select(a, self.z(self.bvt(ch[1])[0]))
                v = self.var(0, M - 1, 'u')
                self.side.append(self.z(v) == x)
                return (v, 0, M - 1)
        return self.opaque(e)

    def arr(self, a):
        k = a.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED and all(z3.is_bv(c) for c in a.children()):
            nm = 'a_' + a.decl().name()
            S = z3.ArraySort(z3.IntSort(), z3.IntSort())
            if a.num_args() == 0:
                return z3.Const(nm, S)
            f = z3.Function(nm, *([z3.IntSort()] * a.num_args() + [S]))
            return f(*[self.z(self.bvt(c)[0]) for c in a.children()])
        if k == z3.Z3_OP_STORE and a.num_args() == 3:
            b = self.arr(a.arg(0))
            if b is None or not z3.is_bv(a.arg(2)):
                return None
            return z3.Store(b, self.z(self.bvt(a.arg(1))[0]), self.z(self.bvt(a.arg(2))[0]))
        if k == z3.Z3_OP_CONST_ARRAY and z3.is_bv(a.arg(0)):
            return z3.K(z3.IntSort(), self.z(self.bvt(a.arg(0))[0]))
        if k == z3.Z3_OP_ITE:
            x, y = self.arr(a.arg(1)), self.arr(a.arg(2))
            if x is None or y is None:
                return None
            return z3.If(self.bool(a.arg(0)), x, y)
        return None

    def cmp(self, a, b, op):
        d = padd(a[0], b[0], -1)
        lo, hi = self.prange(d)
        lo, hi = max(lo, a[1] - b[2]), min(hi, a[2] - b[1])
        if op == '<=':
            if hi <= 0:
                return z3.BoolVal(True)
            if lo > 0:
                return z3.BoolVal(False)
        elif op == '<':
            if hi < 0:
                return z3.BoolVal(True)
            if lo >= 0:
                return z3.BoolVal(False)
        elif op == '==':
            if lo > 0 or hi < 0:
                return z3.BoolVal(False)
            if not d:
                return z3.BoolVal(True)
        self.cmps.append(d)
        z = self.z(d)
        return z <= 0 if op == '<=' else z < 0 if op == '<' else z == 0

    def bool(self, e):
        k = e.get_id()
        r = self.bcache.get(k)
        if r is None:
            r = self._bool(e)
            self.keep.append(e)
            self.bcache[k] = r
        return r

    def _bool(self, e):
        if z3.is_true(e) or z3.is_false(e):
            return e
        if z3.is_quantifier(e):
            raise Abort('quantifier')
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_AND:
            return z3.And([self.bool(c) for c in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or([self.bool(c) for c in ch])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.bool(ch[0]))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.bool(ch[0]), self.bool(ch[1]))
        if k == z3.Z3_OP_XOR:
            return z3.Xor(self.bool(ch[0]), self.bool(ch[1]))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.bool(ch[0]), self.bool(ch[1]), self.bool(ch[2]))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            if z3.is_bool(ch[0]):
                return self.bool(ch[0]) == self.bool(ch[1])
            if z3.is_bv(ch[0]):
                return self.cmp(self.bvt(ch[0]), self.bvt(ch[1]), '==')
        if k == z3.Z3_OP_DISTINCT and z3.is_bv(ch[0]):
            return z3.Distinct(*[self.z(self.bvt(c)[0]) for c in ch])
        S = {z3.Z3_OP_ULEQ: (0, 1, '<='), z3.Z3_OP_ULT: (0, 1, '<'), z3.Z3_OP_UGEQ: (1, 0, '<='), z3.Z3_OP_UGT: (1, 0, '<')}
        if k in S:
            i, j, op = S[k]
            return self.cmp(self.bvt(ch[i]), self.bvt(ch[j]), op)
        S = {z3.Z3_OP_SLEQ: (0, 1, '<='), z3.Z3_OP_SLT: (0, 1, '<'), z3.Z3_OP_SGEQ: (1, 0, '<='), z3.Z3_OP_SGT: (1, 0, '<')}
        if k in S:
            i, j, op = S[k]
            return self.cmp(self.signed(ch[i]), self.signed(ch[j]), op)
        NO = {z3.Z3_OP_BUMUL_NO_OVFL: 1}
        if k == z3.Z3_OP_UNINTERPRETED and all(z3.is_bv(c) for c in ch):
            if not ch:
                return z3.Bool('b_' + e.decl().name())
            f = z3.Function('p_' + e.decl().name() + '_%d' % len(ch), *([z3.IntSort()] * len(ch) + [z3.BoolSort()]))
            return f(*[self.z(self.bvt(c)[0]) for c in ch])
        # anything else: an unconstrained proposition
        return z3.Bool('o_%d' % e.get_id())

    # ---- lemmas about the monomial variables -------------------------------
    def lemmas(self):
        out = []
        done = set()
        for _ in range(2):
            ms = [m for m in list(self.mons) if m not in done]
            for m in ms:
                done.add(m)
                zm = self.mons[m]
                lo, hi = self.mrange(m)
                out.append(z3.And(zm >= lo, zm <= hi))
                # binary split: m = x * rest
                for i in range(len(m)):
                    if i and m[i] == m[i - 1]:
                        continue
                    x = m[i]
                    rest = m[:i] + m[i + 1:]
                    zr = self.zmon(rest)
                    zx, xl, xh = self.vars[x]
                    rl, rh = self.mrange(rest)
                    # McCormick
                    out.append(zm >= xl * zr + rl * zx - xl * rl)
                    out.append(zm >= xh * zr + rh * zx - xh * rh)
                    out.append(zm <= xh * zr + rl * zx - xh * rl)
                    out.append(zm <= xl * zr + rh * zx - xl * rh)
                    if xl >= 0 and rl >= 0:
                        out.append(z3.Implies(zx == 0, zm == 0))
                        out.append(z3.Implies(zr == 0, zm == 0))
                        out.append(z3.Implies(z3.And(zx >= 1, zr >= 1), z3.And(zm >= zx, zm >= zr)))
                        out.append(z3.Implies(zx == 1, zm == zr))
                        out.append(z3.Implies(zr == 1, zm == zx))
        ds = {}
        for m in self.mons:
            for i in set(m):
                r = list(m)
                r.remove(i)
                ds.setdefault(i, set()).add(tuple(r))
        seen = set()
        # products of comparisons with a common factor
        for d, parts in ds.items():
            zd, dl, dh = self.vars[d]
            if dl < 0:
                continue
            ps = sorted(parts)
            for i, a in enumerate(ps):
                for b in ps[i + 1:]:
                    if len(ps) > 40:
                        break
                    ma, mb = tuple(sorted(a + (d,))), tuple(sorted(b + (d,)))
                    x, y, za, zb = self.zmon(a), self.zmon(b), self.zmon(ma), self.zmon(mb)
                    out.append(z3.Implies(x == y, za == zb))
                    out.append(z3.Implies(x >= y + 1, za >= zb + zd))
                    out.append(z3.Implies(y >= x + 1, zb >= za + zd))
            for p in self.cmps:
                if not p or max(len(m) for m in p) > 3:
                    continue
                pd = pmul(p, {(d,): 1})
                if not all(len(m) < 2 or m in self.mons for m in pd):
                    continue
                key = (d, tuple(sorted(p.items())))
                if key in seen:
                    continue
                seen.add(key)
                zp, zpd = self.z(p), self.z(pd)
                out.append(z3.Implies(zp >= 1, zpd >= zd))
                out.append(z3.Implies(zp <= -1, zpd <= -zd))
                out.append(z3.Implies(zp == 0, zpd == 0))
        # variable-divisor comparisons: c*d vs products
        return out


HARD = {z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I,
        z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I, z3.Z3_OP_BMUL}


def hardterms(e, cache):
    k = e.get_id()
    if k in cache:
        return cache[k][1]
    r = frozenset()
    if z3.is_app(e):
        st = set()
        for c in e.children():
            st |= hardterms(c, cache)
        if e.decl().kind() in HARD:
            nc = [c for c in e.children() if not z3.is_bv_value(c)]
            if len(nc) > 1:
                st.add(k)
        r = frozenset(st)
    cache[k] = (e, r)
    return r


def prove(hyp, neg, timeout):
    """True iff hyp and neg are contradictory"""
    seen, hs = set(), []
    neg = z3.simplify(neg, bv_le2extract=False)
    for h in hyp:
        h = z3.simplify(h, bv_le2extract=False)
        if h.get_id() not in seen:
            seen.add(h.get_id())
            hs.append(h)
    end = time.time() + timeout / 1000.0
    cache = {}
    g = hardterms(neg, cache)
    few = [h for h in hs if hardterms(h, cache) <= g]
    if len(few) < len(hs):
        if prove1(few, neg, timeout / 3):
            return True
    return prove1(hs, neg, (end - time.time()) * 1000)


def prove1(hyp, neg, timeout):
    t = Tr()
    goals = list(hyp) + [neg]
    t.precut(goals)
    t.ranges(goals)
    try:
        fs = [t.bool(g) for g in goals]
        ls = t.lemmas()
    except Abort:
        return False
    except Contradiction:
        return True
    end = time.time() + timeout / 1000.0
    for cfg in ('smt', 'nia'):
        left = int((end - time.time()) * 1000)
        if left < 200:
            return False
        if cfg == 'smt':
            s = z3.Solver()
            s.set('timeout', left if not t.mons else max(left * 2 // 3, 1))
        else:
            if not t.mons:
                return False
            s = z3.Solver()
            s.set('timeout', left)
            for m, z in t.mons.items():
                p = t.vars[m[0]][0]
                for i in m[1:]:
                    p = p * t.vars[i][0]
                s.add(z == p)
        s.set('random_seed', 1)
        s.add(t.side)
        s.add(ls)
        s.add(fs)
        r = s.check()
        if r == z3.unsat:
            return True
    return False
