"""Abstracts symbolic products and quotients to fresh variables with range facts (over-approximation: only 'unsat' counts)."""
import z3

DIV = (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I)
REM = (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I)
SDIV = (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I)


def hardmul(e):
    c = [x for x in e.children() if z3.is_bv_value(x)]
    return e.size() >= 32 and (e.num_args() != 2 or not c or bin(c[0].as_long()).count('1') > 4)


def narrow(e):
    """(e', number of leading zero bits) for zero-extended terms"""
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_ZERO_EXT:
            return e.arg(0), e.size() - e.arg(0).size()
        if k == z3.Z3_OP_CONCAT and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0 and e.num_args() == 2:
            return e.arg(1), e.arg(0).size()
    return e, 0


def abstract(fs):
    memo, facts, prods, keep = {}, [], {}, []
    n = [0]

    def fresh(w, nm):
        n[0] += 1
        return z3.BitVec('opq_%s_%d' % (nm, n[0]), w)

    def mk(k, a, b, w):
        (na, za), (nb, zb) = narrow(a), narrow(b)
        ka, kb = (na.get_id(), za), (nb.get_id(), zb)
        keep.extend((na, nb))
        key = (k, w, tuple(sorted((ka, kb))) if k == 'mul' else (ka, kb))
        if key in prods:
            return prods[key]
        keep.extend((a, b))
        v = fresh(w, k)
        prods[key] = v
        if k == 'mul':
            (x, zx), (y, zy) = narrow(a), narrow(b)
            bits = (w - zx) + (w - zy)
            if zx and zy and bits <= w:
                mx = ((1 << (w - zx)) - 1) * ((1 << (w - zy)) - 1)
                facts.append(z3.ULE(v, z3.BitVecVal(mx, w)))
                if w - zx == w - zy:
                    lo = mk('mul', x, y, w - zx)
                    facts.append(lo == z3.Extract(w - zx - 1, 0, v))
            facts.append(z3.Implies(a == 0, v == 0))
            facts.append(z3.Implies(b == 0, v == 0))
            facts.append(z3.Implies(a == 1, v == b))
            facts.append(z3.Implies(b == 1, v == a))
        elif k == 'div':
            facts.append(z3.Implies(b != 0, z3.ULE(v, a)))
            facts.append(z3.Implies(z3.And(b != 0, z3.ULT(a, b)), v == 0))
            facts.append(z3.Implies(b == 1, v == a))
        elif k == 'rem':
            facts.append(z3.Implies(b != 0, z3.ULT(v, b)))
            facts.append(z3.ULE(v, a))
        return v

    def go(e):
        st = [e]
        while st:
            t = st[-1]
            if t.get_id() in memo:
                st.pop()
                continue
            if not z3.is_app(t) or t.num_args() == 0:
                memo[t.get_id()] = t
                keep.append(t)
                st.pop()
                continue
            todo = [c for c in t.children() if c.get_id() not in memo]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            keep.append(t)
            k = t.decl().kind()
            ch = [memo[c.get_id()] for c in t.children()]
            r = None
            if k == z3.Z3_OP_BMUL and hardmul(t):
                fl, wl = [], list(ch)
                while wl:
                    c = wl.pop()
                    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_BMUL:
                        wl.extend(c.children())
                    elif z3.is_app(c) and c.decl().kind() == z3.Z3_OP_BNEG:
                        wl.append(c.arg(0))
                        fl.append(z3.BitVecVal(-1, t.size()))
                    else:
                        fl.append(c)
                ch = fl
                cs = [c for c in ch if z3.is_bv_value(c)]
                xs = [c for c in ch if not z3.is_bv_value(c)]
                xs.sort(key=lambda x: x.get_id())
                if len(xs) == 1 and len(cs) == 1 and cs[0].as_long() != (1 << t.size()) - 1:
                    r = mk('mul', cs[0], xs[0], t.size())
                else:
                    r = xs[0]
                    for c in xs[1:]:
                        r = mk('mul', r, c, t.size())
                    for c in cs:
                        r = c * r
            elif k == z3.Z3_OP_BUMUL_NO_OVFL:
                w = ch[0].size()
                p = mk('mul', z3.ZeroExt(w, ch[0]), z3.ZeroExt(w, ch[1]), 2 * w)
                r = z3.Extract(2 * w - 1, w, p) == 0
            elif k in DIV and not z3.is_bv_value(ch[1]):
                r = mk('div', ch[0], ch[1], t.size())
            elif k in REM and not z3.is_bv_value(ch[1]):
                r = mk('rem', ch[0], ch[1], t.size())
            elif k in SDIV and not z3.is_bv_value(ch[1]):
                r = mk('s%d' % k, ch[0], ch[1], t.size())
            if r is None:
                r = t.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, t.children())) else t
            memo[t.get_id()] = r
            keep.append(r)
        return memo[e.get_id()]
    out = [go(f) for f in fs]
    return out + facts, len(prods)


def prove(hyp, neg, timeout):
    try:
        fs, n = abstract([z3.simplify(f, bv_le2extract=False) for f in list(hyp) + [neg]])
    except z3.Z3Exception:
        return False
    if not n:
        return False
    s = z3.Solver()
    s.set('timeout', int(timeout))
    s.set('random_seed', 1)
    s.add(fs)
    import os
    if os.environ.get('DBGOPQ'):
        print(n, s.to_smt2())
    r = s.check()
    return r == z3.unsat
