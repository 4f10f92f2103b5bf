"""Unsigned interval analysis of bit-vector terms (sound; used to discharge range obligations cheaply)."""
import z3
import mem
KEEP = []



def facts(pc):
    """ranges stated by path conditions: {term id: (lo, hi)}"""
    r = {}

    def put(t, lo, hi):
        if z3.is_bv_value(t):
            return
        o = r.get(t.get_id(), (0, (1 << t.size()) - 1))
        r[t.get_id()] = (max(lo, o[0]), min(hi, o[1]))

    def go(c, pos):
        if not z3.is_app(c):
            return
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            return go(c.arg(0), not pos)
        if k == z3.Z3_OP_AND and pos or k == z3.Z3_OP_OR and not pos:
            for x in c.children():
                go(x, pos)
            return
        if k not in CMP or not z3.is_bv(c.arg(0)):
            return
        a, b = c.arg(0), c.arg(1)
        M = (1 << a.size()) - 1
        if k == z3.Z3_OP_EQ:
            if z3.is_bv_value(a):
                a, b = b, a
            if z3.is_bv_value(b):
                v = b.as_long()
                if pos:
                    put(a, v, v)
                elif v == 0:
                    put(a, 1, M)
            elif not pos and a.size() == 64:
                for x, y in ((a, b), (b, a)):
                    d = mem.lin_expr(mem._addlin(mem.linear(x), mem.linear(y), (1 << 64) - 1, -1))
                    if z3.is_expr(d):
                        KEEP.append(d)
                        put(d, 1, M)
            return
        if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            a, b = b, a
        s = k in (z3.Z3_OP_ULT, z3.Z3_OP_UGT)
        if not pos:
            a, b, s = b, a, not s
        if z3.is_bv_value(b):
            put(a, 0, b.as_long() - s)
        if z3.is_bv_value(a):
            put(b, a.as_long() + s, M)
    for c in pc:
        go(c, True)
    return r


CMP = (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_EQ)


def urange(e, pc=()):
    """(lo, hi) with lo <= e <= hi as an unsigned number, for every assignment satisfying pc"""
    memo = {}
    known = facts(pc) if pc else {}
    w = e.size()
    M = (1 << w) - 1
    stack = [e]
    get = lambda x: memo[x.get_id()]
    while stack:
        t = stack[-1]
        i = t.get_id()
        if i in memo:
            stack.pop()
            continue
        if not z3.is_app(t):
            memo[i] = (0, (1 << t.size()) - 1)
            continue
        kids = [c for c in t.children() if z3.is_bv(c)]
        todo = [c for c in kids if c.get_id() not in memo]
        if t.decl().kind() == z3.Z3_OP_ITE:
            for x in cmp_terms(t.arg(0)):
                if x.get_id() not in memo:
                    todo.append(x)
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        r = rng1(t, get)
        k = known.get(i)
        if k is not None:
            r = (max(r[0], k[0]), min(r[1], k[1]))
            if r[0] > r[1]:
                r = (0, (1 << t.size()) - 1)
        memo[i] = r
    return memo[e.get_id()]


def cmp_terms(c):
    if z3.is_not(c):
        return cmp_terms(c.arg(0))
    if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_EQ) and z3.is_bv(c.arg(0)):
        return [c.arg(0), c.arg(1)]
    return []


def refine(c, pos, x, r, get):
    """narrow the range r of x knowing that c == pos"""
    if z3.is_not(c):
        return refine(c.arg(0), not pos, x, r, get)
    if not z3.is_app(c):
        return r
    k = c.decl().kind()
    if k not in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_EQ) or not z3.is_bv(c.arg(0)):
        return r
    a, b = c.arg(0), c.arg(1)
    if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
        a, b = b, a
        k = z3.Z3_OP_ULEQ if k == z3.Z3_OP_UGEQ else z3.Z3_OP_ULT
    lo, hi = r
    if k == z3.Z3_OP_EQ:
        if pos:
            o = b if a.eq(x) else a if b.eq(x) else None
            if o is not None:
                l, h = get(o)
                return max(lo, l), min(hi, h)
        return r
    if not pos:
        a, b = b, a
        k = z3.Z3_OP_ULT if k == z3.Z3_OP_ULEQ else z3.Z3_OP_ULEQ
    s = 1 if k == z3.Z3_OP_ULT else 0
    if s and w64(x):
        d = mem.lin_expr(mem._addlin(mem.linear(b), mem.linear(a), (1 << 64) - 1, -1))
        if z3.is_expr(d) and d.eq(x):
            lo = max(lo, 1)
    if a.eq(x):
        hi = min(hi, get(b)[1] - s)
    if b.eq(x):
        lo = max(lo, get(a)[0] + s)
    return lo, hi


def w64(x):
    return x.size() == 64 and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BADD


def rng1(t, get):
    w = t.size()
    M = (1 << w) - 1
    top = (0, M)
    if z3.is_bv_value(t):
        v = t.as_long()
        return v, v
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_BADD:
        lo = sum(get(c)[0] for c in ch)
        hi = sum(get(c)[1] for c in ch)
        return (lo, hi) if hi <= M else top
    if k == z3.Z3_OP_BMUL:
        lo = hi = 1
        for c in ch:
            a, b = get(c)
            lo *= a
            hi *= b
        return (lo, hi) if hi <= M else top
    if k == z3.Z3_OP_BSUB and len(ch) == 2:
        (a, b), (c, d) = get(ch[0]), get(ch[1])
        return (a - d, b - c) if a >= d else top
    if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
        (a, b), (c, d) = get(ch[0]), get(ch[1])
        return (a // d, b // c) if c > 0 else top
    if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
        (a, b), (c, d) = get(ch[0]), get(ch[1])
        return (0, min(b, d - 1)) if c > 0 else (0, b)
    if k == z3.Z3_OP_ITE:
        c, a, b = ch[0], ch[1], ch[2]
        ra = refine(c, True, a, get(a), get)
        rb = refine(c, False, b, get(b), get)
        if ra[0] > ra[1]:
            return rb if rb[0] <= rb[1] else top
        if rb[0] > rb[1]:
            return ra
        return min(ra[0], rb[0]), max(ra[1], rb[1])
    if k == z3.Z3_OP_CONCAT:
        lo = hi = 0
        for c in ch:
            a, b = get(c)
            lo = (lo << c.size()) | a
            hi = (hi << c.size()) | b
        # each part is bounded separately, hence so is the concatenation
        return lo, hi
    if k == z3.Z3_OP_ZERO_EXT:
        return get(ch[0])
    if k == z3.Z3_OP_EXTRACT:
        h, l = t.params()
        a, b = get(ch[0])
        if a >> (h + 1) == b >> (h + 1):
            m = (1 << (h + 1)) - 1
            return (a & m) >> l, (b & m) >> l
        return top
    if k == z3.Z3_OP_BAND:
        return 0, min(get(c)[1] for c in ch)
    if k == z3.Z3_OP_BOR:
        h = 0
        for c in ch:
            h |= (1 << get(c)[1].bit_length()) - 1
        return max(get(c)[0] for c in ch), h
    if k == z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]):
        s = ch[1].as_long()
        a, b = get(ch[0])
        return a >> s, b >> s
    if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
        s = ch[1].as_long()
        a, b = get(ch[0])
        return (a << s, b << s) if b << s <= M else top
    return top


def dump(e, pc, n=6):
    """the operand ranges of the top levels (debugging)"""
    r = []
    for c in list(e.children())[-n:]:
        if z3.is_bv(c):
            r.append((urange(c, pc), c.sexpr()[:700] if c.num_args() else str(c), [(urange(x, pc), x.sexpr()[:500]) for x in c.children() if z3.is_bv(x)]))
    return '\n'.join(map(str, r))
