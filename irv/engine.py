"""Symbolic executor / verification-condition generator over LLVM IR.

Every obligation (irv_assert in a contract harness, memory-safety conditions)
is turned into one SMT query  path-condition => condition.  Loops whose trip
count depends on an unbounded length are not unrolled: they are replaced by a
recursive summary (see loops in exec_loop) and equalities between summaries
are proved by induction."""
import sys, time, re, struct
import z3
import llvm
import interval
from mem import *

z3.set_param('smt.random_seed', 1)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class NeedSummary(Exception):
    def __init__(self, tok):
        self.tok = tok


class Infeasible(Exception):
    pass


def scales(f, k):
    """shift amounts sh such that the fact reads elements 2^sh * k + c of an array"""
    m = f.scale
    if m is None:
        m = f.scale = {}
    if k.get_id() in m:
        return m[k.get_id()]
    r, seen, stk = set(), set(), [f.body]
    while stk:
        e = stk.pop()
        if e.get_id() in seen or z3.is_quantifier(e):
            continue
        seen.add(e.get_id())
        if z3.is_select(e) and isinstance(e.arg(1), z3.BitVecRef) and e.arg(1).size() == 64:
            for t, co in linear(e.arg(1))[1].values():
                if t.eq(k) and co > 1 and co & (co - 1) == 0 and co <= 64:
                    r.add(co.bit_length() - 1)
        stk.extend(e.children())
    m[k.get_id()] = r
    return r


class ForkOn(Exception):
    """instruction must be re-executed after splitting on cond"""

    def __init__(self, cond):
        self.cond = cond


class Throw(Exception):
    """raised by models: C++ exception of given type name"""

    def __init__(self, ti, obj=None):
        self.ti = ti
        self.obj = obj


class Exc:
    __slots__ = ('ti', 'ptr')

    def __init__(self, ti, ptr):
        self.ti = ti
        self.ptr = ptr


class Poison:
    """value the loop summary gave up on; using it is a tool limit"""

    def __init__(self, why):
        self.why = why


class State:
    __slots__ = ('mem', 'pc', 'facts', 'recs', 'trace', 'idx', 'ctx', 'owner', 'freed', 'caught', 'ghost', 'rnd')
    _tok = 0

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.facts = []
        self.recs = []
        self.trace = []
        self.idx = []
        self.ctx = ()
        self.freed = set()
        self.caught = []
        self.ghost = {}
        self.rnd = ()
        self.newtok()

    def newtok(self):
        State._tok += 1
        self.owner = State._tok

    def clone(self):
        n = State.__new__(State)
        n.mem = dict(self.mem)
        n.pc = list(self.pc)
        n.facts = list(self.facts)
        n.recs = list(self.recs)
        n.trace = list(self.trace)
        n.idx = list(self.idx)
        n.ctx = self.ctx
        n.freed = set(self.freed)
        n.caught = list(self.caught)
        n.ghost = dict(self.ghost)
        n.rnd = self.rnd
        n.newtok()
        self.newtok()
        return n


class Fact:
    """forall bound vars (each k < bound): body"""
    __slots__ = ('vars', 'body', 'scale')

    def __init__(self, vars, body):
        self.vars = vars    # list of (const, bound term)
        self.body = body
        self.scale = None


class Join:
    """marks a merged arrival at a block whose phis are already evaluated"""

    def __init__(self, blk):
        self.blk = blk


class FakeBlock:
    def __init__(self, ty):
        self.phis = []
        self.keep = [FakePhi(ty)] if ty.k not in ('void', '?') else []


class FakePhi:
    id = 0

    def __init__(self, ty):
        self.ty = ty


INTS = object()


class Rec:
    """R(k): R(0)=init ; k<K => R(k+1)=step(k)"""
    __slots__ = ('loop', 'slot', 'app', 'k', 'init', 'step', 'sort', 'outer', 'K')


def b2bv(v, bits):
    if isinstance(v, int):
        return v
    return z3.If(v, z3.BitVecVal(1, bits), z3.BitVecVal(0, bits))


def simp(e):
    if isinstance(e, z3.ExprRef):
        e = z3.simplify(e, bv_le2extract=False)
        if z3.is_bv_value(e):
            return e.as_long()
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
    return e


def asbool(v):
    if isinstance(v, int):
        return TRUE if v else FALSE
    if isinstance(v, z3.BitVecRef):
        return v == z3.BitVecVal(1, v.size()) if v.size() == 1 else v != 0
    return v


def as_i1(v):
    """normalise i1"""
    if isinstance(v, z3.BitVecRef):
        return simp(v == 1)
    return v


class Engine:
    def __init__(self, mod, opts=None):
        self.m = mod
        o = dict(unroll=80, unroll_states=4000, timeout=20000, memsafe=True, lenpfx='len!', deadline=None, verbose=0,
                 feas_timeout=3000, maxinstr=3000000, merge=True, unroll_unbounded=0, stop_on_fail=False, ptrlazy=True,
                 maxpaths=20000, ovf=False, stable_feas=False, quick_bv=1200, join=True)
        o.update(opts or {})
        self.o = o
        self.globals = {}
        self.funcobjs = {}
        self.constcache = {}
        self.models = []
        self.modelcache = {}
        self.obls = []
        self.assumed = set()
        self.nfresh = 0
        self.ninstr = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', o['feas_timeout'])
        self.sstack = []
        self.deferred = None
        self.quiet = 0
        self.stime = 0.0
        self.nqueries = 0
        self.unbounded = set()
        self.typeids = {}
        self.tinames = {}
        self.unrolling = []
        self.covered = {}
        self.covers = {}
        self.funcs_seen = {}
        self.bounded = None
        self.loops_summarised = set()
        self.externs = {}
        self.fconst = {}
        self.dem = {}
        self.replace = {}
        self.global_mem = {}
        self.lazyfuncs = {}
        self.dyninit = set()
        self.notes = set()
        self.cexs = []
        self.paths = 0
        self.curfn = []
        self.pcinfo = {}
        self.nestobjs = {}
        self.flagcache = {}
        self.joins = 0

    # -- fresh symbols --------------------------------------------------------
    def fresh(self, st, name, sort):
        self.nfresh += 1
        nm = '%s!%d' % (name, self.nfresh)
        if st is not None and st.ctx:
            f = z3.Function(nm, *([k.sort() for k in st.ctx] + [sort]))
            return f(*st.ctx)
        return z3.Const(nm, sort)

    # -- solver ---------------------------------------------------------------
    def _sync(self, pc):
        s, cur = self.solver, self.sstack
        n = 0
        while n < len(cur) and n < len(pc) and cur[n] is pc[n]:
            n += 1
        if len(cur) > n:
            s.pop(len(cur) - n)
            del cur[n:]
        for c in pc[n:]:
            s.push()
            s.add(c)
            cur.append(c)

    def feasible(self, st, cond):
        if self.o['deadline'] and time.time() > self.o['deadline']:
            raise ToolLimit('time budget exhausted')
        t = time.time()
        self._sync(st.pc)
        self.solver.push()
        self.solver.add(cond)
        h = self.hard([], cond)
        if h:
            self.solver.set('timeout', min(400, self.o['feas_timeout']))
        r = self.solver.check()
        if h:
            self.solver.set('timeout', self.o['feas_timeout'])
        self.solver.pop()
        self.stime += time.time() - t
        self.nqueries += 1
        if self.o.get('dbgfeas') and time.time() - t > 0.3:
            print('FEAS', r, '%.2f' % (time.time() - t), str(cond)[-300:])
        return r != z3.unsat

    def assume(self, st, cond):
        if isinstance(cond, int):
            if not cond:
                raise Infeasible()
            return
        cond = simp(cond)
        if isinstance(cond, int):
            if not cond:
                raise Infeasible()
            return
        st.pc.append(cond)

    # instantiate quantified facts / recurrences on ground index terms
    def instantiate(self, st, extra=(), only=None):
        T = {}

        def add(t):
            if isinstance(t, int):
                t = z3.BitVecVal(t, 64)
            t = z3.simplify(t)
            T[t.get_id()] = t
        if not st.facts and not st.recs:
            return []
        for t in st.idx:
            add(t)
        for t in extra:
            add(t)
        for k in st.ctx:
            add(k)
            add(k - 1)
        base = list(T.values())
        for t in base:
            if not z3.is_bv_value(t):
                add(t - 1)
        add(0)
        for x in st.rnd:
            add(x)
        unrolled = sorted({sh for f in st.facts for k, _ in f.vars for sh in scales(f, k)})
        for sh in unrolled:
            for t in base:
                if not z3.is_bv_value(t) and t.num_args() == 0:
                    for c in range(1 << sh):
                        add((t << sh) + c)
        if only is not None:
            T = {}
            for x in only:
                add(x)
            for x in st.ctx:
                add(x)
        ts = list(T.values())
        out = []
        for r in st.recs:
            out.append(r.app(z3.BitVecVal(0, 64)) == r.init)
            for t in ts:
                stp = z3.substitute(r.step, (r.k, t))
                out.append(z3.Implies(z3.ULT(t, r.K), r.app(z3.simplify(t + 1)) == stp))
        n = 0
        for f in st.facts:
            vs = f.vars

            def go(i, subs, guards):
                nonlocal n
                if i == len(vs):
                    n += 1
                    if n > 6000:
                        return
                    b = z3.substitute(f.body, *subs) if subs else f.body
                    out.append(z3.Implies(z3.And(guards), b) if guards else b)
                    return
                k, K = vs[i]
                K = z3.substitute(K, *subs) if subs else K
                for t in ts:
                    go(i + 1, subs + [(k, t)], guards + [z3.ULT(t, K)])
                for sh in scales(f, k):
                    # an unrolled loop: element t belongs to round t >> sh
                    for t in ([simp(z3.LShR(x, sh)) for x in base]):
                        t = bv(t, 64)
                        if t.get_id() not in T:
                            go(i + 1, subs + [(k, t)], guards + [z3.ULT(t, K)])
            go(0, [], [])
        return out

    def valid(self, st, cond, timeout=None, want_model=False, pc=None):
        """returns 'proved' | 'failed' | 'unknown', backend, model"""
        t0 = time.time()
        pc = list(st.pc if pc is None else pc)
        hyp = pc + self.instantiate(st)
        neg = z3.Not(cond)
        to = timeout or self.o['timeout']
        s = z3.Solver()
        s.set('timeout', int(to))
        s.set('random_seed', 1)
        s.add(hyp)
        s.add(neg)
        be = 'z3-' + z3.get_version_string()
        if self.hard(hyp, neg):
            s.set('timeout', int(min(to, self.o['quick_bv'])))
            r = s.check()
            if r == z3.unknown:
                import opaque
                if opaque.prove(hyp, neg, min(to, 4000)):
                    r = z3.unsat
                    be += ' (opaque products)'
            if r == z3.unknown:
                import intprove
                if intprove.prove(hyp, neg, to):
                    r = z3.unsat
                    be += ' (integer arithmetic)'
        else:
            r = s.check()
        if r == z3.unknown:
            # second attempt: bit-blasting tactic
            try:
                tac = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'smt')
                s2 = tac.solver()
                s2.set('timeout', int(to))
                s2.add(hyp)
                s2.add(neg)
                r = s2.check()
                s = s2
            except z3.Z3Exception:
                pass
        if r == z3.unknown and self.o.get('cvc5', True):
            rr = self.cvc5(hyp + [neg], to)
            if rr == 'unsat':
                r = z3.unsat
                be = 'cvc5-1.1.2'
        self.stime += time.time() - t0
        self.nqueries += 1
        if r == z3.unsat:
            return 'proved', be, None
        if r == z3.sat:
            return 'failed', be, s.model()
        return 'unknown', be, None

    def hard(self, hyp, neg):
        """does the query multiply or divide two symbolic terms?"""
        seen = set()
        st = list(hyp) + [neg]
        K = (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I,
             z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I)
        while st:
            e = st.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            if not z3.is_app(e):
                continue
            k = e.decl().kind()
            if k in K:
                return True
            if k == z3.Z3_OP_BMUL and e.size() >= 32:
                c = [x for x in e.children() if z3.is_bv_value(x)]
                if e.num_args() != 2 or not c or bin(c[0].as_long()).count('1') > 4:
                    return True
            st.extend(e.children())
        return False

    def cvc5(self, assertions, to):
        import subprocess, tempfile, os
        s = z3.Solver()
        s.add(assertions)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % int(to), f.name], capture_output=True, text=True,
                               timeout=to / 1000 + 5)
            return p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
        except Exception:
            return 'unknown'
        finally:
            os.unlink(f.name)

    def obligation(self, st, cond, name, where=''):
        """prove cond under st; then assume it"""
        c = simp(asbool(cond)) if not isinstance(cond, int) else cond
        if self.quiet:
            if isinstance(c, int):
                if not c:
                    raise Infeasible()
            else:
                st.pc.append(c)
            return
        if isinstance(c, int) and c:
            self.record(name, where, 'proved', 'constant folding', 0.0, st, None)
            return
        cz = asbool(c)
        if self.deferred is not None:
            self.deferred.append((st.clone(), cz, name, where))
            if isinstance(c, int):
                raise Infeasible()
            st.pc.append(cz)
            return
        self.discharge(st, cz, name, where)
        if isinstance(c, int):
            raise Infeasible()
        st.pc.append(cz)

    def discharge(self, st, cz, name, where):
        t = time.time()
        r, be, model = self.valid(st, cz)
        if r != 'proved' and (st.recs):
            for full in (False, True):
                if self.induct(st, full):
                    r, be2, model = self.valid(st, cz)
                    if r == 'proved':
                        be = be2 + '+induction'
                        break
        self.record(name, where, r, be, time.time() - t, st, model, cz)

    def record(self, name, where, r, be, dt, st, model, cz=None):
        o = dict(name=name, where=where, status=r, backend=be, time=dt)
        o['loop'] = bool(st.ctx) or bool(st.recs)
        if r == 'failed':
            o['approx'] = bool(st.recs or st.facts or st.ctx)
            o['cex'] = self.concretise(st, model, cz)
            o['formula'] = str(cz)[:400]
        self.obls.append(o)
        if self.o.get('dump') and r != 'proved' and cz is not None:
            print('   OPEN', name, str(z3.simplify(cz))[:6000])
            print('   PC', str(st.pc)[:6000])
        if self.o['verbose']:
            print('   obligation', name, where, r, '%.2fs' % dt, be, flush=True)
        if r == 'failed' and self.o['stop_on_fail']:
            raise ToolLimit('stop on first failure')

    # -- counterexample -------------------------------------------------------
    def concretise(self, st, model, cz):
        """evaluate the nondet trace under the model (small lengths preferred)"""
        if model is None and cz is not None:
            return None
        lens = [t for (k, nm, t) in st.trace if k == 'len']
        if lens or True:
            hyp = list(st.pc) + self.instantiate(st)
            for bound in (4, 40, 300):
                if not lens:
                    break
                s = z3.Solver()
                s.set('timeout', 5000)
                s.add(hyp)
                if cz is not None:
                    s.add(z3.Not(cz))
                for l in lens:
                    s.add(z3.ULE(l, bound))
                for kd, nm, t in st.trace:
                    if kd == 'arr' and bound <= 40:
                        for f in t[1]:
                            if f[0] == 'nest':
                                for i in range(bound):
                                    s.add(z3.ULE(z3.Select(f[1], z3.BitVecVal(i, 64)), bound))
                if s.check() == z3.sat:
                    model = s.model()
                    break
        if model is None:
            return None
        return self.eval_trace(st, model)

    def eval_trace(self, st, model):
        out = []

        def ev(t):
            if isinstance(t, int):
                return t
            v = model.eval(t, model_completion=True)
            if z3.is_bv_value(v):
                return v.as_long()
            if z3.is_true(v):
                return 1
            if z3.is_false(v):
                return 0
            try:
                if z3.is_fp(v):
                    b = z3.simplify(z3.fpToIEEEBV(v))
                    return b.as_long()
            except Exception:
                pass
            return 0
        def words(v, n):
            return [(v >> (64 * i)) & M64 for i in range((n + 7) // 8)]

        def field(f, i):
            if f[0] == 'val':
                return words(ev(f[1] if i is None else z3.Select(f[1], z3.BitVecVal(i, 64))), f[2])
            ln = ev(f[1] if i is None else z3.Select(f[1], z3.BitVecVal(i, 64)))
            if ln > 3000:
                raise OverflowError()
            da = f[2] if i is None else z3.Select(f[2], z3.BitVecVal(i, 64))
            r = [ln]
            for j in range(ln):
                r += words(ev(z3.Select(da, z3.BitVecVal(j, 64))), f[3])
            return r
        try:
            for kind, nm, t in st.trace:
                if kind in ('val', 'len'):
                    out.append([nm, ev(t)])
                elif kind == 'bytes':
                    out.append([nm, [ev(x) for x in t]])
                elif kind == 'arrc':
                    r = []
                    for f in t:
                        r += field(f, None)
                    out.append([nm, r])
                elif kind == 'arr':
                    cnt, fields = t
                    n = ev(cnt)
                    if n > 5000:
                        return None
                    r = []
                    for i in range(n):
                        for f in fields:
                            r += field(f, i)
                    out.append([nm, r])
        except OverflowError:
            return None
        # the specification functions of the model: arity, default, rows
        for d in model.decls():
            if d.name().startswith('uf_') and d.arity():
                fi = model[d]
                row = lambda v: v.as_long() if z3.is_bv_value(v) else int(z3.is_true(v))
                try:
                    r = [d.arity(), row(fi.else_value())]
                    for i in range(fi.num_entries()):
                        e = fi.entry(i)
                        r += [row(e.arg_value(j)) for j in range(d.arity())] + [row(e.value())]
                except Exception:
                    continue
                out.append([d.name(), r])
        return out

    # -- induction over loop summaries -----------------------------------------
    def induct(self, st, full=False):
        """guess equalities between loop summaries and prove them by induction"""
        recs = [r for r in st.recs]
        k = z3.BitVec('ind!k', 64)
        cands = []
        done = st.ghost.get('ind', ())
        for i, a in enumerate(recs):
            for b in recs[i + 1:]:
                if a.loop == b.loop and a.slot == b.slot and a.K.eq(b.K):
                    continue
                rel = None
                if a.sort != b.sort:
                    # a narrow accumulator against a wide (exact) one
                    if not (isinstance(a.sort, z3.BitVecSortRef) and isinstance(b.sort, z3.BitVecSortRef)):
                        continue
                    lo, hi = (a, b) if a.sort.size() < b.sort.size() else (b, a)
                    rel = lambda t, lo=lo, hi=hi: z3.ZeroExt(hi.sort.size() - lo.sort.size(), lo.app(t)) == hi.app(t)
                key = (a.app(k).get_id(), b.app(k).get_id())
                if key in done:
                    continue
                cands.append((key, z3.And(z3.ULT(k, a.K), z3.ULT(k, b.K)), z3.And(z3.ULE(k, a.K), z3.ULE(k, b.K)),
                              rel or (lambda t, a=a, b=b: a.app(t) == b.app(t)), (a.K, b.K)))
        for a in recs:
            if isinstance(a.sort, z3.BitVecSortRef):
                for nm, rel in (('const', lambda t, a=a: a.app(t) == a.init),
                                ('eqk', lambda t, a=a: a.app(t) == fit64(t, a.sort.size()) + a.init),
                                ('ge', lambda t, a=a: z3.UGE(a.app(t), a.init)),
                                ('lek', lambda t, a=a: z3.ULE(a.app(t), fit64(t, a.sort.size()) + a.init)),):
                    key = (a.app(k).get_id(), nm)
                    if key in done:
                        continue
                    cands.append((key, z3.ULT(k, a.K), z3.ULE(k, a.K), rel, (a.K, a.K)))
            for rel0 in self.o.get('invariants', ()):
                pass
        if not cands:
            return False
        # base
        alive = []
        z = z3.BitVecVal(0, 64)
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(st.pc + self.instantiate(st, only=None if full else [z]))
        for c in cands:
            s.push()
            s.add(z3.Not(c[3](z)))
            if s.check() == z3.unsat:
                alive.append(c)
            s.pop()
        base_pc = list(st.pc)
        while alive:
            st2 = st.clone()
            st2.rnd = st.rnd + (k,)
            ih = [z3.Implies(c[2], c[3](k)) for c in alive]
            st2.pc = base_pc + ih
            bad = []
            # houdini: one query over all, then drop the falsified ones
            hyp = st2.pc + self.instantiate(st2, only=None if full else [k])
            s = z3.Solver()
            s.set('timeout', 10000)
            s.add(hyp)
            goals = [z3.Implies(c[1], c[3](k + 1)) for c in alive]
            s.push()
            s.add(z3.Not(z3.And(goals)))
            t00 = time.time()
            r = s.check()
            if self.o['verbose'] > 1: print('DBGIND', r, len(alive), len(hyp), round(time.time() - t00, 2), flush=True)
            self.nqueries += 1
            if r == z3.unsat:
                break
            if r == z3.sat:
                m = s.model()
                bad = [i for i, g in enumerate(goals) if not z3.is_true(m.eval(g, model_completion=True))]
                s.pop()
            else:
                s.pop()
            if not bad:
                for i, g in enumerate(goals):
                    s.push()
                    s.set('timeout', 4000)
                    s.add(z3.Not(g))
                    t00 = time.time()
                    rr = s.check()
                    if self.o['verbose'] > 1: print('DBGIND1', rr, g, round(time.time() - t00, 2), flush=True)
                    if rr != z3.unsat:
                        bad.append(i)
                    s.pop()
                if not bad:
                    break
            alive = [c for i, c in enumerate(alive) if i not in bad]
        new = False
        for c in alive:
            st.facts.append(Fact([], TRUE))
            st.facts.pop()
            kk = z3.BitVec('ind!k', 64)
            body = z3.Implies(c[2], c[3](kk))
            st.facts.append(Fact([(kk, z3.BitVecVal(M64, 64))], body))
            done = done + (c[0],)
            new = True
        st.ghost['ind'] = done
        return new

    # -- constants and globals --------------------------------------------------
    def global_obj(self, ref):
        o = self.globals.get(ref)
        if o is None:
            name = llvm.vname(ref)
            ty = self.m.type(llvm.GlobalValueType(ref))
            ro = bool(llvm.IsGlobalConstant(ref))
            decl = bool(llvm.IsDeclaration(ref))
            o = Obj('@' + name, ty.size, 'global', 'lazy' if decl or name in self.dyninit else 'init', ro)
            if decl and not ty.size:
                o.size = None
            o.init = None if decl else ref
            self.globals[ref] = o
            if name.startswith('_ZTI'):
                self.tinames[o] = name[4:]
            c = Cells(-1)
            if not decl and name not in self.dyninit:
                self.init_const(c, 0, llvm.GetInitializer(ref))
            self.global_mem[o] = c
        return o

    def func_obj(self, ref):
        o = self.funcobjs.get(ref)
        if o is None:
            o = Obj('&' + llvm.vname(ref), 1, 'func', ro=True)
            o.fref = self.m.func_by_ref(ref)
            self.funcobjs[ref] = o
        return o

    def init_const(self, c, off, ref):
        k = llvm.ValueKind(ref)
        ty = self.m.type(llvm.TypeOf(ref))
        if k in (llvm.VK_AGGZERO, llvm.VK_CNULL):
            if ty.k == 'ptr':
                c.c[off] = (8, NULL)
            else:
                self.zero_fill(c, off, ty)
        elif k == llvm.VK_UNDEF or k == 25:
            pass
        elif k == llvm.VK_CSTRUCT:
            for i, e in enumerate(ty.elems):
                self.init_const(c, off + ty.offs[i], llvm.GetOperand(ref, i))
        elif k == llvm.VK_CARRAY:
            for i in range(ty.n):
                self.init_const(c, off + i * ty.el.size, llvm.GetOperand(ref, i))
        elif k in (llvm.VK_CDARRAY, llvm.VK_CDVECTOR):
            if ty.el.k == 'int' and ty.el.bits == 8:
                n = llvm.C.c_size_t()
                p = llvm.AsString(ref, llvm.C.byref(n))
                raw = llvm.C.string_at(p, n.value)
                for i, b in enumerate(raw):
                    c.c[off + i] = (1, b)
            else:
                for i in range(ty.n):
                    c.c[off + i * ty.el.size] = (ty.el.size, self.const_value(llvm.ElementAsConstant(ref, i)))
                c.maxn = max(c.maxn, ty.el.size)
        else:
            v = self.const_value(ref)
            n = ty.size
            if ty.k == 'int' and ty.bits == 1:
                v = b2bv(v, 8)
            c.c[off] = (n, v)
            c.maxn = max(c.maxn, n)
        c.maxn = max(c.maxn, 8)

    def zero_fill(self, c, off, ty):
        if ty.k == 'int':
            c.c[off] = (ty.size, 0)
            c.maxn = max(c.maxn, ty.size)
        elif ty.k == 'ptr':
            c.c[off] = (8, NULL)
        elif ty.k == 'struct':
            for i, e in enumerate(ty.elems):
                self.zero_fill(c, off + ty.offs[i], e)
        elif ty.k == 'array':
            for i in range(ty.n):
                self.zero_fill(c, off + i * ty.el.size, ty.el)
        elif ty.k in ('double', 'float', 'fp80'):
            c.c[off] = (ty.size, z3.FPVal(0.0, self.fps(ty)))
        elif ty.k == 'vector':
            for i in range(ty.n):
                self.zero_fill(c, off + i * ty.el.size, ty.el)

    def fps(self, ty):
        return {'double': z3.Float64(), 'float': z3.Float32(), 'fp80': z3.FPSort(15, 64)}[ty.k]

    def const(self, op):
        if op.has:
            return op.val
        op.val = self.const_value(op.ref)
        op.has = True
        return op.val

    def const_value(self, ref):
        k = llvm.ValueKind(ref)
        if k == llvm.VK_CINT:
            ty = self.m.type(llvm.TypeOf(ref))
            if ty.bits <= 64:
                return llvm.ConstIntZ(ref) & ((1 << ty.bits) - 1)
            s = llvm.pstr(ref).split()[-1]
            return int(s) & ((1 << ty.bits) - 1)
        if k == llvm.VK_CNULL:
            return NULL
        if k == llvm.VK_FUNC:
            return Ptr(self.func_obj(ref), 0)
        if k == llvm.VK_GVAR:
            return Ptr(self.global_obj(ref), 0)
        if k == llvm.VK_ALIAS:
            return self.const_value(llvm.AliasGetAliasee(ref))
        ty = self.m.type(llvm.TypeOf(ref))
        if k == llvm.VK_UNDEF or k == 25:
            return self.undef(ty)
        if k == llvm.VK_AGGZERO:
            return self.zero(ty)
        if k == llvm.VK_CFP:
            if ty.k == 'double' or ty.k == 'float':
                li = llvm.I()
                return z3.FPVal(llvm.ConstReal(ref, llvm.C.byref(li)), self.fps(ty))
            s = llvm.pstr(ref).split()[-1]
            if s.startswith('0xK'):
                v = int(s[3:], 16)
                sg, ex, ma = v >> 79, (v >> 64) & 0x7fff, v & ((1 << 64) - 1)
                li = llvm.I()
                d = llvm.ConstReal(ref, llvm.C.byref(li))
                return z3.simplify(z3.fpFPToFP(z3.RNE(), z3.FPVal(d, z3.Float64()), self.fps(ty)))
            raise ToolLimit('fp constant ' + s)
        if k in (llvm.VK_CSTRUCT, llvm.VK_CARRAY, llvm.VK_CVECTOR):
            return [self.const_value(llvm.GetOperand(ref, i)) for i in range(llvm.NumOperands(ref))]
        if k in (llvm.VK_CDARRAY, llvm.VK_CDVECTOR):
            return [self.const_value(llvm.ElementAsConstant(ref, i)) for i in range(ty.n)]
        if k == llvm.VK_CEXPR:
            opc = llvm.OPC.get(llvm.ConstOpcode(ref))
            ops = [llvm.GetOperand(ref, i) for i in range(llvm.NumOperands(ref))]
            vs = [self.const_value(o) for o in ops]
            if opc == 'gep':
                return self.gep(vs[0], self.m.type(llvm.GEPSourceType(ref)), vs[1:])
            if opc in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'):
                if opc == 'inttoptr' and not isinstance(vs[0], Ptr):
                    return Ptr(None, vs[0])
                return vs[0]
            if opc in ('sub', 'add', 'and', 'or', 'xor', 'mul'):
                return self.binop(opc, ty.bits, vs[0], vs[1])
            if opc == 'trunc':
                return self.cast('trunc', ty, self.m.type(llvm.TypeOf(ops[0])), vs[0])
            if opc == 'icmp':
                return self.icmp(None, llvm.ICMP[llvm.ICmpPred(ref)], vs[0], vs[1], 64)
        raise ToolLimit('constant %s' % llvm.pstr(ref)[:80])

    def undef(self, ty):
        if ty.k == 'int':
            self.nfresh += 1
            if ty.bits == 1:
                return z3.Bool('undef!%d' % self.nfresh)
            return z3.BitVec('undef!%d' % self.nfresh, ty.bits)
        if ty.k == 'ptr':
            return NULL
        if ty.k == 'struct':
            return [self.undef(e) for e in ty.elems]
        if ty.k in ('array', 'vector'):
            return [self.undef(ty.el) for _ in range(ty.n)]
        if ty.k in ('double', 'float', 'fp80'):
            return z3.FPVal(0.0, self.fps(ty))
        raise ToolLimit('undef ' + repr(ty))

    def zero(self, ty):
        if ty.k == 'int':
            return 0
        if ty.k == 'ptr':
            return NULL
        if ty.k == 'struct':
            return [self.zero(e) for e in ty.elems]
        if ty.k in ('array', 'vector'):
            return [self.zero(ty.el) for _ in range(ty.n)]
        if ty.k in ('double', 'float', 'fp80'):
            return z3.FPVal(0.0, self.fps(ty))
        raise ToolLimit('zero ' + repr(ty))

    # -- memory -----------------------------------------------------------------
    def content(self, st, obj):
        c = st.mem.get(obj)
        if c is None:
            if obj.kind == 'global':
                c = self.global_mem[obj]
                st.mem[obj] = c
                return c
            if obj.kind == 'nest':
                c = Arr(obj.stride, st.owner)
                c.f[(0, obj.stride)] = obj.prov[6] if obj.prov[0] == 'nest' else obj.prov[2]
                st.mem[obj] = c
                return c
            if obj in st.freed:
                raise ToolLimit('use after free of %r' % obj)
            raise ToolLimit('no content for %r' % obj)
        return c

    def wcontent(self, st, obj):
        c = self.content(st, obj)
        if c.owner != st.owner:
            c = c.copy(st.owner)
            st.mem[obj] = c
        return c

    def new_obj(self, st, name, size, kind, default='undef'):
        o = Obj(name, size, kind, default)
        o.ctx = st.ctx
        if isinstance(size, int):
            st.mem[o] = Cells(st.owner)
        else:
            c, d = linear(size)
            g = c
            for t, co in d.values():
                g = gcd(g, co)
            g = g or 1
            if g > 1 << 20:
                g = 1
            st.mem[o] = Arr(g, st.owner)
            o.stride = g
        return o

    def default_cell(self, st, obj, off, n):
        if obj.default == 'zero' or obj.default == 'init':
            return 0
        # deterministic symbol per (object, offset, size)
        nm = '%s#%d[%s:%d]' % (obj.name, obj.id, off, n)
        sort = z3.BitVecSort(8 * n)
        if obj.ctx:
            return z3.Function(nm, *([k.sort() for k in obj.ctx] + [sort]))(*obj.ctx)
        return z3.Const(nm, sort)

    def tobits(self, v, n):
        """value -> int or BV of n bytes"""
        if isinstance(v, Ptr):
            return self.ptrbits(v)
        if isinstance(v, z3.FPRef):
            if v.sort() == z3.FPSort(15, 64):
                raise ToolLimit('fp80 bits')
            return simp(z3.fpToIEEEBV(v))
        if isinstance(v, z3.BoolRef):
            return b2bv(v, 8 * n)
        if isinstance(v, (Poison, list)):
            raise ToolLimit('poison/aggregate in memory: %s' % getattr(v, 'why', ''))
        return v

    def ptrbits(self, p):
        if p.obj is None:
            return p.off
        if p.obj.base is None:
            p.obj.base = z3.BitVec('base!%d' % p.obj.id, 64)
        return simp(p.obj.base + bv(p.off, 64))

    def bounds(self, st, p, n, what, ins):
        o = p.obj
        if o is None:
            if isinstance(p.off, int) and p.off == 0 and not self.quiet:
                pass
            self.obligation(st, 0, 'mem.null', self.where(ins))
            raise Infeasible()
        if o in st.freed:
            self.obligation(st, 0, 'mem.use-after-free', self.where(ins))
            raise Infeasible()
        if o.size is None:
            return
        if isinstance(n, int) and isinstance(p.off, int) and isinstance(o.size, int):
            if p.off + n > o.size or p.off >> 63:
                self.obligation(st, 0, 'mem.bounds', self.where(ins) + ' %s %s+%s size %s' % (what, o, p.off, o.size))
                raise Infeasible()
            return
        if not self.o['memsafe']:
            return
        # 0 <= off, off + n <= size  (sizes and offsets are below 2^62)
        S, F, N = bv(o.size, 64), bv(p.off, 64), bv(n, 64)
        cond = z3.And(z3.ULE(F, S), z3.ULE(N, S - F))
        # divide out a common stride to keep the query linear
        st_ = o.stride
        if st_ and st_ > 1 and isinstance(n, int):
            sp, so = split_off(p.off, st_), split_off(o.size, st_)
            if sp and so and so[1] == 0 and sp[1] + n <= st_:
                cond = z3.ULT(bv(sp[0], 64), bv(so[0], 64))
        key = simp(cond)
        if isinstance(key, int) and key:
            return
        self.obligation(st, key, 'mem.bounds', self.where(ins))

    def where(self, ins):
        if ins is None:
            return ''
        if ins.line is None:
            ins.line = self.m.line(ins)
        return ins.line

    def load(self, st, p, ty, ins=None):
        if isinstance(p, Poison):
            raise ToolLimit('load through poison: ' + p.why)
        if not isinstance(p, Ptr):
            p = self.toptr(st, p)
        n = ty.size
        if ty.k in ('struct', 'array', 'vector'):
            if ty.k == 'struct':
                return [self.load(st, Ptr(p.obj, off_add(p.off, ty.offs[i])), e, ins) for i, e in enumerate(ty.elems)]
            return [self.load(st, Ptr(p.obj, off_add(p.off, i * ty.el.size)), ty.el, ins) for i in range(ty.n)]
        if ty.k == 'int':
            n = (ty.bits + 7) // 8
        elif ty.k == 'fp80':
            n = 16
        self.bounds(st, p, n, 'load', ins)
        v = self.read(st, p.obj, p.off, n, ty.k == 'ptr')
        return self.totype(st, v, ty, p)

    def totype(self, st, v, ty, p=None):
        if isinstance(v, Poison):
            return v
        if ty.k == 'ptr':
            if isinstance(v, Ptr):
                return v
            if isinstance(v, int):
                return Ptr(None, v)
            return self.lazy_ptr(st, v, p)
        if ty.k == 'int':
            if isinstance(v, Ptr):
                if v.obj is None:
                    return v.off if isinstance(v.off, int) else v.off
                if ty.bits == 64:
                    return v
                v = self.ptrbits(v)
            if isinstance(v, z3.FPRef):
                v = self.tobits(v, 8)
            if ty.bits == 1:
                if isinstance(v, int):
                    return v & 1
                if isinstance(v, z3.BoolRef):
                    return v
                return self.trunc1(v)
            if isinstance(v, z3.BoolRef):
                v = b2bv(v, ty.bits)
            if isinstance(v, int):
                return v & ((1 << ty.bits) - 1)
            if v.size() > ty.bits:
                v = simp(z3.Extract(ty.bits - 1, 0, v))
            return v
        if ty.k in ('double', 'float', 'fp80'):
            if isinstance(v, z3.FPRef):
                return v
            if ty.k == 'fp80':
                raise ToolLimit('fp80 from bits')
            return simp(z3.fpBVToFP(bv(v, 64 if ty.k == 'double' else 32), self.fps(ty)))
        raise ToolLimit('load type %r' % ty)

    def trunc1(self, v):
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            a, b = v.arg(1), v.arg(2)
            if z3.is_bv_value(a) and z3.is_bv_value(b):
                x, y = a.as_long() & 1, b.as_long() & 1
                if x == 1 and y == 0:
                    return v.arg(0)
                if x == 0 and y == 1:
                    return simp(z3.Not(v.arg(0)))
        return simp(z3.Extract(0, 0, v) == 1)

    def lazy_ptr(self, st, v, p):
        """a symbolic 64-bit value used as pointer: lazily create a distinct object"""
        if z3.is_bv_value(v):
            return Ptr(None, v.as_long())
        key = ('lp', v.get_id())
        if key in self.lazyfuncs:
            o = self.lazyfuncs[key][0]
        else:
            if not self.o['ptrlazy']:
                raise ToolLimit('symbolic pointer %s' % v)
            o = Obj('*(%s)' % str(v)[:60], None, 'sym', 'lazy')
            o.ctx = st.ctx
            self.lazyfuncs[key] = (o, v)
            self.notes.add('lazily created unaliased object for unknown pointer')
        if o not in st.mem:
            st.mem[o] = Cells(st.owner)
        return Ptr(o, 0)

    def read(self, st, obj, off, n, wantptr=False):
        if obj.kind == 'func':
            raise ToolLimit('read of function')
        c = self.content(st, obj)
        if isinstance(c, Cells):
            if obj.nested is not None:
                h = obj.nested(self, st, obj, off, n)
                if h is not None:
                    return h
            if isinstance(off, int):
                return self.read_cells(st, obj, c, off, n)
            return self.read_sym(st, obj, c, off, n)
        return self.read_arr(st, obj, c, off, n)

    def read_cells(self, st, obj, c, off, n):
        e = c.c.get(off)
        if e is not None and e[0] == n:
            return e[1]
        # overlapping?
        ov = False
        if e is not None:
            ov = True
        else:
            for o in range(off - c.maxn + 1, off + n):
                x = c.c.get(o)
                if x is not None and o + x[0] > off:
                    ov = True
                    break
        if not ov:
            if n > 16 and n % 8 == 0:
                parts = [self.read_cells(st, obj, c, off + i, 8) for i in range(0, n, 8)]
                return self.concat(parts, [8] * (n // 8))
            v = self.default_cell(st, obj, off, n)
            if obj.kind == 'global' and c.owner == -1:
                c.c[off] = (n, v)
            else:
                c = self.wcontent(st, obj)
                c.c[off] = (n, v)
            c.maxn = max(c.maxn, n)
            return v
        # assemble
        parts, sizes = [], []
        i = off
        while i < off + n:
            found = None
            for o in range(i, i - c.maxn, -1):
                x = c.c.get(o)
                if x is not None and o + x[0] > i:
                    found = (o, x)
                    break
            if found is None:
                # gap up to next cell
                j = i + 1
                while j < off + n and j not in c.c:
                    j += 1
                g = j - i
                while g & (g - 1):
                    g &= g - 1
                g = min(g, 8)
                parts.append(self.read_cells(st, obj, c, i, g))
                c = self.content(st, obj)
                sizes.append(g)
                i += g
            else:
                o, (m, v) = found
                lo = i - o
                hi = min(m, off + n - o)
                w = hi - lo
                if lo == 0 and hi == m:
                    if isinstance(v, Ptr) and m == n:
                        return v
                    parts.append(self.tobits(v, m))
                else:
                    parts.append(self.extract(self.tobits(v, m), lo, w, m))
                sizes.append(w)
                i += w
        return self.concat(parts, sizes)

    def extract(self, v, lo, w, m):
        if isinstance(v, int):
            return (v >> (8 * lo)) & ((1 << (8 * w)) - 1)
        return simp(z3.Extract(8 * (lo + w) - 1, 8 * lo, v))

    def concat(self, parts, sizes):
        if len(parts) == 1:
            return parts[0]
        if all(isinstance(x, int) for x in parts):
            r, s = 0, 0
            for x, n in zip(parts, sizes):
                r |= x << s
                s += 8 * n
            return r
        return simp(z3.Concat([bv(x, 8 * n) for x, n in reversed(list(zip(parts, sizes)))]))

    def cand_offsets(self, st, obj, off, n):
        if not isinstance(obj.size, int):
            raise ToolLimit('symbolic offset into %r' % obj)
        c0, d = linear(off)
        g = 0
        for t, co in d.values():
            g = gcd(g, abs(sgn(co)))
        g = gcd(g, 1 << 63) if g & (g - 1) else g
        g = g & -g if g else 1
        # odd factors also usable when no wrap: use full gcd
        gg = 0
        for t, co in d.values():
            gg = gcd(gg, abs(sgn(co)))
        g = gg or 1
        r = sgn(c0) % g
        cs = list(range(r, obj.size - n + 1, g))
        return cs

    def read_sym(self, st, obj, c, off, n):
        cs = self.cand_offsets(st, obj, off, n)
        if len(cs) > 2100:
            raise ToolLimit('symbolic offset: %d candidates in %r' % (len(cs), obj))
        vals = []
        for o in cs:
            v = self.read_cells(st, obj, self.content(st, obj), o, n)
            vals.append(v)
        if any(isinstance(v, Ptr) and v.obj is not None for v in vals):
            for o in cs:
                cnd = simp(off == o)
                if isinstance(cnd, int):
                    if cnd:
                        return vals[cs.index(o)]
                    continue
                if len(cs) > 1:
                    raise ForkOn(cnd)
        # constant tables: monotone ite chain
        r = bv(self.tobits(vals[-1], n), 8 * n)
        for o, v in reversed(list(zip(cs[:-1], vals[:-1]))):
            r = z3.If(off == o, bv(self.tobits(v, n), 8 * n), r)
        return r

    def arr_default(self, st, obj, off, n, stride):
        if obj.default == 'zero':
            return z3.K(BV64, z3.BitVecVal(0, 8 * n))
        nm = '%s#%d{%d:%d}' % (obj.name, obj.id, off, n)
        so = z3.ArraySort(BV64, z3.BitVecSort(8 * n))
        if obj.ctx:
            return z3.Function(nm, *([k.sort() for k in obj.ctx] + [so]))(*obj.ctx)
        return z3.Const(nm, so)

    def read_arr(self, st, obj, c, off, n):
        S = c.stride
        sp = split_off(off, S)
        if sp is None:
            raise ToolLimit('offset %s not a multiple of stride %d in %r' % (off, S, obj))
        idx, r = sp
        if obj.nested is not None:
            h = obj.nested(self, st, obj, idx, r, n)
            if h is not None:
                return h
        return self.read_fields(st, obj, c, idx, r, n)

    def read_fields(self, st, obj, c, idx, r, n):
        S = c.stride
        if r + n > S:
            # crosses elements
            parts, sizes = [], []
            i = 0
            while i < n:
                w = min(S - r, n - i)
                parts.append(self.read_fields(st, obj, self.content(st, obj), idx, r, w))
                sizes.append(w)
                i += w
                r = 0
                idx = off_add(idx, 1)
            return self.concat(parts, sizes)
        f = c.f.get((r, n))
        if f is not None:
            v = simp(z3.Select(f, bv(idx, 64)))
            if obj.lims and obj.kind != 'nest' and (r, n) in obj.lims and obj.lims[(r, n)][0].eq(f):
                st.pc.append(z3.ULT(v, obj.lims[(r, n)][1]))
            return v
        over = [(a, m) for (a, m) in c.f if a < r + n and r < a + m]
        if not over:
            c = self.wcontent(st, obj)
            f = c.f[(r, n)] = self.arr_default(st, obj, r, n, S)
            return simp(z3.Select(f, bv(idx, 64)))
        over.sort()
        a, m = over[0]
        if len(over) == 1 and a <= r and a + m >= r + n:
            v = self.extract(simp(z3.Select(c.f[(a, m)], bv(idx, 64))), r - a, n, m)
            if obj.kind == 'nest' and obj.lims and (r, n) in obj.lims and is_sym(v):
                st.pc.append(z3.ULT(v, obj.lims[(r, n)]))
            return v
        # piecewise
        parts, sizes = [], []
        i = r
        while i < r + n:
            cov = [(a, m) for (a, m) in over if a <= i < a + m]
            if cov:
                a, m = cov[0]
                w = min(a + m, r + n) - i
            else:
                nxt = [a for (a, m) in over if a > i]
                w = (min(nxt) if nxt else r + n) - i
            parts.append(self.read_fields(st, obj, self.content(st, obj), idx, i, w))
            sizes.append(w)
            i += w
        return self.concat(parts, sizes)

    def store(self, st, p, v, ty, ins=None):
        if isinstance(p, Poison):
            raise ToolLimit('store through poison: ' + p.why)
        if not isinstance(p, Ptr):
            p = self.toptr(st, p)
        if ty.k in ('struct', 'array', 'vector'):
            if ty.k == 'struct':
                for i, e in enumerate(ty.elems):
                    self.store(st, Ptr(p.obj, off_add(p.off, ty.offs[i])), v[i], e, ins)
            else:
                for i in range(ty.n):
                    self.store(st, Ptr(p.obj, off_add(p.off, i * ty.el.size)), v[i], ty.el, ins)
            return
        n = ty.size
        if ty.k == 'int':
            n = (ty.bits + 7) // 8
            if ty.bits == 1:
                v = b2bv(v, 8) if isinstance(v, z3.BoolRef) else v
        elif ty.k == 'fp80':
            n = 16
        self.bounds(st, p, n, 'store', ins)
        if p.obj.ro and not self.quiet:
            raise ToolLimit('write to constant %r' % p.obj)
        self.write(st, p.obj, p.off, n, v)

    def write(self, st, obj, off, n, v):
        c = self.wcontent(st, obj)
        if isinstance(c, Cells):
            if isinstance(off, int):
                self.write_cells(st, obj, c, off, n, v)
            else:
                cs = self.cand_offsets(st, obj, off, n)
                if len(cs) > 600:
                    raise ToolLimit('symbolic store: %d candidates in %r' % (len(cs), obj))
                if isinstance(v, Ptr) and v.obj is not None:
                    if len(cs) == 1:
                        return self.write_cells(st, obj, c, cs[0], n, v)
                    for o in cs:
                        cnd = simp(off == o)
                        if isinstance(cnd, int):
                            if cnd:
                                return self.write_cells(st, obj, c, o, n, v)
                            continue
                        raise ForkOn(cnd)
                vb = bv(self.tobits(v, n), 8 * n)
                for o in cs:
                    old = self.read_cells(st, obj, self.wcontent(st, obj), o, n)
                    nv = simp(z3.If(off == o, vb, bv(self.tobits(old, n), 8 * n)))
                    self.write_cells(st, obj, self.wcontent(st, obj), o, n, nv)
            return
        if obj.nested is not None or obj.kind == 'nest':
            raise ToolLimit('store into structured input %r' % obj)
        sp = split_off(off, c.stride)
        if sp is None:
            raise ToolLimit('store offset %s vs stride %d in %r' % (off, c.stride, obj))
        self.write_fields(st, obj, c, sp[0], sp[1], n, v)

    def write_cells(self, st, obj, c, off, n, v):
        if isinstance(v, Ptr) and v.obj is None and isinstance(v.off, int) and n < 8:
            v = v.off
        # split overlapping neighbours
        lo = off - c.maxn + 1
        for o in range(lo, off + n):
            x = c.c.get(o)
            if x is None or o + x[0] <= off:
                continue
            if o == off and x[0] == n:
                continue
            m, old = x
            if o >= off and o + m <= off + n:
                del c.c[o]
                continue
            del c.c[o]
            if isinstance(old, Ptr) and old.obj is not None:
                old = self.ptrbits(old)
            old = self.tobits(old, m) if not isinstance(old, Poison) else old
            if isinstance(old, Poison):
                continue
            if o < off:
                c.c[o] = (off - o, self.extract(old, 0, off - o, m))
            if o + m > off + n:
                lo2 = off + n - o
                c.c[off + n] = (m - lo2, self.extract(old, lo2, m - lo2, m))
        c.c[off] = (n, v)
        if n > c.maxn:
            c.maxn = n

    def write_fields(self, st, obj, c, idx, r, n, v):
        S = c.stride
        if isinstance(v, Poison):
            v = z3.FreshConst(z3.BitVecSort(8 * n), 'undef')      # an arbitrary value
        if isinstance(v, Ptr):
            v = v.off if v.obj is None else v
            if isinstance(v, Ptr):
                raise ToolLimit('pointer stored at symbolic index of %r' % obj)
        v = self.tobits(v, n)
        if r + n > S:
            i = 0
            while i < n:
                w = min(S - r, n - i)
                self.write_fields(st, obj, c, idx, r, w, self.extract(v, i, w, n))
                i += w
                r = 0
                idx = off_add(idx, 1)
            return
        f = c.f.get((r, n))
        if f is not None:
            c.f[(r, n)] = z3.Store(f, bv(idx, 64), bv(v, 8 * n))
            return
        over = [(a, m) for (a, m) in c.f if a < r + n and r < a + m]
        if not over:
            f = self.arr_default(st, obj, r, n, S)
            c.f[(r, n)] = z3.Store(f, bv(idx, 64), bv(v, 8 * n))
            return
        for (a, m) in over:
            f = c.f[(a, m)]
            old = z3.Select(f, bv(idx, 64))
            lo, hi = max(a, r), min(a + m, r + n)
            parts, sizes = [], []
            if lo > a:
                parts.append(self.extract(old, 0, lo - a, m))
                sizes.append(lo - a)
            parts.append(self.extract(v, lo - r, hi - lo, n))
            sizes.append(hi - lo)
            if hi < a + m:
                parts.append(self.extract(old, hi - a, a + m - hi, m))
                sizes.append(a + m - hi)
            c.f[(a, m)] = z3.Store(f, bv(idx, 64), bv(self.concat(parts, sizes), 8 * m))
        # uncovered pieces
        i = r
        while i < r + n:
            cov = [(a, m) for (a, m) in over if a <= i < a + m]
            if cov:
                i = cov[0][0] + cov[0][1]
                continue
            nxt = [a for (a, m) in over if a > i]
            w = (min(nxt) if nxt else r + n) - i
            w = min(w, r + n - i)
            self.write_fields(st, obj, c, idx, i, w, self.extract(v, i - r, w, n))
            i += w

    def toptr(self, st, v):
        if isinstance(v, Ptr):
            return v
        if isinstance(v, int):
            return Ptr(None, v)
        return self.lazy_ptr(st, v, None)

    # -- block copies -------------------------------------------------------------
    def memcpy(self, st, d, s, n, ins=None):
        if isinstance(n, int):
            if n == 0:
                return
            self.bounds(st, s, n, 'memcpy src', ins)
            self.bounds(st, d, n, 'memcpy dst', ins)
            self.copy_bytes(st, d, s, n)
            return
        n = simp(n)
        if isinstance(n, int):
            return self.memcpy(st, d, s, n, ins)
        # symbolic length
        if (d.obj is None or s.obj is None):
            z = simp(n == 0)
            if isinstance(z, z3.ExprRef):
                raise ForkOn(z)
        self.bounds_n(st, s, n, ins)
        self.bounds_n(st, d, n, ins)
        cs, cd = self.content(st, s.obj), self.content(st, d.obj)
        if isinstance(cs, Arr) and isinstance(cd, Arr):
            if cs.stride != cd.stride and not cd.f:
                cd = self.wcontent(st, d.obj)
                cd.stride = cs.stride
                d.obj.stride = cs.stride
            if cs.stride == cd.stride:
                return self.copy_arr(st, d, s, n)
        # small upper bound on n: split on its value
        ub = self.upper_bound(st, n, 64)
        if ub is not None:
            raise ForkOn(simp(n == ub))
        raise ToolLimit('memcpy of symbolic length %s (%r <- %r)' % (str(n)[:80], d.obj, s.obj))

    def bounds_n(self, st, p, n, ins):
        self.bounds(st, p, n, 'mem', ins)

    def upper_bound(self, st, n, lim):
        if self.feasible(st, z3.UGT(n, lim)):
            return None
        for v in range(lim, -1, -1):
            if self.feasible(st, n == v):
                return v
        return None

    def copy_arr(self, st, d, s, n):
        cs = self.content(st, s.obj)
        cd = self.wcontent(st, d.obj)
        S = cs.stride
        a, b, l = split_off(d.off, S), split_off(s.off, S), split_off(n, S)
        if not (a and b and l) or a[1] or b[1] or l[1]:
            raise ToolLimit('misaligned array copy')
        a, b, l = bv(a[0], 64), bv(b[0], 64), bv(l[0], 64)
        keys = set(cs.f) | set(cd.f)
        for k in sorted(keys):
            fs = cs.f.get(k)
            if fs is None:
                if any(x < k[0] + k[1] and k[0] < x + m for (x, m) in cs.f):
                    raise ToolLimit('array copy: field mismatch')
                cw = self.wcontent(st, s.obj)
                fs = cw.f[k] = self.arr_default(st, s.obj, k[0], k[1], S)
                cd = self.wcontent(st, d.obj)
            fd = cd.f.get(k)
            if fd is None:
                if any(x < k[0] + k[1] and k[0] < x + m for (x, m) in cd.f if (x, m) != k):
                    raise ToolLimit('array copy: field mismatch')
                fd = self.arr_default(st, d.obj, k[0], k[1], S)
            i = z3.BitVec('cp!i', 64)
            if z3.is_bv_value(a) and z3.is_bv_value(b) and a.as_long() == 0 and b.as_long() == 0 and d.obj.kind == 'heap' and d.obj not in st.ghost.get('written', ()):
                # whole-prefix copy into a fresh buffer
                cd.f[k] = z3.Lambda([i], z3.If(z3.ULT(i, l), z3.Select(fs, i), z3.Select(fd, i)))
            else:
                cd.f[k] = z3.Lambda([i], z3.If(z3.ULT(i - a, l), z3.Select(fs, i - a + b), z3.Select(fd, i)))

    def copy_bytes(self, st, d, s, n):
        """concrete n"""
        cs = self.content(st, s.obj)
        cd = self.content(st, d.obj)
        if isinstance(cs, Cells) and isinstance(s.off, int):
            # gather pieces
            pieces = []
            i = s.off
            end = s.off + n
            while i < end:
                x = cs.c.get(i)
                if x is not None and i + x[0] <= end:
                    pieces.append((i - s.off, x[0], x[1]))
                    i += x[0]
                    continue
                # find extent w
                found = False
                for o in range(i, i - cs.maxn, -1):
                    y = cs.c.get(o)
                    if y is not None and o + y[0] > i:
                        w = min(o + y[0], end) - i
                        pieces.append((i - s.off, w, self.read_cells(st, s.obj, cs, i, w)))
                        cs = self.content(st, s.obj)
                        i += w
                        found = True
                        break
                if found:
                    continue
                j = i + 1
                while j < end and j not in cs.c:
                    j += 1
                w = j - i
                if s.obj.default == 'undef' and s.obj.kind in ('stack', 'heap') and not s.obj.ctx and w > 8:
                    # copying padding / undefined bytes: keep undefined in destination too
                    pass
                while w & (w - 1):
                    w &= w - 1
                w = min(w, 8)
                al = i & -i if i else 8
                w = min(w, al)
                pieces.append((i - s.off, w, self.read_cells(st, s.obj, cs, i, w)))
                cs = self.content(st, s.obj)
                i += w
            for o, w, v in pieces:
                self.write(st, d.obj, off_add(d.off, o), w, v)
            return
        # source is array / symbolic offset
        if isinstance(cs, Arr):
            sp = split_off(s.off, cs.stride)
            if sp is None:
                raise ToolLimit('memcpy src offset')
            if cs.stride == 1 or s.obj.nested is not None or True:
                # follow existing field boundaries when present
                i = 0
                idx, r = sp
                S = cs.stride
                while i < n:
                    rem = n - i
                    cs = self.content(st, s.obj)
                    f = [m for (a, m) in cs.f if a == r and m <= rem]
                    if S == 1:
                        w = 1
                    elif f:
                        w = max(f)
                    else:
                        nxt = [a for (a, m) in cs.f if a > r] + [S]
                        w = min(rem, min(nxt) - r)
                        if w > 8 and s.obj.nested is not None:
                            w = 8
                    v = self.read_arr(st, s.obj, cs, off_add(off_scale(idx, S), r), w)
                    self.write(st, d.obj, off_add(d.off, i), w, v)
                    i += w
                    r += w
                    if r >= S:
                        r -= S
                        idx = off_add(idx, 1)
            return
        # symbolic offset in small cells object
        al = 8 if n % 8 == 0 else (4 if n % 4 == 0 else 1)
        for i in range(0, n, al):
            v = self.read(st, s.obj, off_add(s.off, i), al)
            self.write(st, d.obj, off_add(d.off, i), al, v)

    def memset(self, st, d, val, n, ins=None):
        n = simp(n)
        if isinstance(n, int):
            if n == 0:
                return
            self.bounds(st, d, n, 'memset', ins)
            if isinstance(val, int):
                i = 0
                c = self.content(st, d.obj)
                base = d.off if isinstance(d.off, int) else 0
                while i < n:
                    w = 8
                    if isinstance(c, Arr) and c.stride == 1:
                        w = 1
                    while i + w > n or ((base + i) % w):
                        w //= 2
                    v = 0
                    for _ in range(w):
                        v = (v << 8) | (val & 255)
                    self.write(st, d.obj, off_add(d.off, i), w, v)
                    i += w
            else:
                for i in range(n):
                    self.write(st, d.obj, off_add(d.off, i), 1, val)
            return
        if d.obj is None:
            raise ForkOn(simp(n == 0))
        self.bounds(st, d, n, 'memset', ins)
        c = self.wcontent(st, d.obj)
        if isinstance(c, Arr) and isinstance(val, int):
            sp, l = split_off(d.off, c.stride), split_off(n, c.stride)
            if sp and l and not sp[1] and not l[1]:
                a, l = bv(sp[0], 64), bv(l[0], 64)
                if not c.f and val == 0 and d.obj.default == 'undef' and simp(a == 0) == 1:
                    d.obj.default = 'zero'
                    return
                if not c.f:
                    self.read_fields(st, d.obj, c, 0, 0, c.stride if c.stride <= 32 else 8)
                    c = self.wcontent(st, d.obj)
                i = z3.BitVec('cp!i', 64)
                for k in list(c.f):
                    v = 0
                    for _ in range(k[1]):
                        v = (v << 8) | (val & 255)
                    c.f[k] = z3.Lambda([i], z3.If(z3.ULT(i - a, l), z3.BitVecVal(v, 8 * k[1]), z3.Select(c.f[k], i)))
                return
        ub = self.upper_bound(st, n, 64)
        if ub is not None:
            raise ForkOn(simp(n == ub))
        raise ToolLimit('memset of symbolic length')

    # -- scalar operations -----------------------------------------------------------
    def binop(self, op, w, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise ToolLimit('arithmetic on poison')
        if isinstance(a, list):
            return [self.binop(op, w, x, y) for x, y in zip(a, b)]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                return off_sub(a.off, b.off)
            if op == 'add' and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return Ptr(a.obj, off_add(a.off, b))
            if op == 'add' and isinstance(b, Ptr) and not isinstance(a, Ptr):
                return Ptr(b.obj, off_add(b.off, a))
            if op == 'sub' and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return Ptr(a.obj, off_sub(a.off, b))
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                pass
            if isinstance(a, Ptr):
                a = self.ptrbits(a)
            if isinstance(b, Ptr):
                b = self.ptrbits(b)
        if w == 1:
            return self.binop1(op, a, b)
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (sgn(a, w) >> min(b, w - 1)) & m
            if b == 0:
                raise ToolLimit('division by zero (constant)')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            sa, sb = sgn(a, w), sgn(b, w)
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            if op == 'sdiv':
                return q & m
            if op == 'srem':
                return (sa - q * sb) & m
            raise ToolLimit('binop ' + op)
        if isinstance(b, int):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if b == 0 and op in ('and', 'mul'):
                return 0
            if b == m and op == 'and':
                return a
            if b == 1 and op in ('mul', 'udiv', 'sdiv'):
                return a
        if isinstance(a, int):
            if a == 0 and op in ('add', 'or', 'xor'):
                return b
            if a == 0 and op in ('and', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'urem'):
                return 0
        if isinstance(a, z3.BoolRef):
            a = b2bv(a, w)
        if isinstance(b, z3.BoolRef):
            b = b2bv(b, w)
        if w == 64 and op in ('add', 'sub'):
            return lin_expr(_addl(a, b, 1 if op == 'add' else -1))
        if w == 64 and isinstance(b, int):
            if op == 'mul':
                return off_scale(a, b)
            if op == 'shl' and b < 64:
                return off_scale(a, 1 << b)
            if op in ('sdiv', 'udiv', 'ashr', 'lshr'):
                dv = b if op in ('sdiv', 'udiv') else 1 << b
                sp = split_off(a, dv)
                if sp is not None and sp[1] == 0 and linear(a)[1] and self.lengthlike(a):
                    return sp[0]
        A, B = bv(a, w), bv(b, w)
        if op == 'add':
            return A + B
        if op == 'sub':
            return A - B
        if op == 'mul':
            return A * B
        if op == 'and':
            if isinstance(b, int) and b == 1 and w > 1 and False:
                pass
            return simp(A & B)
        if op == 'or':
            return simp(A | B)
        if op == 'xor':
            return simp(A ^ B)
        if op == 'shl':
            return simp(A << B) if isinstance(b, int) else A << B
        if op == 'lshr':
            return simp(z3.LShR(A, B)) if isinstance(b, int) else z3.LShR(A, B)
        if op == 'ashr':
            return simp(A >> B) if isinstance(b, int) else A >> B
        if op == 'udiv':
            return z3.UDiv(A, B)
        if op == 'urem':
            return z3.URem(A, B)
        if op == 'sdiv':
            return A / B
        if op == 'srem':
            return z3.SRem(A, B)
        raise ToolLimit('binop ' + op)

    def lengthlike(self, e):
        """every term is an object length / loop counter (bounded below 2^56 by assumption)"""
        for t, co in linear(e)[1].values():
            if t.get_id() not in self.unbounded_ids:
                return False
        return True

    @property
    def unbounded_ids(self):
        return self._ub

    _ub = set()
    _ubkeep = []

    def mark_len(self, t):
        Engine._ub.add(t.get_id())
        Engine._ubkeep.append(t)

    def binop1(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return self.binop(op, 2, a, b) & 1 if op in ('and', 'or', 'xor') else (a ^ b if op in ('add', 'sub') else a & b)
        if op == 'and' or op == 'mul':
            if isinstance(a, int):
                return b if a else 0
            if isinstance(b, int):
                return a if b else 0
            return z3.And(a, b)
        if op == 'or':
            if isinstance(a, int):
                return 1 if a else b
            if isinstance(b, int):
                return 1 if b else a
            return z3.Or(a, b)
        if op in ('xor', 'add', 'sub'):
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                return z3.Not(a) if b else a
            return z3.Xor(a, b)
        raise ToolLimit('i1 ' + op)

    def icmp(self, st, pred, a, b, w):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise ToolLimit('compare with poison')
        if isinstance(a, list):
            return [self.icmp(st, pred, x, y, w) for x, y in zip(a, b)]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr):
                a = Ptr(None, a)
            if not isinstance(b, Ptr):
                b = Ptr(None, b)
            if a.obj is b.obj:
                return self.icmp_off(pred, a.off, b.off)
            if pred in ('eq', 'ne'):
                na = a.obj is None and isinstance(a.off, int)
                nb = b.obj is None and isinstance(b.off, int)
                if (na or a.obj is not None) and (nb or b.obj is not None):
                    # lazily created objects may be null only if harness says so: treated as non-null distinct
                    return 0 if pred == 'eq' else 1
            a, b = self.ptrbits(a), self.ptrbits(b)
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = sgn(a, w), sgn(b, w)
            return int({'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b,
                        'sgt': sa > sb, 'sge': sa >= sb, 'slt': sa < sb, 'sle': sa <= sb}[pred])
        if w == 1:
            a, b = asbool(a), asbool(b)
            r = {'eq': a == b, 'ne': z3.Xor(a, b)}.get(pred)
            if r is None:
                A, B = b2bv(a, 1), b2bv(b, 1)
                return self.icmp(st, pred, A, B, 2)
            return simp(r)
        if isinstance(a, z3.BoolRef):
            a = b2bv(a, w)
        if isinstance(b, z3.BoolRef):
            b = b2bv(b, w)
        if w == 64 and pred in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge') and is_sym(a) | is_sym(b):
            if (isinstance(a, int) or self.lengthlike(a)) and (isinstance(b, int) or self.lengthlike(b)):
                return self.icmp_off(pred, a, b)
        A, B = bv(a, w), bv(b, w)
        r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B),
             'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B), 'sgt': lambda: A > B, 'sge': lambda: A >= B,
             'slt': lambda: A < B, 'sle': lambda: A <= B}[pred]()
        return simp(r)

    def icmp_off(self, pred, a, b):
        """comparison of offsets / lengths: common factors are divided out (all values < 2^62)"""
        if isinstance(a, int) and isinstance(b, int):
            return self.icmp(None, pred, a, b, 64)
        la, lb = linear(a), linear(b)
        g = 0
        for c in [sgn(la[0]), sgn(lb[0])] + [sgn(x[1]) for x in la[1].values()] + [sgn(x[1]) for x in lb[1].values()]:
            g = gcd(g, abs(c))
        if g > 1 and self.lengthlike(a) and self.lengthlike(b):
            def dv(l):
                return lin_expr(((sgn(l[0]) // g) & M64, {k: (t, (sgn(c) // g) & M64) for k, (t, c) in l[1].items()}))
            a, b = dv(la), dv(lb)
        if isinstance(a, int) and isinstance(b, int):
            return self.icmp(None, pred, a, b, 64)
        A, B = bv(a, 64), bv(b, 64)
        r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B),
             'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B), 'sgt': lambda: A > B, 'sge': lambda: A >= B,
             'slt': lambda: A < B, 'sle': lambda: A <= B}[pred]()
        return simp(r)

    def cast(self, op, ty, fty, v):
        if isinstance(v, Poison):
            return v
        if isinstance(v, list):
            return [self.cast(op, ty.el, fty.el, x) for x in v]
        if op == 'zext':
            if isinstance(v, int):
                return v
            if fty.bits == 1:
                return b2bv(v, ty.bits)
            return z3.ZeroExt(ty.bits - fty.bits, v)
        if op == 'sext':
            if isinstance(v, int):
                return sgn(v, fty.bits) & ((1 << ty.bits) - 1)
            if fty.bits == 1:
                return z3.If(v, z3.BitVecVal(-1, ty.bits), z3.BitVecVal(0, ty.bits))
            return z3.SignExt(ty.bits - fty.bits, v)
        if op == 'trunc':
            if isinstance(v, Ptr):
                v = self.ptrbits(v)
            if isinstance(v, int):
                return v & ((1 << ty.bits) - 1)
            if ty.bits == 1:
                return self.trunc1(v)
            if v.decl().kind() == z3.Z3_OP_ZERO_EXT and v.arg(0).size() == ty.bits:
                return v.arg(0)
            return simp(z3.Extract(ty.bits - 1, 0, v))
        if op == 'ptrtoint':
            if isinstance(v, Ptr):
                if v.obj is None:
                    return v.off
                if ty.bits != 64:
                    return self.cast('trunc', ty, fty, self.ptrbits(v))
                return v
            return v
        if op == 'inttoptr':
            if isinstance(v, Ptr):
                return v
            return Ptr(None, v)
        if op == 'bitcast':
            if fty.k == 'int' and ty.k in ('double', 'float'):
                return simp(z3.fpBVToFP(bv(v, fty.bits), self.fps(ty)))
            if fty.k in ('double', 'float') and ty.k == 'int':
                return simp(z3.fpToIEEEBV(v))
            return v
        if op in ('uitofp', 'sitofp'):
            x = bv(v, fty.bits) if fty.bits > 1 else z3.BitVecVal(v, 1) if isinstance(v, int) else b2bv(v, 1)
            if op == 'uitofp':
                return simp(z3.fpToFPUnsigned(z3.RNE(), x, self.fps(ty)))
            return simp(z3.fpToFP(z3.RNE(), x, self.fps(ty)))
        if op == 'fptoui':
            return simp(z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(ty.bits)))
        if op == 'fptosi':
            return simp(z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(ty.bits)))
        if op in ('fpext', 'fptrunc'):
            return simp(z3.fpFPToFP(z3.RNE(), v, self.fps(ty)))
        return v

    def gep(self, p, ty, idx):
        if isinstance(p, Poison):
            raise ToolLimit('gep on poison: ' + p.why)
        if isinstance(p, list):
            raise ToolLimit('vector gep')
        if not isinstance(p, Ptr):
            p = Ptr(None, p)
        off = p.off
        first = True
        for i in idx:
            if isinstance(i, Ptr):
                i = self.ptrbits(i)
            if first:
                off = self.addidx(off, i, ty.size)
                first = False
            elif ty.k == 'struct':
                off = off_add(off, ty.offs[i])
                ty = ty.elems[i]
            elif ty.k in ('array', 'vector'):
                off = self.addidx(off, i, ty.el.size)
                ty = ty.el
            else:
                raise ToolLimit('gep into %r' % ty)
        return Ptr(p.obj, off)

    def addidx(self, off, i, size):
        if isinstance(i, int):
            return off_add(off, i * size)
        if i.size() < 64:
            i = z3.SignExt(64 - i.size(), i)
        return off_add(off, off_scale(i, size))

    # -- execution ----------------------------------------------------------------------
    def val(self, env, op):
        if type(op) is llvm.Loc:
            v = env[op.id]
            return v
        return self.const(op)

    def call_function(self, st, f, args, ins=None, depth=0):
        """-> list of ('ret', st, val) | ('throw', st, Exc)"""
        if depth > 150:
            raise ToolLimit('call depth')
        self.m.load_func(f)
        d = self.demangle(f.name)
        self.funcs_seen[d] = self.funcs_seen.get(d, 0) + 1
        env = {}
        for p, a in zip(f.params, args):
            env[p] = a
        env['$al'] = []
        env['$fn'] = f
        self.curfn.append(f)
        try:
            outs = self.run_blocks([(st, env, f.entry, None)], f, None, None, depth)
        finally:
            self.curfn.pop()
        res = []
        for o in outs:
            res.append(o)
        if self.o['merge'] and len(res) > 1:
            res = self.join_rets(res, f) if self.o['join'] else self.merge_rets(res, st)
        return res

    def join_rets(self, outs, f):
        blk = FakeBlock(f.rty)
        rets = [[o[1], {0: o[2]} if o[2] is not None else {}, blk, None, False] for o in outs if o[0] == 'ret']
        rest = [o for o in outs if o[0] != 'ret']
        if len(rets) > 1:
            rets = self.join(rets, blk)
        return [('ret', r[0], r[1].get(0)) for r in rets] + rest

    def merge_rets(self, outs, st0):
        rets = [o for o in outs if o[0] == 'ret']
        if len(rets) < 2:
            return outs
        rest = [o for o in outs if o[0] != 'ret']
        groups = []
        for o in rets:
            placed = False
            for g in groups:
                if self.mergeable(g[0], o):
                    g.append(o)
                    placed = True
                    break
            if not placed:
                groups.append([o])
        res = []
        for g in groups:
            if len(g) == 1:
                res.append(g[0])
                continue
            # common pc prefix
            base = g[0][1].pc
            n = min(len(x[1].pc) for x in g)
            i = 0
            while i < n and all(x[1].pc[i] is base[i] for x in g):
                i += 1
            conds = [z3.And(x[1].pc[i:]) if len(x[1].pc) > i else TRUE for x in g]
            s = g[0][1]
            v = g[-1][2]
            v0 = g[0][2]
            if v is not None and not isinstance(v, Ptr):
                w = None
                acc = g[-1][2]
                for c, x in reversed(list(zip(conds[:-1], g[:-1]))):
                    acc = self.ite(c, x[2], acc)
                v = acc
            s.pc = base[:i]
            d = simp(z3.Or(conds))
            if not (isinstance(d, int) and d):
                s.pc.append(d)
            res.append(('ret', s, v))
        return res + rest

    def ite(self, c, a, b):
        if isinstance(a, int) and isinstance(b, int):
            if a == b:
                return a
            w = self._retw or 64
            if w == 1:
                return c if a else z3.Not(c)
            return z3.If(c, z3.BitVecVal(a, w), z3.BitVecVal(b, w))
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            return simp(z3.If(c, asbool(a), asbool(b)))
        if isinstance(a, int):
            a = z3.BitVecVal(a, b.size())
        if isinstance(b, int):
            b = z3.BitVecVal(b, a.size())
        if a.eq(b):
            return a
        return z3.If(c, a, b)

    _retw = None

    def mergeable(self, a, b):
        s, t = a[1], b[1]
        va, vb = a[2], b[2]
        if isinstance(va, Ptr) or isinstance(vb, Ptr):
            if not (isinstance(va, Ptr) and isinstance(vb, Ptr) and va.obj is vb.obj and self.same(va.off, vb.off)):
                return False
        elif isinstance(va, (list, Poison)) or isinstance(vb, (list, Poison)):
            return False
        elif isinstance(va, z3.FPRef):
            return False
        if (va is None) != (vb is None):
            return False
        if len(s.facts) != len(t.facts) or len(s.recs) != len(t.recs) or s.ctx != t.ctx or len(s.caught) != len(t.caught):
            return False
        if s.freed != t.freed or len(s.trace) != len(t.trace) or len(s.idx) != len(t.idx):
            return False
        if any(x is not y for x, y in zip(s.facts, t.facts)) or any(x is not y for x, y in zip(s.recs, t.recs)):
            return False
        if any(x is not y for x, y in zip(s.trace, t.trace)):
            return False
        if s.ghost != t.ghost and not self.same_ghost(s.ghost, t.ghost):
            return False
        if len(s.mem) != len(t.mem):
            # globals may be lazily loaded
            pass
        for o, c in s.mem.items():
            d = t.mem.get(o)
            if d is c:
                continue
            if d is None:
                if o.kind == 'global' and c is self.global_mem.get(o):
                    continue
                return False
            if type(c) is not type(d):
                return False
            if isinstance(c, Cells):
                if len(c.c) != len(d.c):
                    return False
                for k, x in c.c.items():
                    y = d.c.get(k)
                    if y is None or y[0] != x[0] or not self.same(x[1], y[1]):
                        return False
            else:
                if c.f.keys() != d.f.keys():
                    return False
                for k in c.f:
                    if not c.f[k].eq(d.f[k]):
                        return False
        for o in t.mem:
            if o not in s.mem and not (o.kind == 'global' and t.mem[o] is self.global_mem.get(o)):
                return False
        return True

    def same_ghost(self, a, b):
        if a.keys() != b.keys():
            return False
        for k in a:
            x, y = a[k], b[k]
            if x is y:
                continue
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                if not x.eq(y):
                    return False
            elif x != y:
                return False
        return True

    def same(self, x, y):
        if x is y:
            return True
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            return x.obj is y.obj and self.same(x.off, y.off)
        if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
            return x.eq(y)
        if isinstance(x, int) and isinstance(y, int):
            return x == y
        return False

    def run_blocks(self, items, fn, region, hdr, depth):
        if self.o['join']:
            return self.run_joined(items, fn, region, hdr, depth)
        outs = []
        work = list(reversed(items))
        while work:
            st, env, blk, prev = work.pop()
            if self.o['deadline'] and time.time() > self.o['deadline']:
                raise ToolLimit('time budget exhausted')
            res = self.run_block(st, env, blk, prev, fn, depth)
            for r in reversed(res):
                if r[0] == 'goto':
                    self.route(r, fn, region, hdr, depth, work, outs)
                else:
                    outs.append(r)
            if len(outs) + len(work) > self.o['maxpaths']:
                raise ToolLimit('too many paths')
        return outs

    def route(self, r, fn, region, hdr, depth, work, outs):
        _, st, env, prev, tgt = r
        if region is not None:
            if tgt is hdr:
                outs.append(('back', st, env, prev))
                return
            if tgt.idx not in region:
                outs.append(('exit', st, env, prev, tgt))
                return
        if tgt.idx in fn.loops:
            for x in self.exec_loop(st, env, fn, tgt, prev, depth):
                if x[0] == 'exit':
                    self.route(('goto',) + x[1:], fn, region, hdr, depth, work, outs)
                else:
                    outs.append(x)
            return
        work.append((st, env, tgt, prev))


    def run_joined(self, items, fn, region, hdr, depth):
        """as run_blocks, but paths meeting at a block are merged into one symbolic state"""
        outs = []
        pend = {}
        first = True
        for st, env, blk, prev in items:
            pend.setdefault(blk.idx, []).append((st, env, blk, prev, True))
        while pend:
            idx = min(pend, key=lambda i: fn.rpo[i])
            its = pend.pop(idx)
            blk = its[0][2]
            if len(its) > 1:
                its = self.join(its, blk)
            for st, env, blk, prev, start in its:
                if self.o['deadline'] and time.time() > self.o['deadline']:
                    raise ToolLimit('time budget exhausted')
                if idx in fn.loops and not start:
                    res = self.exec_loop(st, env, fn, blk, prev, depth)
                    res = [('goto',) + x[1:] if x[0] == 'exit' else x for x in res]
                else:
                    res = self.run_block(st, env, blk, prev, fn, depth)
                for r in res:
                    if r[0] != 'goto':
                        outs.append(r)
                        continue
                    _, st2, env2, prev2, tgt = r
                    if region is not None:
                        if tgt is hdr:
                            outs.append(('back', st2, env2, prev2))
                            continue
                        if tgt.idx not in region:
                            outs.append(('exit', st2, env2, prev2, tgt))
                            continue
                    pend.setdefault(tgt.idx, []).append((st2, env2, tgt, prev2, False))
            if len(outs) + len(pend) > self.o['maxpaths']:
                raise ToolLimit('too many paths')
        return outs

    def join(self, its, blk):
        loop = None
        res = []
        groups = []
        for st, env, b, prev, start in its:
            # evaluate the phis on each incoming path
            if prev is not None and blk.phis:
                env = self.cenv(env)
                self.phis(env, blk, prev)
            groups.append([st, env, b, prev, start])
        out = []
        flags = self.flags(blk)
        for g in groups:
            for h in out:
                if h[4] == g[4]:
                    if flags and any(type(h[1].get(i)) is int and type(g[1].get(i)) is int and h[1][i] != g[1][i] for i in flags):
                        continue
                    m = self.merge_two(h, g)
                    if m is not None:
                        h[0], h[1] = m
                        h[3] = Join(blk)
                        break
            else:
                out.append(g)
        for h in out:
            if h[3] is not None and not isinstance(h[3], Join):
                h[3] = Join(blk)
        return [tuple(h) for h in out]

    def flags(self, blk):
        """live phis of constants that decide a branch: paths that differ in them part again soon"""
        if isinstance(blk, FakeBlock):
            return ()
        fn = blk.fn
        fl = self.flagcache.get(fn.name)
        if fl is None:
            conds = set()
            for b in fn.blocks:
                t = b.instrs[-1] if b.instrs else None
                if t is not None and t.op in ('br', 'switch') and t.ops and type(t.ops[0]) is llvm.Loc:
                    conds.add(t.ops[0].id)
            fl = [p.id for b in fn.blocks for p in b.phis if p.id in conds and p.ty.k == 'int' and
                  sum(type(o) is not llvm.Loc for o in p.x.values()) >= 1]
            self.flagcache[fn.name] = fl
        if not fl:
            return ()
        live = self.m.livein(fn)[blk.idx]
        here = {p.id for p in blk.phis}
        return [i for i in fl if i in live or i in here]

    def merge_val(self, ca, x, y):
        """value equal to x when ca holds and to y otherwise; None if not expressible"""
        if self.same(x, y):
            return x
        if isinstance(x, Poison) or isinstance(y, Poison):
            return Poison('merged')
        if isinstance(x, z3.FPRef) or isinstance(y, z3.FPRef):
            return None
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if not (isinstance(x, Ptr) and isinstance(y, Ptr)) or x.obj is not y.obj:
                return None
            o = self.merge_val(ca, bv(x.off, 64), bv(y.off, 64))
            return None if o is None else Ptr(x.obj, norm_off(simp(o)) if x.obj is not None else o)
        if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
            r = []
            for a, b in zip(x, y):
                m = self.merge_val(ca, a, b)
                if m is None:
                    return None
                r.append(m)
            return r
        if isinstance(x, int) and isinstance(y, int):
            return INTS       # width unknown here
        if isinstance(x, int) and isinstance(y, z3.ExprRef):
            x = self.likewise(x, y)
        elif isinstance(y, int) and isinstance(x, z3.ExprRef):
            y = self.likewise(y, x)
        if not isinstance(x, z3.ExprRef) or not isinstance(y, z3.ExprRef) or x.sort() != y.sort():
            return None
        return simp(z3.If(ca, x, y))

    def likewise(self, i, e):
        if isinstance(e, z3.BoolRef):
            return TRUE if i else FALSE
        if isinstance(e, z3.BitVecRef):
            return z3.BitVecVal(i, e.size())
        return i

    def merge_two(self, A, B):
        s, t = A[0], B[0]
        if s.ctx != t.ctx or s.caught != t.caught or len(s.trace) != len(t.trace) or s.rnd != t.rnd:
            return None
        if any(x is not y for x, y in zip(s.trace, t.trace)):
            return None
        ga = {k: v for k, v in s.ghost.items() if k != 'ind'}
        gb = {k: v for k, v in t.ghost.items() if k != 'ind'}
        if not self.same_ghost(ga, gb):
            return None
        i, n = 0, min(len(s.pc), len(t.pc))
        while i < n and (s.pc[i] is t.pc[i] or s.pc[i].eq(t.pc[i])):
            i += 1
        ca = z3.And(s.pc[i:]) if len(s.pc) > i + 1 else s.pc[i] if len(s.pc) > i else TRUE
        cb = z3.And(t.pc[i:]) if len(t.pc) > i + 1 else t.pc[i] if len(t.pc) > i else TRUE
        # the condition that tells the two paths apart
        sel = ca
        if len(s.pc) > i and len(t.pc) > i:
            na = z3.simplify(z3.Not(s.pc[i]), bv_le2extract=False)
            if na.eq(z3.simplify(t.pc[i], bv_le2extract=False)):
                sel = s.pc[i]
        ea, eb = A[1], B[1]
        live = self.m.livein(A[2].fn)[A[2].idx] if not isinstance(A[2], FakeBlock) else None
        env = {}
        phw = {p.id: p.ty for p in getattr(A[2], 'keep', None) or A[2].phis}
        for k, x in ea.items():
            if k == '$al':
                env[k] = list(x) + [o for o in eb[k] if not any(o is q for q in x)]
                continue
            if k not in eb:
                continue
            if live is not None and not isinstance(k, str) and k not in live and k not in phw:
                continue
            y = eb[k]
            if x is y:
                env[k] = x
                continue
            if isinstance(k, str):
                if k in ('$exc', '$pad'):
                    return None
                env[k] = x
                continue
            m = self.merge_val(sel, x, y)
            if m is INTS:
                ty = phw.get(k) or self.m.type(llvm.TypeOf(k))
                if ty.k == 'int':
                    m = simp(z3.If(sel, TRUE if x else FALSE, TRUE if y else FALSE) if ty.bits == 1 else
                             z3.If(sel, z3.BitVecVal(x, ty.bits), z3.BitVecVal(y, ty.bits)))
                else:
                    m = None
            if m is None:
                return None
            env[k] = m
        # memory
        upd = {}
        for o, c in s.mem.items():
            d = t.mem.get(o)
            if d is c:
                continue
            if d is None:
                if o.kind == 'global':
                    d = self.global_mem.get(o)
                    if d is c:
                        continue
                    if d is None:
                        return None
                else:
                    continue      # object of one path only
            if (o in s.freed) != (o in t.freed):
                return None
            if type(c) is not type(d):
                return None
            if isinstance(c, Cells):
                if c.c.keys() != d.c.keys():
                    if o.default != 'undef':
                        return None
                new = None
                for k in c.c.keys() | d.c.keys():
                    x, y = c.c.get(k), d.c.get(k)
                    if x is None or y is None:
                        m = (x or y)[0], Poison('uninitialised on one path')
                        lo, n2 = k, m[0]
                        oth = c.c if x is None else d.c
                        if any(a < lo + n2 and lo < a + v[0] for a, v in oth.items()):
                            return None
                    elif x[0] != y[0]:
                        return None
                    elif x is y or self.same(x[1], y[1]):
                        continue
                    else:
                        m = self.merge_val(sel, x[1], y[1])
                        if m is INTS:
                            m = simp(z3.If(sel, z3.BitVecVal(x[1], 8 * x[0]), z3.BitVecVal(y[1], 8 * x[0])))
                        if m is None:
                            return None
                        m = (x[0], m)
                    if new is None:
                        new = {}
                    new[k] = m
                if new:
                    upd[o] = new
            else:
                if c.stride != d.stride or c.f.keys() != d.f.keys():
                    return None
                new = {}
                for k in c.f:
                    if not c.f[k].eq(d.f[k]):
                        new[k] = z3.If(sel, c.f[k], d.f[k])
                if new:
                    upd[o] = new
        for o, d in t.mem.items():
            if o not in s.mem:
                if o.kind == 'global' and d is not self.global_mem.get(o):
                    return None
        # commit into s
        for o, d in t.mem.items():
            if o not in s.mem:
                s.mem[o] = d
        for o, new in upd.items():
            w = self.wcontent(s, o)
            if isinstance(w, Cells):
                w.c.update(new)
                for n2, _ in new.values():
                    w.maxn = max(w.maxn, n2)
            else:
                w.f.update(new)
        s.freed |= t.freed
        nf = 0
        while nf < min(len(s.facts), len(t.facts)) and s.facts[nf] is t.facts[nf]:
            nf += 1
        fa, fb = s.facts[nf:], t.facts[nf:]
        ida = {id(f) for f in fa}
        both = [f for f in fb if id(f) in ida]
        idb = {id(f) for f in both}
        s.facts = s.facts[:nf] + both + [Fact(f.vars, z3.Implies(ca, f.body)) for f in fa if id(f) not in idb] + \
            [Fact(f.vars, z3.Implies(cb, f.body)) for f in fb if id(f) not in idb]
        s.recs = s.recs + [r for r in t.recs if not any(r is q for q in s.recs)]
        have = {x.get_id() if isinstance(x, z3.ExprRef) else x for x in s.idx}
        for x in t.idx:
            k = x.get_id() if isinstance(x, z3.ExprRef) else x
            if k not in have:
                have.add(k)
                s.idx = s.idx + [x]
        if 'ind' in s.ghost or 'ind' in t.ghost:
            s.ghost['ind'] = tuple(k for k in s.ghost.get('ind', ()) if k in set(t.ghost.get('ind', ())))
        d = simp(z3.Or(ca, cb))
        s.pc = s.pc[:i]
        if not (isinstance(d, int) and d):
            s.pc.append(asbool(d))
        s.newtok()
        self.joins += 1
        return s, env

    def phis(self, env, blk, prev):
        if not blk.phis or isinstance(prev, Join):
            return
        vals = [(p.id, self.val(env, p.x[prev.ref])) for p in blk.phis]
        for i, v in vals:
            env[i] = v

    def run_block(self, st, env, blk, prev, fn, depth):
        if prev is not None:
            self.phis(env, blk, prev)
        res = []
        wl = [(st, env, 0)]
        ins_list = blk.instrs
        while wl:
            st, env, i = wl.pop()
            while True:
                ins = ins_list[i]
                self.ninstr += 1
                if self.ninstr > self.o['maxinstr']:
                    raise ToolLimit('instruction budget')
                try:
                    r = self.step(st, env, ins, blk, fn, depth)
                except Infeasible:
                    break
                except ForkOn as fk:
                    c = fk.cond
                    if isinstance(c, int):
                        raise ToolLimit('fork on constant')
                    alts = []
                    t = self.feasible(st, c)
                    f = self.feasible(st, z3.Not(c))
                    if t and f:
                        s2, e2 = st.clone(), self.cenv(env)
                        s2.pc.append(simp(z3.Not(c)))
                        self.refine(s2, e2, z3.Not(c))
                        wl.append((s2, e2, i))
                        st.pc.append(c)
                        self.refine(st, env, c)
                        continue
                    if t:
                        st.pc.append(c)
                        self.refine(st, env, c)
                        continue
                    if f:
                        c = simp(z3.Not(c))
                        st.pc.append(c)
                        self.refine(st, env, c)
                        continue
                    break
                if r is None:
                    i += 1
                    continue
                # list of outcomes
                k = r[0]
                if k == 'term':
                    res.extend(r[1])
                    break
                # ('cont', [(st, env)]) plus terminal ones
                conts, terms = r[1], r[2]
                res.extend(terms)
                if not conts:
                    break
                for s2, e2 in conts[1:]:
                    wl.append((s2, e2, i + 1))
                st, env = conts[0]
                i += 1
        return res

    def refine(self, st, env, c):
        """after 'x == const' was decided, substitute in env values so re-execution makes progress"""
        z = simp(c)
        if isinstance(z, int):
            return
        if z3.is_app_of(z, z3.Z3_OP_EQ) or z3.is_app_of(z, z3.Z3_OP_NOT) or True:
            subs = []
            if z3.is_app_of(z, z3.Z3_OP_EQ):
                a, b = z.arg(0), z.arg(1)
                if z3.is_bv_value(a):
                    a, b = b, a
                if z3.is_bv_value(b):
                    subs = [(a, b)]
                    # extract / zeroext / concat of a variable: also derive the variable
                    l = linear(a)
                    if len(l[1]) == 1 and a.size() == 64:
                        (t, co), = l[1].values()
                        if sgn(co) in (1, -1) and not t.eq(a):
                            v = (b.as_long() - l[0]) * sgn(co) & M64
                            subs.append((t, z3.BitVecVal(v, 64)))
            if z3.is_app_of(z, z3.Z3_OP_NOT):
                subs = [(z.arg(0), FALSE)]
            elif not subs:
                subs = [(z, TRUE)]
            for k, v in list(env.items()):
                nv = self.subst(v, subs)
                if nv is not v:
                    env[k] = nv
            for o, ct in list(st.mem.items()):
                if isinstance(ct, Cells) and o.kind != 'global':
                    ch = None
                    for off, (n, v) in ct.c.items():
                        nv = self.subst(v, subs)
                        if nv is not v:
                            if ch is None:
                                ch = {}
                            ch[off] = (n, nv)
                    if ch:
                        w = self.wcontent(st, o)
                        w.c.update(ch)

    def subst(self, v, subs):
        if isinstance(v, Ptr):
            if v.obj is not None and v.obj.kind == 'nest' and v.obj.prov[0] == 'nest':
                ib = v.obj.prov[3]
                n = simp(z3.substitute(ib, *subs))
                if isinstance(n, int) or not n.eq(ib):
                    par = v.obj.prov[1]
                    q = par.nested.obj(self, par, v.obj.prov[2], n)
                    off = v.off if isinstance(v.off, int) else norm_off(simp(z3.substitute(v.off, *subs)))
                    return Ptr(q, off)
            if isinstance(v.off, z3.ExprRef):
                n = z3.substitute(v.off, *subs)
                if not n.eq(v.off):
                    return Ptr(v.obj, norm_off(simp(n)))
            return v
        if isinstance(v, z3.ExprRef) and not isinstance(v, z3.FPRef):
            n = z3.substitute(v, *subs)
            if not n.eq(v):
                return simp(n)
        return v

    def cenv(self, env):
        e = dict(env)
        e['$al'] = list(env['$al'])
        return e

    def branch(self, st, env, cond, ins, fn, blk):
        """-> (true_state or None, false_state or None)"""
        cond = simp(asbool(cond))
        if isinstance(cond, int):
            return ((st, env), None) if cond else (None, (st, env))
        t = self.feasible(st, cond)
        if not t:
            nc = simp(z3.Not(cond))
            st.pc.append(nc)
            return None, (st, env)
        nc = z3.simplify(z3.Not(cond), bv_le2extract=False)
        f = self.feasible(st, nc)
        if not f:
            st.pc.append(cond)
            return (st, env), None
        if self.unrolling:
            tok = self.unrolling[-1]
            if tok[0] is fn and not tok[2]:
                body = fn.loops[tok[1].idx]
                leaves = any(s.idx not in body for s in blk.succs) and blk.idx in body
                if leaves and self.has_unbounded(cond):
                    raise NeedSummary(tok)
        s2 = st.clone()
        e2 = self.cenv(env)
        st.pc.append(cond)
        s2.pc.append(nc)
        self.paths += 1
        return (st, env), (s2, e2)

    def has_unbounded(self, c):
        seen = set()
        wl = [c]
        while wl:
            e = wl.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in self._ub:
                return True
            wl.extend(e.children())
        return False

    def step(self, st, env, ins, blk, fn, depth):
        op = ins.op
        V = self.val
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = V(env, ins.ops[0]), V(env, ins.ops[1])
            if op in ('udiv', 'urem', 'sdiv', 'srem') and not (isinstance(b, int) and b):
                if is_sym(b) and self.o.get('dbgdiv'):
                    print('DIV', interval.urange(bv(b, ins.ty.bits), st.pc), interval.dump(bv(b, ins.ty.bits), st.pc))
                if is_sym(b) and interval.urange(bv(b, ins.ty.bits), st.pc)[0] > 0:
                    if not self.quiet:
                        self.record('arith.div-by-zero', self.where(ins), 'proved', 'interval analysis', 0.0, st, None)
                else:
                    self.obligation(st, simp(bv(b, ins.ty.bits) != 0) if is_sym(b) else 0, 'arith.div-by-zero', self.where(ins))
            ty = ins.ty
            env[ins.id] = self.binop(op, ty.bits if ty.k == 'int' else ty.el.bits, a, b)
            return None
        if op == 'load':
            env[ins.id] = self.load(st, V(env, ins.ops[0]), ins.ty, ins)
            return None
        if op == 'store':
            self.store(st, V(env, ins.ops[1]), V(env, ins.ops[0]), ins.x, ins)
            return None
        if op == 'gep':
            env[ins.id] = self.gep(V(env, ins.ops[0]), ins.x, [V(env, o) for o in ins.ops[1:]])
            return None
        if op == 'icmp':
            y = ins.y
            env[ins.id] = self.icmp(st, ins.x, V(env, ins.ops[0]), V(env, ins.ops[1]), y.bits if y.k == 'int' else (y.el.bits if y.k == 'vector' else 64))
            return None
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi',
                  'fpext', 'fptrunc', 'addrspacecast'):
            v = V(env, ins.ops[0])
            if op == 'inttoptr' and is_sym(v):
                env[ins.id] = self.lazy_ptr(st, v, None)
                return None
            env[ins.id] = self.cast(op, ins.ty, ins.x, v)
            return None
        if op == 'br':
            if not ins.ops:
                return ('term', [('goto', st, env, blk, ins.x[0])])
            t, f = self.branch(st, env, V(env, ins.ops[0]), ins, fn, blk)
            r = []
            # LLVMGetSuccessor(0) is the true target
            if t:
                r.append(('goto', t[0], t[1], blk, ins.x[0]))
            if f:
                r.append(('goto', f[0], f[1], blk, ins.x[1]))
            return ('term', r)
        if op == 'select':
            c = V(env, ins.ops[0])
            a, b = V(env, ins.ops[1]), V(env, ins.ops[2])
            if isinstance(c, list):
                env[ins.id] = [self.sel(st, x, y, z, ins.ty.el) for x, y, z in zip(c, a, b)]
            else:
                env[ins.id] = self.sel(st, c, a, b, ins.ty)
            return None
        if op == 'call' or op == 'invoke':
            return self.do_call(st, env, ins, blk, fn, depth)
        if op == 'ret':
            v = V(env, ins.ops[0]) if ins.ops else None
            self._retw = fn.rty.bits if fn.rty.k == 'int' else None
            for o in env['$al']:
                st.mem.pop(o, None)
                st.freed.add(o)
            return ('term', [('ret', st, v)])
        if op == 'switch':
            v = V(env, ins.ops[0])
            if isinstance(v, Ptr):
                v = self.ptrbits(v)
            v = simp(v) if is_sym(v) else v
            if isinstance(v, int):
                for c, b in ins.y:
                    if c == v:
                        return ('term', [('goto', st, env, blk, b)])
                return ('term', [('goto', st, env, blk, ins.x)])
            r = []
            w = v.size() if isinstance(v, z3.BitVecRef) else 1
            conds = {}
            order = []
            rest = []
            for c, b in ins.y:
                e = (v == z3.BitVecVal(c & ((1 << w) - 1), w)) if w > 1 or isinstance(v, z3.BitVecRef) else (v if c else z3.Not(v))
                rest.append(z3.Not(e))
                if b.idx not in conds:
                    conds[b.idx] = (b, [])
                    order.append(b.idx)
                conds[b.idx][1].append(e)
            alts = [(conds[k][0], z3.Or(conds[k][1]) if len(conds[k][1]) > 1 else conds[k][1][0]) for k in order]
            if ins.x.idx in conds:
                alts = [(b, (z3.Or(c, z3.And(rest)) if b is ins.x else c)) for b, c in alts]
            else:
                alts.append((ins.x, z3.And(rest)))
            feas = [(b, simp(c)) for b, c in alts]
            feas = [(b, c) for b, c in feas if (isinstance(c, int) and c) or (not isinstance(c, int) and self.feasible(st, c))]
            for n, (b, c) in enumerate(feas):
                if n == len(feas) - 1:
                    s2, e2 = st, env
                else:
                    s2, e2 = st.clone(), self.cenv(env)
                if not isinstance(c, int):
                    s2.pc.append(c)
                if len(feas) > 1:
                    self.paths += 1
                r.append(('goto', s2, e2, blk, b))
            return ('term', r)
        if op == 'alloca':
            n = V(env, ins.ops[0])
            if not isinstance(n, int):
                raise ToolLimit('variable alloca')
            o = self.new_obj(st, fn.name[-24:] + '.al', ins.x.size * n, 'stack')
            env['$al'].append(o)
            env[ins.id] = Ptr(o, 0)
            return None
        if op == 'extractvalue':
            v = V(env, ins.ops[0])
            for k in ins.x:
                v = v[k]
            env[ins.id] = v
            return None
        if op == 'insertvalue':
            v = V(env, ins.ops[0])

            def ins_(v, path, x):
                v = list(v)
                v[path[0]] = x if len(path) == 1 else ins_(v[path[0]], path[1:], x)
                return v
            env[ins.id] = ins_(v, ins.x, V(env, ins.ops[1]))
            return None
        if op == 'freeze':
            env[ins.id] = V(env, ins.ops[0])
            return None
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
            a = V(env, ins.ops[0])
            rm = z3.RNE()
            if op == 'fneg':
                env[ins.id] = simp(z3.fpNeg(a))
                return None
            b = V(env, ins.ops[1])
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}.get(op)
            env[ins.id] = self.fpop(op, f, rm, a, b)
            return None
        if op == 'fcmp':
            a, b = V(env, ins.ops[0]), V(env, ins.ops[1])
            env[ins.id] = simp(self.fcmp(ins.x, a, b))
            return None
        if op == 'unreachable':
            # reached only after a noreturn call that we modelled as returning
            raise Infeasible()
        if op == 'landingpad':
            exc = env['$exc']
            sel = None
            for cl in ins.x:
                cv = self.const(cl)
                if isinstance(cv, Ptr):
                    if cv.obj is None:
                        sel = 1   # catch (...)
                        break
                    if self.ti_match(exc.ti, self.tinames.get(cv.obj, '')):
                        sel = self.typeid(cv.obj)
                        break
            if sel is None:
                sel = 0
            st.caught = st.caught + [exc]
            env[ins.id] = [exc.ptr, sel]
            env['$pad'] = exc
            return None
        if op == 'resume':
            v = V(env, ins.ops[0])
            exc = None
            for e in st.caught:
                if e.ptr is v[0] or (isinstance(v[0], Ptr) and e.ptr.obj is v[0].obj):
                    exc = e
            if exc is None:
                exc = env.get('$pad') or Exc('?', v[0])
            for o in env['$al']:
                st.mem.pop(o, None)
                st.freed.add(o)
            return ('term', [('throw', st, exc)])
        if op == 'fence':
            return None
        if op == 'atomicrmw':
            p = V(env, ins.ops[0])
            old = self.load(st, p, ins.ty, ins)
            x = V(env, ins.ops[1])
            k = ins.x
            w = ins.ty.bits
            new = {0: lambda: x, 1: lambda: self.binop('add', w, old, x), 2: lambda: self.binop('sub', w, old, x),
                   3: lambda: self.binop('and', w, old, x), 5: lambda: self.binop('or', w, old, x),
                   6: lambda: self.binop('xor', w, old, x)}[k]()
            self.store(st, p, new, ins.ty, ins)
            env[ins.id] = old
            return None
        if op == 'cmpxchg':
            p = V(env, ins.ops[0])
            old = self.load(st, p, ins.y, ins)
            cmpv, new = V(env, ins.ops[1]), V(env, ins.ops[2])
            eq = self.icmp(st, 'eq', old, cmpv, ins.y.bits if ins.y.k == 'int' else 64)
            self.store(st, p, self.sel(st, eq, new, old, ins.y), ins.y, ins)
            env[ins.id] = [old, eq]
            return None
        if op in ('extractelement',):
            v, i = V(env, ins.ops[0]), V(env, ins.ops[1])
            env[ins.id] = v[i]
            return None
        if op == 'insertelement':
            v = list(V(env, ins.ops[0]))
            v[V(env, ins.ops[2])] = V(env, ins.ops[1])
            env[ins.id] = v
            return None
        raise ToolLimit('instruction ' + op + ' ' + llvm.pstr(ins.ref)[:100])

    def fpop(self, op, f, rm, a, b):
        if self.o.get('fp_uf'):
            if not (z3.is_fp_value(a) and z3.is_fp_value(b)):
                so = a.sort()
                self.assumed.add('floating point %s treated as an uninterpreted function' % op)
                return z3.Function('uf_%s_%d' % (op, so.ebits()), so, so, so)(a, b)
        if f is None:
            return z3.fpRem(a, b)
        return simp(f(rm, a, b))

    def fcmp(self, p, a, b):
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {'oeq': lambda: z3.fpEQ(a, b), 'ogt': lambda: z3.fpGT(a, b), 'oge': lambda: z3.fpGEQ(a, b),
                'olt': lambda: z3.fpLT(a, b), 'ole': lambda: z3.fpLEQ(a, b),
                'one': lambda: z3.And(z3.Not(nan), z3.Not(z3.fpEQ(a, b))), 'ord': lambda: z3.Not(nan), 'uno': lambda: nan,
                'ueq': lambda: z3.Or(nan, z3.fpEQ(a, b)), 'ugt': lambda: z3.Not(z3.fpLEQ(a, b)),
                'uge': lambda: z3.Not(z3.fpLT(a, b)), 'ult': lambda: z3.Not(z3.fpGEQ(a, b)),
                'ule': lambda: z3.Not(z3.fpGT(a, b)), 'une': lambda: z3.Not(z3.fpEQ(a, b)),
                'false': lambda: FALSE, 'true': lambda: TRUE}
        return base[p]()

    def sel(self, st, c, a, b, ty):
        if isinstance(c, int):
            return a if c else b
        if self.same(a, b):
            return a
        if isinstance(a, (Poison, list)) or isinstance(b, (Poison, list)):
            raise ForkOn(c)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                return Ptr(a.obj, simp(z3.If(c, bv(a.off, 64), bv(b.off, 64))))
            raise ForkOn(c)
        if isinstance(a, z3.FPRef):
            raise ForkOn(c)      # floating point is kept concrete per path
        if ty.k == 'int' and ty.bits == 1:
            return simp(z3.If(c, asbool(a), asbool(b)))
        return simp(z3.If(c, bv(a, ty.bits), bv(b, ty.bits)))

    # -- exceptions -----------------------------------------------------------------
    def typeid(self, obj):
        nm = self.tinames.get(obj, obj.name)
        return self.typeids.setdefault(nm, len(self.typeids) + 2)

    STD = {'St12length_error': 'St11logic_error', 'St12out_of_range': 'St11logic_error', 'St16invalid_argument': 'St11logic_error',
           'St12domain_error': 'St11logic_error', 'St11logic_error': 'St9exception', 'St13runtime_error': 'St9exception',
           'St12system_error': 'St13runtime_error', 'St9bad_alloc': 'St9exception', 'St20bad_array_new_length': 'St9bad_alloc',
           'St14overflow_error': 'St13runtime_error', 'St8bad_cast': 'St9exception', 'St17bad_function_call': 'St9exception',
           'St11range_error': 'St13runtime_error', 'N5boost7bad_getE': 'St9exception', 'N5boost10wrapexceptINS_7bad_getEEE': 'N5boost7bad_getE',
           'NSt8ios_base7failureB5cxx11E': 'St12system_error'}

    def ti_bases(self, nm):
        if nm in self.STD:
            return [self.STD[nm]]
        for o, n in list(self.tinames.items()):
            if n == nm:
                c = self.global_mem.get(o)
                r = []
                if c is not None:
                    for off, (n_, v) in sorted(c.c.items()):
                        if off >= 16 and isinstance(v, Ptr) and v.obj in self.tinames:
                            r.append(self.tinames[v.obj])
                        elif off >= 16 and isinstance(v, Ptr) and v.obj is not None and v.obj.name.startswith('@_ZTI'):
                            r.append(v.obj.name[5:])
                return r
        return []

    def ti_match(self, t, want):
        if t == want:
            return True
        return any(self.ti_match(b, want) for b in self.ti_bases(t))

    def make_exc(self, st, ti):
        o = self.new_obj(st, 'exc', 64, 'heap', 'lazy')
        return Exc(ti, Ptr(o, 0))

    # -- calls -----------------------------------------------------------------------
    def demangle(self, n):
        return self.dem.get(n, n)

    def find_model(self, name):
        if name in self.modelcache:
            return self.modelcache[name]
        d = self.demangle(name)
        h = None
        for rx, fnc in self.models:
            if rx.search(d):
                h = fnc
                break
        self.modelcache[name] = h
        return h

    def do_call(self, st, env, ins, blk, fn, depth):
        cv = ins.x
        callee = self.val(env, cv)
        args = [self.val(env, a) if a is not None else None for a in ins.ops]
        if ins.op == 'invoke':
            tys, nd, ud = ins.y
        else:
            tys, nd, ud = ins.y, None, None
        if not isinstance(callee, Ptr) or callee.obj is None:
            raise ToolLimit('indirect call to %r at %s' % (callee, self.where(ins)))
        if callee.obj.kind != 'func':
            raise ToolLimit('call through unknown pointer %r at %s' % (callee, self.where(ins)))
        f = callee.obj.fref
        name = f.name
        rep = self.replace.get(name)
        if rep is not None and not (self.curfn and any(x.name == rep for x in self.curfn)):
            f = self.m.func(rep)
            name = rep
        h = self.find_model(name)
        if h is not None:
            try:
                r = h(self, st, env, ins, name, args, tys)
            except Throw as t:
                outs = [('throw', st, t.obj or self.make_exc(st, t.ti))]
            else:
                if isinstance(r, list) and r and isinstance(r[0], tuple) and len(r[0]) == 3 and r[0][0] in ('ret', 'throw'):
                    outs = r
                else:
                    outs = [('ret', st, r)]
        elif f.decl:
            r = self.intrinsic(st, name, args, ins, tys)
            outs = [('ret', st, r)]
        else:
            outs = self.call_function(st, f, args, ins, depth + 1)
        conts, terms = [], []
        rets = [o for o in outs if o[0] == 'ret']
        for n, o in enumerate(outs):
            if n == len(outs) - 1:
                e2 = env
            else:
                e2 = self.cenv(env)
            if o[0] == 'ret':
                if ins.ty.k != 'void':
                    e2[ins.id] = o[2]
                if nd is not None:
                    terms.append(('goto', o[1], e2, blk, nd))
                else:
                    conts.append((o[1], e2))
            else:
                if ud is not None:
                    e2['$exc'] = o[2]
                    terms.append(('goto', o[1], e2, blk, ud))
                else:
                    for ob in e2['$al']:
                        o[1].mem.pop(ob, None)
                        o[1].freed.add(ob)
                    terms.append(o)
        if ins.op == 'invoke':
            return ('term', terms)
        return ('cont', conts, terms)

    def intrinsic(self, st, name, args, ins, tys):
        d = self.demangle(name)
        if name.startswith('llvm.'):
            return self.llvm_intrinsic(st, name, args, ins, tys)
        raise ToolLimit('no body or model for %s at %s' % (d[:200], self.where(ins)))

    def llvm_intrinsic(self, st, name, a, ins, tys):
        parts = name.split('.')
        k = parts[1]
        if k in ('memcpy', 'memmove'):
            self.memcpy(st, self.toptr(st, a[0]), self.toptr(st, a[1]), a[2], ins)
            return None
        if k == 'memset':
            self.memset(st, self.toptr(st, a[0]), a[1], a[2], ins)
            return None
        if k == 'expect':
            return a[0]
        if k in ('umax', 'umin', 'smax', 'smin'):
            w = ins.ty.bits
            c = self.icmp(st, {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k], a[0], a[1], w)
            return self.sel(st, c, a[0], a[1], ins.ty)
        if k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and parts[2] == 'with':
            w = ins.ty.elems[0].bits
            op = k[1:]
            x, y = a
            if isinstance(x, Ptr):
                x = self.ptrbits(x)
            if isinstance(y, Ptr):
                y = self.ptrbits(y)
            r = self.binop(op, w, x, y)
            if isinstance(x, int) and isinstance(y, int):
                if k[0] == 'u':
                    t = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
                    o = int(not (0 <= t < (1 << w)))
                else:
                    X, Y = sgn(x, w), sgn(y, w)
                    t = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[op]
                    o = int(not (-(1 << (w - 1)) <= t < (1 << (w - 1))))
                return [r, o]
            X, Y = bv(x, w), bv(y, w)
            if k == 'uadd':
                o = z3.Not(z3.BVAddNoOverflow(X, Y, False))
                o = z3.ULT(bv(r, w), X)
            elif k == 'usub':
                o = z3.ULT(X, Y)
            elif k == 'umul':
                o = z3.Not(z3.BVMulNoOverflow(X, Y, False))
            elif k == 'sadd':
                o = z3.Not(z3.And(z3.BVAddNoOverflow(X, Y, True), z3.BVAddNoUnderflow(X, Y)))
            elif k == 'ssub':
                o = z3.Not(z3.And(z3.BVSubNoOverflow(X, Y), z3.BVSubNoUnderflow(X, Y, True)))
            else:
                o = z3.Not(z3.And(z3.BVMulNoOverflow(X, Y, True), z3.BVMulNoUnderflow(X, Y)))
            return [r, simp(o)]
        if k in ('usub', 'uadd') and parts[2] == 'sat':
            w = ins.ty.bits
            if k == 'usub':
                c = self.icmp(st, 'ult', a[0], a[1], w)
                return self.sel(st, c, 0, self.binop('sub', w, a[0], a[1]), ins.ty)
            r = self.binop('add', w, a[0], a[1])
            c = self.icmp(st, 'ult', r, a[0], w)
            return self.sel(st, c, (1 << w) - 1, r, ins.ty)
        if k == 'fshl' or k == 'fshr':
            w = ins.ty.bits
            x, y, s = a
            if isinstance(s, int):
                s %= w
                if s == 0:
                    return x if k == 'fshl' else y
                if k == 'fshr':
                    s = w - s
                if isinstance(x, int) and isinstance(y, int):
                    return ((x << s) | (y >> (w - s))) & ((1 << w) - 1)
                if self.same(x, y):
                    return simp(z3.RotateLeft(bv(x, w), s))
                return simp(z3.Concat(z3.Extract(w - s - 1, 0, bv(x, w)), z3.Extract(w - 1, w - s, bv(y, w))))
            raise ToolLimit('fshl by symbolic amount')
        if k in ('ctlz', 'cttz', 'ctpop', 'bswap', 'abs', 'bitreverse'):
            w = ins.ty.bits
            x = a[0]
            if isinstance(x, int):
                if k == 'ctlz':
                    return w - x.bit_length()
                if k == 'cttz':
                    return w if x == 0 else (x & -x).bit_length() - 1
                if k == 'ctpop':
                    return bin(x).count('1')
                if k == 'bswap':
                    return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
                if k == 'abs':
                    return abs(sgn(x, w)) & ((1 << w) - 1)
            if k == 'bswap':
                return simp(z3.Concat([z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)]))
            if k == 'abs':
                return z3.If(x < 0, -x, x)
            if k == 'ctlz':
                r = z3.BitVecVal(w, w)
                for i in range(w):
                    r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), r)
                return r
            if k == 'cttz':
                r = z3.BitVecVal(w, w)
                for i in reversed(range(w)):
                    r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, w), r)
                return r
            if k == 'ctpop':
                r = z3.BitVecVal(0, w)
                for i in range(w):
                    r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
                return r
        if k == 'eh' and parts[2] == 'typeid':
            return self.typeid(a[0].obj) if a[0].obj is not None else 1
        if k == 'is' and parts[2] == 'constant':
            return 0
        if k == 'objectsize':
            return (1 << ins.ty.bits) - 1
        if k == 'fmuladd':
            return simp(z3.fpAdd(z3.RNE(), z3.fpMul(z3.RNE(), a[0], a[1]), a[2]))
        if k == 'fabs':
            return simp(z3.fpAbs(a[0]))
        if k in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint'):
            rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA()}.get(k, z3.RNE())
            return simp(z3.fpRoundToIntegral(rm, a[0]))
        if k in ('maxnum', 'minnum'):
            return z3.fpMax(a[0], a[1]) if k == 'maxnum' else z3.fpMin(a[0], a[1])
        if k in ('trap', 'debugtrap', 'ubsantrap'):
            raise Infeasible()
        if k == 'stacksave':
            return NULL
        if k == 'ptrmask':
            return a[0]
        if k == 'pow' or k == 'log' or k == 'exp' or k == 'sqrt':
            if k == 'sqrt':
                return z3.fpSqrt(z3.RNE(), a[0])
            self.assumed.add('libm %s uninterpreted' % k)
            so = a[0].sort()
            return z3.Function('uf_' + k, *([so] * (len(a) + 1)))(*a)
        raise ToolLimit('intrinsic ' + name)

    # -- loops ---------------------------------------------------------------------------
    def exec_loop(self, st, env, fn, hdr, prev, depth):
        body = fn.loops[hdr.idx]
        snap, esnap = st.clone(), self.cenv(env)
        no = len(self.obls)
        tok = (fn, hdr, self.o['unroll_unbounded'])
        self.unrolling.append(tok)
        try:
            outs = []
            front = [(st, env, prev)]
            n = 0
            while front:
                n += 1
                nxt = []
                for s, e, p in front:
                    self.phis(e, hdr, p)
                    for r in self.run_blocks([(s, e, hdr, None)], fn, body, hdr, depth):
                        if r[0] == 'back':
                            nxt.append((r[1], r[2], r[3]))
                        else:
                            outs.append(r)
                front = nxt
                symbolic = len(front) + len(outs) > 1
                lim = self.o['unroll'] if symbolic else 20000
                if n > lim:
                    if self.o['unroll_unbounded']:
                        # bounded mode: cut the remaining paths
                        self.bounded = 'loop at %s cut after %d iterations' % (self.loopname(fn, hdr), lim)
                        break
                    raise NeedSummary(tok)
                if len(front) > self.o['unroll_states']:
                    raise NeedSummary(tok)
            return outs
        except NeedSummary as ns:
            if ns.tok is not tok:
                raise
            del self.obls[no:]
        finally:
            self.unrolling.pop()
        return self.summarise(snap, esnap, fn, hdr, prev, depth)

    def loopname(self, fn, hdr):
        ins = hdr.instrs[0] if hdr.instrs else None
        return '%s @ %s' % (self.demangle(fn.name)[:80], self.where(ins) if ins else '')

    def slotval(self, st, env, s):
        if s[0] == 'phi':
            return env[s[1]]
        if s[0] == 'cell':
            c = self.content(st, s[1])
            x = c.c.get(s[2])
            if x is None or x[0] != s[3]:
                try:
                    return self.read_cells(st, s[1], c, s[2], s[3])
                except ToolLimit as e:
                    return Poison(str(e))
            return x[1]
        if s[0] == 'arr':
            c = self.content(st, s[1])
            f = c.f.get(s[2])
            if f is None:
                f = self.arr_default(st, s[1], s[2][0], s[2][1], c.stride)
            return f
        if s[0] == 'ghost':
            return st.ghost.get(s[1])

    def setslot(self, st, env, s, v):
        if s[0] == 'phi':
            env[s[1]] = v
        elif s[0] == 'cell':
            c = self.wcontent(st, s[1])
            c.c.pop(s[2], None)
            self.write_cells(st, s[1], c, s[2], s[3], v)
        elif s[0] == 'arr':
            self.wcontent(st, s[1]).f[s[2]] = v
        elif s[0] == 'ghost':
            st.ghost[s[1]] = v

    def diff_slots(self, base, st, slots):
        """memory slots of objects existing in base that differ in st"""
        new = []
        have = set(x[:4] if x[0] == 'cell' else x[:3] for x in slots)
        for o, c in base.mem.items():
            d = st.mem.get(o)
            if d is c or d is None:
                continue
            if isinstance(c, Cells) and isinstance(d, Cells):
                for off, x in d.c.items():
                    y = c.c.get(off)
                    if y is not None and y[0] == x[0] and self.same(x[1], y[1]):
                        continue
                    if y is None:
                        # lazily materialised default?
                        dv = self.default_cell(base, o, off, x[0])
                        if self.same(dv, x[1]):
                            continue
                    s = ('cell', o, off, x[0])
                    if s not in have:
                        new.append(s)
                        have.add(s)
                    elif not any(z[:4] == s for z in slots):
                        new.append(s)
            elif isinstance(c, Arr) and isinstance(d, Arr):
                for k, f in d.f.items():
                    g = c.f.get(k)
                    if g is None:
                        g = self.arr_default(base, o, k[0], k[1], d.stride)
                    if f.eq(g):
                        continue
                    s = ('arr', o, k)
                    if s not in have:
                        new.append(s)
                        have.add(s)
            else:
                raise ToolLimit('loop changes representation of %r' % o)
        for k, v in st.ghost.items():
            if k.startswith('g:') and not (base.ghost.get(k) is v):
                bvv = base.ghost.get(k)
                if isinstance(bvv, z3.ExprRef) and isinstance(v, z3.ExprRef) and bvv.eq(v):
                    continue
                s = ('ghost', k)
                if s not in have:
                    new.append(s)
                    have.add(s)
        return new

    def summarise(self, st, env, fn, hdr, prev, depth):
        name = self.loopname(fn, hdr)
        if self.o['verbose']:
            print('   summarising loop', name, flush=True)
        if self.curfn and sum(1 for x in self.summ_stack if x == (fn.name, hdr.idx)) > 0:
            raise ToolLimit('recursive loop summary')
        self.summ_stack.append((fn.name, hdr.idx))
        try:
            return self._summarise(st, env, fn, hdr, prev, depth, name)
        finally:
            self.summ_stack.pop()

    summ_stack = []

    def _summarise(self, st, env, fn, hdr, prev, depth, name):
        body = fn.loops[hdr.idx]
        self.phis(env, hdr, prev)
        self.loops_summarised.add(name)
        self.nfresh += 1
        uid = self.nfresh
        octx = st.ctx
        if octx:
            k = z3.Function('k!%d' % uid, *([c.sort() for c in octx] + [BV64]))(*octx)
            kk = z3.BitVec('kk!%d' % uid, 64)
        else:
            k = z3.BitVec('k!%d' % uid, 64)
        kc = z3.BitVec('kc!%d' % uid, 64)   # bound variable used while executing the body
        self.mark_len(kc)
        self.mark_len(k)
        slots = [('phi', p.id, p.ty) for p in hdr.phis]
        forms = {}       # slot -> ('delta', c) | ('inv',) | ('rec', F) | ('poison',)
        init = {}

        def initv(s):
            if s not in init:
                init[s] = self.slotval(st, env, s)
            return init[s]

        # guess linear pointer/counter steps from the code; the guess is verified below
        for p in hdr.phis:
            if p.ty.k == 'ptr' or (p.ty.k == 'int' and p.ty.bits > 1):
                ds = set()
                for bref, op in p.x.items():
                    if any(b.ref == bref for b in body_blocks(fn, body)):
                        ds.add(self.syn_delta(op, p.ref, 0))
                if len(ds) == 1 and None not in ds:
                    d = ds.pop()
                    w = 64 if p.ty.k == 'ptr' else p.ty.bits
                    v0 = initv(('phi', p.id, p.ty))
                    if (isinstance(v0, Ptr) and v0.obj is not None) or isinstance(v0, z3.BitVecRef) or isinstance(v0, int):
                        forms[('phi', p.id, p.ty)] = ('delta', d if d < 1 << (w - 1) or p.ty.k == 'ptr' else d - (1 << w), w)

        def sym(s):
            """general symbolic value for slot s at iteration kc"""
            v0 = initv(s)
            if isinstance(v0, Poison):
                return v0
            if isinstance(v0, Ptr):
                if v0.obj is None:
                    if s[0] == 'phi' and s[2].k == 'ptr':
                        return Poison('pointer phi with null init')
                    v0 = v0.off
                    so = z3.BitVecSort(64)
                else:
                    F = rf(s, BV64)
                    return Ptr(v0.obj, F)
            elif isinstance(v0, z3.ExprRef):
                so = v0.sort()
            elif s[0] == 'phi':
                if s[2].k != 'int':
                    return Poison('phi of type %r' % s[2])
                so = z3.BoolSort() if s[2].bits == 1 else z3.BitVecSort(s[2].bits)
            elif s[0] == 'cell':
                so = z3.BitVecSort(8 * s[3])
            else:
                return Poison('slot %r' % (s,))
            return rf(s, so)

        def rf(s, so):
            f = forms.get(s)
            if f is None or f[0] != 'rec':
                nm = 'R!%d!%d' % (uid, len(forms))
                F = z3.Function(nm, *([c.sort() for c in octx] + [BV64, so]))
                forms[s] = ('rec', F, so)
            F = forms[s][1]
            return F(*(list(octx) + [kc]))

        def formval(s):
            f = forms.get(s)
            if f is None or f[0] == 'rec':
                return sym(s)
            v0 = initv(s)
            if f[0] == 'inv':
                return v0
            if f[0] == 'poison':
                return Poison(f[1])
            c = f[1]
            if isinstance(v0, Ptr):
                return Ptr(v0.obj, off_add(v0.off, off_scale(kc, c)))
            w = f[2]
            if w == 64:
                return off_add(v0, off_scale(kc, c))
            return simp(bv(v0, w) + z3.Extract(w - 1, 0, kc) * z3.BitVecVal(c & ((1 << w) - 1), w))

        def attempt(quiet):
            s2 = st.clone()
            e2 = self.cenv(env)
            s2.ctx = octx + (kc,)
            for s in slots:
                self.setslot(s2, e2, s, formval(s))
            base = s2.clone()
            npc = len(s2.pc)
            nf, nr = len(s2.facts), len(s2.recs)
            if quiet:
                self.quiet += 1
            try:
                outs = self.run_blocks([(s2, e2, hdr, None)], fn, body, hdr, depth)
            finally:
                if quiet:
                    self.quiet -= 1
            return base, npc, nf, nr, outs

        rounds = 0
        while True:
            rounds += 1
            if rounds > 12:
                raise ToolLimit('loop summary does not stabilise: ' + name)
            base, npc, nf, nr, outs = attempt(True)
            backs = [o for o in outs if o[0] == 'back']
            changed = False
            for o in backs:
                for s in self.diff_slots(base, o[1], slots):
                    if s[0] == 'cell':
                        # overlapping slots of different size -> poison both
                        for z in slots:
                            if z[0] == 'cell' and z[1] is s[1] and z[2] < s[2] + s[3] and s[2] < z[2] + z[3] and z != s:
                                raise ToolLimit('loop writes overlapping cells in %r' % s[1])
                    if s not in slots:
                        slots.append(s)
                        changed = True
            if changed:
                continue
            for s in slots:
                f = forms.get(s)
                if f is not None and f[0] == 'poison':
                    continue
                cur = formval(s)
                if isinstance(cur, Poison):
                    forms[s] = ('poison', cur.why)
                    continue
                news = []
                for o in backs:
                    if s[0] == 'phi':
                        p = [q for q in hdr.phis if q.id == s[1]][0]
                        news.append(self.val(o[2], p.x[o[3].ref]))
                    else:
                        news.append(self.slotval(o[1], o[2], s))
                v0 = initv(s)
                if any(isinstance(x, Poison) for x in news):
                    forms[s] = ('poison', 'poison')
                    changed = True
                    continue
                if all(self.same(x, cur) for x in news):
                    if f is None or f[0] == 'rec':
                        forms[s] = ('inv',)
                        changed = True
                    continue
                if f is not None and f[0] == 'inv':
                    forms[s] = None
                    changed = True
                    continue
                if isinstance(v0, Ptr) and v0.obj is not None:
                    if not all(isinstance(x, Ptr) and x.obj is v0.obj for x in news):
                        forms[s] = ('poison', 'loop-carried pointer changes object')
                        changed = True
                        continue
                    ds = [off_sub(x.off, cur.off) for x in news]
                    w = 64
                elif any(isinstance(x, Ptr) and x.obj is not None for x in news):
                    forms[s] = ('poison', 'loop-carried pointer')
                    changed = True
                    continue
                elif isinstance(cur, z3.BitVecRef) or (f is not None and f[0] == 'delta'):
                    w = cur.size() if isinstance(cur, z3.BitVecRef) else (f[2] if f else 64)
                    ds = []
                    for x in news:
                        if isinstance(x, Ptr):
                            x = x.off
                        if isinstance(x, z3.BoolRef):
                            ds.append(None)
                            continue
                        ds.append(lin_expr(_addl_w(x, cur, -1, w), w))
                else:
                    ds = [None]
                if self.o.get('dump'):
                    print('  slot', s, str(cur)[:100], [str(x)[:6000] for x in news])
                if ds and all(isinstance(d, int) for d in ds) and len(set(ds)) == 1:
                    if f is None or f[0] == 'rec':
                        forms[s] = ('delta', ds[0], w)
                        changed = True
                    elif f[0] == 'delta' and f[1] != ds[0]:
                        # cannot happen: value form was exact
                        forms[s] = None
                        changed = True
                elif f is not None and f[0] == 'delta':
                    # with exact forms the step is init + c*k + c ; compare semantically
                    ok = True
                    nxtv = None
                    forms[s] = None
                    changed = True
            if not changed:
                break
        # drop slots that are invariant
        for s in slots:
            if forms.get(s) is None:
                sym(s)
        # final run with deferred obligations
        old = self.deferred
        self.deferred = []
        try:
            base, npc, nf, nr, outs = attempt(False)
            mine = self.deferred
        finally:
            self.deferred = old
        backs = [o for o in outs if o[0] == 'back']
        others = [o for o in outs if o[0] != 'back']

        def newpart(s):
            cond = list(s.pc[npc:])
            return cond
        # step functions
        K = k
        facts, recs = [], []
        stays = [z3.And(newpart(o[1])) if newpart(o[1]) else TRUE for o in backs]
        stay = simp(z3.Or(stays)) if stays else 0
        if not (isinstance(stay, int) and stay):
            facts.append(Fact([(kc, K)], asbool(stay)))
        # nested facts produced inside one iteration (guarded by that path's condition)
        for o, c in zip(backs, stays):
            for f in o[1].facts[nf:]:
                facts.append(Fact([(kc, K)] + list(f.vars), z3.Implies(c, f.body)))
            if len(o[1].recs) > nr:
                for r in o[1].recs[nr:]:
                    kv = r.k
                    facts.append(Fact([(kc, K)], z3.Implies(c, r.app(z3.BitVecVal(0, 64)) == r.init)))
                    facts.append(Fact([(kc, K), (kv, r.K)], z3.Implies(c, r.app(kv + 1) == r.step)))
        for s in slots:
            f = forms.get(s)
            if f is None or f[0] != 'rec':
                continue
            F, so = f[1], f[2]
            vals = []
            for o in backs:
                if s[0] == 'phi':
                    p = [q for q in hdr.phis if q.id == s[1]][0]
                    v = self.val(o[2], p.x[o[3].ref])
                else:
                    v = self.slotval(o[1], o[2], s)
                vals.append(self.tosort(v, so))
            if not vals:
                continue
            step = vals[-1]
            for v, c in reversed(list(zip(vals[:-1], stays[:-1]))):
                step = z3.If(c, v, step)
            r = Rec()
            r.loop = uid
            r.slot = str(s[:1]) + str(s[1])
            r.app = (lambda t, F=F: F(*(list(octx) + [t])))
            r.k = kc
            v0 = initv(s)
            r.init = self.tosort(v0, so)
            r.step = step
            r.sort = so
            r.K = K
            r.outer = octx
            recs.append(r)
        # index terms suggested by exit conditions  (x0 + c*k == bound)
        hints = self.exit_hints(stay, kc)

        def finish(s):
            """move a state from bound variable kc to the exit index K"""
            s.ctx = octx
            s.facts = s.facts[:nf] + [Fact(f.vars, f.body) for f in s.facts[nf:]] + facts
            s.recs = s.recs + recs
            s.idx = s.idx + [K] + hints
            s.pc.append(z3.ULT(K, z3.BitVecVal(1 << 56, 64)))
            return s
        sub = [(kc, K)]
        # discharge deferred obligations with the loop facts
        for (s, c, nm, wh) in mine:
            s2 = self.rename(s, sub, npc, base)
            finish(s2)
            c2 = z3.substitute(c, *sub)
            if self.deferred is not None:
                self.deferred.append((s2, c2, nm, wh))
            else:
                self.discharge(s2, c2, nm, wh)
        res = []
        for o in others:
            s2 = self.rename(o[1], sub, npc, base)
            e2 = None
            finish(s2)
            if not self.feasible(s2, z3.And(self.instantiate(s2) or [TRUE])):
                continue
            if o[0] == 'exit':
                e2 = {i: (self.subst(v, sub) if i not in ('$al', '$fn', '$exc', '$pad') else v) for i, v in o[2].items()}
                res.append(('exit', s2, e2, o[3], o[4]))
            elif o[0] == 'ret':
                res.append(('ret', s2, self.subst(o[2], sub)))
            else:
                res.append(('throw', s2, o[2]))
        return res

    def syn_delta(self, op, phi, depth):
        if depth > 12 or type(op) is not llvm.Loc:
            return None
        r = op.id
        if r == phi:
            return 0
        if llvm.ValueKind(r) != 24:
            return None
        o = llvm.OPC.get(llvm.Opcode(r))
        if o == 'phi':
            ds = {self.syn_delta(self.m.operand(llvm.IncomingValue(r, k)), phi, depth + 1) for k in range(llvm.CountIncoming(r))}
            return ds.pop() if len(ds) == 1 else None
        n = llvm.NumOperands(r)
        if o not in ('gep', 'add', 'sub'):
            return None
        ops = [self.m.operand(llvm.GetOperand(r, k)) for k in range(n)]
        if any(type(x) is llvm.Loc for x in ops[1:]):
            return None
        d = self.syn_delta(ops[0], phi, depth + 1)
        if d is None:
            return None
        cs = [self.const(x) for x in ops[1:]]
        if o == 'gep':
            cs = [int_of(c) for c in cs]
            if any(c is None for c in cs):
                return None
            c = self.gep(Ptr(None, 0), self.m.type(llvm.GEPSourceType(r)), cs).off
            c = int_of(c)
            if c is None:
                return None
        else:
            c = int_of(cs[0])
            if c is None:
                return None
            if o == 'sub':
                c = -c
        return d + c

    def tosort(self, v, so):
        if isinstance(v, Ptr):
            v = v.off
        if isinstance(v, int):
            if so == z3.BoolSort():
                return TRUE if v else FALSE
            return z3.BitVecVal(v, so.size())
        if isinstance(v, z3.BoolRef) and so != z3.BoolSort():
            return b2bv(v, so.size())
        if isinstance(v, z3.FPRef) and z3.is_bv_sort(so) if hasattr(z3, 'is_bv_sort') else False:
            return z3.fpToIEEEBV(v)
        return v

    def rename(self, s, sub, npc, base):
        s = s.clone()
        s.pc = s.pc[:npc] + [z3.substitute(c, *sub) for c in s.pc[npc:]]
        for o, c in list(s.mem.items()):
            b = base.mem.get(o)
            if o.kind == 'global' and c is self.global_mem.get(o):
                continue
            if isinstance(c, Cells):
                ch = {}
                for off, (n, v) in c.c.items():
                    nv = self.subst(v, sub)
                    if nv is not v:
                        ch[off] = (n, nv)
                if ch:
                    self.wcontent(s, o).c.update(ch)
            else:
                ch = {}
                for kx, v in c.f.items():
                    nv = z3.substitute(v, *sub)
                    if not nv.eq(v):
                        ch[kx] = nv
                if ch:
                    self.wcontent(s, o).f.update(ch)
        for g, v in list(s.ghost.items()):
            if isinstance(v, z3.ExprRef):
                s.ghost[g] = z3.substitute(v, *sub)
        s.idx = [z3.substitute(t, *sub) if is_sym(t) else t for t in s.idx]
        nt = []
        for (kd, nm, t) in s.trace:
            if isinstance(t, z3.ExprRef):
                t = z3.substitute(t, *sub)
            nt.append((kd, nm, t))
        s.trace = nt
        nfacts = []
        for f in s.facts:
            nfacts.append(Fact([(v, z3.substitute(K, *sub)) for v, K in f.vars], z3.substitute(f.body, *[x for x in sub if not any(x[0].eq(v) for v, _ in f.vars)])))
        s.facts = nfacts
        nrecs = []
        for r in s.recs:
            q = Rec()
            q.loop, q.slot, q.k, q.sort, q.outer = r.loop, r.slot, r.k, r.sort, r.outer
            q.app = (lambda t, a=r.app: z3.substitute(a(t), *sub))
            q.init = z3.substitute(r.init, *sub)
            q.step = z3.substitute(r.step, *sub)
            q.K = z3.substitute(r.K, *sub)
            nrecs.append(q)
        s.recs = nrecs
        return s

    def exit_hints(self, stay, kc):
        out = []
        if isinstance(stay, int):
            return out
        seen = set()
        wl = [stay]
        while wl:
            e = wl.pop()
            if e.get_id() in seen or len(seen) > 3000:
                continue
            seen.add(e.get_id())
            if e.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ) and isinstance(e.arg(0), z3.BitVecRef) and e.arg(0).size() == 64:
                l = _addl(e.arg(0), e.arg(1), -1)
                if kc.get_id() in l[1]:
                    t, co = l[1][kc.get_id()]
                    s = sgn(co)
                    rest = (l[0], {x: y for x, y in l[1].items() if x != kc.get_id()})
                    if s in (1, -1):
                        h = lin_expr(_scale(rest, -s, M64))
                        h = bv(h, 64)
                        if not any(h.eq(x) for x in out) and not self.mentions(h, kc):
                            out.append(h)
            wl.extend(e.children())
        return out[:6]

    def mentions(self, e, t):
        wl, seen = [e], set()
        while wl:
            x = wl.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.eq(t):
                return True
            wl.extend(x.children())
        return False


from mem import _addlin, _scale  # noqa: E402


def fit64(t, w):
    return t if w == 64 else z3.ZeroExt(w - 64, t) if w > 64 else z3.Extract(w - 1, 0, t)


def int_of(c):
    if isinstance(c, int):
        return c
    if z3.is_bv_value(c):
        return c.as_signed_long()
    return None


def body_blocks(fn, body):
    return [b for b in fn.blocks if b.idx in body]


def _addl(a, b, s):
    return _addlin(linear(a), linear(b), M64, s)


def _addl_w(a, b, s, w):
    m = (1 << w) - 1
    la = (a & m, {}) if isinstance(a, int) else linear(a)
    lb = (b & m, {}) if isinstance(b, int) else linear(b)
    return _addlin(la, lb, m, s)
