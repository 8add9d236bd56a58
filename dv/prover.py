"""Discharge of proof obligations.

Back ends, in order: (1) polynomial/rational normal form identity prover
(dv.poly), (2) z3 default strategy, (3) z3 qfnra-nlsat, (4) cvc5.
"""
import os
import select
import signal
import time

from . import core, poly
from .core import b_and, bval, z3, zb


class Result:
    def __init__(self, status, backend="", model=None, secs=0.0, why=""):
        self.status, self.backend, self.model = status, backend, model
        self.secs, self.why = secs, why


def conjuncts(e):
    """Conjuncts of a formula, pushing one negation over disjunctions."""
    if z3.is_not(e):
        a = e.arg(0)
        if z3.is_or(a):
            return [x for c in a.children() for x in conjuncts(z3.Not(c))]
        if z3.is_not(a):
            return conjuncts(a.arg(0))
        return [e]
    if z3.is_and(e):
        return [x for c in e.children() for x in conjuncts(c)]
    return [e]


def split(goal):
    """Split a goal into (hypotheses, atomic goal) pairs."""
    out = []

    def rec(hyps, g):
        v = bval(g)
        if v is True:
            return
        if v is False:
            out.append((hyps, z3.BoolVal(False)))
            return
        if z3.is_and(g):
            for c in g.children():
                rec(hyps, c)
            return
        if z3.is_implies(g):
            rec(hyps + [g.arg(0)], g.arg(1))
            return
        if z3.is_or(g):
            # last equation (or conjunction) as the goal, negated others as hypotheses
            ch = g.children()
            best = None
            for i, c in enumerate(ch):
                if z3.is_and(c) or z3.is_implies(c) or (z3.is_eq(c) and c.arg(0).sort() != z3.BoolSort()):
                    best = i
            if best is None:
                for i, c in enumerate(ch):
                    if not z3.is_not(c):
                        best = i
            if best is not None:
                hs = []
                for i, c in enumerate(ch):
                    if i != best:
                        hs += conjuncts(z3.Not(c))
                rec(hyps + hs, ch[best])
                return
        out.append((hyps, g))

    rec([], zb(goal))
    return out


def _syms(e, cache={}):
    k = e.get_id()
    hit = cache.get(k)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    s = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                s.add(d.name())
            st.extend(x.children())
    cache[k] = (e, s)
    return s


def relevant(goal, hyps, facts, rounds):
    """Facts reachable from the goal by shared symbols within some rounds."""
    syms = set(_syms(goal))
    for h in hyps:
        syms |= _syms(h)
    chosen = [False] * len(facts)
    fs = [_syms(f) for f in facts]
    for _ in range(rounds):
        new = set()
        for i, s in enumerate(fs):
            if not chosen[i] and s & syms:
                chosen[i] = True
                new |= s
        if not new - syms:
            break
        syms |= new
    return [f for f, c in zip(facts, chosen) if c]


_NL = {}


def nonlinear(e):
    """Whether a term multiplies or divides variables (memoised)."""
    st = [(e, False)]
    while st:
        x, done = st.pop()
        k = x.get_id()
        hit = _NL.get(k)
        if hit is not None and hit[0].eq(x):
            continue
        if not z3.is_app(x) or not x.num_args():
            _NL[k] = (x, False)
            continue
        ch = x.children()
        kd = x.decl().kind()
        if (kd == z3.Z3_OP_MUL and sum(not core.is_num(y) for y in ch) > 1) or (
            kd in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER) and not core.is_num(ch[1])
        ):
            _NL[k] = (x, True)
        elif done:
            _NL[k] = (x, any(_NL[y.get_id()][1] for y in ch))
        else:
            st.append((x, True))
            st.extend((y, False) for y in ch)
    return _NL[e.get_id()][1]


def hard(e):
    """Nonlinear and large enough for the solver to overrun its timeout."""
    return nonlinear(e) and core.dag_size(e, 60) > 60


class Abstract:
    """Linear abstraction: products and quotients of variables become fresh variables.

    Validity of the abstracted formula implies validity of the original.
    """

    def __init__(self):
        self.cache = {}
        self.atoms = {}
        self.nz = None

    def atom(self, key, sort):
        v = self.atoms.get(key)
        if v is None:
            v = z3.FreshConst(sort, "nl")
            self.atoms[key] = v
        return v

    def canonical(self, e):
        """Linear combination of canonical monomials (over a canonical denominator)."""
        try:
            p = poly.canon(e)
            q, r, den = p.num, {}, None
            if p.den is not None:
                q, r = poly.divide_q(p.num, p.den)
                den = poly.pkey(p.den)
        except (core.Unsupported, RecursionError):
            return None
        out = None
        for num, d in ((q, None), (r, den)):
            for mono, co in num.items():
                if d is None and not mono:
                    t = core.realval(co)
                else:
                    if d is None and len(mono) == 1 and mono[0][1] == 1:
                        x = self(poly.ATOMS[mono[0][0]])
                        x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
                    else:
                        x = self.atom(("mono", mono, d), z3.RealSort())
                    t = core.realval(co) * x
                out = t if out is None else out + t
        return out if out is not None else z3.RealVal(0)

    def equality(self, a, b):
        """a == b without factors known not to be zero."""
        try:
            num = poly.canon(core.t_sub(a, b)).num
            if self.nz is None:
                self.nz = []
                cache = core.ctx().nonzero_cache
                for k, x in cache.items():
                    if k[0] == "nz" and not core.is_num(x):
                        q = poly.canon(core.to_real(x))
                        if q.num and set(q.num) != {()} and q.num not in self.nz:
                            self.nz.append(q.num)
            done = False
            while num and not done and set(num) != {()}:
                done = True
                for h in self.nz:
                    q, r = poly.divide_q(num, h)
                    if not r and q:
                        num, done = q, False
            return self.canonical(poly.from_poly(num)) == 0
        except (core.Unsupported, RecursionError):
            return None

    def __call__(self, e):
        k = e.get_id()
        hit = self.cache.get(k)
        if hit is not None:
            return hit[1]
        r = e
        if z3.is_app(e) and e.num_args() and nonlinear(e):
            kd = e.decl().kind()
            ch = e.children()
            lin = None
            if kd == z3.Z3_OP_EQ and ch[0].sort() == z3.RealSort():
                lin = self.equality(*ch)
            if e.sort() == z3.RealSort() and kd in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV):
                lin = self.canonical(e)
            if lin is not None:
                r = lin
            elif kd == z3.Z3_OP_MUL and sum(not core.is_num(y) for y in ch) > 1:
                var = sorted((y for y in ch if not core.is_num(y)), key=lambda y: y.get_id())
                r = self.atom(("mul",) + tuple(y.get_id() for y in var), e.sort())
                for y in ch:
                    if core.is_num(y):
                        r = y * r
            elif kd in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER) and not core.is_num(ch[1]):
                r = self.atom((kd, ch[0].get_id(), ch[1].get_id()), e.sort())
            else:
                r = e.decl()(*[self(y) for y in ch]) if kd not in (z3.Z3_OP_ADD, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_MUL) else _nary(kd, [self(y) for y in ch])
        self.cache[k] = (e, r)
        return r


def _nary(kd, ch):
    if kd == z3.Z3_OP_AND:
        return z3.And(*ch)
    if kd == z3.Z3_OP_OR:
        return z3.Or(*ch)
    r = ch[0]
    for y in ch[1:]:
        r = r + y if kd == z3.Z3_OP_ADD else r * y
    return r


def _linear(hyps, goal, ms):
    ab = Abstract()
    try:
        poly.LIMIT = time.time() + max(1.0, ms / 1000)
        g = ab(goal)
        hs = [ab(h) for h in hyps]
    except (RecursionError, z3.Z3Exception, core.Unsupported):
        return "unknown", None
    finally:
        poly.LIMIT = None
    s = z3.Solver()
    s.set("timeout", int(ms))
    s.add(*hs)
    s.add(z3.Not(g))
    return ("unsat" if s.check() == z3.unsat else "unknown"), None


def checked(s, ms, *extra, fork=True, model=False):
    """s.check() that ends: nonlinear queries may ignore the solver's timeout.

    Such a query runs first in a forked child that is killed when late.
    """
    s.set("timeout", max(1, int(ms)))
    if not fork:
        return s.check(*extra)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = b"u"
        try:
            signal.alarm(int(ms / 1000) + 2)
            x = s.check(*extra)
            code = b"0" if x == z3.unsat else (b"1" if x == z3.sat else b"u")
        finally:
            os.write(w, code)
            os._exit(0)
    os.close(w)
    out = b"u"
    if select.select([r], [], [], ms / 1000 + 0.5)[0]:
        out = os.read(r, 1) or b"u"
    os.close(r)
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    if out == b"0":
        return z3.unsat
    if out == b"1":
        return s.check(*extra) if model else z3.sat
    return z3.unknown


def _z3(hyps, goal, timeout_ms, tactic=None):
    s = z3.Tactic(tactic).solver() if tactic else z3.Solver()
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    r = checked(s, timeout_ms, fork=nonlinear(goal) or any(nonlinear(h) for h in hyps), model=True)
    if r == z3.sat:
        return "sat", s.model()
    return ("unsat" if r == z3.unsat else "unknown"), None


def _cvc5(hyps, goal, timeout_ms):
    try:
        import cvc5
    except ImportError:
        return "unknown"
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    text = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
    tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
    slv = cvc5.Solver(tm) if tm else cvc5.Solver()
    slv.setOption("tlimit-per", str(int(timeout_ms)))
    slv.setOption("nl-ext-tplanes", "true")
    try:
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = p.getSymbolManager()
        res = "unknown"
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            o = cmd.invoke(slv, sm).strip()
            if o in ("sat", "unsat", "unknown"):
                res = o
        return res
    except Exception:  # parser or option failures: no answer
        return "unknown"


_HAS_ITE = {}


def _has_ite(e):
    """Whether a term contains a numeric if-then-else (memoised)."""
    st = [(e, False)]
    while st:
        x, done = st.pop()
        k = x.get_id()
        hit = _HAS_ITE.get(k)
        if hit is not None and hit[0].eq(x):
            continue
        if not z3.is_app(x) or not x.num_args():
            _HAS_ITE[k] = (x, False)
            continue
        if x.decl().kind() == z3.Z3_OP_ITE and x.sort() != z3.BoolSort():
            _HAS_ITE[k] = (x, True)
            continue
        ch = x.children()
        if done:
            _HAS_ITE[k] = (x, any(_HAS_ITE[y.get_id()][1] for y in ch))
        else:
            st.append((x, True))
            st.extend((y, False) for y in ch)
    return _HAS_ITE[e.get_id()][1]


def _ite_cases(e):
    """An if-then-else condition of a term that itself contains none."""
    seen, st = set(), [e]
    while st:
        x = st.pop()
        k = x.get_id()
        if k in seen or not _has_ite(x):
            continue
        seen.add(k)
        if x.decl().kind() == z3.Z3_OP_ITE and x.sort() != z3.BoolSort():
            if not _has_ite(x.arg(0)):
                return [x.arg(0)]
        st.extend(x.children())
    return []


def _eq_atoms(e, out):
    """Real equations occurring in the boolean structure of e."""
    st = [e]
    while st:
        x = st.pop()
        if z3.is_eq(x) and x.arg(0).sort() == z3.RealSort():
            if not any(x.eq(o) for o in out):
                out.append(x)
        elif z3.is_bool(x):
            st.extend(c for c in x.children() if z3.is_bool(c))


def equations(hyps, g):
    """Real equations entailed by the hypotheses that share symbols with the goal."""
    out = []
    gs = _syms(g)
    tried = 0
    for i, h in enumerate(hyps):
        if not (_syms(h) & gs) or core.dag_size(h, 300) > 300:
            continue
        cand = []
        _eq_atoms(h, cand)
        for y in cand:
            if not (_syms(y) & gs) or is_pyth(y):
                continue
            if any(y.arg(0).eq(a) and y.arg(1).eq(b) for a, b in out):
                continue
            if not h.eq(y):
                tried += 1
                if tried > 40 or (poly.LIMIT and time.time() > poly.LIMIT):
                    return out
                s = z3.Solver()
                s.add(h, z3.Not(y))
                for k in hyps:
                    if k is not h and (core.int_linear(k) or core.dag_size(k, 40) <= 40):
                        s.add(k)
                if checked(s, 200, fork=nonlinear(h) or nonlinear(y)) != z3.unsat:
                    continue
            out.append((y.arg(0), y.arg(1)))
            if len(out) >= 8:
                return out
    return out


def is_pyth(y):
    """sin^2 + cos^2 = 1 (already a rewriting rule)."""
    if core.dag_size(y, 12) > 12:
        return False
    s = str(y.arg(0))
    return s.startswith("sin") and "cos" in s and s.count("*") == 2


def _identity(c, hyps, g, use_equations=True):
    """Polynomial identity attempt for an equality, given a solver for divisors."""
    if not (z3.is_eq(g) and g.arg(0).sort() in (z3.RealSort(), z3.IntSort())):
        return False
    a, b = g.arg(0), g.arg(1)
    ok, _ = poly.proves_equal(a, b)
    extra = []
    if not ok:
        if not use_equations:
            return False
        eqs = equations(hyps, g)
        if not eqs:
            return False
        sub = []
        for x, y in eqs:
            if core.is_num(x):
                sub.append((y, x))
            elif core.is_num(y):
                sub.append((x, y))
        done = False
        if sub:
            a2, b2 = z3.substitute(a, *sub), z3.substitute(b, *sub)
            done = poly.proves_equal_given(a2, b2, eqs)
        if not done and not poly.proves_equal_given(a, b, eqs):
            return False
        extra = [d for x, y in eqs for d in poly.divisors(x) + poly.divisors(y)]
    divs = poly.divisors(a) + poly.divisors(b) + extra
    if not divs:
        return True
    s = z3.Solver()
    fork = any(nonlinear(h) for h in hyps) or any(nonlinear(d) for d in divs)
    for h in hyps:
        s.add(h)
    seen = set()
    for d in divs:
        if d.get_id() in seen:
            continue
        seen.add(d.get_id())
        if checked(s, 1500, d == 0, fork=fork) != z3.unsat:
            return False
    return True


def _identity_cases(c, hyps, g, depth=0, eqs=False):
    """Identity prover with case splits on ite conditions."""
    if _identity(c, hyps, g, False):
        return True
    conds = _ite_cases(g) if depth < 5 else []
    if not conds:
        return eqs and _identity(c, hyps, g)
    cond = conds[0]
    for val in (True, False):
        h = cond if val else z3.Not(cond)
        s = z3.Solver()
        hs = [x for x in hyps if core.dag_size(x, 80) <= 80] + [h]
        s.add(*hs)
        if checked(s, 500, fork=any(nonlinear(x) for x in hs)) == z3.unsat:
            continue
        g2 = z3.simplify(z3.substitute(g, (cond, z3.BoolVal(val))), som=False, arith_lhs=False)
        if z3.is_true(g2):
            continue
        if not z3.is_eq(g2):
            return False
        # simplify may rewrite the equality; substitute without simplification too
        g3 = _subst_ite(g, cond, val)
        if not _identity_cases(c, hyps + [h], g3, depth + 1, eqs):
            return False
    return True


def _subst_ite(e, cond, val):
    """Replace ite(cond, a, b) by its branch, leaving the rest untouched."""
    cache = {}

    def rec(x):
        k = x.get_id()
        if k in cache:
            return cache[k]
        if z3.is_app(x) and x.num_args():
            if x.decl().kind() == z3.Z3_OP_ITE and x.arg(0).eq(cond):
                r = rec(x.arg(1) if val else x.arg(2))
            else:
                ch = [rec(y) for y in x.children()]
                if all(p.eq(q) for p, q in zip(ch, x.children())):
                    r = x
                else:
                    r = x.decl()(*ch)
        else:
            r = x
        cache[k] = r
        return r

    return rec(e)


def discharge(c, ob, budget=20.0, deadline=None):
    """Decide one obligation of a finished path c (core.Ctx)."""
    t0 = time.time()
    worst = None
    backends = []
    for hyps, g in split(ob.goal):
        r = _one(c, ob, hyps, g, budget, deadline)
        backends.append(r.backend)
        if r.status == "refuted":
            r.secs = time.time() - t0
            return r
        if r.status != "proved":
            worst = r
    if worst is not None:
        worst.secs = time.time() - t0
        return worst
    return Result("proved", "+".join(sorted(set(backends))) or "trivial", None, time.time() - t0)


def _one(c, ob, hyps, g, budget, deadline):
    g0 = g
    pc = list(ob.pc) + hyps
    facts = list(c.facts)
    if z3.is_true(z3.simplify(g)):
        return Result("proved", "simplify")
    core.set_ctx(c)
    arith = z3.is_eq(g) and (
        g.arg(0).sort() == z3.RealSort() or (g.arg(0).sort() == z3.IntSort() and not _has_ite(g))
    )
    try:
        near = relevant(g, pc, facts, 2)
        poly.LIMIT = time.time() + min(8.0, budget)
        if arith and _identity_cases(c, pc + near, g):
            return Result("proved", "ring-normal-form")
    except (core.Unsupported, RecursionError, z3.Z3Exception):
        near = relevant(g, pc, facts, 2)
    finally:
        core.set_ctx(None)
        poly.LIMIT = None
    order = core.dag_size(g, 500) <= 500
    # substitute known equalities first? leave to the solvers
    allh = pc + facts
    steps = [
        ("z3", allh, None, 0.15),
        ("z3", pc + near, None, 0.2),
        ("equations", pc + near, None, 0),
        ("z3", pc + relevant(g, pc, facts, 1), None, 0.1),
        ("z3-nlsat", pc + near, "qfnra-nlsat", 0.2),
        ("cvc5", pc + near, None, 0.2),
        ("z3", allh, None, 0.3),
    ]
    if order:
        steps.insert(0, steps.pop(2))
        steps.insert(0, ("z3", pc + near, None, 0.05))
    if not arith:
        steps = [x for x in steps if x[0] != "equations"]
    if nonlinear(g) or any(nonlinear(h) for h in pc + near):
        steps.insert(1 if order else 0, ("z3-linear", pc + near, None, 0.05))
        if not nonlinear(g):
            steps.insert(0, ("z3", [h for h in pc + near if not nonlinear(h)], None, 0.02))
    model = None
    for name, hs, tac, share in steps:
        if deadline is not None and time.time() > deadline:
            return Result("unknown", "", None, 0, "deadline")
        ms = max(200, budget * share * 1000)
        if deadline is not None:
            ms = min(ms, max(200, (deadline - time.time()) * 1000))
        if name == "equations":
            core.set_ctx(c)
            try:
                poly.LIMIT = time.time() + min(10.0, budget)
                if _identity_cases(c, hs, g, 0, True):
                    return Result("proved", "ring-normal-form+equations")
            except (core.Unsupported, RecursionError, z3.Z3Exception):
                pass
            finally:
                core.set_ctx(None)
                poly.LIMIT = None
            continue
        try:
            if name == "cvc5":
                r, m = _cvc5(hs, g0, ms), None
                if r == "sat":
                    r = "unknown"
            elif name == "z3-linear":
                core.set_ctx(c)
                try:
                    r, m = _linear(hs, g0, ms)
                finally:
                    core.set_ctx(None)
            else:
                r, m = _z3(hs, g0, ms, tac)
        except z3.Z3Exception as e:
            r, m = "unknown", None
        if r == "unsat":
            return Result("proved", name)
        if r == "sat":
            if len(hs) == len(allh):
                return Result("refuted", name, m)
            model = m
    return Result("unknown", "", model, 0, "no back end decided")
