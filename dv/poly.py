"""Polynomial normal forms of z3 Real terms (a small ring/field normaliser).

Used (1) to canonicalise arguments of uninterpreted functions and angles, and
(2) as a prover for polynomial identities: a == b is proved when the numerator of
a - b rewrites to zero under the definitional rules s^2 -> 1 - c^2 and
sqrt(e)^2 -> e, with all denominators known to be non-zero.
"""
import time
from fractions import Fraction

from . import core
from .core import Unsupported, numval, is_num, z3

ATOMS = {}  # id -> expr
MAXTERMS = 20000
CAP = 400000  # largest product of two polynomials attempted
LIMIT = None  # time at which the normaliser gives up (raises Unsupported)


def tick():
    if LIMIT is not None and time.time() > LIMIT:
        raise Unsupported("normaliser time limit")


def whole(v):
    """Python int of an integral fraction (faster arithmetic)."""
    return v.numerator if v.denominator == 1 else v


def qdiv(a, b):
    """Exact quotient of two rationals."""
    return whole(Fraction(a) / b)


def atom(e):
    i = e.get_id()
    if i not in ATOMS:
        ATOMS[i] = e
    return i


class Poly:
    __slots__ = ("num", "den")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den

    @staticmethod
    def atom_expr(i):
        return ATOMS[i]


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, k in m2:
        d[a] = d.get(a, 0) + k
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > CAP:
        raise Unsupported("polynomial too large")
    r = {}
    tick()
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > MAXTERMS:
        raise Unsupported("polynomial too large")
    return r


ONE = {(): 1}


class Rules:
    def __init__(self):
        self.sq = {}  # atom id -> poly (num) replacing atom^2

    def add_square(self, r, e):
        try:
            p = poly(e)
        except Unsupported:
            return
        if p.den is None:
            self.sq[atom(r)] = p.num

    def add_pyth(self, s, c):
        self.sq[atom(s)] = padd(ONE, {((atom(c), 2),): 1}, -1)


class _RulesProxy:
    @property
    def cur(self):
        c = core.ctx()
        if "rules" not in c.memo:
            c.memo["rules"] = Rules()
        return c.memo["rules"]

    def add_square(self, r, e):
        self.cur.add_square(r, e)

    def add_pyth(self, s, c):
        self.cur.add_pyth(s, c)

    @property
    def sq(self):
        if core.CTX is None:
            return {}
        return self.cur.sq


RULES = _RulesProxy()


def reduce(p):
    """Apply the square rules until no atom with a rule has power >= 2."""
    sq = RULES.sq
    if not sq:
        return p
    for _ in range(200):
        tick()
        changed = False
        out = {}
        for m, c in p.items():
            hit = None
            for a, k in m:
                if k >= 2 and a in sq:
                    hit = (a, k)
                    break
            if hit is None:
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
                continue
            changed = True
            a, k = hit
            rest = tuple((x, j) for x, j in m if x != a)
            q = k // 2
            rep = {rest: c}
            if k % 2:
                rep = {mmul(rest, ((a, 1),)): c}
            for _i in range(q):
                rep = pmul(rep, sq[a])
            for m2, c2 in rep.items():
                v = out.get(m2, 0) + c2
                if v:
                    out[m2] = v
                else:
                    out.pop(m2, None)
        p = out
        if len(p) > MAXTERMS:
            raise Unsupported("polynomial too large")
        if not changed:
            return p
    raise Unsupported("rewriting did not terminate")


_CACHE = {}


def poly(e, depth=0):
    """Rational-function normal form of a Real/Int term."""
    key = e.get_id()
    hit = _CACHE.get(key)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    r = _poly(e, depth)
    _CACHE[key] = (e, r)
    return r


def _poly(e, depth):
    if depth > 900:
        raise Unsupported("term too deep")
    if is_num(e):
        v = whole(numval(e))
        return Poly({(): v} if v else {})
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = poly(e.arg(0), depth + 1)
            for i in range(1, e.num_args()):
                r = radd(r, poly(e.arg(i), depth + 1), 1)
            return r
        if k == z3.Z3_OP_SUB:
            r = poly(e.arg(0), depth + 1)
            for i in range(1, e.num_args()):
                r = radd(r, poly(e.arg(i), depth + 1), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            r = poly(e.arg(0), depth + 1)
            return Poly({m: -c for m, c in r.num.items()}, r.den)
        if k == z3.Z3_OP_MUL:
            r = poly(e.arg(0), depth + 1)
            for i in range(1, e.num_args()):
                r = rmul(r, poly(e.arg(i), depth + 1))
            return r
        if k == z3.Z3_OP_DIV:
            a, b = poly(e.arg(0), depth + 1), poly(e.arg(1), depth + 1)
            if not b.num:
                return Poly({((atom(e), 1),): 1})
            return rdiv(a, b)
        if k == z3.Z3_OP_TO_REAL:
            a = e.arg(0)
            if z3.is_app(a) and a.decl().kind() in (
                z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS,
            ):
                sub = poly(a, depth + 1)
                # rewrite Int atoms to their ToReal form
                return Poly(_to_real_atoms(sub.num), None)
            if z3.is_int_value(a):
                v = a.as_long()
                return Poly({(): v} if v else {})
        if k == z3.Z3_OP_UNINTERPRETED and e.num_args():
            e = z3.simplify(e)
    return Poly({((atom(e), 1),): 1})


def _to_real_atoms(num):
    out = {}
    for m, c in num.items():
        mm = ()
        for a, k in m:
            ex = ATOMS[a]
            if ex.sort() == z3.IntSort():
                a = atom(z3.ToReal(ex))
            mm = mmul(mm, ((a, k),))
        out[mm] = out.get(mm, 0) + c
    return {m: c for m, c in out.items() if c}


def _common(d1, d2):
    return d1 == d2


def radd(a, b, s):
    if a.den is None and b.den is None:
        return Poly(padd(a.num, b.num, s))
    da, db = a.den or ONE, b.den or ONE
    if da == db:
        return Poly(padd(a.num, b.num, s), da)
    return Poly(padd(pmul(a.num, db), pmul(b.num, da), s), pmul(da, db))


def _mono_content(p):
    """Greatest common monomial of all terms."""
    it = iter(p)
    try:
        g = dict(next(it))
    except StopIteration:
        return ()
    for m in it:
        d = dict(m)
        g = {a: min(k, d[a]) for a, k in g.items() if a in d}
        if not g:
            return ()
    return tuple(sorted(g.items()))


def _mdiv(m, g):
    d = dict(m)
    for a, k in g:
        d[a] -= k
        if not d[a]:
            del d[a]
    return tuple(sorted(d.items()))


def norm(p):
    """Cancel common monomials and constant denominators."""
    if p.den is None:
        return p
    if len(p.den) == 1 and () in p.den:
        c = p.den[()]
        return Poly({m: qdiv(v, c) for m, v in p.num.items()})
    if not p.num:
        return Poly({})
    g1, g2 = dict(_mono_content(p.num)), dict(_mono_content(p.den))
    g = tuple(sorted((a, min(k, g2[a])) for a, k in g1.items() if a in g2))
    num, den = p.num, p.den
    if g:
        num = {_mdiv(m, g): c for m, c in num.items()}
        den = {_mdiv(m, g): c for m, c in den.items()}
    # make proportional num/den cancel
    if len(num) == len(den):
        try:
            m0 = next(iter(den))
            if m0 in num:
                r = qdiv(num[m0], den[m0])
                if all(num.get(m) == r * c for m, c in den.items()):
                    return Poly({(): r})
        except StopIteration:
            pass
    lead = den[min(den)]
    if lead != 1:
        num = {m: qdiv(c, lead) for m, c in num.items()}
        den = {m: qdiv(c, lead) for m, c in den.items()}
    if len(den) == 1 and () in den:
        return Poly(num)
    return Poly(num, den)


def rmul(a, b):
    den = None
    if a.den is not None or b.den is not None:
        # cancel cross factors when equal
        if a.den is not None and a.den == b.num:
            return Poly(a.num, b.den)
        if b.den is not None and b.den == a.num:
            return Poly(b.num, a.den)
        den = pmul(a.den or ONE, b.den or ONE)
    return norm(Poly(pmul(a.num, b.num), den))


def rdiv(a, b):
    return rmul(a, Poly(b.den or ONE, b.num))


def canon(e):
    p = norm(poly(e))
    num = reduce(p.num)
    den = reduce(p.den) if p.den is not None else None
    return norm(Poly(num, den))


def pkey(d):
    return tuple(sorted(d.items()))


def canon_key(e):
    core.ctx().keep.append(e)
    try:
        p = canon(e)
    except Unsupported:
        return e.get_id()
    return (pkey(p.num), None if p.den is None else pkey(p.den))


def from_poly(num):
    """z3 Real term of a polynomial."""
    out = None
    for m, c in sorted(num.items()):
        t = core.realval(c)
        for a, k in m:
            ex = core.to_real(ATOMS[a])
            for _ in range(k):
                t = core.t_mul(t, ex)
        out = t if out is None else core.t_add(out, t)
    return out if out is not None else z3.RealVal(0)


def proves_equal(a, b):
    """Whether a - b rewrites to zero. Returns (ok, denominators)."""
    try:
        pa, pb = poly(core.to_real(a)), poly(core.to_real(b))
        d = radd(pa, pb, -1)
        num = reduce(d.num)
    except (Unsupported, RecursionError):
        return False, []
    if num:
        return False, []
    return True, []


def _lead(p):
    """Leading monomial in a graded lexicographic order."""
    return max(p, key=lambda m: (sum(k for _, k in m), tuple(sorted(m, reverse=True))))


def _mquot(m, d):
    q = dict(m)
    for a, k in d:
        if q.get(a, 0) < k:
            return None
        q[a] -= k
    return tuple(sorted((a, k) for a, k in q.items() if k))


def divide(p, h, lm=None, limit=1500):
    """Remainder of p on division by h (modulo the square rules)."""
    lm = lm if lm is not None else _lead(h)
    lc = h[lm]
    rem = dict(p)
    for _ in range(limit):
        tick()
        best = None
        for m in rem:
            q = _mquot(m, lm)
            if q is not None:
                best = (m, q)
                break
        if best is None:
            return rem
        m, q = best
        rem = reduce(padd(rem, pmul({q: qdiv(rem[m], lc)}, h), -1))
        if len(rem) > 3000:
            return rem
    return rem


def divide_q(p, h, limit=300):
    """Quotient and remainder of p on division by h."""
    lm = _lead(h)
    lc = h[lm]
    rem, quo = dict(p), {}
    for _ in range(limit):
        tick()
        best = None
        for m in rem:
            q = _mquot(m, lm)
            if q is not None:
                best = (m, q)
                break
        if best is None:
            break
        m, q = best
        co = qdiv(rem[m], lc)
        quo = padd(quo, {q: co}, 1)
        rem = padd(rem, pmul({q: co}, h), -1)
    else:
        return {}, dict(p)
    return {m: c for m, c in quo.items() if c}, {m: c for m, c in rem.items() if c}


def proves_equal_given(a, b, eqs):
    """Whether a - b vanishes given polynomial equations (pairs of terms)."""
    try:
        d = radd(poly(core.to_real(a)), poly(core.to_real(b)), -1)
        num = reduce(d.num)
        if not num:
            return True
        hs = []
        for x, y in eqs:
            e = radd(poly(core.to_real(x)), poly(core.to_real(y)), -1)
            h = reduce(e.num)
            if h and len(h) <= 40:
                hs.append(h)
        rems = []
        for h in hs:
            for lm in [m for m in h if m][:8]:
                r = divide(num, h, lm)
                if not r:
                    return True
                rems.append((len(r), len(rems), r, h))
        # two equations in sequence, from the smallest remainders
        for _, _, r, h in sorted(rems, key=lambda t: t[:2])[:4]:
            for h2 in hs:
                if h2 is h:
                    continue
                for lm in [m for m in h2 if m][:4]:
                    if not divide(r, h2, lm):
                        return True
    except (Unsupported, RecursionError):
        return False
    return False


def divisors(e, out=None, seen=None):
    """All non-literal divisors occurring in a term."""
    if out is None:
        out, seen = [], set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_DIV and not is_num(x.arg(1)):
                out.append(x.arg(1))
            stack.extend(x.children())
    return out
