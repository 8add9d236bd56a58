"""Sine and cosine of symbolic angles.

An angle is normalised to  sum_j q_j * a_j  +  r * pi  where r is a rational plus
an integer-valued term.  Even multiples of pi are dropped, quarter turns are
applied, and the remainder is expanded by the addition theorems for sums of at
most a few atoms; multiples of one atom are kept as separate base angles.
"""
from fractions import Fraction

from . import core
from .core import Unsupported, z3
from .poly import ATOMS, RULES, atom, canon, from_poly, pkey


def sincos(e):
    c = core.ctx()
    key = ("sincos", e.get_id())
    c.keep.append(e)
    if key in c.memo:
        return c.memo[key]
    r = _sincos(e)
    c.memo[key] = r
    return r


def _sincos(e):
    c = core.ctx()
    try:
        p = canon(e)
    except Unsupported:
        return base(e, ("id", e.get_id()))
    if p.den is not None:
        return base(e, ("rat", pkey(p.num), pkey(p.den)))
    pi = atom(core.PI)
    rest, quarter = {}, Fraction(0)
    intparts = []
    for m, co in p.num.items():
        d = dict(m)
        if d.get(pi, 0) == 1:
            others = tuple((a, k) for a, k in m if a != pi)
            if not others:
                quarter += 2 * co
                continue
            if all(core._is_intatom(a) for a, _ in others):
                # co * pi * (integer term)
                if co % 2 == 0:
                    continue  # multiple of 2 pi
                if co.denominator == 1:
                    intparts.append((co, others))
                    continue
        rest[m] = co
    k = quarter.numerator // quarter.denominator
    frac = quarter - k
    if frac:
        rest[((pi, 1),)] = frac / 2
    if intparts:
        # odd multiples of pi: sign (-1)^n
        t = None
        for co, others in intparts:
            x = z3.IntVal(int(co))
            for a, j in others:
                ex = ATOMS[a]
                ex = ex.arg(0) if z3.is_app_of(ex, z3.Z3_OP_TO_REAL) else ex
                for _ in range(j):
                    x = x * ex
            t = x if t is None else t + x
        sign = z3.If(t % 2 == 0, z3.RealVal(1), z3.RealVal(-1))
    else:
        sign = None
    s, co = angle(rest)
    k %= 4
    if k == 1:
        s, co = co, core.t_neg(s)
    elif k == 2:
        s, co = core.t_neg(s), core.t_neg(co)
    elif k == 3:
        s, co = core.t_neg(co), s
    if sign is not None:
        s, co = s * sign, co * sign
    return s, co


def angle(rest):
    if not rest:
        return z3.RealVal(0), z3.RealVal(1)
    # leading sign: normalise so that the first monomial has a positive coefficient
    items = sorted(rest.items())
    if items[0][1] < 0:
        s, c = angle({m: -v for m, v in rest.items()})
        return core.t_neg(s), c
    # sum: addition theorem over monomials when known base angles occur
    cx = core.ctx()
    known = cx.memo.get("trig-known", {})
    if len(items) > 1:
        # an inverse-trig atom (atan2, acos) splits off
        for m, v in items:
            if m in known and v in (1, -1):
                r2 = {a: b for a, b in rest.items() if a != m}
                s1, c1 = known[m]
                if v < 0:
                    s1 = core.t_neg(s1)
                s2, c2 = angle(r2)
                return s1 * c2 + c1 * s2, c1 * c2 - s1 * s2
    elif items[0][0] in known:
        m, v = items[0]
        if v == 1:
            return known[m]
    return base(from_poly(rest), ("poly", pkey(rest)))


def base(e, key):
    c = core.ctx()
    k = ("trigbase", key)
    if k not in c.memo:
        s, co = core.fresh_real("sin"), core.fresh_real("cos")
        c.add_fact(s * s + co * co == 1)
        c.add_fact(z3.And(s >= -1, s <= 1, co >= -1, co <= 1))
        RULES.add_pyth(s, co)
        h = core.PI / 2
        c.add_fact(z3.Implies(z3.And(e > -h, e < h), co > 0))
        c.add_fact(z3.Implies(z3.And(e > 0, e < core.PI), s > 0))
        c.add_fact(z3.Implies(z3.And(e < 0, e > -core.PI), s < 0))
        c.add_fact(z3.Implies(e == 0, z3.And(s == 0, co == 1)))
        c.add_fact(z3.Implies(e == h, z3.And(s == 1, co == 0)))
        c.add_fact(z3.Implies(e == -h, z3.And(s == -1, co == 0)))
        c.add_fact(z3.Implies(z3.Or(e == core.PI, e == -core.PI), z3.And(s == 0, co == -1)))
        c.add_fact(z3.Implies(z3.And(e > h, e <= core.PI), co < 0))
        c.add_fact(z3.Implies(z3.And(e < -h, e >= -core.PI), co < 0))
        # injectivity on one turn, against the other base angles
        for e2, s2, c2 in c.memo.get("trig-list", []):
            c.add_fact(
                z3.Implies(
                    z3.And(s == s2, co == c2, e - e2 > -2 * core.PI, e - e2 < 2 * core.PI),
                    e == e2,
                )
            )
            c.add_fact(z3.Implies(e == e2, z3.And(s == s2, co == c2)))
        c.memo.setdefault("trig-list", []).append((e, s, co))
        c.memo[k] = (s, co)
    return c.memo[k]


def register(e, s, co):
    """Record that angle term e (an atom) has sine s and cosine co."""
    c = core.ctx()
    c.memo.setdefault("trig-known", {})[((atom(e), 1),)] = (s, co)
    for e2, s2, c2 in c.memo.get("trig-list", []):
        c.add_fact(
            z3.Implies(
                z3.And(s == s2, co == c2, e - e2 > -2 * core.PI, e - e2 < 2 * core.PI),
                e == e2,
            )
        )
    c.memo.setdefault("trig-list", []).append((e, s, co))


def s_arctan2(y, x):
    y, x = core.lift(y), core.lift(x)
    if type(y.inf) is not int or type(x.inf) is not int:
        raise Unsupported("arctan2 of infinity")
    c = core.ctx()
    ey, ex = core.to_real(y.e), core.to_real(x.e)
    from .poly import canon_key

    key = ("atan2", canon_key(ey), canon_key(ex))
    if key not in c.memo:
        t = core.fresh_real("atan2")
        s, co = core.fresh_real("sin"), core.fresh_real("cos")
        r = core.t_sqrt(core.t_add(core.t_mul(ex, ex), core.t_mul(ey, ey)))
        PI = core.PI
        c.add_fact(z3.And(t > -PI, t <= PI))
        c.add_fact(z3.And(s * s + co * co == 1))
        c.add_fact(z3.And(r * s == ey, r * co == ex))
        c.add_fact(z3.Implies(z3.And(ex == 0, ey == 0), z3.And(t == 0, s == 0, co == 1)))
        RULES.add_pyth(s, co)
        h = PI / 2
        c.add_fact((s > 0) == z3.And(t > 0, t < PI))
        c.add_fact((s < 0) == (t < 0))
        c.add_fact((co > 0) == z3.And(t > -h, t < h))
        c.add_fact((co == 0) == z3.Or(t == h, t == -h))
        c.add_fact(z3.Implies(t == 0, z3.And(s == 0, co == 1)))
        c.memo[key] = t
        register(t, s, co)
    return core.SNum(c.memo[key], core.b_or(y.nan, x.nan))


def s_arccos(a):
    a = core.lift(a)
    if type(a.inf) is not int:
        raise Unsupported("arccos of infinity")
    e = core.to_real(a.e)
    c = core.ctx()
    from .poly import canon_key

    key = ("acos", canon_key(e))
    ok = z3.And(e >= -1, e <= 1)
    if key not in c.memo:
        t = core.fresh_real("acos")
        s = core.fresh_real("sin")
        PI = core.PI
        h = PI / 2
        c.add_fact(z3.Implies(ok, z3.And(t >= 0, t <= PI, s >= 0, s * s + e * e == 1)))
        c.add_fact(z3.Implies(ok, z3.And((e > 0) == (t < h), (e == 0) == (t == h), (s == 0) == z3.Or(t == 0, t == PI))))
        c.add_fact(z3.Implies(ok, z3.And((e == 1) == (t == 0), (e == -1) == (t == PI))))
        c.memo[key] = t
        register(t, s, e)
    bad = core._simpb(z3.Not(ok))
    if bad is not False and c.entails(core.b_not(bad)):
        bad = False
    return core.SNum(c.memo[key], core.b_or(a.nan, bad))


def s_arctan(a):
    a = core.lift(a)
    if type(a.inf) is not int:
        raise Unsupported("arctan of infinity")
    return s_arctan2(core.SNum(core.to_real(a.e), a.nan), 1.0)
