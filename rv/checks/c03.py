"""Symbolic polynomial algebra commutes with evaluation.

Random programs are run twice: through gpcm.exppoly and through a shadow interpreter that
keeps a dictionary monomial -> coefficient with exact rational (or array) arithmetic.
"""
import random
from fractions import Fraction

import numpy as np

PROPERTY = "C03"
RULE = ("A case is a batch of random expression programs (3-14 operations among +, -, unary -, *, **, scalar mixing "
        "from both sides, substitute, collect/reject) over 2-4 variables with integer, float or array constants; the "
        "symbolic result is evaluated at random scalar/array/JAX assignments and compared with a shadow monomial "
        "interpreter.  Non-trivial: at least two monomials or a cancellation.")
ASSUMPTIONS = ["equality and hashing are judged on integer coefficients, where the arithmetic is exact",
               "powers of polynomials are positive: the zeroth power of a polynomial is the number one in this library"]
BUDGET = {"quick": 40, "thorough": 600}
MANDATORY = 24

NAMES = ["x", "y", "z", "t_1"]


def cases(rng, tier):
    n = 48 if tier == "quick" else 1500
    kinds = ["int", "float", "array", "exp", "equality"]
    for i in range(n):
        yield dict(kind=kinds[i % 5], programs=25, depth=rng.randint(3, 14), nv=rng.randint(1, 4))


# Shadow interpreter: dict frozenset({(name, power)}) -> coefficient.
def s_const(c):
    return {frozenset(): c}


def s_var(n, p=1):
    return {frozenset({(n, p)}): 1}


def s_add(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = out[k] + v if k in out else v
    return out


def s_neg(a):
    return {k: -v for k, v in a.items()}


def s_mul(a, b):
    out = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            d = dict(k1)
            for n, p in k2:
                d[n] = d.get(n, 0) + p
            k = frozenset(d.items())
            out[k] = out[k] + v1 * v2 if k in out else v1 * v2
    return out


def s_pow(a, p):
    out = a
    for _ in range(p - 1):
        out = s_mul(out, a)
    return out


def s_sub(a, name, b):
    out = {}
    for k, v in a.items():
        d = dict(k)
        p = d.pop(name, 0)
        t = {frozenset(d.items()): v}
        if p:
            t = s_mul(t, s_pow(b, p))
        out = s_add(out, t)
    return out


def s_eval(a, env):
    tot = 0.0
    for k, v in a.items():
        t = v
        for n, p in k:
            t = t * env[n] ** p
        tot = tot + t
    return tot


def s_scale(a, env):
    tot = 0.0
    for k, v in a.items():
        t = np.abs(np.asarray(v, float))
        for n, p in k:
            t = t * np.abs(env[n]) ** p
        tot = tot + t
    return float(np.max(tot)) if len(a) else 0.0


def s_deg(a, name):
    return max([0] + [dict(k).get(name, 0) for k, v in a.items() if np.any(np.asarray(v) != 0)])


def coef(rng, kind):
    if kind in ("int", "equality"):
        return rng.choice([-3, -2, -1, 1, 1, 2, 3, 0])
    if kind == "array":
        return np.round(np.array([rng.uniform(-2, 2), rng.uniform(-2, 2), 0.5]), 3)
    return round(rng.uniform(-2, 2), 3)


def program(rng, kind, depth, names):
    """Run one random program in both worlds: (Poly, shadow)."""
    from gpcm.exppoly import const, var

    stack = []
    for n in names:
        p = rng.choice([1, 1, 2, 3])
        stack.append((var(n) if p == 1 and rng.random() < 0.5 else var(n, p), s_var(n, p)))
    c = coef(rng, kind)
    stack.append((const(c), s_const(c)))
    hist = []
    for _ in range(depth):
        op = rng.choice(["add", "sub", "neg", "mul", "pow", "scal", "rscal", "sub_", "same", "subst", "sadd", "mix"])
        a, sa = rng.choice(stack)
        b, sb = rng.choice(stack)
        small = len(sa) <= 12 and len(sb) <= 12 and max(s_deg(sa, n) for n in names) <= 4
        if op == "add":
            r = (a + b, s_add(sa, sb))
        elif op == "sub":
            r = (a - b, s_add(sa, s_neg(sb)))
        elif op == "neg":
            r = (-a, s_neg(sa))
        elif op == "same":
            r = (a - a + b, s_add(s_add(sa, s_neg(sa)), sb))
        elif op == "mul" and small and max(s_deg(sb, n) for n in names) <= 4:
            r = (a * b, s_mul(sa, sb))
        elif op == "pow" and small:
            d = max(s_deg(sa, n) for n in names)
            high = [p for p in (4, 5, 6, 7, 9) if len(sa) <= 3 and d * p <= 14]
            p = rng.choice([1, 2, 2, 3] + high) if len(sa) <= 5 else 1
            r = (a**p, s_pow(sa, p))
        elif op == "scal":
            c = coef(rng, kind)
            r = (a * c, s_mul(sa, s_const(c))) if not isinstance(c, np.ndarray) else (a * const(c), s_mul(sa, s_const(c)))
        elif op == "rscal":
            c = coef(rng, kind)
            c = c if not isinstance(c, np.ndarray) else 2.5
            r = (c * a, s_mul(sa, s_const(c)))
        elif op == "sub_":
            c = coef(rng, kind)
            c = c if not isinstance(c, np.ndarray) else 2
            r = (c - a, s_add(s_const(c), s_neg(sa)))
        elif op == "sadd":
            c = coef(rng, kind)
            c = c if not isinstance(c, np.ndarray) else 1
            r = (rng.choice([lambda: a + c, lambda: c + a])(), s_add(sa, s_const(c)))
        elif op == "subst" and len(sa) <= 6 and len(sb) <= 3:
            n = rng.choice(names)
            if max(s_deg(sa, n), 1) * max([1] + [s_deg(sb, q) for q in names]) <= 6:
                r = (a.substitute(n, b), s_sub(sa, n, sb))
            else:
                continue
        elif op == "mix":
            r = (a + const(1.5 if kind != "int" and kind != "equality" else 2) * b, s_add(sa, s_mul(s_const(1.5 if kind != "int" and kind != "equality" else 2), sb)))
        else:
            continue
        hist.append(op)
        stack.append(r)
    return stack[-1], hist


def run(case, m):
    import jax.numpy as jnp
    from gpcm.exppoly import ExpPoly, Factor, Poly, Term, const, var

    rng = random.Random(case["seed"])
    g = np.random.RandomState(case["seed"] % 2**32)
    names = NAMES[: case["nv"]]
    kind = case["kind"]
    for _ in range(case["programs"]):
        (p, s), hist = program(rng, kind, case["depth"], names)
        if not isinstance(p, Poly):
            m.check("closed", False, got=repr(p), hist=hist)
            continue
        envs = [
            {n: g.uniform(-1.3, 1.3) for n in names},
            {n: g.uniform(-1.3, 1.3, (4, 1)) for n in names},
            {n: jnp.array(g.uniform(-1.3, 1.3, (2, 1))) for n in names},
        ]
        if len(names) > 1:
            envs.append({n: g.uniform(-1, 1, (2, 1, 3) if i % 2 else (5, 1)) for i, n in enumerate(names)})
        for env in envs:
            want = s_eval(s, {k: np.asarray(v) for k, v in env.items()})
            got = p.eval(**env)
            got, want = np.broadcast_arrays(np.asarray(got, float), np.asarray(want, float))
            sc = s_scale(s, {k: np.asarray(v) for k, v in env.items()})
            m.close("eval", got, want, rtol=1e-11, atol=1e-12, scale=sc, hist=hist, poly=str(p)[:300])
        env = envs[1]
        # Splitting: reject plus all collected parts, nothing lost or duplicated.
        n = rng.choice(names)
        dmax = p.highest_power(n) if p.terms else 0
        parts = p.reject(n).eval(**env)
        for q in range(1, dmax + 1):
            cq = p.collect_for(Factor(n, q))
            m.check("collect/free", not cq.is_function_of(n), poly=str(p)[:300], name=n, q=q)
            parts = parts + cq.eval(**env) * env[n] ** q
        m.check("reject/free", not p.reject(n).is_function_of(n), poly=str(p)[:300])
        got, want = np.broadcast_arrays(np.asarray(parts, float), np.asarray(s_eval(s, env), float))
        m.close("split", got, want, rtol=1e-11, atol=1e-12, scale=s_scale(s, env), poly=str(p)[:300], name=n)
        if kind in ("int", "equality"):
            for n in names:
                d = s_deg(s, n)
                m.check("degree", p.highest_power(n) == d, got=p.highest_power(n), want=d, name=n, poly=str(p)[:300], hist=hist)
                m.check("depends", p.is_function_of(n) == (d > 0), name=n, poly=str(p)[:300])
            m.check("constant", p.is_constant() == all(s_deg(s, n) == 0 for n in names), poly=str(p)[:300])
        m.state(kind, len(s), sum(s_deg(s, n) for n in names), "cancel" if any(np.all(np.asarray(v) == 0) for v in s.values()) else "")
        m.event("programs")
        if kind == "exp":
            exp(rng, g, m, p, s, names)
        if kind == "equality":
            equality(rng, m, p, s, names)


def exp(rng, g, m, p, s, names):
    """Exponentiated polynomials: product, scalar product, negation, substitution, translation."""
    from gpcm.exppoly import ExpPoly, const, var

    env = {n: g.uniform(-0.5, 0.5, (3, 1)) for n in names}
    c1, c2 = rng.uniform(-2, 2), rng.uniform(0.5, 2)
    sc = max(1.0, s_scale(s, env))
    q, sq = const(0.1 / sc) * p, s_mul(s_const(0.1 / sc), s)  # Keep the exponents moderate.
    E1, E2 = ExpPoly(c1, q), ExpPoly(c2, var(names[0], 2))
    e1, e2 = c1 * np.exp(s_eval(sq, env)), c2 * np.exp(env[names[0]] ** 2)
    bc = lambda a, b: np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
    k = dict(rtol=1e-11, atol=1e-13)
    m.close("exp/eval", *bc(E1.eval(**env), e1), **k)
    m.close("exp/mul", *bc((E1 * E2).eval(**env), e1 * e2), **k)
    m.close("exp/unit", *bc(ExpPoly(q).eval(**env), e1 / c1), **k)
    m.close("exp/neg", *bc((-E1).eval(**env), -e1), **k)
    m.close("exp/scal", *bc((E1 * 1.7).eval(**env), 1.7 * e1), **k)
    m.close("exp/rscal", *bc((0.3 * E1).eval(**env), 0.3 * e1), **k)
    n = rng.choice(names)
    other = rng.choice(names)
    sh, ssh = const(0.4) * var(other) + 0.2, s_add({frozenset({(other, 1)}): 0.4}, s_const(0.2))
    if s_deg(sq, n) <= 6:
        env2 = dict(env)
        env2[n] = s_eval(ssh, env)
        m.close("exp/substitute", *bc(E1.substitute(n, sh).eval(**env), c1 * np.exp(s_eval(sq, env2))), **k)
        env2[n] = env[n] + s_eval(ssh, env)
        m.close("exp/translate", *bc(E1.translate_var(n, sh).eval(**env), c1 * np.exp(s_eval(sq, env2))), **k)


def equality(rng, m, p, s, names):
    """Rebuild the expression from its monomials in random orders."""
    from gpcm.exppoly import ExpPoly, Factor, Poly, Term, const, var

    mons = [(k, v) for k, v in s.items() if v != 0]
    if not mons:
        return

    def rebuild():
        ms = list(mons)
        rng.shuffle(ms)
        out = None
        for k, v in ms:
            fs = []
            for n, e in k:
                # Split powers into factors, in random order.
                while e:
                    d = rng.randint(1, e)
                    fs.append((n, d))
                    e -= d
            rng.shuffle(fs)
            if rng.random() < 0.5:
                t = Poly(Term(v, *[Factor(n, d) for n, d in fs]))
            else:
                t = const(v)
                for n, d in fs:
                    t = t * var(n, d)
            out = t if out is None else (out + t if rng.random() < 0.5 else t + out)
        return out

    a, b = rebuild(), rebuild()
    m.check("equal/orders", a == b and b == a, a=str(a), b=str(b))
    m.check("equal/program", p == a and a == p, a=str(a), p=str(p))
    m.check("equal/exp", ExpPoly(2, a) == ExpPoly(2, b))
    m.check("unequal/const", not (ExpPoly(2, a) == ExpPoly(3, b)))
    c = a + var(names[0], 7)
    m.check("unequal/extra", not (c == a))
    k, v = rng.choice(mons)
    d = a + Poly(Term(1, *[Factor(n, e) for n, e in k]))
    m.check("unequal/coef", not (d == a), a=str(a), d=str(d))
    fs = [Factor(n, rng.randint(1, 3)) for n in names]
    f2 = fs[:]
    rng.shuffle(f2)
    t1, t2 = Term(v, *fs), Term(v, *f2)
    m.check("term/equal", t1 == t2)
    m.check("term/hash", hash(t1) == hash(t2))
    # A term split and merged in different ways.
    t3 = Term(v) * Term(1, *fs[:1]) * Term(1, *fs[1:])
    m.check("term/product", t3 == t1 and hash(t3) == hash(t1), t1=str(t1), t3=str(t3))
    # Neutral elements, so that lists can be summed and multiplied; anything else is not a term.
    m.check("term/neutral", 1 * t1 == t1 and t1 * 1 == t1 and 0 + t1 == t1 and t1 + 0 == t1 and sum([t1, t1, -t1]) == t1, t=str(t1))
    m.check("factor/neutral", 1 * fs[0] == fs[0] and fs[0] * 1 == fs[0])
    env = {n: rng.choice([-2, -1, 1, 2, 3]) for n in names}
    want = v
    for f in fs:
        want = want * env[f.name] ** f.power
    m.check("term/eval", t1.eval(**env) == want and (-t1).eval(**env) == -want and (t1 + t2).eval(**env) == 2 * want, t=str(t1))
    m.check("term/of", (t1.is_constant() == (v == 0)) and all(t1.is_function_of(f.name) == (v != 0) and t1.highest_power(f.name) == (f.power if v != 0 else 0) for f in fs)
            and not t1.is_function_of("w") and t1.highest_power("w") == 0, t=str(t1))
    m.raises("term/sum of different ones", RuntimeError, lambda: Term(2, *fs) + Term(2, Factor(names[0], 9)))
    m.raises("term/scaled", RuntimeError, lambda: t1 * 2)
    m.raises("factor/different variables", RuntimeError, lambda: Factor("x") * Factor("y"))
    m.raises("factor/power", ValueError, lambda: Factor("x", 0))
    m.check("factor/hash", Factor("x", 2) == Factor("x") * Factor("x") and hash(Factor("x", 2)) == hash(Factor("x") * Factor("x")))
    m.check("factor/unequal", not (Factor("x", 2) == Factor("x", 3)) and not (Factor("x", 2) == Factor("y", 2)))
    m.state("equality", len(mons))
