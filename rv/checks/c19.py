"""Autocorrelations against direct sums; permutations against their definition."""
import numpy as np

from ..core import to_numpy

PROPERTY = "C19"
RULE = ("A case is a series (length 2 to 600; random walk, sinusoid, trend, integers, large offset, matrix-shaped, list, float32, JAX) with all "
        "eight option combinations and several lag counts, compared with direct double sums, and shifted, scaled and reversed copies; or "
        "a permutation given as a list, tuple or array, inverted and composed.  Non-trivial: a sequence compared.")
ASSUMPTIONS = ["series are not constant when correlations are asked for"]
BUDGET = {"quick": 40, "thorough": 300}
MANDATORY = 80
MIN_CASES = 80


def cases(rng, tier):
    n = 300 if tier == "quick" else 8000
    for i in range(n):
        yield dict(kind="perm" if i % 4 == 3 else "acf", n=rng.choice([2, 3, 4, 7, 20, 101, 600]), series=rng.choice(["walk", "sine", "trend", "int", "offset", "spike", "alternate"]),
                   form=rng.choice(["array", "array", "matrix", "column", "list", "float32", "jax", "tensor"]), offset=10.0 ** rng.randint(-3, 4))


def series(name, n, g):
    if name == "walk":
        return np.cumsum(g.randn(n))
    if name == "sine":
        return np.sin(np.arange(n) * g.uniform(0.05, 3)) + 0.1 * g.randn(n)
    if name == "trend":
        return np.arange(n) * 0.1 + g.randn(n)
    if name == "int":
        return np.concatenate([[0, 1], g.randint(-5, 6, max(n - 2, 0))])[:n]
    if name == "offset":
        return g.randn(n) + 1000.0
    if name == "spike":
        x = np.zeros(n)
        x[g.randint(n)] = 3.0
        return x
    return (-1.0) ** np.arange(n) + 0.05 * g.randn(n)


def direct(x, lags, cov, window):
    x = np.asarray(x, float).reshape(-1)
    n = len(x)
    x = x - x.mean()
    k = np.array([np.dot(x[: n - j], x[j:]) / (n if window else n - j) for j in range(n)])
    if lags is not None:
        k = k[: lags + 1]
    return k if cov else k / k[0]


def run(case, m):
    import jax.numpy as jnp
    from gpcm.util import autocorr, invert_perm

    g = np.random.RandomState(case["seed"] % 2**32)
    n = case["n"]
    if case["kind"] == "perm":
        return perms(m, g, n, invert_perm)
    x = series(case["series"], n, g)
    f = case["form"]
    y = x
    tol = 1e-9
    if f == "matrix" and n % 2 == 0:
        y = x.reshape(2, n // 2)
    if f == "tensor" and n % 4 == 0:
        y = x.reshape(2, 2, n // 4)
    if f == "column":
        y = x.reshape(n, 1)
    if f == "list":
        y = [v.item() for v in x]
    if f == "float32":
        y = x.astype(np.float32)
        x = y.astype(float)
        tol = 5e-3 if case["series"] == "offset" else 2e-4
    if f == "jax":
        y = jnp.array(x)
    y0 = np.array(y)
    tol_s = tol
    for cov in (False, True):
        for window in (False, True):
            for lags in (None, 0, 1, n // 2, n - 1, n + 5):
                kw = dict(cov=cov, window=window)
                if lags is not None:
                    kw["lags"] = lags
                want = direct(x, lags, cov, window)
                got = autocorr(y, **kw)
                m.close("definition", to_numpy(got), want, rtol=tol_s, atol=0, scale=max(abs(want[0]), np.max(np.abs(want))), n=n, series=case["series"], form=f, lags=lags, **{k: kw[k] for k in ("cov", "window")})
    m.check("defaults", np.allclose(to_numpy(autocorr(y)), direct(x, None, False, False), rtol=0, atol=tol * 50 * n), n=n)
    m.check("input unmodified", np.array_equal(np.array(y), y0))
    m.state("acf", case["series"], n, f)
    # Invariances.
    x = np.asarray(x, float)
    sd = np.std(x)
    for window in (False, True):
        a = to_numpy(autocorr(x, window=window))
        ac = to_numpy(autocorr(x, cov=True, window=window))
        s = np.max(np.abs(a))
        c = case["offset"] * sd
        m.close("shift", to_numpy(autocorr(x + c, window=window)), a, rtol=1e-7 * (1 + case["offset"] * 1e-3), atol=0, scale=s, n=n)
        m.close("shift/cov", to_numpy(autocorr(x - c, cov=True, window=window)), ac, rtol=1e-7 * (1 + case["offset"] * 1e-3), atol=0, n=n)
        m.close("scale", to_numpy(autocorr(-2.5 * x, window=window)), a, rtol=1e-9, atol=0, scale=s, n=n)
        m.close("scale/cov", to_numpy(autocorr(-2.5 * x, cov=True, window=window)), 6.25 * ac, rtol=1e-9, atol=0, n=n)
        m.close("reversal", to_numpy(autocorr(x[::-1], window=window)), a, rtol=1e-8, atol=0, scale=s, n=n)
        if window:
            m.le("bounded", np.max(np.abs(a)), 1 + 1e-9, n=n)
    m.close("lag zero", to_numpy(autocorr(x, cov=True))[0], np.var(x), rtol=1e-9, atol=0, n=n)


def perms(m, g, n, invert_perm):
    p = g.permutation(n)
    x = g.randn(n)
    forms = [p, list(p), tuple(int(i) for i in p), p.astype(np.int32)]
    q = None
    for f in forms:
        q = np.asarray(invert_perm(f))
        m.check("shape", q.shape == (n,) and np.issubdtype(q.dtype, np.integer), shape=q.shape, dtype=str(q.dtype))
        m.check("undoes", np.array_equal(x[p][q], x) and np.array_equal(x[q][p], x), n=n, p=p)
        m.check("definition", np.array_equal(p[q], np.arange(n)) and np.array_equal(q[p], np.arange(n)), n=n, p=p)
    m.check("involution", np.array_equal(np.asarray(invert_perm(q)), p))
    r = g.permutation(n)
    m.check("antihomomorphism", np.array_equal(np.asarray(invert_perm(p[r])), np.asarray(invert_perm(r))[q]))
    m.check("input unmodified", np.array_equal(forms[1], p))
    m.check("identity", np.array_equal(np.asarray(invert_perm(np.arange(n))), np.arange(n)))
    m.state("perm", n, int(np.sum(p == np.arange(n))))
