"""Spectra of kernels against a direct cosine transform and known transform pairs."""
import numpy as np

from ..core import to_numpy

PROPERTY = "C15"
RULE = ("A case is a kernel sampled on a grid starting at zero (smooth, rough, oscillating, periodic, non-PSD, noise; 3 to 700 lags, "
        "spacings 1e-4 to 1e3, paddings 0 to 5000, NumPy, JAX, list-like float32) evaluated plainly and in decibels; every spectrum is "
        "compared with a direct cosine sum over the padded symmetric extension, and metamorphic runs scale the kernel, rescale time "
        "and extend the padding; fine grids are compared with closed-form spectra.  Non-trivial: a spectrum compared.")
ASSUMPTIONS = ["spectra below 1e-9 of their maximum are compared absolutely"]
BUDGET = {"quick": 40, "thorough": 400}
MANDATORY = 60
MIN_CASES = 60


def cases(rng, tier):
    n = 260 if tier == "quick" else 5000
    kinds = ["direct", "direct", "direct", "meta", "known", "bad"]
    for i in range(n):
        yield dict(kind=kinds[i % 6], shape=rng.choice(["gauss", "exp", "cos", "damped", "noise", "tri", "boxy", "sinc"]),
                   n=rng.choice([3, 4, 5, 8, 33, 100, 300, 700]), dt=float(f"{10 ** rng.uniform(-4, 3):.4g}"),
                   zero=rng.choice([None, None, 0, 1, 2, 17, 500, 5000]), jax=rng.choice([False, False, True]),
                   scale=float(f"{10 ** rng.uniform(-4, 4):.4g}"), width=rng.uniform(0.02, 0.6), c=float(f"{10 ** rng.uniform(-2, 2):.4g}"))


def kernel(name, t, T, w, g):
    l = w * T
    if name == "gauss":
        return np.exp(-0.5 * (t / l) ** 2)
    if name == "exp":
        return np.exp(-t / l)
    if name == "cos":
        return np.cos(2 * np.pi * t / l)
    if name == "damped":
        return np.exp(-t / T * 3) * np.cos(2 * np.pi * t / l)
    if name == "noise":
        k = g.randn(len(t)) * 0.4
        k[0] = 1.0
        return k
    if name == "tri":
        return np.maximum(1 - t / l, 0)
    if name == "boxy":
        return (t <= l).astype(float)
    return np.sinc(t / l)


def direct(t, k, n_zero):
    """Frequencies and normalised spectrum by direct summation."""
    k = np.concatenate([k, np.zeros(n_zero)])
    N = len(k)
    M = 2 * N - 2
    full = np.concatenate([k, k[1:-1][::-1]])
    # All non-negative frequencies below Nyquist.
    idx = np.arange(0, (M + 1) // 2)
    dt = t[1] - t[0]
    nz = np.nonzero(full)[0]

    def at(i):
        # exact integer phases
        return np.abs(np.cos(2 * np.pi * (np.outer(i, nz) % M) / M) @ full[nz])

    S = at(idx)
    # Normalisation: integral over all M bins equals k[0].
    nyq = at(np.array([M // 2]))[0] if M % 2 == 0 else 0.0
    total = S[0] + 2 * np.sum(S[1:]) + nyq
    df = 1 / (M * dt)
    return idx * df, S / (total * df) * k[0], nyq / (total * df) * k[0], df


def run(case, m):
    import jax.numpy as jnp
    from gpcm.util import estimate_psd

    g = np.random.RandomState(case["seed"] % 2**32)
    n, dt = case["n"], case["dt"]
    t = dt * np.arange(n)
    k = case["scale"] * kernel(case["shape"], t, t[-1], case["width"], g)
    kw = {} if case["zero"] is None else dict(n_zero=case["zero"])
    nz = 2000 if case["zero"] is None else case["zero"]
    wrap = (lambda x: jnp.array(x)) if case["jax"] else (lambda x: x)
    key = {x: case[x] for x in ("shape", "n", "dt", "zero", "width")}

    if case["kind"] == "bad":
        m.state("bad", case["n"])
        for shift in (dt, -dt, 1e-3 * dt):
            m.raises("not at zero", ValueError, lambda: estimate_psd(wrap(t + shift), wrap(k), **kw))
        return
    if case["kind"] == "known":
        return known(case, m, g)

    t0, k0 = t.copy(), k.copy()
    f, S = estimate_psd(wrap(t), wrap(k), **kw)
    m.check("inputs unmodified", np.array_equal(t, t0) and np.array_equal(k, k0), **key)
    f, S = to_numpy(f), to_numpy(S)
    ff, SS, nyq, df = direct(t, k, nz)
    m.close("frequencies", f, ff, rtol=1e-10, atol=0, **key)
    m.close("spectrum", S, SS, rtol=1e-9, atol=0, **key)
    m.check("increasing from zero", f[0] == 0 and np.all(np.diff(f) > 0), **key)
    m.le("non-negative", 0, np.min(S), **key)
    # Power: both signs of each frequency and the bin at Nyquist.
    if S.shape == SS.shape:
        power = (S[0] + 2 * np.sum(S[1:]) + nyq) * df
        m.close("total power", power, k[0], rtol=1e-9, atol=0, **key)
    m.state(case["kind"], case["shape"], n, case["zero"], case["jax"])
    fd, Sd = estimate_psd(wrap(t), wrap(k), db=True, **kw)
    ok = SS > 1e-6 * SS.max()
    m.close("decibel frequencies", to_numpy(fd), ff, rtol=1e-10, atol=0, **key)
    if np.shape(Sd) == SS.shape:
        m.close("decibels", to_numpy(Sd)[ok], 10 * np.log10(SS[ok]), rtol=0, atol=1e-4, **key)
    if case["kind"] == "meta":
        c = case["c"]
        f1, S1 = estimate_psd(wrap(t), wrap(c * k), **kw)
        m.close("scaled kernel", to_numpy(S1), c * S, rtol=1e-9, atol=0, **key)
        m.close("scaled kernel frequencies", to_numpy(f1), f, rtol=1e-12, atol=0, **key)
        f2, S2 = estimate_psd(wrap(c * t), wrap(k), **kw)
        m.close("rescaled time", to_numpy(S2), c * S, rtol=1e-9, atol=0, **key)
        m.close("rescaled frequencies", to_numpy(f2), f / c, rtol=1e-10, atol=0, **key)
        # Padding is the same as appending zeros to the kernel.
        te = dt * np.arange(n + 11)
        f3, S3 = estimate_psd(wrap(te), wrap(np.concatenate([k, np.zeros(11)])), n_zero=nz)
        f4, S4 = estimate_psd(wrap(t), wrap(k), n_zero=nz + 11)
        m.close("padding", to_numpy(S3), to_numpy(S4), rtol=1e-10, atol=0, **key)


def known(case, m, g):
    """Closed-form transform pairs on fine grids."""
    from gpcm.util import estimate_psd

    l, s = case["dt"], case["scale"]
    t = np.linspace(0, 30 * l, 3001)
    for name, k, S, tol in (("gauss", np.exp(-0.5 * (t / l) ** 2), lambda f: l * np.sqrt(2 * np.pi) * np.exp(-2 * (np.pi * f * l) ** 2), 1e-6),
                            ("exp", np.exp(-t / l), lambda f: 2 * l / (1 + (2 * np.pi * f * l) ** 2), 2e-3),
                            ("damped", np.exp(-0.5 * (t / l) ** 2) * np.cos(4 * t / l), lambda f: 0.5 * l * np.sqrt(2 * np.pi) * (
                                np.exp(-0.5 * (2 * np.pi * f * l - 4) ** 2) + np.exp(-0.5 * (2 * np.pi * f * l + 4) ** 2)), 1e-6)):
        f, P = estimate_psd(t, s * k)
        m.close("closed form/" + name, P, s * S(f), rtol=tol, atol=0, l=l, s=s)
        f, P = estimate_psd(t, s * k, db=True)
        ok = S(f) > 1e-3 * np.max(S(f))
        m.close("closed form in decibels/" + name, P[ok], 10 * np.log10(s * S(f)[ok]), rtol=0, atol=0.02 if name != "exp" else 0.4, l=l, s=s)
    m.state("known", f"{l:.1g}")
