"""The closest PSD matrix against an independent eigendecomposition and variational conditions."""
import numpy as np

from ..core import to_numpy

PROPERTY = "C16"
RULE = ("A case is a square matrix (dimension 1 to 60; symmetric, asymmetric, skew, PSD of any rank, negative definite, with repeated or "
        "opposite eigenvalues, zero, permutation-like, kernel matrices; scales 1e-6 to 1e6; NumPy, JAX and structured types).  The result "
        "must be symmetric and PSD, satisfy the projection's optimality conditions (residual negative semi-definite and orthogonal), equal "
        "the eigenvalue clipping and be idempotent; the inverse must satisfy the Penrose conditions with it.  Non-trivial: a projection compared.")
ASSUMPTIONS = ["agreement within 1e-9 of the matrix norm; inverses are tested when eigenvalues of the projection are not within rounding of zero"]
BUDGET = {"quick": 40, "thorough": 400}
MANDATORY = 100
MIN_CASES = 100

KINDS = ["general", "symmetric", "psd", "lowrank", "negative", "opposite", "repeated", "zero", "skew", "perm", "kernel", "diagonal", "structured", "inverse", "inverse"]


def cases(rng, tier):
    n = 450 if tier == "quick" else 15000
    for i in range(n):
        yield dict(kind=KINDS[i % len(KINDS)], n=rng.choice([1, 2, 2, 3, 5, 8, 20, 60]), scale=10.0 ** rng.randint(-6, 6), jax=rng.random() < 0.4, epsilon=0.0)


def matrix(kind, n, g):
    A = g.randn(n, n)
    Q = np.linalg.qr(A)[0]
    sym = lambda ev: (Q * ev) @ Q.T
    if kind == "general":
        return A
    if kind == "symmetric":
        return A + A.T
    if kind == "psd":
        return A @ A.T
    if kind == "lowrank":
        B = g.randn(n, max(n // 2, 1))
        return B @ B.T
    if kind == "negative":
        return -A @ A.T
    if kind == "opposite":
        ev = g.uniform(0.5, 2, (n + 1) // 2)
        return sym(np.concatenate([ev, -ev])[:n])
    if kind == "repeated":
        return sym(g.choice([-1.0, 1.0, 2.0, 0.0], n))
    if kind == "zero":
        return np.zeros((n, n))
    if kind == "skew":
        return A - A.T + (np.eye(n) if g.rand() < 0.5 else 0)
    if kind == "perm":
        return np.eye(n)[g.permutation(n)]
    if kind == "kernel":
        x = np.linspace(0, 3, n)
        K = np.exp(-0.5 * (x[:, None] - x) ** 2)
        return K - g.choice([0, 1e-9, 1e-3, 0.1]) * np.eye(n)
    if kind == "diagonal":
        return np.diag(g.randn(n) * (g.rand(n) < 0.8))
    if kind == "inverse":
        # Eigenvalues bounded away from zero or clearly negative.
        ev = g.uniform(0.2, 3, n) * np.where(g.rand(n) < 0.35, -1, 1)
        if g.rand() < 0.3:
            ev = np.abs(ev)
        return sym(ev)
    return A


def run(case, m):
    import jax.numpy as jnp
    from gpcm.util import closest_psd

    g = np.random.RandomState(case["seed"] % 2**32)
    n = case["n"]
    if case["kind"] == "structured":
        return structured(case, m, g)
    A = matrix(case["kind"], n, g) * case["scale"]
    if case["kind"] == "inverse" and g.rand() < 0.5:
        K = g.randn(n, n) * case["scale"]
        A = A + K - K.T  # A skew part must not matter.
    A0 = A.copy()
    X = jnp.array(A) if case["jax"] else A
    P = closest_psd(X)
    m.check("input unmodified", np.array_equal(A, A0))
    m.check("kind kept", case["jax"] == (not isinstance(P, np.ndarray)), got=type(P).__name__)
    judge(case, m, A, to_numpy(P))
    m.close("idempotent", to_numpy(closest_psd(P)), to_numpy(P), rtol=1e-9, atol=1e-300, scale=np.linalg.norm(A), **key(case))
    # The projection ignores the skew part, commutes with positive scaling and rotations.
    K = g.randn(n, n) * case["scale"]
    m.close("skew part ignored", to_numpy(closest_psd(A + K - K.T)), to_numpy(P), rtol=1e-9, atol=1e-300, scale=np.linalg.norm(A) + np.linalg.norm(K), **key(case))
    p = g.permutation(n)
    m.close("equivariant", to_numpy(closest_psd(A[np.ix_(p, p)])), to_numpy(P)[np.ix_(p, p)], rtol=1e-9, atol=1e-300, scale=np.linalg.norm(A), **key(case))
    if case["kind"] == "inverse":
        inverse(case, m, A, to_numpy(closest_psd(X, inv=True)))


def key(case):
    return {k: case[k] for k in ("kind", "n", "jax")} | dict(amp=case["scale"])


def judge(case, m, A, P):
    n = len(A)
    s = np.linalg.norm(A) + 1e-300
    S = (A + A.T) / 2
    k = key(case)
    if not m.close("symmetric", P, P.T, rtol=1e-10, atol=0, scale=s, **k):
        return
    ev = np.linalg.eigvalsh((P + P.T) / 2)
    m.le("PSD", -ev[0], 1e-10 * s, **k)
    D = P - S
    m.le("residual PSD", -np.linalg.eigvalsh((D + D.T) / 2)[0], 1e-9 * s, **k)
    m.le("residual orthogonal", abs(np.sum(D * P)), 1e-9 * s**2, **k)
    w, V = np.linalg.eigh(S)
    m.close("clipping", P, (V * np.maximum(w, 0)) @ V.T, rtol=1e-9, atol=0, scale=s, **k)
    if w[0] >= 0:
        m.close("PSD unchanged", P, S, rtol=1e-9, atol=0, scale=s, **k)
    rank = int(np.sum(w > 1e-9 * s))
    m.state(case["kind"], n, rank, case["jax"])


def inverse(case, m, A, G):
    S = (A + A.T) / 2
    w, V = np.linalg.eigh(S)
    P = (V * np.maximum(w, 0)) @ V.T
    want = (V * np.where(w > 0, 1 / w, 0)) @ V.T
    k = key(case)
    s = 1 / np.min(np.abs(w))
    a = np.linalg.norm(A) / np.linalg.norm(S)
    m.close("inverse", G, want, rtol=1e-9 * (1 + a), atol=0, scale=s, **k)
    m.close("inverse/P G P", P @ G @ P, P, rtol=1e-8 * (1 + a), atol=0, scale=np.linalg.norm(P) + 1e-300, **k)
    m.close("inverse/G P G", G @ P @ G, G, rtol=1e-8 * (1 + a), atol=0, scale=s, **k)
    m.close("inverse/symmetric", G @ P, (G @ P).T, rtol=1e-8 * (1 + a), atol=0, scale=1.0, **k)
    m.event("inverses", 1)


def structured(case, m, g):
    """The structured types the models produce."""
    import jax.numpy as jnp
    from matrix import Dense, Diagonal, LowRank
    from gpcm.util import closest_psd

    n, s = case["n"], case["scale"]
    A = g.randn(n, n) * s
    d = g.randn(n) * s
    l = g.randn(n, 1) * np.sqrt(s)
    J = jnp.array if case["jax"] else (lambda x: x)
    for T, M in ((Dense(J(A)), A), (Diagonal(J(d)), np.diag(d)), (Diagonal(J(d)) + LowRank(left=J(l)), np.diag(d) + l @ l.T),
                 (LowRank(left=J(l)), l @ l.T)):
        judge(case, m, M, to_numpy(closest_psd(T)))
    dd = np.where(np.abs(d) < 0.05 * s, s, d)
    inverse(case, m, np.diag(dd), to_numpy(closest_psd(Diagonal(J(dd)), inv=True)))
