"""Independent reference model: NumPy quadrature of the defining integrals.

Nothing here uses gpcm.  The filter h(s), s the lag, and the excitation x(tau) are
discretised on Gauss-Legendre panels; a white process has covariance diag(1/w).
"""
import numpy as np

_GL = {}


def gl(n):
    if n not in _GL:
        _GL[n] = np.polynomial.legendre.leggauss(n)
    return _GL[n]


def panels(breaks, width, n=12):
    """Composite Gauss-Legendre nodes/weights on the intervals between ``breaks``."""
    x0, w0 = gl(n)
    breaks = np.unique(np.asarray(breaks, float))
    xs, ws = [], []
    for lo, hi in zip(breaks[:-1], breaks[1:]):
        if hi - lo < 1e-14:
            continue
        k = max(1, int(np.ceil((hi - lo) / width)))
        e = np.linspace(lo, hi, k + 1)
        for a, b in zip(e[:-1], e[1:]):
            xs.append(0.5 * (b - a) * x0 + 0.5 * (a + b))
            ws.append(0.5 * (b - a) * w0)
    if not xs:
        return np.zeros(0), np.zeros(0)
    return np.concatenate(xs), np.concatenate(ws)


class RefG:
    """GPCM (causal=False) / CGPCM (causal=True)."""

    def __init__(self, alpha, alpha_t, gamma, omega, omega_t, t_u, t_z, causal, noise=None, n=10, **_):
        self.alpha, self.alpha_t, self.gamma = float(alpha), float(alpha_t), float(gamma)
        self.omega, self.omega_t = float(omega), float(omega_t)
        self.t_u, self.t_z = np.asarray(t_u, float), np.asarray(t_z, float)
        self.causal, self.noise = causal, noise
        self.n = n
        S = 6.2 / np.sqrt(self.alpha)
        self.S = S
        # Panel width: a fraction of the shortest length scale.
        self.width = 1.2 / np.sqrt(max(self.alpha + self.gamma, self.omega, self.alpha))
        self.s, self.w = panels([0.0 if causal else -S, S], self.width, n)

    def kh(self, s1, s2):
        return self.alpha_t**2 * np.exp(-self.alpha * (s1**2 + s2**2) - self.gamma * (s1 - s2) ** 2)

    def kxs(self, tau, z):
        return self.omega_t * np.exp(-self.omega * (tau - z) ** 2)

    def K_u(self):
        return self.kh(self.t_u[:, None], self.t_u[None, :])

    def K_z(self):
        # int kxs(tau, z) kxs(tau, z') dtau over the line.
        lo, hi = self.t_z.min() - 6.2 / np.sqrt(self.omega), self.t_z.max() + 6.2 / np.sqrt(self.omega)
        x, w = panels([lo, hi], 1.2 / np.sqrt(self.omega), self.n)
        A = self.kxs(x[:, None], self.t_z[None, :])
        return A.T @ (w[:, None] * A)

    def i_hx(self, t1, t2):
        t1, t2 = np.broadcast_arrays(np.asarray(t1, float), np.asarray(t2, float))
        out = np.zeros(t1.shape)
        for i in np.ndindex(*t1.shape):
            s, w = self._lags(t2[i] - t1[i])
            out[i] = np.sum(w * self.kh(s, s + (t2[i] - t1[i])))
        return out

    def _lags(self, d):
        """Nodes for s = t1 - tau with t2 - tau = s + d, d = t2 - t1."""
        if self.causal:
            lo = max(0.0, -d)
            return panels([lo, lo + self.S], self.width, self.n)
        return panels([-self.S - abs(d), self.S + abs(d)], self.width, self.n)

    def I_ux(self, t1=None, t2=None):
        t1v = np.zeros(1) if t1 is None else np.asarray(t1, float)
        t2v = np.zeros(1) if t2 is None else np.asarray(t2, float)
        out = np.zeros((len(t1v), len(t2v), len(self.t_u), len(self.t_u)))
        for i, a in enumerate(t1v):
            for j, b in enumerate(t2v):
                s, w = self._lags(b - a)
                A = self.kh(s[:, None], self.t_u[None, :])
                C = self.kh(s[:, None] + (b - a), self.t_u[None, :])
                out[i, j] = A.T @ (w[:, None] * C)
        if t1 is None and t2 is None:
            return out[0, 0]
        if t1 is None:
            return out[0]
        if t2 is None:
            return out[:, 0]
        return out

    def I_hz(self, t):
        K = self.kh(self.s[:, None], self.s[None, :])
        return np.stack([(W := self.W(x)).T @ K @ W for x in np.atleast_1d(t)])

    def I_uz(self, t):
        K = self.kh(self.t_u[:, None], self.s[None, :])
        return np.stack([K @ self.W(x) for x in np.atleast_1d(t)])

    def W(self, t):
        return self.w[:, None] * self.kxs(t - self.s[:, None], self.t_z[None, :])

    # Pieces for the predictive moments, on the lag grid.
    def h_parts(self):
        """(Kh as a matrix, or None plus diagonal), cov(h, u)."""
        return self.kh(self.s[:, None], self.s[None, :]), self.kh(self.s[:, None], self.t_u[None, :])

    def x_cov(self, t):
        return None, self.kxs(t - self.s[:, None], self.t_z[None, :])  # white: None


class RefR:
    """RGPCM."""

    def __init__(self, alpha, alpha_t, lam, gamma, gamma_t, a, b, ms, m_max, t_u, noise=None, n=10, fine=1.0, **_):
        self.alpha, self.alpha_t, self.lam = float(alpha), float(alpha_t), float(lam)
        self.gamma, self.gamma_t = float(gamma), float(gamma_t)
        self.a, self.b, self.m_max = float(a), float(b), int(m_max)
        self.ms = np.asarray(ms, int)
        self.t_u = np.asarray(t_u, float)
        self.noise = noise
        self.n = n
        self.fine = fine
        om = 2 * np.pi * max(1, self.m_max) / (self.b - self.a)
        self.width = fine / max(self.lam, self.alpha, self.gamma, om)
        self.S = 21.0 / self.alpha  # exp(-2 alpha S) = e^-42

    def beta(self, tau):
        """Basis functions at times tau, shape (len(tau), len(ms))."""
        tau = np.asarray(tau, float)[..., None]
        cos = self.ms <= self.m_max
        m = np.where(cos, self.ms, self.ms - self.m_max)
        om = 2 * np.pi * m / (self.b - self.a)
        inside = np.where(cos, np.cos(om * (tau - self.a)), np.sin(om * (tau - self.a)))
        left = np.where(cos, np.exp(-self.lam * np.maximum(self.a - tau, 0)), 0.0)
        right = np.where(cos, np.exp(-self.lam * np.maximum(tau - self.b, 0)), 0.0)
        return np.where(tau < self.a, left, np.where(tau > self.b, right, inside))

    def kx(self, x1, x2):
        return np.exp(-self.lam * np.abs(x1 - x2))

    def K_u(self):
        u = self.t_u
        # int_{-inf}^{min} gamma_t^2 exp(-gamma(u - s) - gamma(u' - s)) ds
        mn = np.minimum(u[:, None], u[None, :])
        return self.gamma_t**2 / (2 * self.gamma) * np.exp(-self.gamma * (u[:, None] + u[None, :] - 2 * mn))

    def K_z(self):
        """Matern-1/2 RKHS Gram matrix of the basis on [a, b] by quadrature:
        <g,h> = 1/(2 lam) int (g'+lam g)(h'+lam h) + g(a) h(a)."""
        x, w = panels([self.a, self.b], 1.0 / max(self.lam, 2 * np.pi * max(1, self.m_max) / (self.b - self.a)), 14)
        cos = self.ms <= self.m_max
        m = np.where(cos, self.ms, self.ms - self.m_max)
        om = 2 * np.pi * m / (self.b - self.a)
        ph = om * (x[:, None] - self.a)
        g = np.where(cos, np.cos(ph), np.sin(ph))
        dg = np.where(cos, -om * np.sin(ph), om * np.cos(ph))
        q = dg + self.lam * g
        g0 = np.where(cos, 1.0, 0.0)
        return q.T @ (w[:, None] * q) / (2 * self.lam) + np.outer(g0, g0)

    def i_hx(self, t1, t2):
        t1, t2 = np.broadcast_arrays(np.asarray(t1, float), np.asarray(t2, float))
        s, w = panels([0, self.S], 1.0 / self.alpha, 14)
        p = np.sum(w * self.alpha_t**2 * np.exp(-2 * self.alpha * s))
        return p * np.exp(-self.lam * np.abs(t1 - t2))

    def chu(self, s, u):
        """cov(h(s), u(t_u)) = alpha_t gamma_t exp(-alpha s - gamma(u - s)) on 0 <= s <= u."""
        return self.alpha_t * self.gamma_t * np.exp(-self.alpha * s - self.gamma * (u - s)) * ((s >= 0) & (s <= u))

    def I_ux(self, t1=None, t2=None):
        """Entry (t1, t2, i, j): the integral pairing t1 with t_u[j] and t2 with t_u[i],
        the code's convention (for the model's symmetric uses the two agree)."""
        t1v = np.zeros(1) if t1 is None else np.asarray(t1, float)
        t2v = np.zeros(1) if t2 is None else np.asarray(t2, float)
        out = np.zeros((len(t1v), len(t2v), len(self.t_u), len(self.t_u)))
        for i, a in enumerate(t1v):
            for j, b in enumerate(t2v):
                out[i, j] = self._iux(a - b).T
        if t1 is None and t2 is None:
            return out[0, 0]
        if t1 is None:
            return out[0]
        if t2 is None:
            return out[:, 0]
        return out

    def _iux(self, d):
        """M[p, q] = int int chu(s, u_p) chu(s', u_q) exp(-lam |d - (s - s')|) ds ds'."""
        U = np.maximum(self.t_u, 0)
        M = np.zeros((len(U), len(U)))
        for q, uq in enumerate(U):
            if uq <= 0:
                continue
            # For each s: inner integral over s' in [0, uq], kink at s' = s - d.
            smax = U.max()
            br = sorted(set([0.0, smax] + [float(x) for x in np.concatenate([U, [d, d + uq]]) if 0 < x < smax]))
            s, w = panels(br, self.width, self.n)
            lo = np.clip(s - d, 0, uq)
            inner = self._pan(np.zeros_like(lo), lo, s, d, uq) + self._pan(lo, np.full_like(lo, uq), s, d, uq)
            for p, up in enumerate(U):
                f = self.alpha_t * self.gamma_t * np.exp(-self.alpha * s - self.gamma * (self.t_u[p] - s)) * (s <= up)
                M[p, q] = np.sum(w * f * inner)
        return M

    def _pan(self, lo, hi, s, d, uq):
        k = max(1, int(np.ceil(np.max(hi - lo) / self.width))) if np.max(hi - lo) > 0 else 1
        x0, w0 = gl(self.n)
        tot = np.zeros_like(lo)
        for i in range(k):
            a = lo + (hi - lo) * i / k
            b = lo + (hi - lo) * (i + 1) / k
            x = 0.5 * (b - a)[:, None] * x0 + 0.5 * (a + b)[:, None]
            f = self.alpha_t * self.gamma_t * np.exp(-self.alpha * x - self.gamma * (uq - x))
            f = f * np.exp(-self.lam * np.abs(d - (s[:, None] - x)))
            tot = tot + np.sum(0.5 * (b - a)[:, None] * w0 * f, axis=1)
        return tot

    def I_hz(self, t):
        out = []
        for x in np.atleast_1d(t):
            br = [0.0, self.S] + [v for v in (x - self.a, x - self.b) if 0 < v < self.S]
            s, w = panels(br, self.width, self.n)
            W = self.beta(x - s)
            out.append(W.T @ ((w * self.alpha_t**2 * np.exp(-2 * self.alpha * s))[:, None] * W))
        return np.stack(out)

    def I_uz(self, t):
        out = []
        U = self.t_u
        for x in np.atleast_1d(t):
            rows = []
            for u in U:
                if u <= 0:
                    # Analytic continuation of the integral for a slightly negative bound.
                    s, w = panels([u, 0.0], self.width, self.n) if u < 0 else (np.zeros(0), np.zeros(0))
                    sg = -1.0
                else:
                    br = [0.0, u] + [v for v in (x - self.a, x - self.b) if 0 < v < u]
                    s, w = panels(br, self.width, self.n)
                    sg = 1.0
                f = self.alpha_t * self.gamma_t * np.exp(-self.alpha * s - self.gamma * (u - s))
                rows.append(sg * ((w * f) @ self.beta(x - s)) if len(s) else np.zeros(len(self.ms)))
            out.append(np.stack(rows))
        return np.stack(out)


def moments_direct(ref, t, U1, U2, Z1, Z2):
    """E f(t), E f(t)^2 for f = h * x, h | u and x | z Gaussian-conditional on the inducing
    variables, with u_hat ~ (mean U1, second moment U2), z_hat ~ (Z1, Z2), independent.

    GPCM only: on the lag grid, E f^2 = w' (E[h h'] o E[x x']) w with the white-noise part of
    x on the diagonal.  Does not use the A/B/c decomposition of the code.
    """
    Kh, Khu = ref.h_parts()
    Ku, Kz = ref.K_u(), ref.K_z()
    Kui, Kzi = np.linalg.inv(Ku), np.linalg.inv(Kz)
    H2 = Kh + Khu @ (U2 - Kui) @ Khu.T
    m1s, m2s = [], []
    for x in np.atleast_1d(t):
        _, Kxz = ref.x_cov(x)
        X2 = Kxz @ (Z2 - Kzi) @ Kxz.T
        m1s.append(np.sum(ref.w * (Khu @ U1)[:, 0] * (Kxz @ Z1)[:, 0]))
        m2s.append(ref.w @ (H2 * X2) @ ref.w + np.sum(ref.w * np.diag(H2)))
    return np.array(m1s), np.array(m2s)


def moments(ref, t, U1, U2, Z1, Z2, parts=None):
    """The same moments from the reference integrals, by the law of total variance:
    E f^2 = sum over {conditional mean, residual} of h times {conditional mean, residual} of x."""
    Ku, Kz, Ihx, Iux, Ihz, Iuz = parts if parts is not None else ref_parts(ref, t)
    Kui, Kzi = np.linalg.inv(Ku), np.linalg.inv(Kz)
    m1 = np.array([(U1.T @ Iuz[i] @ Z1)[0, 0] for i in range(len(Iuz))])
    m2 = []
    for i in range(len(Iuz)):
        mm = np.trace(U2 @ Iuz[i] @ Z2 @ Iuz[i].T)  # mean(h) mean(x)
        hx = lambda V: np.trace(V @ Iux)  # h-mean with second moment V against Kx
        zx = lambda V: np.trace(V @ Ihz[i])  # x-mean with second moment V against Kh
        uz = lambda V, Q: np.trace(V @ Iuz[i] @ Q @ Iuz[i].T)
        mean_res = hx(U2) - uz(U2, Kzi)  # mean(h), residual(x)
        res_mean = zx(Z2) - uz(Kui, Z2)  # residual(h), mean(x)
        res_res = Ihx[i] - hx(Kui) - zx(Kzi) + uz(Kui, Kzi)
        m2.append(mm + mean_res + res_mean + res_res)
    return m1, np.array(m2)


def ref_parts(ref, t):
    t = np.atleast_1d(t)
    return ref.K_u(), ref.K_z(), ref.i_hx(t, t), ref.I_ux(), ref.I_hz(t), ref.I_uz(t)


def kl_gauss(m0, S0, m1, S1):
    m0, m1 = np.ravel(m0), np.ravel(m1)
    S1i = np.linalg.inv(S1)
    d = m1 - m0
    return 0.5 * (np.trace(S1i @ S0) + d @ S1i @ d - len(d) + np.linalg.slogdet(S1)[1] - np.linalg.slogdet(S0)[1])


def from_model(model):
    """Reference model from the public attributes of an (instantiated) gpcm model."""
    f = lambda x: np.asarray(x, float)
    if type(model).__name__ == "RGPCM":
        return RefR(alpha=f(model.alpha), alpha_t=f(model.alpha_t), lam=f(model.lam), gamma=f(model.gamma),
                    gamma_t=f(model.gamma_t), a=f(model.a), b=f(model.b), ms=np.asarray(model.ms),
                    m_max=model.m_max, t_u=f(model.t_u), noise=float(f(model.noise)))
    return RefG(alpha=f(model.alpha), alpha_t=f(model.alpha_t), gamma=f(model.gamma), omega=f(model.omega),
                omega_t=f(model.omega_t), t_u=f(model.t_u), t_z=f(model.t_z), causal=bool(model.causal),
                noise=float(f(model.noise)))


def nat_moments(dist):
    """Mean and second moment from natural parameters, by plain linear algebra."""
    from .core import to_numpy

    P, lam = to_numpy(dist.prec), to_numpy(dist.lam)
    S = np.linalg.inv((P + P.T) / 2)
    mu = S @ lam
    return mu, S + mu @ mu.T, S


class Terms:
    """Sufficient statistics of a data set under the reference model: the expected
    log-likelihood given (u, z) is quadratic in each."""

    def __init__(self, R, t, y):
        self.R, self.y = R, np.asarray(y, float)
        self.Ku, self.Kz, self.Ihx, self.Iux, self.Ihz, self.Iuz = ref_parts(R, np.asarray(t, float))
        Kui, Kzi = np.linalg.inv(self.Ku), np.linalg.inv(self.Kz)
        self.Kui, self.Kzi = Kui, Kzi
        n = len(self.y)
        self.n, self.noise = n, R.noise
        # E f^2 - (u'Iz)^2 = u'A u + z'B z + c, from the four mean/residual products.
        self.A = sum(self.Iux - I @ Kzi @ I.T for I in self.Iuz)
        self.B = sum(self.Ihz[i] - self.Iuz[i].T @ Kui @ self.Iuz[i] for i in range(n))
        self.c = sum(self.Ihx[i] - np.sum(Kui * self.Iux) - np.sum(Kzi * self.Ihz[i])
                     + np.trace(Kui @ self.Iuz[i] @ Kzi @ self.Iuz[i].T) for i in range(n))
        self.A, self.B = (self.A + self.A.T) / 2, (self.B + self.B.T) / 2
        self.parts = (self.Ku, self.Kz, self.Ihx, self.Iux, self.Ihz, self.Iuz)

    def expected(self, U1, U2, Z1, Z2):
        """Expected Gaussian log-likelihood."""
        m1, m2 = moments(self.R, np.zeros(self.n), U1, U2, Z1, Z2, parts=self.parts)
        return float(np.sum(-0.5 * np.log(2 * np.pi * self.noise) - 0.5 * (self.y**2 - 2 * self.y * m1 + m2) / self.noise))

    def z_given_u(self, u, u2=None):
        """(precision, lam) of the conditional of z given u (or given moments u, u2)."""
        u = np.asarray(u, float).reshape(-1, 1)
        u2 = u @ u.T if u2 is None else u2
        P = self.B + sum(I.T @ u2 @ I for I in self.Iuz)
        lam = sum(y * I.T @ u for y, I in zip(self.y, self.Iuz))
        return P / self.noise, lam / self.noise

    def u_given_z(self, z, z2=None):
        z = np.asarray(z, float).reshape(-1, 1)
        z2 = z @ z.T if z2 is None else z2
        P = self.A + sum(I @ z2 @ I.T for I in self.Iuz)
        lam = sum(y * I @ z for y, I in zip(self.y, self.Iuz))
        return P / self.noise, lam / self.noise

    def log_Z(self, u):
        """log int p(z) exp(E log p(y | u, z)) dz."""
        u = np.asarray(u, float).reshape(-1, 1)
        P, lam = self.z_given_u(u)
        P = P + self.Kz
        const = -0.5 * self.n * np.log(2 * np.pi * self.noise) - 0.5 * (np.sum(self.y**2) + (u.T @ self.A @ u)[0, 0] + self.c) / self.noise
        return float(const + 0.5 * (np.linalg.slogdet(self.Kz)[1] - np.linalg.slogdet(P)[1] + (lam.T @ np.linalg.solve(P, lam))[0, 0]))

    def log_lik(self, u, z):
        """E log p(y | u, z) over the residual filter and excitation."""
        u, z = np.asarray(u, float).reshape(-1, 1), np.asarray(z, float).reshape(-1, 1)
        m = np.array([(u.T @ I @ z)[0, 0] for I in self.Iuz])
        r = (u.T @ self.A @ u)[0, 0] + (z.T @ self.B @ z)[0, 0] + self.c
        return float(-0.5 * self.n * np.log(2 * np.pi * self.noise) - 0.5 * (np.sum((self.y - m) ** 2) + r) / self.noise)


def lognormal0(x, prec):
    x = np.ravel(x)
    return float(-0.5 * x @ prec @ x + 0.5 * np.linalg.slogdet(prec)[1] - 0.5 * len(x) * np.log(2 * np.pi))
