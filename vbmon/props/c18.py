"""Noise generators: the covariance of what they generate, measured exactly.

The generators are linear in the random numbers they draw, so an injected
random number generator that returns unit impulses gives the whole linear map A
and the exact covariance A A^T, without any statistical error.
"""
import numpy as np
import VolterraBasis as vb
import VolterraBasis.basis as bf
from VolterraBasis.gle_integrate import ColoredNoiseGenerator

from .. import gen


class Impulse:
    """Counts the drawn numbers, returns zeros except for one of them."""

    def __init__(self):
        self.at, self.n = None, 0

    def __call__(self, loc=0.0, scale=1.0, size=None):
        shape = () if size is None else (size if isinstance(size, tuple) else (int(size),))
        m = int(np.prod(shape))
        out = np.zeros(m)
        if self.at is not None and self.n <= self.at < self.n + m:
            out[self.at - self.n] = 1.0
        self.n += m
        return loc + scale * out.reshape(shape)


def linear_map(ctx, make, draw):
    """Rows: what is generated; columns: the random numbers."""
    imp = Impulse()
    g = make(imp)
    imp.at, imp.n = None, 0
    zero = np.asarray(draw(g), dtype=float)
    q = imp.n
    ctx.check(not np.any(zero), "linear-in-the-randomness", "non zero result from zero random numbers")
    cols = []
    for i in range(q):
        imp.at, imp.n = i, 0
        cols.append(np.asarray(draw(g), dtype=float).ravel())
        if imp.n != q:
            ctx.check(False, "linear-in-the-randomness", "the number of drawn numbers changes")
            return zero.shape, None, q
    return zero.shape, (np.stack(cols, axis=1) if cols else np.zeros((zero.size, 0))), q


def kernel_1d(rng, T, dt):
    """Correlation function with a non negative spectrum that fits in T points."""
    fam = gen.choice(rng, ["compact", "compact", "gauss", "exp"])
    if T < 50 and fam == "exp":
        fam = "compact"
    if T < 30 and fam == "gauss":
        fam = "compact"
    if fam == "compact":
        p = int(rng.integers(1, (T - 1) // 2 + 2))
        h = rng.normal(size=p)
        g = np.correlate(h, h, mode="full")
        k = np.convolve(g, g)[2 * p - 2 :]
        out = np.zeros(T)
        out[: len(k)] = k[:T]
        return out / max(out[0], 1e-300) * rng.uniform(0.2, 3), fam, 1e-6
    t = np.arange(T)
    if fam == "gauss":
        s = rng.uniform(1.0, T / 10)
        return rng.uniform(0.2, 3) * np.exp(-0.5 * (t / s) ** 2), fam, 1e-4
    return rng.uniform(0.2, 3) * np.exp(-t / (T / 18)), fam, 1e-3


def toeplitz(k, n):
    k = np.concatenate((k, np.zeros(max(0, n - len(k)))))
    i = np.arange(n)
    return k[np.abs(i[:, None] - i[None, :])]


def run_case(ctx):
    rng = ctx.rng
    what = ["colored", "colored", "integrator", "karhunen", "toeplitz", "fresh"][ctx.idx % 6]
    dt = float(gen.choice(rng, [0.01, 0.1, 1.0, 0.5]))
    amp = 1.0
    if rng.random() < 0.3:  # other units
        dt, amp = dt * float(10 ** rng.uniform(-8, 8)), float(10 ** rng.uniform(-10, 10))
    if what in ("colored", "integrator", "fresh"):
        T = int(gen.choice(rng, [3, 5, 8, 12, 20, 31, 60]))
        dim = int(gen.choice(rng, [1, 1, 2, 3]))
        if rng.random() < 0.05:
            T, dim = int(gen.choice(rng, [64, 100, 128])), int(rng.integers(1, 6))
        if rng.random() < 0.015:
            T, dim = int(gen.choice(rng, [256, 257, 300, 400])), 1
        size = int(gen.choice(rng, [1, 2, T - 1, T, T + 1, 2 * T - 1, 2 * T, 2 * T + 7]))
        if T <= 12 and rng.random() < 0.12:  # much longer than the memory
            size = int(rng.integers(2 * T, 300))
        K = np.zeros((T, dim, dim))
        tol, fams = 0.0, []
        for d in range(dim):
            k, f, tl = kernel_1d(rng, T, dt)
            K[:, d, d] = k * amp
            tol = max(tol, tl)
            fams.append(f)
        t = np.arange(T) * dt
        if what == "integrator":
            b = bf.LinearFeatures().fit(np.zeros((4, dim)))
            L = rng.normal(size=(dim, dim)) if dim > 1 else np.array([[rng.uniform(0.5, 2)]])
            while np.linalg.cond(L) > 20:
                L = rng.normal(size=(dim, dim))
            given = bool(rng.integers(2))
            # sum_k c[k,l] kern[i,k,d] must be the diagonal K
            kern = np.einsum("kl,ild->ikd", np.linalg.inv(L).T, K) if given else K
            kw = {"coeffs_noise_kernel": L} if given else {}
            cls = gen.choice(rng, [vb.Integrator_gle, vb.Integrator_gle_const_kernel])

            def make(r):
                return ctx.call("Integrator(None)", cls, None, rng=r, verbose=False, basis=b, force_coeff=np.zeros((dim, dim)), kernel=kern, dt=dt, **kw).noise_generator
        else:
            def make(r):
                return ctx.call("ColoredNoiseGenerator", ColoredNoiseGenerator, K, t, rng=r)
        ctx.describe(what=what, T=T, dim=dim, size=size, dt=dt, families=fams)
        ctx.cover(what, "dim%d" % dim, fams[0], "T%d" % T, "size-T=%d" % max(-2, min(2, size - T)), dt)
        if what == "fresh":
            s = int(rng.integers(1 << 31))
            g1, g2 = np.random.default_rng(s), np.random.default_rng(s)
            a, b_ = make(lambda size: g1.normal(size=size)), make(lambda size: g2.normal(size=size))
            na, nb = np.asarray(ctx.call("generate", a.generate, size)), np.asarray(ctx.call("generate", b_.generate, size))
            ctx.same("same-randomness-same-noise", na, nb)
            nc = np.asarray(ctx.call("generate", a.generate, size))
            ctx.check(not np.any(nc == na) if np.all(na != 0) else True, "new-noise-each-time", "two realisations share values")
            return
        if rng.random() < 0.4:  # noise of other sizes generated before
            other, mk0 = [int(s) for s in rng.integers(1, 2 * T + 8, 2)], make

            def make(r):
                g = mk0(r)
                for s in other:
                    g.generate(s)
                return g

        shape, A, q = linear_map(ctx, make, lambda g: ctx.call("generate", g.generate, size))
        ctx.check(shape == (size, dim), "noise-shape", "{} instead of {}".format(shape, (size, dim)))
        if A is None or shape != (size, dim):
            return
        C = (A @ A.T).reshape(size, dim, size, dim)
        scale = float(np.max(np.abs(K[0])))
        for d in range(dim):
            for e in range(dim):
                if d == e:
                    ctx.close("noise-covariance", C[:, d, :, d], toeplitz(K[:, d, d], size), rtol=tol, scale=float(K[0, d, d]))
                else:
                    ctx.close("components-independent", C[:, d, :, e], np.zeros((size, size)), atol=1e-10 * scale)
        return
    n = int(rng.integers(1, 25)) if rng.random() < 0.85 else int(rng.integers(25, 130))
    KL = vb.KarhunenLoeveNoiseGenerator
    if what == "toeplitz":
        n = max(n, 2)
        k = rng.normal(size=n) * amp
        if rng.random() < 0.5:
            back = None
            full = np.concatenate((k[:0:-1], k))
            M = ctx.call("generate_stationary_covariancematrix", KL.generate_stationary_covariancematrix, k)
        else:
            back = rng.normal(size=n - 1) * amp
            full = np.concatenate((back, k))
            M = ctx.call("generate_stationary_covariancematrix", KL.generate_stationary_covariancematrix, k, back)
        i = np.arange(n)
        ctx.close("stationary-matrix", M, full[n - 1 + i[:, None] - i[None, :]], rtol=1e-12)
        ctx.describe(what=what, n=n, backward=back is not None)
        ctx.cover(what, n, back is not None)
        return
    fam = gen.choice(rng, ["psd", "lowrank", "stationary", "diag"])
    if fam == "psd":
        R = rng.normal(size=(n, n))
        M = R @ R.T
    elif fam == "lowrank":
        R = rng.normal(size=(n, max(1, n // 2)))
        M = R @ R.T
    elif fam == "diag":
        M = np.diag(rng.uniform(0.1, 2, n))
    else:
        n = max(n, 3)
        k, _, _ = kernel_1d(rng, n, dt)
        M = KL.generate_stationary_covariancematrix(k)
    M = M * amp
    size = gen.choice(rng, [None, n, max(1, n // 2), 1, int(rng.integers(1, n + 1))])
    ctx.describe(what=what, n=n, family=fam, size=size)
    ctx.cover(what, fam, n, "default" if size is None else size - n)

    def mk(r):
        return ctx.call("KarhunenLoeve", KL, M, dt, rng=r)

    def draw(g):
        return ctx.call("generate", g.generate, size) if size is not None else ctx.call("generate", g.generate)

    shape, A, q = linear_map(ctx, mk, draw)
    s = n if size is None else size
    ctx.check(shape == (s,), "noise-shape", str(shape))
    if A is not None and shape == (s,):
        ctx.close("karhunen-covariance", A @ A.T, M[:s, :s], rtol=1e-8, scale=float(np.max(np.abs(M))) + 1e-300)
    ctx.raises("generate(too long)", mk(np.random.default_rng(0).normal).generate, n + int(rng.integers(1, 4)), exc=ValueError)
