"""Values of the basis functions: documented functions, normalisation."""
import numpy as np
import scipy.interpolate
import scipy.special
import VolterraBasis.basis as bf

from .. import bases, gen

EV = {
    "poly": lambda n, x: x**n,
    "cheb": lambda n, x: scipy.special.eval_chebyt(n, x),
    "leg": lambda n, x: scipy.special.eval_legendre(n, x),
    "herm": lambda n, x: scipy.special.eval_hermite(n, x),
    "lag": lambda n, x: scipy.special.eval_laguerre(n, x),
}
KINDS = ["lin", "linc", "poly", "cheb", "leg", "herm", "lag", "four", "four", "bspl", "bspl", "spl", "ind", "ind", "indper"]


def run_case(ctx):
    rng = ctx.rng
    kind = KINDS[ctx.idx % len(KINDS)]
    dim = 1 if kind in ("bspl", "ind", "indper") else int(gen.choice(rng, [1, 2, 3]))
    spec, dim, data = bases.pick(rng, dim, kind)
    ctx.describe(kind=kind, dim=dim)
    ctx.cover(kind, "dim%d" % dim, "rc%d" % spec.rc, getattr(spec, "deg", getattr(spec, "k", getattr(spec, "typ", ""))))
    b = spec.make()
    ctx.call("fit", b.fit, data)
    lo, hi = data.min(axis=0), data.max(axis=0)
    X = lo + (hi - lo) * rng.uniform(0, 1, (40, dim))
    V = np.asarray(ctx.call("basis", b.basis, X))
    if rng.random() < 0.5 and hi.max() - lo.min() >= 0.5:  # the same numbers with another type
        lo_i = int(np.ceil(lo.min()))
        Xi = rng.integers(lo_i, max(lo_i + 1, int(np.floor(hi.max())) + 1), (9, dim))
        f = np.asarray(ctx.call("basis", b.basis, Xi.astype(float)))
        typ = gen.choice(rng, ["int64", "int32", "float32"])
        ctx.close("other-number-type", np.asarray(ctx.call("basis(%s)" % typ, b.basis, Xi.astype(typ)), dtype=float), f, rtol=1e-12 if typ != "float32" else 1e-4, scale=np.max(np.abs(f)) + np.max(np.abs(V)))
        ctx.cover("type", typ, kind)
    if kind in ("lin", "linc"):
        want = X - (data.mean(axis=0) if kind == "linc" else 0.0)
        ctx.close("linear-values", V, want, rtol=1e-12, scale=np.max(np.abs(X)))
    elif kind in EV:
        want = np.concatenate([EV[kind](n, X) for n in range(spec.deg + 1)], axis=1)
        sc = np.max(np.abs(want), axis=0)
        ctx.close("polynomial-values", V / sc, want / sc, rtol=0, atol=1e-9)
    elif kind == "four":
        cols = [np.full(X.shape, 1 / np.sqrt(2 * np.pi))]
        for n in range(1, spec.deg + 1):
            cols += [np.sin(n * spec.freq * X) / np.sqrt(np.pi), np.cos(n * spec.freq * X) / np.sqrt(np.pi)]
        ctx.close("fourier-values", V, np.concatenate(cols, axis=1), rtol=0, atol=1e-10)
        # orthonormal over one period (in reduced units), exact for the mid point rule
        m = 8 * (spec.deg + 1)
        t = (np.arange(m) + rng.random()) / m * 2 * np.pi / spec.freq
        b1 = bf.FourierFeatures(order=spec.deg, freq=spec.freq, remove_const=spec.rc).fit(np.zeros((3, 1)))
        W = np.asarray(ctx.call("basis", b1.basis, t.reshape(-1, 1)))
        ctx.close("fourier-orthonormal", W.T @ W * (2 * np.pi / m), np.eye(2 * spec.deg + 1), rtol=0, atol=1e-9)
        ctx.close("fourier-period", np.asarray(b.basis(X + 2 * np.pi / spec.freq)), V, rtol=0, atol=1e-9)
    elif kind == "bspl":
        Xf = np.concatenate((np.linspace(lo[0], hi[0], 300), lo[:1], hi[:1])).reshape(-1, 1)
        B = np.asarray(ctx.call("basis", b.basis, Xf))
        ctx.check(B.shape[1] == spec.n, "bspline-number", "{} splines for {} knots".format(B.shape[1], spec.n))
        ctx.check(B.min() >= -1e-9, "bspline-positive", "minimum {}".format(B.min()))
        ctx.close("bspline-partition-of-unity", B.sum(axis=1), np.ones(len(Xf)), rtol=0, atol=1e-9)
        ctx.check(np.all(np.sum(B > 1e-12, axis=1) <= spec.k + 1), "bspline-local", "more than k+1 non zero functions")
        ctx.check(np.linalg.matrix_rank(B) == spec.n, "bspline-independent", "rank {}".format(np.linalg.matrix_rank(B)))
        u = 2 * (Xf[:, 0] - lo[0]) / (hi[0] - lo[0]) - 1
        for d in range(spec.k + 1):  # polynomials up to the degree belong to the space
            f = scipy.special.eval_legendre(d, u)
            c = np.linalg.lstsq(B, f, rcond=None)[0]
            ctx.close("bspline-reproduces-polynomials", B @ c, f, rtol=0, atol=1e-7)
        if spec.given is not None:  # the splines that interpolate at the knots of the user
            t = scipy.interpolate.splrep(spec.given, np.zeros(spec.n), k=spec.k)[0]
            want = np.stack([scipy.interpolate.splev(Xf[:, 0], (t, np.append(e, np.zeros(len(t) - spec.n)), spec.k)) for e in np.eye(spec.n)], axis=1)
            ctx.close("bspline-given-knots", B, want, rtol=0, atol=1e-9)
        # ordered from left to right
        com = (B * Xf).sum(axis=0) / B.sum(axis=0)
        ctx.check(np.all(np.diff(com) > 0), "bspline-ordered")
    elif kind == "spl":
        want = scipy.interpolate.splev(X, (spec.knots, spec.coeffs, spec.k))
        ctx.close("spline-values", V, want, rtol=1e-9)
    else:
        bounds = [sorted(x) for x in spec.bounds]
        a, c = bounds[0][0], bounds[-1][1]
        w = c - a
        x = np.unique(np.concatenate((np.linspace(a - w, c + w, 400), np.ravel(bounds))))
        F = np.asarray(ctx.call("basis", b.basis, x.reshape(-1, 1)))
        per = kind == "indper"
        ns = len(bounds) + (not per)
        ctx.check(F.shape[1] == ns, "indicator-number")
        ctx.check(F.min() >= -1e-12 and F.max() <= 1 + 1e-12, "indicator-range", "[{}, {}]".format(F.min(), F.max()))
        ctx.close("indicator-partition-of-unity", F.sum(axis=1), np.ones(len(x)), rtol=0, atol=1e-10)
        edges = [-np.inf] + list(np.ravel(bounds)) + [np.inf]
        for s in range(len(bounds) + 1):  # the core of state s
            core = (x >= edges[2 * s]) & (x <= edges[2 * s + 1])
            col = s % ns if per else s
            ctx.close("indicator-core", F[core, col], np.ones(core.sum()), rtol=0, atol=1e-10)
        g = {"tricube": lambda u: (1 - u**3) ** 3, "triweight": lambda u: (1 - u**2) ** 3, "quartic": lambda u: (1 - u**2) ** 2, "cosine": lambda u: 0.5 + 0.5 * np.cos(np.pi * u)}[spec.typ]
        for s, (p, q) in enumerate(bounds):
            sel = (x >= p) & (x <= q)
            u = (x[sel] - p) / (q - p)
            ctx.close("indicator-boundary-shape", F[sel, s], g(u), rtol=0, atol=1e-10)
            nxt = (s + 1) % ns if per else s + 1
            ctx.close("indicator-next-rises", F[sel, nxt], 1 - g(u), rtol=0, atol=1e-10)
