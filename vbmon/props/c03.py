"""deriv() and hessian() are the gradient and the Hessian of basis()."""
import numpy as np

from .. import bases, gen


def num_grad(f, X, h):
    """4th order central differences along each coordinate; last axis added."""
    n, dim = X.shape
    out = []
    for d in range(dim):
        e = np.zeros(dim)
        e[d] = h[d]
        out.append((8 * (f(X + e) - f(X - e)) - (f(X + 2 * e) - f(X - 2 * e))) / (12 * h[d]))
    return np.stack(out, axis=-1)


def noise(a, b, scale):
    """Tolerance for a numerical derivative known with two steps: the rounding errors of high degrees show in their difference."""
    return float(np.clip(5 * np.max(np.abs(a - b) / scale), 2e-6, 1e-4)) if a.size else 2e-6


def run_case(ctx):
    rng = ctx.rng
    dim = [1, 1, 2, 1, 2, 3][ctx.idx % 6] if rng.random() < 0.95 else int(rng.integers(3, 7))
    pool = bases.KINDS_1D if dim == 1 else bases.KINDS_ND + (["tens"] * 4 if dim == 2 else [])
    kind = pool[(ctx.idx // 6) % len(pool)]
    spec, dim, data = bases.pick(rng, dim, kind)
    ctx.describe(kind=kind, dim=dim, remove_const=spec.rc)
    ctx.cover(kind, "dim%d" % dim, "rc%d" % spec.rc, "order%s" % spec.order, "+".join(q.kind for q in getattr(spec, "parts", [])))
    b = spec.make()
    ctx.call("fit", b.fit, data)
    n_out = int(b.n_output_features_)
    keep = bases.keep(spec, n_out, dim)
    X = bases.smooth_points(rng, spec, dim, data, margin=0.02 if "bsplper" in (kind, *[q.kind for q in getattr(spec, "parts", [])]) else gen.choice(rng, [0.02, -0.2]))
    if not len(X):
        from ..ctx import SkipCase

        raise SkipCase()
    h = bases.step(spec, data)
    G = ctx.call("deriv", b.deriv, X)
    H = ctx.call("hessian", b.hessian, X)
    n = X.shape[0]
    ctx.check(np.shape(G) == (n, len(keep), dim), "gradient-shape", "deriv has shape {} instead of {}".format(np.shape(G), (n, len(keep), dim)))
    ctx.check(np.shape(H) == (n, len(keep), dim, dim), "hessian-shape", "hessian has shape {}".format(np.shape(H)))
    f = lambda Y: np.asarray(ctx.quiet(b.basis, Y))[:, keep]
    g = lambda Y: np.asarray(ctx.quiet(b.deriv, Y))
    # each basis function is compared on its own scale
    V = np.max(np.abs(f(X)), axis=0) + 1e-30
    Lx = data.max(axis=0) - data.min(axis=0)
    want = num_grad(f, X, h)
    sc = np.maximum(np.max(np.abs(want), axis=(0, 2)), V / Lx.max())
    ctx.close("gradient", G / sc[:, None], want / sc[:, None], rtol=0, atol=noise(want, num_grad(f, X, 2 * h), sc[:, None]))
    if spec.order >= 2 or spec.order == 1:
        want2 = num_grad(g, X, h)
        sc2 = np.maximum(np.max(np.abs(want2), axis=(0, 2, 3)), sc / Lx.max())
        ctx.close("hessian", H / sc2[:, None, None], want2 / sc2[:, None, None], rtol=0, atol=noise(want2, num_grad(g, X, 2 * h), sc2[:, None, None]))
        ctx.close("hessian-symmetric", H / sc2[:, None, None], np.swapaxes(H, -1, -2) / sc2[:, None, None], rtol=0, atol=1e-10)
    ctx.close("deriv-order-2", ctx.call("deriv(2)", b.deriv, X, deriv_order=2), H, rtol=1e-10)
    # a constant function has been removed, and only that
    if spec.kind in ("poly", "cheb", "leg", "herm", "lag", "four") and spec.rc:
        ctx.check(len(keep) == n_out - dim, "constant-removed")
    # whatever the number of points
    i = int(rng.integers(n))
    ctx.close("gradient-one-point", b.deriv(X[i : i + 1])[0] / sc[:, None], np.asarray(G)[i] / sc[:, None], rtol=0, atol=1e-11)
