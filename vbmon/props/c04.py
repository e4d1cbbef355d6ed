"""antiderivative() is a primitive of basis(); pmf_eval() is a primitive of
minus the mean force."""
import numpy as np
import xarray as xr

from .. import bases, gen, pipe
from ..ctx import SkipCase
from .c03 import num_grad

ANTI_1D = ["lin", "linc", "poly", "cheb", "leg", "herm", "lag", "four", "bspl", "spl"]
ANTI_ND = ["lin", "linc", "poly", "cheb", "four", "spl"]


def run_case(ctx):
    if ctx.idx % 3 == 2:
        return pmf_case(ctx)
    rng = ctx.rng
    dim = [1, 1, 2, 3][(ctx.idx // 3) % 4] if rng.random() < 0.95 else int(rng.integers(3, 7))
    pool = ANTI_1D if dim == 1 else ANTI_ND
    kind = pool[(ctx.idx // 2) % len(pool)]
    spec, dim, data = bases.pick(rng, dim, kind)
    if kind in ("cheb", "leg", "herm", "lag") and np.ptp(data, axis=0).max() < 0.3:
        data = data / np.ptp(data, axis=0).max()  # the terms of these would cancel
    ctx.describe(kind=kind, dim=dim)
    ctx.cover("antiderivative", kind, "dim%d" % dim, "order%s" % spec.order)
    b = spec.make()
    ctx.call("fit", b.fit, data)
    X = bases.smooth_points(rng, spec, dim, data)
    if not len(X):
        raise SkipCase()
    n_out = int(b.n_output_features_)
    per = n_out // dim
    A = ctx.call("antiderivative", b.antiderivative, X)
    B = np.asarray(ctx.call("basis", b.basis, X))
    ctx.check(np.shape(A) == (X.shape[0], n_out), "antiderivative-shape", "{}".format(np.shape(A)))
    h = bases.step(spec, data)
    G = num_grad(lambda Y: np.asarray(b.antiderivative(Y)), X, h)
    want = np.zeros(G.shape)
    for k in range(n_out):  # feature k depends on the coordinate k modulo dim
        want[:, k, k % dim] = B[:, k]
    sc = np.maximum(np.max(np.abs(B), axis=0), np.max(np.abs(B)) * 1e-6)
    # what the rounding of the values lets the differences tell
    sc = np.maximum(sc, 1e-9 * np.max(np.abs(A), axis=0) / h.min())
    ctx.close("primitive", G / sc[:, None], want / sc[:, None], rtol=0, atol=3e-6)
    if kind in ("poly", "cheb", "leg", "bspl", "spl"):
        A2 = np.asarray(ctx.call("antiderivative(2)", b.antiderivative, X, order=2))
        G2 = num_grad(lambda Y: np.asarray(b.antiderivative(Y, order=2)), X, h)
        want2 = np.zeros(G2.shape)
        for k in range(n_out):
            want2[:, k, k % dim] = np.asarray(A)[:, k]
        sc2 = np.maximum(np.max(np.abs(A), axis=0), np.max(np.abs(A)) * 1e-6)
        sc2 = np.maximum(sc2, 1e-9 * np.max(np.abs(A2), axis=0) / h.min()) + 1e-300
        ctx.close("second-primitive", G2 / sc2[:, None], want2 / sc2[:, None], rtol=0, atol=3e-6)
        ctx.check(A2.shape == (X.shape[0], n_out), "antiderivative-shape")
    else:
        if kind in ("lin", "linc", "four"):
            ctx.raises("antiderivative(2)", b.antiderivative, X, order=2, exc=NotImplementedError)


def pmf_case(ctx):
    rng = ctx.rng
    model = pipe.ALL[(ctx.idx // 3) % 6]
    kind = gen.choice(rng, ["lin", "linc", "poly", "cheb", "four", "bspl", "spl"])
    p = pipe.setup(ctx, model=model, dim=1, kind=kind, custom_obs=False)
    est = pipe.run(ctx, p, upto="force")
    m = est.model
    mass = 1.0
    if rng.random() < 0.6:
        ctx.call("compute_effective_mass", est.compute_effective_mass)
        v2 = sum(np.sum(a["v"] ** 2) for a in p.arrs) / sum(a["v"].shape[0] for a in p.arrs)
        if model != "Pos_gle_overdamped":
            mass = 1.0 / v2
    kT = float(rng.uniform(0.3, 3.0)) if rng.random() < 0.7 else 10.0 ** float(rng.uniform(-7, 7))
    lo, hi = gen.rng_range(p.trajs)
    x = np.linspace(lo[0], hi[0], 1501)
    coeffs = None
    nb = p.basis.n_output_features_
    if rng.random() < 0.4:
        coeffs = xr.DataArray(rng.normal(size=(nb, 1)), dims=("dim_basis", "dim_x"))
        pmf = ctx.call("pmf_eval", m.pmf_eval, x, coeffs=coeffs, kT=kT)
    else:
        pmf = ctx.call("pmf_eval", m.pmf_eval, x, kT=kT)
    pmf = np.asarray(pmf)
    ctx.cover("pmf", model, kind, "mass%d" % (mass != 1.0), "coeffs%d" % (coeffs is not None))
    if not ctx.check(pmf.shape == (len(x), 1), "pmf-shape", "{}".format(pmf.shape)):
        return
    c = np.asarray(m.force_coeff.data)[:nb, 0] if coeffs is None else coeffs.data[:, 0]
    force = np.asarray(p.basis.basis(x.reshape(-1, 1))) @ c
    if coeffs is None:
        ctx.close("force-eval", np.asarray(ctx.call("force_eval", m.force_eval, x))[:, 0], force, rtol=1e-8)
    # integral of the force between consecutive points, Simpson on a finer grid
    h = x[1] - x[0]
    mid = np.asarray(p.basis.basis((x[:-1] + 0.5 * h).reshape(-1, 1))) @ c
    inc = h / 6 * (force[:-1] + 4 * mid + force[1:])
    want = -np.concatenate(([0.0], np.cumsum(inc))) * mass / kT
    want -= want.min()
    ctx.check(abs(pmf.min()) <= 1e-9 * (1 + np.abs(pmf).max()), "pmf-zero-minimum", "minimum {}".format(pmf.min()))
    scale = max(np.ptp(want), 1e-8 * np.max(np.abs(force)) * np.ptp(x) * mass / kT + 1e-300)
    ctx.close("pmf-primitive-of-force", pmf[:, 0], want, rtol=1e-6, scale=scale)
    # set_zero only shifts, kT only scales
    raw = np.asarray(ctx.call("pmf_eval(raw)", m.pmf_eval, x, **({} if coeffs is None else {"coeffs": coeffs}), kT=kT, set_zero=False))
    ctx.close("pmf-shift", raw - raw.min(), pmf, rtol=1e-9, scale=np.max(np.abs(raw)) + scale)
    # the points can be given in any order, number and form
    kw = {"kT": kT}
    if coeffs is not None:
        kw["coeffs"] = coeffs
    sel = rng.permutation(len(x))[: int(gen.choice(rng, [1, 2, 3, 40, 400]))]
    y = x[sel]
    form = gen.choice(rng, ["array", "column", "list", "dataset", "strided", "single"])
    ctx.cover("pmf-points", form, len(sel))
    arg = {"array": lambda: y, "column": lambda: y.reshape(-1, 1), "list": lambda: y.tolist(), "dataset": lambda: xr.Dataset({"x": (["time", "dim_x"], y.reshape(-1, 1))}), "strided": lambda: np.repeat(y, 2)[::2], "single": lambda: y.astype(np.float32)}[form]()
    some = np.asarray(ctx.call("pmf_eval(%s)" % form, m.pmf_eval, arg, **kw))
    if ctx.check(some.shape == (len(y), 1), "pmf-shape", "{} for {} points".format(some.shape, len(y))):
        tol = 1e-9 if form != "single" else 1e-4
        big = np.max(np.abs(raw)) + scale
        ctx.close("pmf-any-points", some[:, 0], pmf[sel, 0] - pmf[sel, 0].min(), rtol=tol, scale=big)
        some = np.asarray(ctx.call("pmf_eval(%s, raw)" % form, m.pmf_eval, arg, set_zero=False, **kw))
        ctx.close("pmf-any-points-raw", some[:, 0], raw[sel, 0], rtol=tol, scale=big)
    # an array filled again with other points between the two ends
    y = x[:60].copy()
    np.asarray(ctx.call("pmf_eval", m.pmf_eval, y, **kw))
    other = np.concatenate((x[:1], rng.permutation(x[100:158]), x[59:60]))
    y[:] = other
    new = np.asarray(ctx.call("pmf_eval", m.pmf_eval, y, set_zero=False, **kw))[:, 0]
    want = np.asarray(ctx.call("pmf_eval", m.pmf_eval, other.copy(), set_zero=False, **kw))[:, 0]
    ctx.same("pmf-refilled", new, want)
    ctx.close("pmf-refilled-values", new, np.interp(other, x, raw[:, 0]), rtol=1e-3, scale=np.max(np.abs(raw)) + scale)
