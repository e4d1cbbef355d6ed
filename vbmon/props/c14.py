"""The estimated force and kernel, as functions of the position, do not depend
on how the problem is written: other basis of the same space, other units,
shifted, reflected or rotated coordinates, rescaled observable."""
import numpy as np
import xarray as xr
import VolterraBasis as vb
import VolterraBasis.basis as bf

from .. import gen, pipe, ref

POL = {"poly": np.polynomial.Polynomial, "cheb": np.polynomial.Chebyshev, "leg": np.polynomial.Legendre, "herm": np.polynomial.Hermite, "lag": np.polynomial.Laguerre}
METHODS = ["rectangular", "midpoint", "trapz", "second_kind_rect", "second_kind_trapz"]


def traj(x, v, a, dt):
    return vb.xframe(x, np.arange(len(x)) * dt, v=v, a=a)


def estimate(ctx, trajs, model, basis, trunc, method, obs=None):
    kw = {} if obs is None else {"L_obs": obs}
    est = ctx.call("Estimator_gle", vb.Estimator_gle, trajs, gen.MODELS[model], basis, trunc=trunc, saveall=False, verbose=False, **kw)
    ctx.call("compute_mean_force", est.compute_mean_force)
    ctx.call("compute_corrs", est.compute_corrs)
    ctx.call("compute_kernel", est.compute_kernel, method=method)
    return est


def kern(est, x, o):
    return np.asarray(est.kernel_eval(x).transpose("time_kernel", "time", o, "dim_x'").data)


def run_case(ctx):
    rng = ctx.rng
    change = ["basis", "units", "shift", "reflect", "rotate", "observable"][ctx.idx % 6]
    models = list(pipe.ALL)
    if change == "rotate":
        models = ["Pos_gle", "Pos_gle_with_friction", "Pos_gle_no_vel_basis", "Pos_gle_const_kernel", "Pos_gle_overdamped"]
    model = models[(ctx.idx // 6) % len(models)]
    method = METHODS[(ctx.idx // 36) % len(METHODS)]
    dim = int(rng.integers(2, 4)) if change == "rotate" else 1
    dt = gen.pick_dt(rng)
    n = int(rng.integers(150, 400)) if rng.random() < 0.96 else int(rng.integers(800, 1500))
    if change == "rotate" and rng.random() < 0.1:
        dim = int(rng.integers(4, 7))
    arrs = []
    for _ in range(int(rng.integers(1, 4)) if rng.random() < 0.95 else 9):
        m = int(n * rng.uniform(0.7, 1.3))
        x = gen.ar2(rng, m, dim) * 0.6
        v = gen.ar2(rng, m, dim) * rng.uniform(0.5, 2)
        a = gen.ar2(rng, m, dim) - 0.5 * x + 0.2 * v
        arrs.append((x, v, a))
    ti = int(0.1 * min(len(q[0]) for q in arrs)) + 2
    trunc = (ti - 0.5) * dt
    deg = int(rng.integers(1, 4))
    rc = model == "Pos_gle_with_friction" or (model == "Pos_gle" and bool(rng.integers(2)))
    kinds = list(POL)
    k1 = gen.choice(rng, kinds)
    k2 = gen.choice(rng, [k for k in kinds if k != k1]) if change == "basis" else k1

    linear = change == "rotate" or (change == "units" and rng.random() < 0.4)
    if linear:
        rc = False

    # functions that follow the data: their parameters are in units of length too
    local = None
    if change in ("units", "shift") and not linear and rng.random() < 0.5:
        local = gen.choice(rng, ["four", "bspl"] if model == "Pos_gle_with_friction" else ["four", "bspl", "ind", "spl"])
        X = np.concatenate([q[0] for q in arrs])
        lo, hi = float(X.min()), float(X.max())
        size = int(rng.integers(1, 4))
        bounds = np.asarray(gen.indicator_bounds(rng, lo, hi, size))
        inner = np.linspace(lo - 0.1, hi + 0.1, 6)
        coef = rng.normal(size=8) + np.linspace(0, 3, 8)
        order = int(rng.integers(2, 4))
        typ = gen.choice(rng, ["tricube", "triweight", "quartic"])

    def mk(k, s=1.0, off=0.0):
        if local == "four":
            return bf.FourierFeatures(order=size, freq=5.5 / (hi - lo) / s, remove_const=rc)
        if local == "bspl":
            return bf.BSplineFeatures(size + 4, k=order, remove_const=rc)
        if local == "ind":
            return bf.SmoothIndicatorFeatures((bounds * s + off).tolist(), typ)
        if local == "spl":
            kn = np.concatenate(([inner[0]] * 3, inner, [inner[-1]] * 3)) * s + off
            return bf.SplineFctFeatures(knots=kn, coeffs=coef.copy(), k=3)
        if linear:
            return bf.LinearFeatures()
        return bf.PolynomialFeatures(deg=deg, polynom=POL[k], remove_const=rc)

    first = [traj(*q, dt) for q in arrs]
    A = np.eye(dim)
    b = np.zeros(dim)
    c = 1.0
    O = None
    if change == "units":
        A = np.eye(dim) * float(10 ** rng.uniform(-9, 9) if linear or local else 10 ** rng.uniform(-2.5, 2.5) if deg == 1 else rng.uniform(0.5, 2.0))
        c = float(10 ** rng.uniform(-7, 7))
    elif change == "shift":
        b = rng.uniform(-1.5, 1.5, dim)
    elif change == "reflect":
        A = -np.eye(dim)
    elif change == "rotate":
        A = np.linalg.qr(rng.normal(size=(dim, dim)))[0]
    obs = None
    if change == "observable":
        obs = "obs"
        no = int(rng.integers(1, 3))
        O = (rng.normal(size=(no, no)) + 2 * np.eye(no)) * 10 ** rng.uniform(-7, 7)
        dat = [gen.ar2(rng, len(q[0]), no) + 0.3 * q[0] for q in arrs]
        if model == "Pos_gle_const_kernel":
            obs, O = None, np.eye(1) * float(rng.uniform(0.3, 3))
            second = [traj(q[0], q[1], q[2] @ O.T, dt) for q in arrs]
        else:
            second = [t.assign({"obs": (["time", "dim_obs"], d @ O.T)}) for t, d in zip(first, dat)]
            first = [t.assign({"obs": (["time", "dim_obs"], d)}) for t, d in zip(first, dat)]
            for t in first + second:
                t.attrs["dt"] = dt
    else:
        second = [traj(x @ A.T + b, v @ A.T / c, a @ A.T / c**2, dt * c) for x, v, a in arrs]
    if change == "observable" and model == "Pos_gle_const_kernel" and method not in ("rectangular", "midpoint"):
        method = "rectangular"  # the acceleration also enters the derivative of the basis
    ctx.describe(change=change, model=model, method=method, dim=dim, dt=dt, deg=deg, bases=[local or k1, local or k2], remove_const=rc)
    ctx.cover(change, model, method, "dim%d" % dim, deg, rc, local)
    e1 = estimate(ctx, first, model, mk(k1), trunc, method, obs)
    e2 = estimate(ctx, second, model, mk(k2, float(A[0, 0]), float(b[0])), trunc * c, method, obs)
    o = "dim_obs" if obs else "dim_x"
    x = np.concatenate([q[0] for q in arrs])
    pts = x[rng.integers(len(x), size=6)]
    pts2 = pts @ A.T + b
    g1, g2 = (np.linalg.cond(np.asarray(e.model.gram_force)) for e in (e1, e2))
    F1, F2 = np.asarray(e1.force_eval(pts)), np.asarray(e2.force_eval(pts2))
    overd = model in ("Pos_gle_overdamped", "Pos_gle_no_vel_basis")
    if O is not None:
        want = F1 @ O.T
    else:
        want = F1 @ A.T / (c if overd else c**2)
    tol = 1e-8 + 1e-12 * (g1 + g2)
    ref_scale = max(np.max(np.abs(q[1 if overd else 2])) for q in arrs) * np.max(np.abs(A)) / (c if overd else c**2)
    if not g1 + g2 < 1e7:
        ctx.count("skip:gram")
        return
    ctx.close("force-" + change, F2, want, rtol=tol, scale=max(np.max(np.abs(want)), 0.1 * ref_scale) * 3)
    # ---- kernel: what it multiplies is the velocity or a function of the position
    c1, c2 = (lambda e: {"bkbk": np.asarray(e.bkbkcorrw), "bkdx": np.asarray(e.bkdxcorrw), "dotbkbk": np.asarray(e.dotbkbkcorrw), "dotbkdx": np.asarray(e.dotbkdxcorrw)})(e1), None
    if e1.model.rank_projection:
        E1 = np.concatenate([ref.vectors(model, e1.model.basis, ref.xva_arrays(t))[1] for t in first])
        S = np.linalg.svd(E1.T @ E1, compute_uv=False)
        # the derivatives of the constants are exactly zero, the rank is not a matter of rounding
        if np.all((S > 1e-9 * S[0]) | (S < 1e-25 * S[0])):
            rank = int(np.sum(S > 1e-9 * S[0]))
            ctx.check(e1.model.P_range.shape[0] == e2.model.P_range.shape[0] == rank, "rank-" + change, "{} and {} for {}".format(e1.model.P_range.shape, e2.model.P_range.shape, rank))
        if e1.model.P_range.shape != e2.model.P_range.shape:
            ctx.count("skip:rank")
            return
    B1 = c1["bkbk"]
    if not (ref.spd_ok(B1[:, :, 0], 1e5) and ref.spd_ok(B1[:, :, 1], 1e5)):
        ctx.count("skip:kernel")
        return
    w, d = ref.kernel_sens(method, c1, dt, np.random.default_rng(1), eps=1e-10)
    with np.errstate(all="ignore"):
        amp = np.max(np.abs(w), axis=(1, 2))
        ok = np.isfinite(d) & (d * 100 * (g1 + g2) ** 0.5 < 1e-3 * amp)
    if not ok.any():
        ctx.count("skip:kernel")
        return
    last = int(np.argmin(ok)) if not ok.all() else len(ok)
    if last == 0:
        return
    K1, K2 = kern(e1, pts, o)[:last], kern(e2, pts2, o)[:last]
    if model == "Pos_gle_hybrid":
        f1, f2 = np.asarray(e1.model.get_const_kernel_part())[:last], np.asarray(e2.model.get_const_kernel_part())[:last]
    if O is not None:
        wantK = np.einsum("ij,tnjd->tnid", O, K1)
        if model == "Pos_gle_hybrid":
            f1 = f1 @ O.T
    elif model in ("Pos_gle", "Pos_gle_with_friction", "Pos_gle_const_kernel"):
        wantK = np.einsum("ij,tnjd,ed->tnie", A, K1, np.linalg.inv(A).T) / c**2
    elif change == "rotate":  # the same function of the position for every column
        wantK = np.einsum("ij,tnjd->tnid", A, K1) / (c**2)
    else:
        wantK = np.einsum("ij,tnjd->tnid", A, K1) / (c**2 if overd else c**3)
        if model == "Pos_gle_hybrid":
            f1 = f1 / c**2
    sc = np.max(np.abs(wantK), axis=(1, 2, 3)).reshape(-1, 1, 1, 1)
    if model == "Pos_gle_hybrid":
        both = np.max(np.abs(f1), axis=1).reshape(-1, 1, 1, 1)
        vel = max(np.max(np.abs(q[1])) for q in arrs)
        pos = 1.0
        unit = np.max(np.abs(A)) / c if O is None else 1.0
        sc = np.maximum(sc, both * vel * unit / pos)
        r = (f2 - f1) / (np.max(np.abs(f1)) + np.max(sc) / (vel * unit))
        ctx.close("constant-kernel-" + change, r, np.zeros_like(r), rtol=0, atol=1e-4)
    r = (K2 - wantK) / np.maximum(sc, 1e-6 * np.max(sc))
    ctx.close("kernel-" + change, r, np.zeros_like(r), rtol=0, atol=1e-4)
    ctx.close("times-" + change, np.asarray(e2.model.kernel["time_kernel"]), np.asarray(e1.model.kernel["time_kernel"]) * c, rtol=1e-9)
