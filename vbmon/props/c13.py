"""Evaluation of the force and of the kernel at any points."""
import numpy as np
import xarray as xr

from .. import gen, pipe, ref

METHODS = ["rectangular", "midpoint", "trapz", "second_kind_rect", "second_kind_trapz", "midpoint_w_richardson"]


def forms(rng, x, dim):
    kind = gen.choice(rng, ["array", "list", "dataset", "flat", "fortran", "transposed"])
    if kind == "list":
        return kind, x.tolist()
    if kind == "dataset":
        return kind, xr.Dataset({"x": (["time", "dim_x"], x), "v": (["time", "dim_x"], 0 * x)})
    if kind == "transposed":
        return kind, xr.Dataset({"x": (["dim_x", "time"], np.ascontiguousarray(x.T))}, coords={"time": np.arange(len(x)) * 0.5}).transpose("time", "dim_x")
    if kind == "flat":
        return kind, x.ravel().copy()
    if kind == "fortran":
        return kind, np.asfortranarray(x)
    return kind, x


def run_case(ctx):
    rng = ctx.rng
    model = pipe.ALL[ctx.idx % 6]
    p = pipe.setup(ctx, model=model, nmin=40, nmax=140) if rng.random() < 0.97 else pipe.setup(ctx, model=model, nmin=300, nmax=500, rare=False, tr_frac=0.5, dim=1)
    method = gen.choice(rng, METHODS)
    est = pipe.run(ctx, p, upto="kernel", method=method)
    m = est.model
    lo, hi = gen.rng_range(p.trajs)
    n = int(gen.choice(rng, [1, 2, 9, 23, 23])) if rng.random() < 0.93 else int(rng.integers(100, 400)) if rng.random() < 0.7 else int(rng.integers(400, 3000))
    x = lo + (hi - lo) * rng.uniform(0, 1, (n, p.dim))
    if rng.random() < 0.15:  # the same point several times, or only that one
        x[rng.integers(0, n, n // 2)] = x[0]
        if rng.random() < 0.5:
            x[:] = x[0]
    kind, arg = forms(rng, x, p.dim)
    if rng.random() < 0.4:  # evaluated before the coefficients change
        ctx.call("force_eval", m.force_eval, arg)
        ctx.call("kernel_eval", m.kernel_eval, arg)
    # coefficients with plain values: the evaluation is judged, not the estimation
    C = rng.normal(size=pipe.vals(m.force_coeff, "dim_basis", p.obs_dim).shape)
    own = bool(rng.integers(2))
    if own:
        m.force_coeff = xr.DataArray(C, dims=("dim_basis", p.obs_dim))
    else:
        C = pipe.vals(m.force_coeff, "dim_basis", p.obs_dim)
    K0 = pipe.vals(m.kernel, "time_kernel", "dim_basis", p.obs_dim)
    if own or not np.all(np.isfinite(K0)) or np.max(np.abs(K0)) > 1e10:
        K = rng.normal(size=K0.shape)
        m.kernel = xr.DataArray(K, dims=m.kernel.dims, coords=m.kernel.coords)
    else:
        K = K0
    T = np.asarray(m.kernel["time_kernel"].data)
    ctx.describe(points=n, form=kind, method=method)
    ctx.cover(kind, "n%d" % n, method)
    bk = np.asarray(p.basis.basis(x))
    db = np.asarray(p.basis.deriv(x)) if model in ("Pos_gle", "Pos_gle_with_friction") else None
    P = pipe.vals(m.P_range, "dim_basis", "dim_basis_old") if m.rank_projection else None
    nf = bk.shape[1]
    # ---- force
    F = np.asarray(ctx.call("force_eval", m.force_eval, arg))
    ctx.close("force", F, bk @ C[:nf], rtol=1e-10, scale=np.max(np.abs(bk)) * np.max(np.abs(C)))
    ctx.check(F.shape == (n, C.shape[1]), "force-shape", str(F.shape))
    if model == "Pos_gle_with_friction":
        got = np.asarray(ctx.call("friction_force_eval", m.friction_force_eval, arg))
        ctx.close("friction", got, np.einsum("nkd,ko->nod", db, C[nf:]), rtol=1e-10, scale=np.max(np.abs(db)) * np.max(np.abs(C)) * 10)
    else:
        C2 = rng.normal(size=C.shape)
        got = np.asarray(ctx.call("force_eval(coeffs)", m.force_eval, arg, xr.DataArray(C2, dims=("dim_basis", p.obs_dim))))
        ctx.close("force-given-coefficients", got, bk @ C2, rtol=1e-10, scale=np.max(np.abs(bk)) * np.max(np.abs(C2)))
        ctx.close("coefficients-kept", pipe.vals(m.force_coeff, "dim_basis", p.obs_dim), C, rtol=0)
    # ---- kernel
    if model in ("Pos_gle", "Pos_gle_with_friction"):
        E = db
    elif model == "Pos_gle_const_kernel":
        E = np.broadcast_to(np.eye(p.dim), (n, p.dim, p.dim))
    else:
        E = np.repeat(bk[:, :, None], p.dim, axis=2)
    if P is not None:
        E = np.einsum("ka,nad->nkd", P, E)
    Kx = K[:, 1:] if model == "Pos_gle_hybrid" else K
    dims = ("time_kernel", "time", p.obs_dim, "dim_x'")
    got = ctx.call("kernel_eval", m.kernel_eval, arg)
    want = np.einsum("tko,nkd->tnod", Kx, E)
    sc = np.max(np.abs(Kx)) * np.max(np.abs(E))
    ctx.check(set(got.dims) == set(dims), "kernel-dimensions", str(got.dims))
    ctx.close("kernel", pipe.vals(got, *dims), want, rtol=1e-10, scale=sc)
    ctx.same("kernel-times", np.asarray(got["time_kernel"].data), T)
    ctx.close("kernel-through-estimator", pipe.vals(est.kernel_eval(arg), *dims), want, rtol=1e-10, scale=sc)
    ctx.same("force-through-estimator", np.asarray(est.force_eval(arg)), F)
    if model == "Pos_gle_hybrid":
        got = ctx.call("get_const_kernel_part", m.get_const_kernel_part)
        ctx.close("constant-part", np.asarray(got.data).reshape(len(K), -1), K[:, 0], rtol=0)
    else:
        K2 = rng.normal(size=(int(rng.integers(1, 20)),) + K.shape[1:])
        got = ctx.call("kernel_eval(coeffs)", m.kernel_eval, arg, xr.DataArray(K2, dims=("time_kernel", "dim_basis", p.obs_dim)))
        ctx.close("kernel-given-coefficients", pipe.vals(got, *dims), np.einsum("tko,nkd->tnod", K2, E), rtol=1e-10, scale=np.max(np.abs(K2)) * np.max(np.abs(E)))
        bad = xr.DataArray(rng.normal(size=(4, K.shape[1] + 1, K.shape[2])), dims=("time_kernel", "dim_basis", p.obs_dim))
        ctx.raises("kernel_eval(wrong shape)", m.kernel_eval, arg, bad)
        bad = xr.DataArray(rng.normal(size=(4, K.shape[1], K.shape[2] + 1)), dims=("time_kernel", "dim_basis", p.obs_dim))
        ctx.raises("kernel_eval(wrong number of components)", m.kernel_eval, arg, bad)
        ctx.close("kernel-kept", pipe.vals(m.kernel, "time_kernel", "dim_basis", p.obs_dim), K, rtol=0)
    # ---- the same array filled with other points
    if rng.random() < 0.5:
        y = x.copy()
        m.force_eval(y), m.kernel_eval(y)
        j = rng.permutation(n)
        y[:] = x[j]
        ctx.close("refilled-force", np.asarray(ctx.call("force_eval", m.force_eval, y)), F[j], rtol=1e-10, scale=np.max(np.abs(bk)) * np.max(np.abs(C)))
        ctx.close("refilled-kernel", pipe.vals(ctx.call("kernel_eval", m.kernel_eval, y), *dims), want[:, j], rtol=1e-10, scale=sc)
    # ---- each point on its own
    j = int(rng.integers(n))
    ctx.close("pointwise-force", np.asarray(m.force_eval(x[j : j + 1]))[0], F[j], rtol=1e-12, scale=np.max(np.abs(F)))
    ctx.close("pointwise-kernel", pipe.vals(m.kernel_eval(x[j : j + 1]), *dims)[:, 0], want[:, j], rtol=1e-10, scale=sc)
