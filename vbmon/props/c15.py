"""A model saved, at any stage, in memory or in a netCDF file, and loaded again
is the same model."""
import os

import numpy as np
import xarray as xr

from .. import gen, pipe

METHODS = ["rectangular", "midpoint", "trapz", "second_kind_rect", "second_kind_trapz", "midpoint_w_richardson"]
STAGES = ["new", "force", "corrs", "kernel", "mass", "full", "full", "kernel"]


def tolerant(ctx, name, a, b, *dims):
    if a is None or b is None:
        ctx.check(a is None and b is None, "restored-" + name, "{} before, {} after".format(type(a).__name__, type(b).__name__))
        return
    ctx.check(set(a.dims) == set(b.dims), "dims-" + name, "{} -> {}".format(a.dims, b.dims))
    ctx.same("restored-" + name, np.asarray(b.transpose(*a.dims).data) if set(a.dims) == set(b.dims) else np.asarray(b), np.asarray(a.data))


def near(ctx, kind, got, want):
    got, want = np.asarray(got, float), np.asarray(want, float)
    ctx.close(kind, got, want, rtol=1e-9, scale=np.max(np.abs(want)) if want.size else 0.0)


def compare(ctx, m, l, p, x, rng):
    for k in ("dt", "trunc_ind", "L_obs", "dim_x", "dim_obs", "N_basis_elt", "N_basis_elt_force", "N_basis_elt_kernel", "method"):
        ctx.check(getattr(m, k) == getattr(l, k), "restored-" + k, "{} before, {} after".format(getattr(m, k), getattr(l, k)))
    ctx.check(bool(m.rank_projection) == bool(l.rank_projection), "restored-rank_projection")
    for k in ("force_coeff", "kernel", "gram_force", "gram_kernel", "eff_mass", "inv_mass_coeff", "P_range"):
        tolerant(ctx, k, getattr(m, k), getattr(l, k))
    if m.kernel is not None and l.kernel is not None:
        ctx.same("restored-kernel-time", np.asarray(l.kernel["time_kernel"].data), np.asarray(m.kernel["time_kernel"].data))
    # what a user computes with it
    if m.force_coeff is not None:
        near(ctx, "same-force", np.asarray(ctx.call("force_eval", l.force_eval, x)), np.asarray(m.force_eval(x)))
        if p.dim == 1 and p.obs != "obs" and p.basis_kind.split("-")[0] in ("lin", "linc", "poly", "cheb", "leg", "four", "bspl", "spl"):
            near(ctx, "same-pmf", np.asarray(ctx.call("pmf_eval", l.pmf_eval, x)), np.asarray(ctx.quiet(m.pmf_eval, x)))
    if m.kernel is not None and np.all(np.isfinite(m.kernel)):
        near(ctx, "same-kernel", np.asarray(ctx.call("kernel_eval", l.kernel_eval, x)), np.asarray(m.kernel_eval(x)))
        if m.method in ("rectangular", "trapz", "second_kind_rect", "second_kind_trapz") and m.kernel.shape[0] < p.trajs[0].sizes["time"]:
            t = p.trajs[0]
            a, b = m.compute_noise(t), ctx.call("compute_noise", l.compute_noise, t)
            for i in range(5):
                near(ctx, "same-noise", np.asarray(b[i]), np.asarray(a[i]))
            a, b = m.compute_corrs_w_noise(t), ctx.call("compute_corrs_w_noise", l.compute_corrs_w_noise, t)
            near(ctx, "same-noise-correlation", np.asarray(b[1]), np.asarray(a[1]))
        s1, L1 = m.laplace_transform_kernel(n_points=5)
        s2, L2 = ctx.call("laplace_transform_kernel", l.laplace_transform_kernel, n_points=5)
        near(ctx, "same-laplace", L2, L1)


def run_case(ctx):
    rng = ctx.rng
    model = pipe.ALL[ctx.idx % 6]
    stage = STAGES[(ctx.idx // 6) % len(STAGES)]
    p = pipe.setup(ctx, model=model, nmin=40, nmax=120)
    method = gen.choice(rng, METHODS)
    est = p.est
    early = None
    if rng.random() < 0.5:  # saved before too
        early = ctx.call("save_model", est.model.save_model)
        kept = early.copy(deep=True)
    if stage == "force" or stage == "mass":
        pipe.run(ctx, p, upto="force")
    elif stage != "new":
        pipe.run(ctx, p, upto="corrs" if stage == "corrs" else "kernel", method=method)
    if early is not None and rng.random() < 0.5:
        early = ctx.call("save_model", est.model.save_model)
        kept = early.copy(deep=True)
    if stage in ("mass", "full"):
        ctx.call("compute_effective_mass", est.compute_effective_mass)
    if stage == "full":
        ctx.call("compute_gram_kernel", est.compute_gram_kernel)
        if p.dim == 1 and model in ("Pos_gle_no_vel_basis", "Pos_gle_overdamped", "Pos_gle_const_kernel"):
            ctx.call("compute_pos_effective_mass", est.compute_pos_effective_mass)
    m = est.model
    if early is not None and stage in ("kernel", "full") and rng.random() < 0.5:
        early = ctx.call("save_model", m.save_model)
        kept = early.copy(deep=True)
        what = gen.choice(rng, ["other kernel", "zero force", "in place", "mass", "other coefficients"])
        ctx.cover("after-save", what)
        if what == "other kernel":
            method = gen.choice(rng, METHODS)
            ctx.call("compute_kernel(%s)" % method, est.compute_kernel, method=method)
        elif what == "zero force":
            ctx.call("set_zero_force", est.set_zero_force)
        elif what == "mass":
            ctx.call("compute_effective_mass", est.compute_effective_mass)
        elif what == "other coefficients":
            m.force_coeff = m.force_coeff * 2.0
            m.kernel = m.kernel.isel(time_kernel=slice(0, max(2, m.kernel.shape[0] // 2)))
        else:
            m.kernel = m.kernel.copy(deep=True)
            early = ctx.call("save_model", m.save_model)
            kept = early.copy(deep=True)
    if m.kernel is not None and rng.random() < 0.08:  # a long kernel
        n = int(10 ** rng.uniform(2, 3.7))
        m.kernel = xr.DataArray(rng.normal(size=(n,) + m.kernel.shape[1:]), dims=m.kernel.dims, coords={"time_kernel": np.arange(n) * p.dt})
        ctx.cover("long-kernel", int(np.log2(m.kernel.size)))
    way = gen.choice(rng, ["memory", "file", "file", "twice"])
    ctx.describe(stage=stage, way=way, method=method)
    ctx.cover(stage, way, method)
    ds = ctx.call("save_model", m.save_model)
    ctx.check(isinstance(ds, xr.Dataset), "save-type")

    def load(d):
        how = gen.choice(rng, ["fitted", "describe"])
        if how == "fitted":
            b = m.basis
            return ctx.call("load_model(fitted)", type(m).load_model, b, d)
        return ctx.call("load_model(describe)", type(m).load_model, p.factory(), d, describe_data=est.describe_data())

    if way == "memory":
        l = load(ds)
    else:
        f = "model-%d.nc" % ctx.idx
        try:
            ctx.call("to_netcdf", ds.to_netcdf, f)
            with xr.open_dataset(f) as d:
                d = d.load()
            l = load(d)
            if way == "twice":
                ctx.call("to_netcdf", ctx.call("save_model", l.save_model).to_netcdf, f + "2")
                with xr.open_dataset(f + "2") as d:
                    d = d.load()
                l = load(d)
        finally:
            for g in (f, f + "2"):
                if os.path.exists(g):
                    os.remove(g)
    if early is not None:
        ctx.check(early.identical(kept), "saved-model-kept", "a saved model changed with what was computed later")
    X = np.concatenate([r["x"] for r in p.arrs])
    compare(ctx, m, l, p, X[rng.integers(len(X), size=5)], rng)
