"""Build one estimation problem (trajectories, basis, model, truncation)."""
import numpy as np
import xarray as xr
import VolterraBasis as vb

from . import gen, ref
from .ctx import SkipCase

ALL = list(gen.MODELS)


class Problem:
    pass


def setup(ctx, model=None, dim=None, ntraj=None, kinds=None, custom_obs=None, nmin=60, nmax=240, dask=False, consistent=None, equal=False, verbose=None, tr_frac=None, estimator=True, kind=None, rare=True):
    rng = ctx.rng
    p = Problem()
    # unusual sizes: long data, many trajectories, many dimensions, large bases, no truncation
    flavour = gen.choice(rng, ["long", "many", "dims", "basis", "basis", "whole", "short"]) if rare and rng.random() < 0.2 else None
    if flavour == "long":
        nmin, nmax = 4 * nmax, 8 * nmax
    elif flavour == "many" and ntraj is None:
        ntraj = int(rng.integers(6, 20))
        nmin, nmax = nmin, nmin + 20
    elif flavour == "basis" and rng.random() < 0.4:  # enough data for many functions
        nmin, nmax = 2 * nmax, 4 * nmax
    elif flavour == "short":
        nmin, nmax = max(12, nmin // 3), max(16, nmin // 2)
    p.model = model or gen.choice(rng, kinds or ALL)
    if dim is None:
        dim = 1 if p.model == "Pos_gle_hybrid" else int(gen.choice(rng, [1, 1, 1, 2, 2, 3]))
        if flavour == "dims" and p.model != "Pos_gle_hybrid":
            dim = int(rng.integers(4, 8))
    p.dim, p.dt = dim, gen.pick_dt(rng)
    p.trajs, p.kinds = gen.make_trajs(rng, dim, p.dt, ntraj=ntraj, nmin=nmin, nmax=nmax, consistent=consistent, equal=equal)
    if flavour != "whole" and rng.random() < 0.15:  # pieces of longer trajectories: lags do not depend on the origin of time
        p.trajs = [t.assign_coords(time=t["time"] + p.dt * int(rng.integers(-20, 500))) for t in p.trajs]
        for t in p.trajs:
            t.attrs["dt"] = p.dt
        ctx.count("flavour:origin-of-time")
    lo, hi = gen.rng_range(p.trajs)
    if kind is None:
        p.basis_kind, p.factory = gen.model_basis(rng, p.model, dim, lo, hi, large=flavour == "basis")
    else:
        p.basis_kind, p.factory = kind, gen.make_basis(rng, kind, lo, hi, remove_const=(p.model == "Pos_gle_with_friction"))
    p.obs = ref.default_obs(p.model)
    p.L_obs = None
    asked = custom_obs
    if custom_obs is None:
        custom_obs = p.model != "Pos_gle_const_kernel" and rng.random() < 0.2
    if custom_obs and p.model != "Pos_gle_const_kernel":
        dobs = int(rng.integers(1, 4))
        p.obs = p.L_obs = "obs"
        p.trajs = [t.assign({"obs": (["time", "dim_obs"], gen.ar2(rng, t["x"].shape[0], dobs) + 0.2 * t["x"].data[:, :1])}) for t in p.trajs]
        for t in p.trajs:
            t.attrs["dt"] = p.dt
    elif asked is None and rare and p.model in ("Pos_gle", "Pos_gle_const_kernel", "Pos_gle_no_vel_basis", "Pos_gle_overdamped") and rng.random() < 0.06:
        p.obs = p.L_obs = "v" if p.obs == "a" else "a"  # another variable of the trajectory
        ctx.count("flavour:other-variable")
    # what users also have in their data sets
    if p.dt == 1.0 and rng.random() < 0.4:
        p.trajs = [t.assign_coords(time=np.round(t["time"].data).astype(int)) for t in p.trajs]
        for t in p.trajs:
            t.attrs["dt"] = p.dt = 1
        ctx.count("flavour:integer-time")
    if rng.random() < 0.1:
        p.trajs = [t.assign(energy=("time", rng.normal(size=t.sizes["time"]))) for t in p.trajs]
        for t in p.trajs:
            t.attrs["dt"] = p.dt
        ctx.count("flavour:more-variables")
    p.arrs = [ref.xva_arrays(t) for t in p.trajs]
    if p.obs == "obs":
        p.obs_dim = "dim_obs"
    else:
        p.obs_dim = "dim_x"
    p.describe = gen.true_describe(p.trajs)
    p.basis = ref.fit_basis(p.factory, p.model, p.describe)
    nshort = min(a["x"].shape[0] for a in p.arrs)
    p.trunc_ind = max(4, int(nshort * (tr_frac if tr_frac is not None else rng.uniform(0.1, 0.6))))
    if flavour in ("long", "basis"):
        p.trunc_ind = min(p.trunc_ind, 90)
    # half way between two times, so that rounding plays no role
    p.trunc = (p.trunc_ind - 0.5) * p.dt
    if p.dt in (0.25, 1.0) and rng.random() < 0.5:  # exactly the last time to keep
        p.trunc = (p.trunc_ind - 1) * p.dt
        ctx.count("flavour:exact-trunc")
    if flavour == "whole" and tr_frac is None:  # longer than the shortest trajectory
        p.trunc_ind = nshort
        p.trunc = 3.0 * nshort * p.dt
    p.gram, p.proj = ref.mean_force(p.model, p.basis, p.arrs, p.obs)
    p.cond = np.linalg.cond(p.gram)
    if not p.cond < 1e7:
        ctx.count("skip:gram")
        raise SkipCase()
    ctx.describe(model=p.model, dim=dim, dt=p.dt, lengths=[a["x"].shape[0] for a in p.arrs], signal=p.kinds[0], basis=p.basis_kind, obs=p.obs, trunc_ind=p.trunc_ind)
    ctx.cover(p.model, "dim%d" % dim, p.basis_kind, p.obs, "ntraj%d" % len(p.trajs), str(flavour))
    if flavour:
        ctx.count("flavour:" + flavour)
    if estimator:
        p.est = make(ctx, p)
    return p


def make(ctx, p, trajs=None, n_jobs=1, factory=None, **kw):
    trajs = p.trajs if trajs is None else trajs
    kwargs = dict(trunc=p.trunc, saveall=False, verbose=bool(ctx.idx % 5 == 2), n_jobs=n_jobs)
    if p.L_obs is not None:
        kwargs["L_obs"] = p.L_obs
    kwargs.update(kw)
    return ctx.call("Estimator_gle", vb.Estimator_gle, trajs, gen.MODELS[p.model], (factory or p.factory)(), **kwargs)


def run(ctx, p, est=None, upto="kernel", method="rectangular", corr_kw=None, **kw):
    est = est or p.est
    ctx.call("compute_mean_force", est.compute_mean_force)
    if upto == "force":
        return est
    ctx.call("compute_corrs", est.compute_corrs, **dict(kw, **(corr_kw or {})))
    if upto == "corrs":
        return est
    ctx.call("compute_kernel(%s)" % method, est.compute_kernel, method=method)
    return est


def vals(da, *dims):
    """Numpy values with a given order of the named dimensions."""
    if isinstance(da, xr.DataArray):
        return np.asarray(da.transpose(*dims).data) if set(dims) == set(da.dims) else np.asarray(da.data)
    return np.asarray(da)


def corrs(est, p):
    o = p.obs_dim
    out = {"bkdx": vals(est.bkdxcorrw, "dim_basis", o, "time_trunc"), "bkbk": vals(est.bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc")}
    if est.dotbkdxcorrw is not None:
        out["dotbkdx"] = vals(est.dotbkdxcorrw, "dim_basis", o, "time_trunc")
    if est.dotbkbkcorrw is not None and np.ndim(est.dotbkbkcorrw) == 3:
        out["dotbkbk"] = vals(est.dotbkbkcorrw, "dim_basis'", "dim_basis", "time_trunc")
    return out
