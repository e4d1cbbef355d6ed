"""The estimates do not depend on how the computation is carried out: number
of jobs, chunks, order and container of the trajectories, verbosity, files."""
import os

import numpy as np
import VolterraBasis as vb

from .. import gen, pipe, ref

VARIANTS = ["jobs", "dask", "order", "container", "verbose", "saveall", "duplicate", "layout", "jobs-dask"]
METHODS = ["rectangular", "midpoint", "trapz", "second_kind_rect", "second_kind_trapz"]


def lifted(est, p):
    """What a user sees, free of the choice of vectors made by the projection."""
    m = est.model
    c = pipe.corrs(est, p)
    K = pipe.vals(m.kernel, "time_kernel", "dim_basis", p.obs_dim)
    rank = None
    raw = {k: np.array(v) for k, v in c.items()}
    if m.rank_projection:
        P = pipe.vals(m.P_range, "dim_basis", "dim_basis_old")
        rank = P.shape[0]
        K = np.einsum("ka,tko->tao", P, K)
        for k in c:
            c[k] = np.einsum("ka,kln,lb->abn", P, c[k], P) if k.endswith("bk") else np.einsum("ka,kon->aon", P, c[k])
    return {"gram": pipe.vals(m.gram_force, "dim_basis'", "dim_basis"), "force": pipe.vals(m.force_coeff, "dim_basis", p.obs_dim), "corrs": c, "kernel": K, "mass": pipe.vals(m.eff_mass, "dim_x'", "dim_x"), "time": np.asarray(m.kernel["time_kernel"].data), "rank": rank, "raw": raw, "describe": est.describe_data()}


def full(ctx, p, est, method, opts):
    pipe.run(ctx, p, est, "kernel", method, corr_kw=opts)
    ctx.call("compute_effective_mass", est.compute_effective_mass)
    out = lifted(est, p)
    out["mean"] = [np.asarray(ctx.call("compute_basis_mean", est.compute_basis_mean, t)) for t in (("force", "kernel") if p.model in ("Pos_gle", "Pos_gle_with_friction") else ("force",))]
    if not est.model.rank_projection and (p.dim == 1 or p.model in ("Pos_gle", "Pos_gle_with_friction", "Pos_gle_const_kernel")):
        ctx.call("compute_gram_kernel", est.compute_gram_kernel)
        out["mean"].append(pipe.vals(est.model.gram_kernel, "dim_basis'", "dim_basis"))
    return out


def run_case(ctx):
    rng = ctx.rng
    variant = VARIANTS[ctx.idx % len(VARIANTS)]
    model = pipe.ALL[(ctx.idx // len(VARIANTS)) % 6]
    p = pipe.setup(ctx, model=model, ntraj=1 if variant == "container" and rng.random() < 0.5 else int(rng.integers(2, 6)), estimator=False)
    method = gen.choice(rng, METHODS)
    opts = {"method": gen.choice(rng, ["fft", "direct"]), "vectorize": bool(rng.random() < 0.3)}
    if not method.startswith("second") and rng.random() < 0.4:
        opts["second_order_method"] = False
    if rng.random() < 0.2:
        opts["large"] = True
    ctx.cover("options", *sorted(k for k in opts if opts[k]))
    a = full(ctx, p, pipe.make(ctx, p), method, opts)
    kw, trajs = {}, p.trajs
    if variant.startswith("jobs"):
        kw["n_jobs"] = int(gen.choice(rng, [2, 3]))
    if "dask" in variant and (p.basis_kind == "tens" or p.basis_kind == "fem" and p.dim == 2):
        # dask probes the basis with a single coordinate
        lazy = [t.chunk({"time": 20}) for t in trajs]
        e = pipe.make(ctx, p, trajs=lazy)
        try:
            ctx.quiet(e.compute_mean_force)
            ctx.quiet(e.compute_corrs)
        except ValueError as err:
            if "inference failed" in str(err):
                ctx.violate("dask-probe", "chunked trajectories with a basis of two coordinates: {}".format(str(err)[:200]))
                variant = variant.replace("dask", "order").replace("jobs-order", "jobs")
    if "dask" in variant:
        trajs = [t.chunk({"time": int(rng.integers(5, t["time"].shape[0] + 1))}) for t in trajs]
    if variant == "order":
        trajs = [trajs[i] for i in rng.permutation(len(trajs))]
    if variant == "container":
        trajs = trajs[0] if len(trajs) == 1 else gen.choice(rng, [tuple, iter, lambda t: (q for q in t), lambda t: dict(enumerate(t)).values(), list])(trajs)
    if variant in ("order", "layout"):
        kw["n_jobs"] = int(gen.choice(rng, [-1, 0, 1]))
    if variant == "verbose":
        kw["verbose"] = True
    if variant == "saveall":
        kw["saveall"] = True
    if variant == "duplicate":
        trajs = trajs + trajs
    if variant == "layout":
        new = []
        for t in trajs:
            q = t.copy(deep=True)
            for v in [v for v in q.data_vars if q[v].ndim == 2]:
                big = np.zeros((2 * q[v].shape[0], q[v].shape[1]), order=gen.choice(rng, ["C", "F"]))
                big[::2] = q[v].data
                q[v] = (q[v].dims, big[::2])
            q.attrs = dict(t.attrs)
            new.append(q)
        trajs = new
    ctx.describe(variant=variant, method=method, kw=str(kw))
    ctx.cover("variant", variant, model, method)
    if variant.startswith("jobs") and rng.random() < 0.5:
        import joblib

        with joblib.parallel_backend("threading"):
            b = full(ctx, p, pipe.make(ctx, p, trajs=trajs, **kw), method, opts)
        ctx.cover("backend", "threading")
    else:
        e = pipe.make(ctx, p, trajs=trajs, **kw)
        if isinstance(trajs, list) and trajs is not p.trajs:  # the list belongs to the user
            trajs.reverse()
            del trajs[1:]
        b = full(ctx, p, e, method, opts)
    if variant == "saveall":
        import xarray as xr

        for f in ("corrs.nc", "kernel.nc"):
            ctx.check(os.path.exists(f), "files-written", f)
        with xr.open_dataset("kernel.nc") as ds:
            K = np.asarray(ds["kernel"].data)
            ctx.same("file-time", np.asarray(ds["time_kernel"].data), b["time"])
            if b["rank"] is None:
                ctx.same("file-kernel", K, b["kernel"])
        with xr.open_dataset("corrs.nc") as ds:
            ctx.same("file-bkbk", np.asarray(ds["bkbk"].transpose("dim_basis'", "dim_basis", "time_trunc").data), b["raw"]["bkbk"])
            ctx.same("file-bkdx", np.asarray(ds["bkdx"].transpose("dim_basis", p.obs_dim, "time_trunc").data), b["raw"]["bkdx"])
        for f in ("corrs.nc", "kernel.nc"):
            os.remove(f)
    else:
        ctx.check(not os.path.exists("corrs.nc") and not os.path.exists("kernel.nc"), "no-files")
    mult = 2 if variant == "duplicate" else 1
    ctx.check(b["describe"].nobs == mult * a["describe"].nobs, "describe-nobs", "{} {}".format(b["describe"].nobs, a["describe"].nobs))
    for i in (0, 1):
        ctx.close("describe-range", b["describe"].minmax[i], a["describe"].minmax[i], rtol=1e-12)
    ctx.close("describe-mean", b["describe"].mean, a["describe"].mean, rtol=1e-9, atol=1e-12)
    ctx.close("gram", b["gram"], a["gram"], rtol=1e-9)
    ctx.close("mass", b["mass"], a["mass"], rtol=1e-9)
    for u, v in zip(b["mean"], a["mean"]):
        ctx.close("basis-mean", u, v, rtol=1e-9, scale=max(np.max(np.abs(v)), np.sqrt(np.max(np.abs(p.gram)))))
    ctx.close("force", b["force"], a["force"], rtol=1e-8 + 1e-13 * p.cond)
    if a["rank"] != b["rank"]:  # a direction of rounding size
        ctx.count("skip:rank")
        return
    ctx.check(sorted(a["corrs"]) == sorted(b["corrs"]) and all(a["corrs"][k].shape == b["corrs"][k].shape for k in a["corrs"]), "same-correlations", str(sorted(b["corrs"])))
    for k in a["corrs"]:
        sc = np.max(np.abs(a["corrs"][k]))
        if k == "bkdx":
            sc = max(sc, np.sqrt(np.max(np.abs(a["corrs"]["bkbk"]))) * max(np.max(np.abs(r[p.obs])) for r in p.arrs))
        ctx.close(k, b["corrs"][k], a["corrs"][k], rtol=1e-8 + 1e-13 * p.cond, scale=sc)
    ctx.same("kernel-time", b["time"], a["time"])
    _, d = ref.kernel_sens(method, a["raw"], p.dt, np.random.default_rng(1))
    tol = (30 * d + 1e-9 * np.max(np.abs(a["kernel"]), axis=(1, 2)))[:, None, None]
    ok = np.isfinite(tol) & (tol < 1e-2 * np.max(np.abs(a["kernel"])))
    ok = np.broadcast_to(ok, a["kernel"].shape)
    if p.cond < 1e5 and ok.any():
        r = np.where(ok, np.abs(b["kernel"] - a["kernel"]) / np.where(tol > 0, tol, 1), 0)
        ctx.close("kernel", r, np.zeros_like(r), rtol=0, atol=1.0)
