"""Averages over the trajectories: gram matrices, mean force (least squares),
masses, mean of the basis, description of the data."""
import numpy as np

from .. import gen, pipe, ref


def wavg(arrs, f):
    N = sum(r["x"].shape[0] for r in arrs)
    return sum(f(r) for r in arrs) / N


def run_case(ctx):
    rng = ctx.rng
    model = pipe.ALL[ctx.idx % 6]
    exact = ctx.idx % 3 == 0 and model != "Pos_gle_const_kernel"
    p = pipe.setup(ctx, model=model, estimator=False, custom_obs=exact or None)
    if exact:  # an observable that is exactly the force of known coefficients
        c = rng.normal(size=p.proj.shape)
        new = []
        for t, r in zip(p.trajs, p.arrs):
            E = ref.vectors(model, p.basis, r)[0]
            q = t.assign({"obs": (["time", "dim_obs"], E @ c)})
            q.attrs["dt"] = p.dt
            new.append(q)
        p.trajs, p.arrs = new, [ref.xva_arrays(t) for t in new]
        p.gram, p.proj = ref.mean_force(model, p.basis, p.arrs, p.obs)
    est = p.est = pipe.make(ctx, p)
    m = est.model
    ctx.cover("exact" if exact else "estimated")
    # -- description of the data
    d = est.describe_data()
    X = np.concatenate([r["x"] for r in p.arrs])
    ctx.check(d.nobs == len(X), "describe-nobs", "{} for {}".format(d.nobs, len(X)))
    ctx.close("describe-min", d.minmax[0], X.min(axis=0), rtol=1e-12)
    ctx.close("describe-max", d.minmax[1], X.max(axis=0), rtol=1e-12)
    ctx.close("describe-mean", d.mean, X.mean(axis=0), rtol=1e-9, scale=np.max(np.abs(X)))
    # -- gram matrix and mean force
    if rng.random() < 0.5:
        ctx.call("compute_gram_force", est.compute_gram_force)
        ctx.close("gram-alone", pipe.vals(m.gram_force, "dim_basis'", "dim_basis"), p.gram, rtol=1e-9)
    ctx.call("compute_mean_force", est.compute_mean_force)
    G = pipe.vals(m.gram_force, "dim_basis'", "dim_basis")
    C = pipe.vals(m.force_coeff, "dim_basis", p.obs_dim)
    ctx.close("gram-force", G, p.gram, rtol=1e-9)
    ctx.close("gram-symmetric", G, G.T, rtol=1e-12)
    sc = np.sqrt(np.max(np.abs(p.gram))) * max(np.max(np.abs(r[p.obs])) for r in p.arrs)
    want = np.linalg.solve(p.gram, p.proj)
    ctx.close("force-coefficients", C, want, rtol=1e-7 + 1e-12 * p.cond, atol=1e-12 * p.cond * sc / np.max(np.abs(p.gram)))
    # the observable minus the force is orthogonal to the basis
    orth = wavg(p.arrs, lambda r: ref.vectors(model, p.basis, r)[0].T @ (r[p.obs] - ref.vectors(model, p.basis, r)[0] @ C))
    ctx.close("orthogonality", orth, np.zeros_like(orth), rtol=0, atol=(1e-9 + 1e-13 * p.cond) * sc)
    if exact:
        ctx.close("force-recovered", C, c, rtol=1e-7 + 1e-11 * p.cond)
    if rng.random() < 0.3:
        ctx.call("set_zero_force", est.set_zero_force)
        z = pipe.vals(m.force_coeff, "dim_basis", p.obs_dim)
        ctx.check(z.shape == C.shape and not np.any(z), "zero-force", "shape {} instead of {}".format(z.shape, C.shape))
        ctx.call("compute_mean_force", est.compute_mean_force)
        ctx.same("force-again", pipe.vals(m.force_coeff, "dim_basis", p.obs_dim), C)
    x = X[rng.integers(len(X), size=7)]
    # -- masses
    if rng.random() < 0.5:
        ctx.call("compute_effective_mass", est.compute_effective_mass)
        v2 = wavg(p.arrs, lambda r: r["v"].T @ r["v"])
        ctx.close("effective-mass", pipe.vals(m.eff_mass, "dim_x'", "dim_x"), np.linalg.inv(v2), rtol=1e-8)
        ctx.close("equipartition", pipe.vals(m.eff_mass, "dim_x'", "dim_x") @ v2, np.eye(p.dim), rtol=0, atol=1e-8)
    if p.dim == 1 and model in ("Pos_gle_no_vel_basis", "Pos_gle_overdamped", "Pos_gle_const_kernel"):
        ctx.call("compute_pos_effective_mass", est.compute_pos_effective_mass)
        E = (lambda r: np.ones((len(r["x"]), 1))) if model == "Pos_gle_const_kernel" else (lambda r: np.asarray(p.basis.basis(r["x"])))
        g = wavg(p.arrs, lambda r: E(r).T @ E(r))
        b = wavg(p.arrs, lambda r: E(r).T @ r["v"] ** 2)
        ctx.close("position-dependent-mass", np.asarray(m.inv_mass_coeff).reshape(b.shape), np.linalg.solve(g, b), rtol=1e-7 + 1e-11 * np.linalg.cond(g))
    # -- mean of the basis
    typ = gen.choice(rng, ["force", "kernel"])
    got = ctx.call("compute_basis_mean", est.compute_basis_mean, typ)
    if typ == "force":
        w = wavg(p.arrs, lambda r: ref.vectors(model, p.basis, r)[0].sum(axis=0))
        ctx.close("basis-mean", pipe.vals(got, "dim_basis"), w, rtol=1e-9, scale=np.sqrt(np.max(np.abs(p.gram))))
    elif model in ("Pos_gle", "Pos_gle_with_friction"):
        w = wavg(p.arrs, lambda r: np.asarray(p.basis.deriv(r["x"])).sum(axis=0))
        ctx.close("basis-mean-kernel", pipe.vals(got, "dim_basis", "dim_x"), w, rtol=1e-8)
    # -- gram matrix of the kernel part
    if model in ("Pos_gle", "Pos_gle_with_friction"):
        gk = wavg(p.arrs, lambda r: np.einsum("nkd,nld->kl", *[np.asarray(p.basis.deriv(r["x"]))] * 2))
    elif model == "Pos_gle_const_kernel":
        gk = np.eye(p.dim)
    elif p.dim == 1:
        gk = wavg(p.arrs, lambda r: np.asarray(p.basis.basis(r["x"])).T @ np.asarray(p.basis.basis(r["x"])))
    else:
        gk = None
    if gk is not None:
        if m.rank_projection:
            ctx.call("compute_corrs", est.compute_corrs)
            P = pipe.vals(m.P_range, "dim_basis", "dim_basis_old")
            gk = P @ gk @ P.T
        ctx.call("compute_gram_kernel", est.compute_gram_kernel)
        ctx.close("gram-kernel", pipe.vals(m.gram_kernel, "dim_basis'", "dim_basis"), gk, rtol=1e-8)
    # -- time derivative of the basis as observable
    if model in ("Pos_gle_no_vel_basis", "Pos_gle_overdamped") and rng.random() < 0.6:
        own = [t.copy(deep=True) for t in p.trajs]
        for t in own:
            t.attrs["dt"] = p.dt
        if rng.random() < 0.4:  # the trajectories already hold the derivative of another basis
            for t in own:
                t["dE"] = (("time", "dim_dE"), rng.normal(size=(t.sizes["time"], p.gram.shape[0])))
            ctx.cover("gfpe-again")
        name = gen.choice(rng, ["dE", "dE", "other"])
        kw = {} if name == "dE" else {"new_obs_name": name}
        e2 = pipe.make(ctx, p, trajs=own)
        ctx.call("to_gfpe", e2.to_gfpe, **kw)
        ctx.check(e2.model.L_obs == name and e2.model.dim_obs == p.gram.shape[0], "gfpe-observable")
        dE = [ref.vectors(model, p.basis, r)[2] for r in p.arrs]
        for t, w in zip(own, dE):
            ctx.close("gfpe-derivative", np.asarray(t[name].transpose("time", "dim_dE").data), w, rtol=1e-9)
        ctx.call("compute_mean_force", e2.compute_mean_force)
        b = sum(np.asarray(p.basis.basis(r["x"])).T @ w for r, w in zip(p.arrs, dE)) / len(X)
        ctx.close("gfpe-force", pipe.vals(e2.model.force_coeff, "dim_basis", "dim_dE"), np.linalg.solve(p.gram, b), rtol=1e-7 + 1e-12 * p.cond, atol=1e-12 * p.cond * max(np.max(np.abs(w)) for w in dE))
