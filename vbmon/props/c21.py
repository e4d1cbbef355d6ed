"""Any order of calls: each result only depends on the calls it is documented
to need; calls whose prerequisite is missing are refused; inputs are untouched;
the saved files contain the results.

The monitor keeps an abstract state (which force, which correlations, which
kernel are current) for a random history of calls, predicts which calls have to
be refused, and compares the final state bit for bit with a fresh estimator
that only made the necessary calls."""
import copy
import os
import shutil

import numpy as np
import xarray as xr
import VolterraBasis as vb
import VolterraBasis.basis as bf

from .. import gen, pipe
from ..ctx import fingerprint

METHODS = ["rectangular", "midpoint", "midpoint_w_richardson", "trapz", "second_kind_rect", "second_kind_trapz"]


def arr(a):
    return None if a is None else np.asarray(a)


def state_of(est):
    m = est.model
    return {
        "force_coeff": arr(m.force_coeff),
        "gram_force": arr(m.gram_force),
        "kernel": arr(m.kernel),
        "time_kernel": None if m.kernel is None else arr(m.kernel["time_kernel"]),
        "bkbk": arr(est.bkbkcorrw),
        "bkdx": arr(est.bkdxcorrw),
        "dotbkdx": arr(est.dotbkdxcorrw),
        "dotbkbk": arr(est.dotbkbkcorrw),
        "eff_mass": arr(m.eff_mass),
        "method": m.method,
    }


def history(ctx, rng):
    p = pipe.setup(ctx, nmin=30, nmax=70, ntraj=int(rng.integers(1, 3)), tr_frac=float(rng.uniform(0.2, 0.5)))
    other = pipe.make(ctx, p)  # works on the same trajectories in between
    est = p.est
    marks = [fingerprint(t) for t in p.trajs]
    x = np.linspace(-0.5, 0.5, 4 * p.dim).reshape(-1, p.dim)
    force = corrs = kernel = mass = None  # abstract state
    for step in range(int(rng.integers(6, 18))):
        op = gen.choice(rng, ["mean", "mean", "zero", "corrs", "corrs", "kernel", "kernel", "kernel", "mass", "noise", "force_eval", "kernel_eval", "check", "other", "gramk", "laplace", "basis_mean", "corrs_noise", "evolve", "save", "describe"])
        ctx.cover("op", op, force is not None, corrs is not None, kernel is not None)
        if op == "mean":
            ctx.call("compute_mean_force", est.compute_mean_force)
            force = "mean"
        elif op == "zero":
            ctx.call("set_zero_force", est.set_zero_force)
            force = "zero" if force is None or force == "zero" else "zero+gram"
        elif op == "corrs":
            kw = gen.choice(rng, [{}, {}, {"second_order_method": False}, {"method": "direct"}])
            if force is None:
                ctx.raises("compute_corrs(no force)", est.compute_corrs, **kw)
            else:
                ctx.call("compute_corrs", est.compute_corrs, **kw)
                corrs = (force, kw)
        elif op == "kernel" and rng.random() < 0.1:
            ctx.raises("compute_kernel(unknown)", est.compute_kernel, method="simpson")
        elif op == "kernel":
            meth = gen.choice(rng, METHODS)
            if corrs is None:
                ctx.raises("compute_kernel(no corrs)", est.compute_kernel, method=meth)
            elif corrs[1].get("second_order_method") is False and meth.startswith("second"):
                ctx.raises("compute_kernel(%s without derivative)" % meth, est.compute_kernel, method=meth)
                ctx.check(est.model.kernel is None if kernel is None else est.model.kernel is not None, "refusal-leaves-kernel")
            else:
                ctx.call("compute_kernel(%s)" % meth, est.compute_kernel, method=meth)
                kernel = (corrs, meth)
                ctx.cover("kernel-after", meth, sorted(corrs[1]))
        elif op == "mass":
            ctx.call("compute_effective_mass", est.compute_effective_mass)
            mass = True
        elif op == "noise":
            if force is None:
                ctx.raises("compute_noise(no force)", est.model.compute_noise, p.trajs[0])
            elif kernel is not None and "midpoint" in kernel[1]:
                ctx.raises("compute_noise(midpoint)", est.model.compute_noise, p.trajs[0], exc=ValueError)
            elif kernel is not None and (corrs is None or kernel[0] == corrs):
                N = p.trajs[0].sizes["time"]
                kw = {}
                if kernel is not None and rng.random() < 0.5:
                    kw["trunc_kernel"] = int(rng.integers(1, est.model.kernel.shape[0] + 2))
                if rng.random() < 0.4:
                    kw["start_point"], kw["end_point"] = int(rng.integers(0, 4)), int(rng.integers(N - 4, N + 1))
                ctx.cover("noise-options", sorted(kw))
                ctx.call("compute_noise", est.model.compute_noise, p.trajs[0], **kw)
        elif op == "corrs_noise":
            if kernel is not None and kernel[0] == corrs and "midpoint" not in kernel[1] and force is not None:
                ctx.call("compute_corrs_w_noise", est.model.compute_corrs_w_noise, p.trajs[0], gen.choice(rng, [None, "v"]))
        elif op == "evolve":
            m = est.model
            if p.model == "Pos_gle_overdamped" and kernel is not None and force is not None and m.kernel.shape[1] == m.kernel.shape[2] == m.force_coeff.shape[0] == m.force_coeff.shape[1]:
                ctx.call("evolve_volterra", m.evolve_volterra, np.eye(m.kernel.shape[1]), int(rng.integers(2, 12)), method=gen.choice(rng, ["rect", "trapz", "trapz_stab"]))
                ctx.call("flux_from_volterra", m.flux_from_volterra, *[rng.normal(size=(2, m.kernel.shape[1], 5))] * 2, method="rect") if "midpoint" not in kernel[1] else None
        elif op == "save":
            d = os.path.join(os.environ.get("VB_SCRATCH", "/tmp"), "hist-%d-%d" % (os.getpid(), ctx.idx))
            try:
                ctx.quiet(est.model.save_model, d)
            except Exception:
                ctx.count("skip:save")
            if os.path.isdir(d):
                shutil.rmtree(d, ignore_errors=True)
            elif os.path.exists(d):
                os.remove(d)
        elif op == "describe":
            ctx.call("describe_data", est.describe_data)
        elif op == "force_eval":
            if force is None:
                ctx.raises("force_eval(no force)", est.model.force_eval, x)
                if p.model != "Pos_gle_hybrid" and p.dim == 1:
                    ctx.raises("pmf_eval(no force)", est.model.pmf_eval, x)
            else:
                ctx.call("force_eval", est.model.force_eval, x)
        elif op == "kernel_eval":
            if kernel is None:
                ctx.raises("kernel_eval(no kernel)", est.model.kernel_eval, x)
            elif kernel[0] == corrs and p.obs == "a" and p.dim == 1:
                ctx.call("kernel_eval", est.model.kernel_eval, x)
        elif op == "laplace":
            if kernel is None:
                ctx.raises("laplace(no kernel)", est.model.laplace_transform_kernel)
            else:
                ctx.call("laplace_transform_kernel", est.model.laplace_transform_kernel, n_points=2)
        elif op == "check":
            if kernel is None:
                ctx.raises("check_volterra_inversion(no kernel)", est.check_volterra_inversion)
            elif "midpoint" in kernel[1]:
                ctx.raises("check_volterra_inversion(midpoint)", est.check_volterra_inversion, exc=ValueError)
                if est.model.force_coeff is not None:
                    ctx.raises("flux_from_volterra(midpoint)", est.model.flux_from_volterra, np.ones((1, est.model.force_coeff.shape[0], 3)), np.ones((1, est.model.kernel.shape[1], 3)), exc=ValueError)
            elif kernel[0] == corrs:
                ctx.call("check_volterra_inversion", est.check_volterra_inversion)
        elif op == "gramk":
            if not est.model.rank_projection or corrs is not None:
                ctx.call("compute_gram_kernel", est.compute_gram_kernel)
        elif op == "basis_mean":
            ctx.call("compute_basis_mean", est.compute_basis_mean)
        else:
            pipe.run(ctx, p, other, upto=gen.choice(rng, ["force", "corrs", "kernel"]), method=gen.choice(rng, METHODS))
    ctx.describe(force=force, corrs=str(corrs), kernel=str(kernel))
    # the same from the necessary calls only
    ref = pipe.make(ctx, p)

    def set_force(f):
        if f == "mean" or f == "zero+gram":
            ctx.call("compute_mean_force", ref.compute_mean_force)
        if f in ("zero", "zero+gram"):
            ctx.call("set_zero_force", ref.set_zero_force)

    if kernel is not None:
        set_force(kernel[0][0])
        ctx.call("compute_corrs", ref.compute_corrs, **kernel[0][1])
        ctx.call("compute_kernel", ref.compute_kernel, method=kernel[1])
    if corrs is not None and (kernel is None or kernel[0] != corrs):
        set_force(corrs[0])
        ctx.call("compute_corrs", ref.compute_corrs, **corrs[1])
    if force is not None:
        set_force(force)
    if corrs is not None:  # does not need the kernel
        alone = pipe.make(ctx, p)
        if corrs[0] in ("mean", "zero+gram"):
            ctx.call("compute_mean_force", alone.compute_mean_force)
        if corrs[0] in ("zero", "zero+gram"):
            ctx.call("set_zero_force", alone.set_zero_force)
        ctx.call("compute_corrs", alone.compute_corrs, **corrs[1])
        for e in (est, alone):
            ctx.call("compute_gram_kernel", e.compute_gram_kernel)
        ctx.same("history-independent", arr(est.model.gram_kernel), arr(alone.model.gram_kernel), "gram_kernel")
    if mass:
        ctx.call("compute_effective_mass", ref.compute_effective_mass)
    got, want = state_of(est), state_of(ref)
    for k in want:
        if k == "method":
            ctx.check(got[k] == want[k], "history-independent", "method {} {}".format(got[k], want[k]))
        elif want[k] is None or got[k] is None:
            ctx.check(want[k] is None and got[k] is None, "history-independent", k)
        elif want[k].dtype == object:
            continue
        else:
            ctx.same("history-independent", got[k], want[k], k)
    for t, f in zip(p.trajs, marks):
        ctx.check(fingerprint(t) == f, "trajectories-unchanged", "a trajectory was modified")


def refuse(ctx, rng):
    """Inputs that have to be refused when the estimator is built."""
    model = gen.choice(rng, pipe.ALL)
    dim, dt = (1 if model == "Pos_gle_hybrid" else int(rng.integers(1, 3))), 0.1
    trajs = [gen.make_xva(rng, 30, dim, dt)[0] for _ in range(int(rng.integers(1, 4)))]
    at = int(rng.integers(len(trajs)))
    cls = gen.MODELS[model]

    def build(tr, basis=None, **kw):
        return vb.Estimator_gle(tr, cls, basis or bf.LinearFeatures(), saveall=False, verbose=False, **kw)

    def alter(f):
        out = [t.copy() for t in trajs]
        out[at] = f(out[at])
        return out if len(out) > 1 or rng.random() < 0.5 else out[0]

    ctx.describe(what="refuse", model=model, n=len(trajs), at=at)
    ctx.cover("refuse", model, len(trajs), at)
    ctx.call("Estimator_gle", build, trajs if len(trajs) > 1 else trajs[0])

    def nodt(t):
        t = t.copy()
        t.attrs = {}
        return t

    ctx.raises("Estimator(no dt)", build, alter(nodt))
    ctx.raises("Estimator(no time)", build, alter(lambda t: t.rename({"time": "t"})))
    need = ["x", "v"] if model in ("Pos_gle_overdamped", "Pos_gle_no_vel_basis") else ["x", "v", "a"]
    miss = gen.choice(rng, need)
    ctx.raises("Estimator(no %s)" % miss, build, alter(lambda t: t.drop_vars(miss)))
    ctx.raises("Estimator(L_obs)", build, trajs, L_obs="absent")

    class NoDeriv:
        n_output_features_ = 1

        def basis(self, x):
            return x

    class NoFit:
        def basis(self, x):
            return x

        def deriv(self, x):
            return np.ones((len(x), 1, 1))

    ctx.raises("Estimator(basis without deriv)", build, trajs, NoDeriv())
    ctx.raises("Estimator(basis without fit)", build, trajs, NoFit())
    est = ctx.call("Estimator_gle", build, trajs, trunc=1.05)
    if np.linalg.cond(np.asarray(pipe.ref.mean_force(model, bf.LinearFeatures().fit(gen.true_describe(trajs)), [pipe.ref.xva_arrays(t) for t in trajs], pipe.ref.default_obs(model))[0])) > 1e10:
        return
    ctx.call("compute_mean_force", est.compute_mean_force)
    ctx.call("compute_corrs", est.compute_corrs)
    ctx.raises("compute_kernel(unknown)", est.compute_kernel, method=gen.choice(rng, ["simpson", "Rectangular", "", "unknown"]))
    xs = np.zeros((3, dim))
    nb = est.model.N_basis_elt_force
    if model != "Pos_gle_with_friction":
        ctx.raises("force_eval(wrong coeffs)", est.model.force_eval, xs, np.ones((nb + 1, dim)))
    if model != "Pos_gle_with_friction":
        ctx.raises("basis_vector(unknown)", est.model.basis_vector, trajs[0], compute_for="unknown")
    ctx.call("compute_kernel", est.compute_kernel)
    if model != "Pos_gle_hybrid":
        K = est.model.kernel
        bad = xr.DataArray(np.ones((3, K.shape[1] + 1, K.shape[2])), dims=K.dims)
        ctx.raises("kernel_eval(wrong coeffs)", est.model.kernel_eval, xs, bad)


def files(ctx, rng):
    p = pipe.setup(ctx, nmin=30, nmax=60, tr_frac=float(rng.uniform(0.2, 0.5)), estimator=False)
    d = os.path.join(os.environ.get("VB_SCRATCH", "/tmp"), "files-%d-%d" % (os.getpid(), ctx.idx))
    os.makedirs(d)
    cwd = os.getcwd()
    os.chdir(d)
    try:
        save = rng.random() < 0.75
        prefix = gen.choice(rng, ["", "", "run_", "sub/a-"])
        if "/" in prefix:
            os.makedirs(os.path.join(d, os.path.dirname(prefix)))
        two = save and rng.random() < 0.4
        if two:  # another estimator saves its results with another prefix
            late = rng.random() < 0.5
            other = pipe.make(ctx, p, saveall=True, prefix="other_")
            if not late:
                pipe.run(ctx, p, other, method="trapz")
        est = pipe.make(ctx, p, saveall=save, prefix=prefix) if prefix else pipe.make(ctx, p, saveall=save)
        method = gen.choice(rng, METHODS)
        first = rng.random() < 0.25  # correlations with the derivative at time zero only
        if first:
            method = gen.choice(rng, ["rectangular", "midpoint", "trapz"])
        for rep in range(2 if rng.random() < 0.3 else 1):
            pipe.run(ctx, p, est, method=method, corr_kw={"second_order_method": False} if first else None)
        if two and late:
            pipe.run(ctx, p, other, method="trapz")
        ctx.cover("files", save, p.model, method, prefix, two, first)
        ctx.describe(what="files", save=save, method=method)
        found = sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)
        if not save:
            ctx.check(found == [], "no-file", str(found))
            return
        ctx.check(len(found) >= (4 if two else 2), "files-written", str(found))
        if two:
            found = [f for f in found if not f.startswith("other_")]
        ctx.check(all(f.startswith(prefix) for f in found) and len(found) >= 2, "files-prefix", str(found))
        c = pipe.corrs(est, p)
        seen = {"kernel": False, "corrs": False}
        for f in found:
            ds = ctx.quiet(xr.load_dataset, os.path.join(d, f))
            if "kernel" in ds:
                seen["kernel"] = True
                ctx.same("file-kernel", ds["kernel"].transpose("time_kernel", "dim_basis", p.obs_dim), pipe.vals(est.model.kernel, "time_kernel", "dim_basis", p.obs_dim))
                ctx.same("file-kernel-time", ds["time_kernel"], est.model.kernel["time_kernel"])
            if "bkbk" in ds:
                seen["corrs"] = True
                for k, dims in (("bkbk", ("dim_basis'", "dim_basis", "time_trunc")), ("bkdx", ("dim_basis", p.obs_dim, "time_trunc")), ("dotbkdx", ("dim_basis", p.obs_dim, "time_trunc")), ("dotbkbk", ("dim_basis'", "dim_basis", "time_trunc")))[: 2 if first else 4]:
                    ctx.same("file-corrs", ds[k].transpose(*dims), c[k], k)
                ctx.close("file-corrs-time", ds["time_trunc"], np.arange(c["bkbk"].shape[-1]) * p.dt, rtol=1e-12)
        ctx.check(all(seen.values()), "files-written", str(seen))
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def same_basis(ctx, what, b1, b2, rng):
    data = rng.uniform(-2, 2, (30, 1))
    for b in (b1, b2):
        ctx.call("fit", b.fit, data)
    x = data[:9]
    for f in ("basis", "deriv", "hessian", "antiderivative"):
        try:
            want = np.asarray(getattr(b2, f)(x))
        except NotImplementedError:
            continue
        ctx.same("default-basis", ctx.call(f, getattr(b1, f), x), want, what + "." + f)
    ctx.same("default-basis", ctx.call("deriv", b1.deriv, x), ctx.call("deriv", b1.deriv, x, deriv_order=1), what + ".deriv_order")


def defaults(ctx, rng):
    """Options that are not given act as their documented default."""
    what = gen.choice(rng, ["basis", "basis", "trajectory", "estimator", "estimator", "estimator", "estimator", "fit"])
    ctx.describe(what="defaults", part=what)
    if what == "basis":
        P = np.polynomial.Polynomial
        k = gen.choice(rng, ["poly", "polydeg", "four", "fourorder", "bspl", "bsplk", "ind", "lin", "spl"])
        ctx.cover("defaults", what, k)
        n, m = int(rng.integers(1, 5)), int(rng.integers(6, 9))
        knots = np.concatenate(([-2.5] * 3, np.linspace(-2.5, 2.5, 6), [2.5] * 3))
        co = rng.normal(size=8)
        bo = [[-1.0, -0.5], [0.5, 1.0]]
        pair = {
            "poly": (lambda: bf.PolynomialFeatures(), lambda: bf.PolynomialFeatures(deg=1, polynom=P, remove_const=True)),
            "polydeg": (lambda: bf.PolynomialFeatures(n), lambda: bf.PolynomialFeatures(deg=n, polynom=P, remove_const=True)),
            "four": (lambda: bf.FourierFeatures(), lambda: bf.FourierFeatures(order=1, freq=1.0, remove_const=True)),
            "fourorder": (lambda: bf.FourierFeatures(n), lambda: bf.FourierFeatures(order=n, freq=1.0, remove_const=True)),
            "bspl": (lambda: bf.BSplineFeatures(), lambda: bf.BSplineFeatures(n_knots=5, k=3, periodic=False, remove_const=True)),
            "bsplk": (lambda: bf.BSplineFeatures(m), lambda: bf.BSplineFeatures(n_knots=m, k=3, periodic=False, remove_const=True)),
            "ind": (lambda: bf.SmoothIndicatorFeatures([list(q) for q in bo]), lambda: bf.SmoothIndicatorFeatures([list(q) for q in bo], boundary_type="tricube", periodic=False)),
            "lin": (lambda: bf.LinearFeatures(), lambda: bf.LinearFeatures(to_center=False)),
            "spl": (lambda: bf.SplineFctFeatures(knots.copy(), co.copy()), lambda: bf.SplineFctFeatures(knots=knots.copy(), coeffs=co.copy(), k=3, periodic=False)),
        }[k]
        same_basis(ctx, k, pair[0](), pair[1](), rng)
        return
    if what == "trajectory":
        ctx.cover("defaults", what)
        n, dt = int(rng.integers(20, 60)), gen.pick_dt(rng)
        x, t = gen.positions(rng, n, 2)[0], np.arange(n) * dt
        xf = vb.xframe(x, t)
        w = vb.xframe((np.cumsum(rng.uniform(-0.5, 0.5, (n, 2)), axis=0) + np.pi) % (2 * np.pi) - np.pi, t)
        for f, more in ((vb.compute_va, {"lamb_finite_diff": 0.5}), (vb.compute_va_gjf, {})):
            one, two = ctx.call("compute_va", f, xf), ctx.call("compute_va", f, xf, correct_jumps=False, **more)
            j1, j2 = ctx.call("compute_va", f, w, correct_jumps=True), ctx.call("compute_va", f, w, correct_jumps=True, jump=2 * np.pi, jump_thr=1.75 * np.pi, **more)
            for k in ("x", "v", "a"):
                ctx.same("default-trajectory", one[k], two[k], k)
                ctx.same("default-trajectory", j1[k], j2[k], k)
        noisy = t + dt * 1e-3 * rng.uniform(-1, 1, n)
        ctx.same("default-trajectory", vb.xframe(x, noisy)["time"], vb.xframe(x, noisy, fix_time=False)["time"], "time")
        ctx.same("default-trajectory", vb.xframe(x, noisy, fix_time=True)["time"], vb.xframe(x, noisy, fix_time=True, round_time=1.0e-4, dt=-1)["time"], "fixed time")
        xva = vb.compute_va(xf).isel(dim_x=[0])
        xva.attrs["dt"] = dt
        r1, r2 = ctx.call("compute_1d_fe", vb.compute_1d_fe, [xva]), ctx.call("compute_1d_fe", vb.compute_1d_fe, [xva], bins=150, kT=2.494, hist=False)
        ctx.check(len(r1) == len(r2), "default-trajectory", "compute_1d_fe")
        for k in r2 if hasattr(r2, "data_vars") else range(len(r2)):
            ctx.same("default-trajectory", np.asarray(r1[k]), np.asarray(r2[k]), "compute_1d_fe")
        return
    if what == "fit":
        ctx.cover("defaults", what)
        t = np.arange(40) * 0.1
        y = 2.0 * np.exp(-1.3 * t)
        ctx.check(ctx.call("memory_fit", vb.memory_fit, t, y)[0] == "exp", "default-fit")
        ctx.same("default-fit", ctx.call("memory_fit", vb.memory_fit, t, y)[1], ctx.call("memory_fit", vb.memory_fit, t, y, type="exp")[1])
        K = y.reshape(-1, 1, 1)
        ctx.check(ctx.call("memory_fit_kernel", vb.memory_fit_kernel, t, K)[0] == "exp", "default-fit")
        z = y + 0.5 * np.exp(-0.2 * t)
        a, b = ctx.call("prony_fit_times_serie", vb.prony_fit_times_serie, z, 0.1, N_keep=2), ctx.call("prony_fit_times_serie", vb.prony_fit_times_serie, z, 0.1, N_keep=2, thres=None, remove=True)
        for u, v in zip(a, b):
            ctx.same("default-fit", u, v, "prony")
        return
    p = pipe.setup(ctx, nmin=30, nmax=60, tr_frac=0.4, estimator=False)
    e1, e2 = pipe.make(ctx, p), pipe.make(ctx, p, L_obs=p.obs)
    for e in (e1, e2):
        ctx.call("compute_mean_force", e.compute_mean_force)
    ctx.call("compute_corrs", e1.compute_corrs)
    ctx.call("compute_corrs", e2.compute_corrs, large=False, rank_tol=None, method="fft", vectorize=False, second_order_method=True)
    ctx.call("compute_kernel", e1.compute_kernel)
    ctx.call("compute_kernel", e2.compute_kernel, method="rectangular", k0=None)
    a, b = state_of(e1), state_of(e2)
    for k in b:
        if k == "method":
            ctx.check(a[k] == b[k], "default-estimation", "method")
        elif b[k] is None or a[k] is None:
            ctx.check(a[k] is None and b[k] is None, "default-estimation", k)
        elif b[k].dtype != object:
            ctx.same("default-estimation", a[k], b[k], k)
    m = e1.model
    ctx.same("default-estimation", pipe.vals(ctx.call("compute_basis_mean", e1.compute_basis_mean)), pipe.vals(ctx.call("compute_basis_mean", e1.compute_basis_mean, basis_type="force")), "basis mean")
    x = np.linspace(-0.5, 0.5, 5).reshape(-1, 1)
    if p.dim == 1 and p.obs == "a" and p.model in ("Pos_gle", "Pos_gle_const_kernel", "Pos_gle_no_vel_basis") and p.basis_kind in ("linear", "poly", "fourier", "bspline"):
        ctx.same("default-estimation", ctx.call("pmf_eval", m.pmf_eval, x), ctx.call("pmf_eval", m.pmf_eval, x, kT=1.0, set_zero=True), "pmf")
    for la, lb in zip(ctx.call("laplace", m.laplace_transform_kernel, n_points=3), ctx.call("laplace", m.laplace_transform_kernel, s_start=0.0, n_points=3)):
        ctx.same("default-estimation", np.asarray(la), np.asarray(lb), "laplace")
    e3, e4 = pipe.make(ctx, p, trunc=1.0), None
    kw = dict(saveall=False, verbose=False)
    if p.L_obs is not None:
        kw["L_obs"] = p.L_obs
    e4 = ctx.call("Estimator_gle", vb.Estimator_gle, p.trajs, gen.MODELS[p.model], p.factory(), **kw)
    ctx.check(int(e3.trunc_ind if hasattr(e3, "trunc_ind") else e3.model.trunc_ind) == int(e4.trunc_ind if hasattr(e4, "trunc_ind") else e4.model.trunc_ind), "default-estimation", "trunc")
    ctx.cover("defaults", what, p.model, p.obs)


def shared(ctx, rng):
    """Estimators of several models are given the same basis object."""
    p = pipe.setup(ctx, nmin=30, nmax=60, tr_frac=0.4, estimator=False)
    obj = p.factory()
    x = np.concatenate([r["x"] for r in p.arrs])[:9]
    ready = rng.random() < 0.5
    if ready:
        obj.fit(p.describe)
    look = lambda: [bool(getattr(obj, "const_removed", False))] + ([np.asarray(obj.basis(x)).tobytes(), np.asarray(obj.deriv(x)).tobytes()] if ready else [])
    mark = look()

    def neighbour():
        q = copy.copy(p)
        q.model = gen.choice(rng, [m for m in pipe.ALL if p.dim == 1 or m != "Pos_gle_hybrid"])
        ctx.cover("neighbour", p.model, q.model, p.basis_kind)
        if q.model == "Pos_gle_const_kernel":
            q.L_obs = None
        pipe.make(ctx, q, factory=lambda: obj)

    for _ in range(int(rng.integers(0, 2))):
        neighbour()
    est = pipe.make(ctx, p, factory=lambda: obj)
    ctx.call("compute_mean_force", est.compute_mean_force)
    for _ in range(int(rng.integers(1, 3))):
        neighbour()
    method = gen.choice(rng, METHODS)
    pipe.run(ctx, p, est, method=method)
    own = pipe.run(ctx, p, pipe.make(ctx, p, factory=lambda: p.factory().fit(p.describe) if ready else p.factory()), method=method)
    got, want = state_of(est), state_of(own)
    for k in want:
        if k != "method" and (want[k] is None or want[k].dtype != object):
            ctx.check((want[k] is None) == (got[k] is None), "shared-basis", k)
            if want[k] is not None:
                ctx.same("shared-basis", got[k], want[k], k)
    ctx.check(mark == look(), "basis-unchanged", "{} {}".format(mark[0], look()[0]))


def run_case(ctx):
    [history, history, history, refuse, files, defaults, shared][ctx.idx % 7](ctx, ctx.rng)
