"""compute_kernel solves the discretised Volterra equation of the chosen method
on the right time grid, and converges to the kernel that generated the data."""
import numpy as np
import xarray as xr

from .. import gen, pipe, ref

METHODS = ["rectangular", "rect", "midpoint", "midpoint_w_richardson", "trapz", "second_kind_rect", "second_kind_trapz"]


def times(method, n, dt):
    t = np.arange(n) * dt
    if method == "midpoint":
        return t[:-1:2]
    if method == "midpoint_w_richardson":
        return t[:-3:6]
    if method == "trapz":
        return t[:-1]
    return t


def past(B, K, i, w0=1.0):
    """sum over j <= i of B[i-j] K[j], the first term with the weight w0"""
    r = np.einsum("abt,tbc->ac", B[:, :, i::-1], K[: i + 1])
    return r if w0 == 1.0 else r - (1 - w0) * B[:, :, i] @ K[0]


def integral(B, K, dt, w):
    """trapezoidal integral of the equation at each time of the kernel"""
    for n in range(len(K)):
        w[:, :, n] = -dt * (past(B, K, n) - 0.5 * (B[:, :, n] @ K[0] + B[:, :, 0] @ K[n]))
    return w


def judge(ctx, method, c, K, dt, k0, given):
    """Residual of the equation of the method for the kernel K."""
    B, D = c["bkbk"], c["bkdx"]
    n = B.shape[-1]
    absB = np.max(np.abs(B))
    if method in ("rect", "rectangular"):
        if not ref.spd_ok(B[:, :, 1]):
            return False
        ctx.close("rect-last", K[-1], np.zeros_like(K[-1]), rtol=0)
        for i in range(n - 1):
            r = D[:, :, i + 1] + dt * past(B[:, :, 1:], K, i)
            sc = np.max(np.abs(D)) + dt * absB * np.sum(np.max(np.abs(K[: i + 1]), axis=(1, 2)))
            if not np.isfinite(sc):
                break
            ctx.close("rect-equation", r, np.zeros_like(r), rtol=1e-8, scale=sc)
        return True
    if method == "midpoint":
        if not ref.spd_ok(B[:, :, 1]):
            return False
        for i in range(len(K)):
            r = D[:, :, 2 * i + 1] + 2 * dt * past(B[:, :, 1::2], K, i, 0.5)
            sc = np.max(np.abs(D)) + 2 * dt * absB * np.sum(np.max(np.abs(K[: i + 1]), axis=(1, 2)))
            if not np.isfinite(sc):
                break
            ctx.close("midpoint-equation", r, np.zeros_like(r), rtol=1e-8, scale=sc)
        return True
    if method == "midpoint_w_richardson":
        if not ref.spd_ok(B[:, :, 1]) or not ref.spd_ok(B[:, :, 3]):
            return False
        w, d = ref.kernel_sens(method, {"bkbk": B, "bkdx": D}, dt, np.random.default_rng(1))
        ok = 30 * d < 1e-2 * np.max(np.abs(w))
        ctx.close("richardson-combination", np.where(ok[:, None, None], K - w, 0), np.zeros_like(w), rtol=0, atol=float(np.max(30 * d[ok])) + 1e-9 * np.max(np.abs(w)) if ok.any() else 1.0)
        return True
    if not ref.spd_ok(B[:, :, 0]):
        return False
    if not given:
        k0 = np.linalg.solve(B[:, :, 0], c["dotbkdx"][:, :, 0])
        ctx.close("initial-value", K[0], k0, rtol=1e-8 + 1e-12 * np.linalg.cond(B[:, :, 0]))
    else:
        ctx.same("given-initial-value", K[0], np.broadcast_to(k0, K[0].shape))
    if method == "trapz":
        # smoothed solution of the trapezoidal equation
        if n < 3:
            return False
        w, d = ref.kernel_sens(method, dict(c, dotbkdx=np.einsum("ij,jkt->ikt", B[:, :, 0], np.broadcast_to(k0, K[0].shape)[..., None])) if given else c, dt, np.random.default_rng(1))
        with np.errstate(all="ignore"):
            sc = np.maximum.accumulate(np.max(np.abs(w), axis=(1, 2)))
        ok = np.isfinite(d) & (30 * d < 1e-2 * sc)
        r = np.where(ok[:, None, None], (K - w) / np.where(sc > 0, sc, 1)[:, None, None], 0)
        ctx.close("trapz-equation", r, np.zeros_like(r), rtol=0, atol=1e-8 + float(np.max(np.where(ok, 30 * d / np.where(sc > 0, sc, 1), 0))))
        return True
    Bd, Dd = c["dotbkbk"], c["dotbkdx"]
    tr = method == "second_kind_trapz"
    if tr and not ref.spd_ok(B[:, :, 0] - 0.5 * dt * Bd[:, :, 0]):
        return False
    for i in range(1, n):
        integ = past(Bd[:, :, 1:], K, i - 1, 0.5 if tr else 1.0)
        if tr:
            integ = integ + 0.5 * Bd[:, :, 0] @ K[i]
        r = B[:, :, 0] @ K[i] - Dd[:, :, i] - dt * integ
        sc = np.max(np.abs(Dd)) + np.max(np.abs(B)) * np.max(np.abs(K[: i + 1])) + dt * np.max(np.abs(Bd)) * np.sum(np.max(np.abs(K[: i + 1]), axis=(1, 2)))
        if not np.isfinite(sc):
            break
        ctx.close("second-kind-trapz-equation" if tr else "second-kind-rect-equation", r, np.zeros_like(r), rtol=1e-8, scale=sc)
    return True


def from_data(ctx):
    rng = ctx.rng
    p = pipe.setup(ctx, model=pipe.ALL[ctx.idx % 6], nmin=40, nmax=160)
    method = METHODS[(ctx.idx // 6) % len(METHODS)]
    second = method.startswith("second") or bool(rng.integers(2))
    est = pipe.run(ctx, p, upto="corrs", corr_kw={"second_order_method": second})
    k0, given = None, False
    c = pipe.corrs(est, p)
    if method in ("trapz", "second_kind_rect", "second_kind_trapz") and rng.random() < 0.4:
        k0 = rng.normal(size=(c["bkdx"].shape[0], c["bkdx"].shape[1]))
        if rng.random() < 0.3:
            k0 = np.zeros_like(k0)
            ctx.cover("null-initial-value")
        given = True
    kw = {"k0": k0} if given else {}
    before = {k: v.copy() for k, v in c.items()}
    for name in ("compute_gram_kernel", "compute_effective_mass", "compute_basis_mean", "describe_data"):  # what does not matter
        if rng.random() < 0.3:
            ctx.call(name, getattr(est, name))
            ctx.cover("also", name)
    ctx.call("compute_kernel(%s)" % method, est.compute_kernel, method=method, **kw)
    for k, v in pipe.corrs(est, p).items():
        ctx.same("correlations-kept", v, before[k])
    ctx.describe(method=method, k0=given)
    ctx.cover(method, "given" if given else "computed", "even" if p.trunc_ind % 2 == 0 else "odd")
    m = est.model
    K = pipe.vals(m.kernel, "time_kernel", "dim_basis", p.obs_dim)
    ctx.check(m.method == method, "method-recorded")
    tw = times(method, p.trunc_ind, p.dt)
    ctx.close("time-grid", np.asarray(m.kernel["time_kernel"].data), tw, rtol=1e-12)
    ctx.check(K.shape == (len(tw), c["bkdx"].shape[0], c["bkdx"].shape[1]), "kernel-shape", str(K.shape))
    if K.shape[0] != len(tw) or not judge(ctx, method, c, K, p.dt, k0, given):
        ctx.count("skip:singular")
    # check of the inversion: the trapezoidal integral of the equation
    if method in ("rectangular", "trapz", "second_kind_rect", "second_kind_trapz") and np.all(np.isfinite(K)) and np.max(np.abs(K)) < 1e12:
        r = np.asarray(ctx.call("check_volterra_inversion", est.check_volterra_inversion))
        B = c["bkbk"]
        w = integral(B, K, p.dt, np.zeros_like(c["bkdx"]))
        ctx.close("volterra-integral", r, w, rtol=1e-8)
        dr = np.asarray(ctx.call("check_volterra_inversion", est.check_volterra_inversion, True))
        ctx.close("volterra-difference", dr, np.abs(w - c["bkdx"]), rtol=1e-8)


def analytic(ctx):
    """Correlations made from a known kernel: the error decreases with dt."""
    rng = ctx.rng
    method = METHODS[1 + (ctx.idx // 5) % (len(METHODS) - 1)]
    T = 2.0
    nb, no = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    # B(t) = sum_m A_m cos(w_m t), K(t) = exp(-a t) C : D = -int B(t-s) K(s) ds
    A = [np.eye(nb), 0.3 * np.diag(rng.uniform(0.2, 1, nb))]
    w = rng.uniform(0.3, 1.5, 2)
    a = float(rng.uniform(0.3, 1.5))
    C = rng.normal(size=(nb, no)) + 2 * np.eye(nb, no)

    def exact(n, dt):
        t = np.arange(n) * dt
        B = sum(A[m][:, :, None] * np.cos(w[m] * t) for m in range(2))
        Bd = sum(A[m][:, :, None] * (w[m] * np.sin(w[m] * t)) for m in range(2))  # <dE(0) E(t)> = -d/dt B
        # int_0^t cos(w(t-s)) exp(-a s) ds
        D = dD = 0
        for m in range(2):
            den = a * a + w[m] ** 2
            I = (a * np.cos(w[m] * t) + w[m] * np.sin(w[m] * t) - a * np.exp(-a * t)) / den
            dI = (-a * w[m] * np.sin(w[m] * t) + w[m] ** 2 * np.cos(w[m] * t) + a * a * np.exp(-a * t)) / den
            D = D - (A[m] @ C)[:, :, None] * I
            dD = dD + (A[m] @ C)[:, :, None] * dI  # <dE(0) x(t)> = -d/dt D
        return t, B, D, Bd, dD

    p = pipe.setup(ctx, model="Pos_gle_const_kernel", dim=1, ntraj=1, kind="lin", custom_obs=False)
    if ctx.idx % 100 == 19:  # long correlation functions
        method = METHODS[(ctx.idx // 100) % len(METHODS)]
        n = int(rng.integers(300, 1500))
        dt = float(rng.uniform(2.0, 6.0)) / n
        t, B, D, Bd, dD = exact(n, dt)
        est = pipe.make(ctx, p)
        d3, d4 = ("dim_basis'", "dim_basis", "time_trunc"), ("dim_basis", "dim_x", "time_trunc")
        est.bkbkcorrw, est.bkdxcorrw = xr.DataArray(B, dims=d3), xr.DataArray(D, dims=d4)
        est.dotbkbkcorrw, est.dotbkdxcorrw = xr.DataArray(Bd, dims=d3), xr.DataArray(dD, dims=d4)
        est.dt = est.model.dt = dt
        est.model.trunc_ind = n
        ctx.call("compute_kernel(%s)" % method, est.compute_kernel, method=method)
        K = pipe.vals(est.model.kernel, "time_kernel", "dim_basis", "dim_x")
        ctx.cover("long", method, n // 300)
        ctx.describe(method=method, points=n)
        tw = times(method, n, dt)
        ctx.close("time-grid", np.asarray(est.model.kernel["time_kernel"].data), tw, rtol=1e-12)
        ctx.check(K.shape == (len(tw), nb, no), "kernel-shape", str(K.shape))
        judge(ctx, method, {"bkbk": B, "bkdx": D, "dotbkbk": Bd, "dotbkdx": dD}, K, dt, None, False)
        if not method.startswith("midpoint"):
            r = np.asarray(ctx.call("check_volterra_inversion", est.check_volterra_inversion))
            ctx.close("volterra-integral", r, integral(B, K, dt, np.zeros_like(D)), rtol=1e-8)
        return
    errs = []
    for n in (61, 121, 241):
        dt = T / (n - 1)
        t, B, D, Bd, dD = exact(n, dt)
        est = pipe.make(ctx, p)
        d3, d4 = ("dim_basis'", "dim_basis", "time_trunc"), ("dim_basis", "dim_x", "time_trunc")
        est.bkbkcorrw, est.bkdxcorrw = xr.DataArray(B, dims=d3), xr.DataArray(D, dims=d4)
        est.dotbkbkcorrw, est.dotbkdxcorrw = xr.DataArray(Bd, dims=d3), xr.DataArray(dD, dims=d4)
        est.dt = est.model.dt = dt
        est.model.trunc_ind = n
        ctx.call("compute_kernel(%s)" % method, est.compute_kernel, method=method)
        tk = np.asarray(est.model.kernel["time_kernel"].data)
        K = pipe.vals(est.model.kernel, "time_kernel", "dim_basis", "dim_x")
        want = C[None] * np.exp(-a * tk)[:, None, None]
        if method in ("rect", "rectangular"):
            K, want = K[:-1], want[:-1]
        errs.append(np.max(np.abs(K - want)) / np.max(np.abs(want)))
    order = {"rect": 0.7, "rectangular": 0.7, "second_kind_rect": 0.7, "midpoint": 0.7, "midpoint_w_richardson": 0.7, "trapz": 0.7, "second_kind_trapz": 1.6}[method]
    ctx.describe(errors=[float(e) for e in errs], method=method)
    ctx.cover("analytic", method, nb, no)
    ctx.check(errs[-1] < 0.05, "converged", "{} errors {}".format(method, errs))
    rate = np.log2(errs[0] / errs[-1]) / 2
    ctx.check(rate > order or errs[-1] < 1e-7, "convergence-order", "{} errors {} order {:.2f}".format(method, errs, rate))


def run_case(ctx):
    if ctx.idx % 5 == 4:
        analytic(ctx)
    else:
        from_data(ctx)
