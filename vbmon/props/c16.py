"""Use of an estimated kernel: time evolution of correlations, fluxes, Laplace transform."""
import numpy as np
import scipy.integrate
import scipy.linalg
import xarray as xr
import VolterraBasis as vb
import VolterraBasis.basis as bf

from .. import gen


def make(ctx, dt, n, K, F, time=None):
    b = bf.LinearFeatures()
    m = ctx.call("Pos_gle_overdamped", vb.Pos_gle_overdamped, b, dt, dim_x=n, dim_obs=n, trunc_ind=len(K), L_obs="v")
    m.force_coeff = xr.DataArray(F, dims=("dim_basis", "dim_x"))
    m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": np.arange(len(K)) * dt if time is None else time})
    return m


def evolve(K, G0, F, N, dt, method):
    o, n = G0.shape
    E = np.zeros((o, n, N))
    E[..., 0] = G0
    lm = len(K) - 1
    imp = np.linalg.inv(np.eye(n) + (1.0 if method == "rect" else 0.5) * dt**2 * K[0])
    for i in range(1, N):
        mem = np.zeros((o, n))
        if method == "rect":
            top = min(i, lm) - 1
        else:
            top = min(i, lm)
        if top > 1:
            mem = dt * np.einsum("abt,tbc->ac", E[..., i - top + 1 : i][..., ::-1], K[1:top])
        E[..., i] = (E[..., i - 1] - dt * mem + dt * E[..., i - 1] @ F) @ imp
        if method == "trapz_stab":
            E[..., i] = np.maximum(E[..., i], 0)
            E[..., i] /= E[..., i].sum()
    return E


def simpson_w(n):
    """Weights for j=0..n, K(j) B(n-j); an odd number of intervals starts with a trapezoid."""
    w = np.zeros(n + 1)
    s = 0
    if n % 2 == 1:
        w[0] += 0.5
        w[1] += 0.5
        s = 1
    for j in range(s, n, 2):
        w[j] += 1 / 3.0
        w[j + 1] += 4 / 3.0
        w[j + 2] += 1 / 3.0
    return w


def run_case(ctx):
    rng = ctx.rng
    what = ["evolve", "evolve-exact", "flux", "laplace", "evolve", "flux"][ctx.idx % 6]
    big = rng.random() < 0.06
    n = int(rng.integers(4, 8)) if big else int(rng.integers(1, 4))
    o = int(rng.integers(1, 4))
    dt = float(gen.choice(rng, [0.01, 0.05, 0.1]))
    L = (int(rng.integers(60, 160)) if rng.random() < 0.6 else int(rng.integers(160, 600))) if big else int(rng.integers(4, 40))
    F = rng.normal(size=(n, n)) * 0.5 - np.eye(n)
    t = np.arange(L) * dt
    K = rng.normal(size=(n, n)) * np.exp(-t)[:, None, None] + rng.normal(size=(L, n, n)) * 0.2
    u, amp = 1.0, 1.0
    if rng.random() < 0.3:  # other units of time and of the observable
        u, amp = float(10 ** rng.uniform(-8, 8)), float(10 ** rng.uniform(-8, 8))
        dt, t, F, K = dt * u, t * u, F / u, K / u**2
    ctx.describe(what=what, n=n, o=o, dt=dt, L=L, units=[u, amp])
    if what == "evolve":
        method = gen.choice(rng, ["rect", "trapz", "trapz_stab"])
        N = int(gen.choice(rng, [1, 2, 3, L, L + 20, 60]))
        G0 = rng.uniform(0.1, 1, (n, n)) * amp
        if method == "trapz_stab":
            G0 /= G0.sum()
            F = np.abs(F) * 0.3
            K = np.abs(K) * 0.1
        kw, tr = {}, L
        if rng.random() < 0.5:
            tr = int(rng.integers(3, L + 1))
            kw["trunc_ind"] = tr
        m = make(ctx, dt, n, K, F)
        if method != "trapz" or rng.random() < 0.5:
            kw["method"] = method
        ctx.cover(what, method, "N%d" % min(N, 5), "n%d" % n, "trunc" in kw)
        tt, E = ctx.call("evolve_volterra", m.evolve_volterra, G0, N, **kw)
        ctx.close("evolution-times", tt, np.arange(N) * dt, rtol=1e-12)
        want = evolve(K[:tr], G0, F, N, dt, method)
        ctx.close("evolution-%s" % method, E, want, rtol=1e-9)
        ctx.close("evolution-start", np.asarray(E)[..., 0], G0, rtol=0)
        if method == "trapz_stab":
            ctx.close("evolution-normalised", np.asarray(E).sum(axis=(0, 1)), np.ones(N), rtol=1e-9)
            ctx.check(np.asarray(E).min() >= 0, "evolution-positive")
        elif N > 2:  # linear in the initial value
            c = float(rng.uniform(0.5, 2))
            _, E2 = ctx.call("evolve_volterra", m.evolve_volterra, c * G0, N, **kw)
            ctx.close("evolution-linear", E2, c * np.asarray(E), rtol=1e-9)
        # other coefficients, other number of steps, same object
        N2, K2, F2 = int(rng.integers(1, N + 10)), K[::-1] * 0.5, F.T
        m.kernel = xr.DataArray(K2, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": np.arange(L) * dt})
        m.force_coeff = xr.DataArray(F2, dims=("dim_basis", "dim_x"))
        tt, E2 = ctx.call("evolve_volterra", m.evolve_volterra, G0.T, N2, **kw)
        with np.errstate(all="ignore"):
            w2 = evolve(K2[:tr], G0.T, F2, N2, dt, method)
        if np.all(np.isfinite(w2)) and np.max(np.abs(w2)) < 1e12 * amp:
            ctx.close("evolution-other-coefficients", E2, w2, rtol=1e-8)
            ctx.close("evolution-times", tt, np.arange(N2) * dt, rtol=1e-12)
        if n > 1:
            m.kernel = xr.DataArray(K[:, :, :1], dims=("time_kernel", "dim_basis", "dim_x"))
            ctx.raises("evolve_volterra(not square)", m.evolve_volterra, G0, N, exc=ValueError)
            m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"))
            ctx.raises("evolve_volterra(wrong start)", m.evolve_volterra, np.ones((n + 1, n)), N, exc=ValueError)
        m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"))
        ctx.raises("evolve_volterra(unknown)", m.evolve_volterra, G0, N, method=gen.choice(rng, ["simpson", "rectangular", "Trapz", ""]), exc=ValueError)
        m.method = gen.choice(rng, ["midpoint", "midpoint_w_richardson"])  # values at a fraction of the times only
        ctx.raises("evolve_volterra(midpoint)", m.evolve_volterra, G0, N, exc=ValueError, **kw)
    elif what == "evolve-exact":
        # dG/dt = G F - int_0^t G(t-s) k exp(-a s) ds has an exact solution
        method = gen.choice(rng, ["rect", "trapz"])
        a, k = float(rng.uniform(0.5, 2)), float(rng.uniform(0.2, 1.5))
        a, k = a / u, k / u**2
        F = (rng.normal(size=(n, n)) * 0.2 - 0.3 * np.eye(n)) / u
        Kc = k * (np.eye(n) + 0.2 * rng.normal(size=(n, n)))
        G0 = rng.normal(size=(n, n)) * amp
        errs = []
        T = 2.0 * u
        for N in (41, 81, 161):
            h = T / (N - 1)
            tt = np.arange(N + 2) * h
            m = make(ctx, h, n, Kc[None] * np.exp(-a * tt)[:, None, None], F)
            _, E = ctx.call("evolve_volterra", m.evolve_volterra, G0, N, method=method)
            M2 = np.block([[F * u, -Kc * u**2], [np.eye(n), -a * u * np.eye(n)]])
            st = np.concatenate((G0, np.zeros((n, n))), axis=1)
            exact = (st @ scipy.linalg.expm(M2 * T / u))[:, :n]
            errs.append(np.max(np.abs(np.asarray(E)[..., -1] - exact)) / max(np.max(np.abs(exact)), np.max(np.abs(G0))))
        ctx.describe(errors=[float(e) for e in errs], method=method)
        ctx.cover(what, method, "n%d" % n)
        ctx.check(errs[-1] < 0.1 and (errs[-1] < 0.6 * errs[0] or errs[-1] < 5e-3), "evolution-converges", "{} {}".format(method, errs))
    elif what == "flux":
        method = gen.choice(rng, ["rect", "trapz", "simpson"])
        nk = int(rng.integers(1, 4))
        N = int(gen.choice(rng, [1, 2, 3, 4, 9, L, L + 7]))
        d = int(rng.integers(1, 4))
        G = rng.normal(size=(o, n, N)) * amp
        Gk = rng.normal(size=(o, nk, N if rng.random() < 0.5 else int(gen.choice(rng, [1, 2, max(1, N // 2), N + 1, 2 * N])))) * amp
        Kd = rng.normal(size=(L, nk, d)) / u
        Fd = rng.normal(size=(n, d)) / u
        m = make(ctx, dt, n, K, F)
        kw, tr = {}, L
        if rng.random() < 0.5:
            tr = int(rng.integers(2, L + 1))
            kw["trunc_ind"] = tr
        if method != "trapz" or rng.random() < 0.5:
            kw["method"] = method
        form = gen.choice(rng, ["all", "model", "model-stored"])
        if form != "all":  # same correlations for both terms, coefficients of the model
            nk = n
            Gk, Kd, d = G, rng.normal(size=(L, n, d)) / u, d
            if form == "model-stored":
                m.force_coeff = xr.DataArray(Fd, dims=("dim_basis", "dim_x"))
                m.kernel = xr.DataArray(Kd, dims=("time_kernel", "dim_basis", "dim_x"))
                f, r = ctx.call("flux_from_volterra", m.flux_from_volterra, G, **kw)
            else:
                f, r = ctx.call("flux_from_volterra", m.flux_from_volterra, G, force_coeff=Fd, kernel=Kd, **kw)
        else:
            f, r = ctx.call("flux_from_volterra", m.flux_from_volterra, G, Gk, Fd, Kd, **kw)
        ctx.cover(what, method, form, "N%d" % min(N, 5), "trunc" if kw.get("trunc_ind") else "")
        bad = gen.choice(rng, ["simps", "rectangular", "Trapz", ""])
        ctx.raises("flux_from_volterra(unknown)", m.flux_from_volterra, G, Gk, Fd, Kd, method=bad, exc=ValueError)
        if form == "model-stored":
            m.method = gen.choice(rng, ["midpoint", "midpoint_w_richardson"])
            ctx.raises("flux_from_volterra(midpoint)", m.flux_from_volterra, G, exc=ValueError, **kw)
        ctx.close("flux-force", f, np.einsum("ijt,jk->ikt", G, Fd), rtol=1e-10)
        want = np.zeros((Gk.shape[-1], o, d))
        Kt = Kd[:tr]
        for q in range(1, Gk.shape[-1]):
            top = min(q, len(Kt) - 1)
            if method == "rect":
                w = np.ones(top + 1)
                w[-1] = 0
            elif method == "trapz" or top < 2:
                w = np.ones(top + 1)
                w[0] -= 0.5
                w[-1] -= 0.5
            else:
                w = simpson_w(top)
            want[q] = -dt * np.einsum("t,abt,tbc->ac", w, Gk[..., q - top : q + 1][..., ::-1], Kt[: top + 1])
        ctx.close("flux-memory-%s" % method, r, want, rtol=1e-9, scale=max(np.max(np.abs(want)), 0.1 * amp * dt / u))
    else:
        uneven = rng.random() < 0.3
        time = t * (2 if uneven else 1)
        m = make(ctx, dt, n, K, F, time)
        npts = int(gen.choice(rng, [1, 3, 7]))
        s0, s1 = float(rng.uniform(0, 1)), float(rng.uniform(2, 10)) if rng.random() < 0.7 else float(10 ** rng.uniform(1, 4))
        if rng.random() < 0.1:  # outside of the domain of convergence, the sum still is what it is
            s0 = -float(rng.uniform(0, 1))
            s1 = float(gen.choice(rng, [s1, 0.0, 0.5 * s0, s0]))
        if rng.random() < 0.25:  # from the largest to the smallest
            s0, s1 = s1, s0
        s0, s1 = s0 / u, s1 / u
        ctx.cover(what, "even" if L % 2 == 0 else "odd", npts)
        s, lp = ctx.call("laplace_transform_kernel", m.laplace_transform_kernel, s0, s1, npts)
        ctx.close("laplace-points", s, np.linspace(s0, s1, npts), rtol=1e-12)
        want = np.stack([scipy.integrate.simpson(np.exp(-q * time)[:, None, None] * K, x=time, axis=0) for q in np.linspace(s0, s1, npts)])
        ctx.close("laplace", lp, want, rtol=1e-9, scale=np.max(np.abs(K)) * L * dt * max(1, np.exp(-min(s0, s1) * time[-1])))
        for q in range(npts):  # each one on its own scale
            if np.max(np.abs(want[q])) > 0:
                ctx.close("laplace-each", lp[q], want[q], rtol=1e-8, scale=np.max(np.abs(want[q])))
        m.kernel = m.kernel * -2.0
        s, lp = ctx.call("laplace_transform_kernel", m.laplace_transform_kernel, s0, s1, npts)
        ctx.close("laplace-other-kernel", lp, -2 * want, rtol=1e-9, scale=2 * np.max(np.abs(K)) * L * dt * max(1, np.exp(-min(s0, s1) * time[-1])))
        s, lp = ctx.call("laplace_transform_kernel", m.laplace_transform_kernel)
        ctx.close("laplace-default-points", s, np.linspace(0, 1 / dt, L), rtol=1e-12)
        # exact transform of an exponential on a long and fine grid
        tt = np.linspace(0, 12, 601) * u
        a = float(rng.uniform(1.5, 3)) / u
        C = rng.normal(size=(n, n)) * amp
        m = make(ctx, tt[1], n, C[None] * np.exp(-a * tt)[:, None, None], F)
        s, lp = ctx.call("laplace_transform_kernel", m.laplace_transform_kernel, 0.0, 2.0 / u, 3)
        ctx.close("laplace-exponential", lp, C[None] / (a + s)[:, None, None], rtol=1e-5)
