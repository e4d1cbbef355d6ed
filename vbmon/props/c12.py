"""compute_noise splits the observable into force, memory and noise;
compute_corrs_w_noise and compute_projected_corrs average what they say."""
import numpy as np
import xarray as xr

from .. import gen, pipe, ref

METHODS = ["rectangular", "trapz", "second_kind_rect", "second_kind_trapz", "rect"]


def run_case(ctx):
    rng = ctx.rng
    model = pipe.ALL[ctx.idx % 6]
    method = METHODS[(ctx.idx // 6) % 5]
    if rng.random() < 0.03:  # long memory
        ctx.count("flavour:long-memory")
        p = pipe.setup(ctx, model=model, nmin=700, nmax=1100, ntraj=1, dim=1, tr_frac=float(rng.uniform(0.3, 0.6)), rare=False)
    else:
        p = pipe.setup(ctx, model=model, nmin=40, nmax=120, tr_frac=float(rng.uniform(0.1, 0.4)))
    est = pipe.run(ctx, p, upto="kernel", method=method)
    m = est.model
    K = pipe.vals(m.kernel, "time_kernel", "dim_basis", p.obs_dim)
    if rng.random() < 0.5:  # any kernel, of any length, not only the estimated one
        n = int(rng.integers(2, p.trunc_ind + 1))
        K = rng.normal(size=(n,) + K.shape[1:]) / (n * p.dt)
        m.kernel = xr.DataArray(K, dims=m.kernel.dims, coords={"time_kernel": np.arange(n) * p.dt})
    if not np.all(np.isfinite(K)) or np.max(np.abs(K)) > 1e8:
        K = np.clip(np.nan_to_num(K), -1e3, 1e3)
        m.kernel = xr.DataArray(K, dims=m.kernel.dims, coords=m.kernel.coords)
    trapz = method in ("trapz", "second_kind_trapz")
    C = pipe.vals(m.force_coeff, "dim_basis", p.obs_dim)
    i = int(rng.integers(len(p.trajs)))
    xva, r = p.trajs[i], p.arrs[i]
    if len(K) >= 12 and rng.random() < 0.2:  # as short as the kernel, or almost
        j = min(len(K) + int(rng.integers(0, 3)), r["x"].shape[0])
        xva, r = xva.isel(time=slice(0, j)), {k: v[:j] for k, v in r.items()}
        ctx.count("flavour:as-short-as-the-kernel")
    N = r["x"].shape[0]
    P = pipe.vals(m.P_range, "dim_basis", "dim_basis_old") if m.rank_projection else None

    def split(r):
        Ef, E, _ = ref.vectors(model, p.basis, r)
        return Ef @ C, (E if P is None else E @ P.T), r[p.obs]

    # ---- noise
    kw = {}
    s, e = 0, N
    if rng.random() < 0.4:
        s = int(rng.integers(0, N // 2))
        kw["start_point"] = s if rng.random() < 0.75 or s == 0 else s - N  # from the end
    if rng.random() < 0.4:
        e = int(rng.integers(s + 5, N + 1))
        kw["end_point"] = e if rng.random() < 0.75 or e == N else e - N
    tk = len(K)
    if rng.random() < 0.5:
        tk = int(rng.integers(1 if not trapz else 2, len(K) + 1))
        if not trapz and rng.random() < 0.1:
            tk = 0  # no memory at all
        kw["trunc_kernel"] = tk
    ctx.describe(method=method, **kw)
    ctx.cover(method, *sorted(kw), "long" if tk > e - s else "short")
    t, noise, obs, force, mem = ctx.call("compute_noise", m.compute_noise, xva, **kw)
    f, E, o = split(r)
    f, E, o = f[s:e], E[s:e], o[s:e]
    wm = (ref.memory_trapz if trapz else ref.memory_rect)(K[:tk], E, p.dt)
    dims = ("time", p.obs_dim)
    sc = np.max(np.abs(o)) + np.max(np.abs(f)) + np.max(np.abs(wm))
    T = np.asarray(xva["time"].data)
    ctx.close("noise-times", np.asarray(t), T[s:e] - T[0], rtol=1e-12, atol=1e-12 * abs(T[0]))
    ctx.close("noise-observable", pipe.vals(obs, *dims), o, rtol=0)
    ctx.close("noise-force", pipe.vals(force, *dims), f, rtol=1e-8, scale=sc)
    ctx.close("noise-memory", pipe.vals(mem, *dims), wm, rtol=1e-8, scale=sc)
    ctx.close("noise", pipe.vals(noise, *dims), o - f - wm, rtol=1e-8, scale=sc)
    ctx.close("decomposition", pipe.vals(noise, *dims) + pipe.vals(force, *dims) + pipe.vals(mem, *dims), o, rtol=1e-10, scale=sc)
    # another trajectory of the same length, with the same ends
    if rng.random() < 0.3 and N > 4:
        q = xva.copy(deep=True)
        q.attrs["dt"] = p.dt
        j = np.concatenate(([0], 1 + rng.permutation(N - 2), [N - 1]))
        for k in q.data_vars:
            q[k].data[:] = np.asarray(q[k].data)[j]
        r2 = {k: np.asarray(v)[j] for k, v in r.items()}
        f2, E2, o2 = [z[s:e] for z in split(r2)]
        got = ctx.call("compute_noise(other)", m.compute_noise, q, **kw)
        wm2 = (ref.memory_trapz if trapz else ref.memory_rect)(K[:tk], E2, p.dt)
        sc2 = np.max(np.abs(o2)) + np.max(np.abs(f2)) + np.max(np.abs(wm2))
        ctx.close("noise-next-trajectory", pipe.vals(got[1], *dims), o2 - f2 - wm2, rtol=1e-8, scale=sc2)
        # the same object filled again
        for k in q.data_vars:
            q[k].data[:] = np.asarray(xva[k].data)
        got = ctx.call("compute_noise(refilled)", m.compute_noise, q, **kw)
        ctx.close("noise-refilled", pipe.vals(got[1], *dims), o - f - wm, rtol=1e-8, scale=sc)
    # through the estimator
    if rng.random() < 0.2:
        t2 = ctx.call("est.compute_noise", est.compute_noise, xva, **kw)
        ctx.same("same-through-estimator", pipe.vals(t2[1], *dims), pipe.vals(noise, *dims))
    # ---- correlations with the noise
    op = gen.choice(rng, ["none", "str", "callable", "array", "dataarray"])
    L = {"none": None, "str": "v", "callable": None, "array": None, "dataarray": None}[op]
    cols = int(rng.integers(1, 4))

    def left(q, rr):
        """(argument, values)"""
        f, _, o = split(rr)
        if op == "none":
            return None, o - f
        if op == "str":
            return "v", rr["v"]
        if op == "callable":
            return (lambda z: z["x"] ** 2 + z["v"]), rr["x"] ** 2 + rr["v"]
        a = np.concatenate([np.sin(rr["x"][:, :1] * (k + 1)) + 0.1 * k for k in range(cols)], axis=1)
        return (a if op == "array" else xr.DataArray(a, dims=("time", "dim_left"))), a

    arg, lv = left(xva, r)
    ctx.cover("left", op, method)
    got = ctx.call("compute_corrs_w_noise(%s)" % op, m.compute_corrs_w_noise, xva, arg)
    f, E, o = split(r)
    want = ref.noise_corr(o - f, K, E, lv, p.dt, trapz)
    wt = np.arange(len(K)) * p.dt if not trapz else np.arange(len(K) - 1) * p.dt
    sc = (np.max(np.abs(o - f)) + p.dt * len(K) * np.max(np.abs(E)) * np.max(np.abs(K))) * np.max(np.abs(lv))
    ctx.close("noise-correlation", np.asarray(got[1]), want, rtol=1e-9, scale=sc)
    ctx.close("noise-correlation-time", np.asarray(got[0]), wt, rtol=1e-9)
    if op in ("none", "str", "callable"):
        got = ctx.call("compute_projected_corrs(%s)" % op, est.compute_projected_corrs, left_op=arg)
        tot = sum(q["x"].shape[0] for q in p.arrs)
        want = 0
        for q, rr in zip(p.trajs, p.arrs):
            f, E, o = split(rr)
            want = want + rr["x"].shape[0] / tot * ref.noise_corr(o - f, K, E, left(q, rr)[1], p.dt, trapz)
        scs = max((np.max(np.abs(rr[p.obs])) + np.max(np.abs(split(rr)[0])) + p.dt * len(K) * np.max(np.abs(split(rr)[1])) * np.max(np.abs(K))) * np.max(np.abs(left(None, rr)[1])) for rr in p.arrs)
        ctx.close("projected-correlation", np.asarray(got[1]), want, rtol=1e-9, scale=scs)
        ctx.close("projected-correlation-time", np.asarray(got[0]), wt, rtol=1e-9)
    # a method whose kernel has another time step cannot be used
    if rng.random() < 0.1:
        m.method = "midpoint"
        ctx.raises("compute_noise(midpoint)", m.compute_noise, xva)
        ctx.raises("compute_corrs_w_noise(midpoint)", m.compute_corrs_w_noise, xva)
        m.method = method
