"""Integration of the generalised Langevin equation."""
import numpy as np
import scipy.linalg
import xarray as xr
import VolterraBasis as vb
import VolterraBasis.basis as bf

from .. import gen


def memory(E, K, dt):
    """Trapezoidal memory integral at time n = len(E), without its (half) term j=0."""
    n = len(E)
    top = min(n, len(K) - 1)
    if top < 1:
        return np.zeros(K.shape[2])
    w = np.full(top, dt)
    w[-1] *= 0.5
    return np.einsum("j,jk,jkd->d", w, E[n - top : n][::-1], K[1 : top + 1])


def simulate(bas, vec, F, K, dt, x, v, noise, n):
    """x, v: initial segment (n0, dim); returns the whole trajectory."""
    n0, dim = x.shape
    X, V = np.zeros((n, dim)), np.zeros((n, dim))
    X[:n0], V[:n0] = x, v
    E = np.zeros((n, K.shape[1]))
    for i in range(n0):
        E[i] = vec(X[i : i + 1], V[i : i + 1])[0]
    R = memory(E[: n0 - 1], K, dt) if n0 > 1 else np.zeros(dim)
    for i in range(n0, n):
        Rl, El = R, E[i - 1]
        R = memory(E[:i], K, dt)

        def f(x, v, al):
            m_last = Rl + 0.5 * dt * El @ K[0]
            m_now = R + 0.5 * dt * vec(x[None], v[None])[0] @ K[0]
            return v, bas(x[None])[0] @ F + noise[i] - al * m_last - (1 - al) * m_now

        x0, v0 = X[i - 1], V[i - 1]
        a1, b1 = f(x0, v0, 1.0)
        a2, b2 = f(x0 + 0.5 * dt * a1, v0 + 0.5 * dt * b1, 0.5)
        a3, b3 = f(x0 + 0.5 * dt * a2, v0 + 0.5 * dt * b2, 0.5)
        a4, b4 = f(x0 + dt * a3, v0 + dt * b3, 0.0)
        X[i] = x0 + dt / 6 * (a1 + 2 * a2 + 2 * a3 + a4)
        V[i] = v0 + dt / 6 * (b1 + 2 * b2 + 2 * b3 + b4)
        E[i] = vec(X[i : i + 1], V[i : i + 1])[0]
    return X, V


def arrs(t):
    return np.asarray(t["x"].transpose("time", "dim_x").data), np.asarray(t["v"].transpose("time", "dim_x").data)


def start(x, v, dt):
    n = len(x)
    return xr.Dataset({"x": (["time", "dim_x"], x), "v": (["time", "dim_x"], v)}, coords={"time": np.arange(n) * dt}, attrs={"dt": dt})


def build(ctx, rng, const, dim, T, dt, rng_noise, trunc=None, modelless=False, u=1.0, amp=1.0):
    """Random model and its integrator; u and amp are the units of time and, for the linear bases, of length."""
    if dim == 1:
        kind = gen.choice(rng, ["lin", "linc", "poly", "four"])
    else:
        kind = gen.choice(rng, ["lin", "linc"])
    amp = amp if kind[:3] == "lin" else 1.0
    data = (rng.normal(size=(50, dim)) + 0.2) * amp
    rc = True if not const else bool(rng.integers(2))
    if kind in ("lin", "linc"):
        mk = lambda: bf.LinearFeatures(to_center=kind == "linc")
    elif kind == "poly":
        deg = int(rng.integers(2, 4))
        mk = lambda: bf.PolynomialFeatures(deg=deg, remove_const=rc)
    else:
        mk = lambda: bf.FourierFeatures(order=2, freq=1.0, remove_const=rc)
    b = mk().fit(data)
    nb = b.n_output_features_
    nk = dim if const else nb - (dim if (kind in ("poly", "four") and rc) else 0)
    F = rng.normal(size=(nb, dim)) * 0.3
    if kind in ("lin", "linc"):
        F -= np.eye(dim)
    t = np.arange(T) * dt
    F = F / u**2
    K = (rng.normal(size=(nk, dim)) * 0.3 + np.eye(nk, dim)) * np.exp(-t / (T * dt / 4))[:, None, None] + 0.05 * rng.normal(size=(T, nk, dim))
    K = K / u**2
    proj = None
    cls = vb.Integrator_gle_const_kernel if const else vb.Integrator_gle
    # the noise is made from the square part of the kernel
    cn = np.zeros((nk, dim))
    cn[:dim, :dim] = np.eye(dim) * rng.uniform(0.5, 1.5) * (amp / u) ** 2
    if modelless:
        it = ctx.call("Integrator(None)", cls, None, coeffs_noise_kernel=cn, rng=rng_noise, verbose=False, basis=b, force_coeff=F, kernel=K, dt=dt)
    else:
        mcls = vb.Pos_gle_const_kernel if const else vb.Pos_gle
        m = ctx.call("model", mcls, b, dt, dim_x=dim, dim_obs=dim, trunc_ind=T, L_obs="a")
        m.force_coeff = xr.DataArray(F, dims=("dim_basis", "dim_x"))
        if m.rank_projection:  # any set of orthonormal vectors
            r = max(1, nk - int(rng.integers(0, 2)))
            proj = np.linalg.qr(rng.normal(size=(nk, nk)))[0][:r]
            m.P_range = xr.DataArray(proj, dims=("dim_basis", "dim_basis_old"))
            K = np.einsum("ka,tad->tkd", proj, K)
            cn = np.zeros((r, dim))
            cn[: min(r, dim)] = np.eye(min(r, dim), dim) * (amp / u) ** 2
            if r < dim:
                proj = None
        if proj is None and m.rank_projection:
            m.rank_projection = False
            K = K if K.shape[1] == nk else rng.normal(size=(T, nk, dim)) * 0.2 / u**2
            cn = np.zeros((nk, dim))
            cn[:dim, :dim] = np.eye(dim) * (amp / u) ** 2
        m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": t})
        kw = {}
        if trunc:
            kw["trunc_kernel"] = trunc
        if rng.random() < 0.3:
            m.inv_mass_coeff = cn
        else:
            kw["coeffs_noise_kernel"] = cn
        if rng.random() < 0.2:
            m.method = gen.choice(rng, ["midpoint", "midpoint_w_richardson"])  # values at a fraction of the times only
            ctx.raises("Integrator(midpoint)", cls, m, rng=rng_noise, verbose=False, exc=ValueError, **kw)
            m.method = gen.choice(rng, [None, "rectangular", "trapz"])
        it = ctx.call("Integrator", cls, m, rng=rng_noise, verbose=False, **kw)
    Kt = K if not trunc or modelless else K[:trunc]

    def vec(x, v):
        if const:
            return v
        E = np.einsum("nkd,nd->nk", np.asarray(b.deriv(x)), v)
        return E if proj is None else E @ proj.T

    return it, (lambda x: np.asarray(b.basis(x))), vec, F, Kt, kind, proj is not None, amp


def run_case(ctx):
    rng = ctx.rng
    what = ["steps", "steps", "noise", "restart", "exact", "initial", "oscillator"][ctx.idx % 7]
    const = bool(rng.integers(2))
    dim = int(gen.choice(rng, [1, 1, 2, 3]))
    dt = float(gen.choice(rng, [0.01, 0.05, 0.1]))
    T = int(rng.integers(3, 25))
    if rng.random() < 0.05:
        dim, T = (int(rng.integers(1, 6)), int(rng.integers(25, 90))) if rng.random() < 0.7 else (1, int(rng.integers(150, 450)))
    if what in ("steps", "noise", "restart"):
        tr = int(rng.integers(2, T + 1)) if rng.random() < 0.4 else None
        modelless = rng.random() < 0.35
        seed = int(rng.integers(1 << 30))
        u, amp = 1.0, 1.0
        if rng.random() < 0.3:  # other units of time and of length
            u, amp = float(10 ** rng.uniform(-7, 7)), float(10 ** rng.uniform(-7, 7))
            dt = dt * u

        def gauss():
            g = np.random.default_rng(seed)
            return lambda size: g.normal(size=size)

        state = rng.bit_generator.state
        it, bas, vec, F, K, kind, proj, amp = build(ctx, rng, const, dim, T, dt, gauss(), tr, modelless, u, amp)
        n = int(gen.choice(rng, [2, 3, T + 5, max(40, 2 * T)]))
        n0 = int(gen.choice(rng, [1, 1, 2, 3, T, T + 3]))
        n = max(n, n0 + int(rng.integers(0, 15)))
        x = 0.3 * rng.normal(size=(n0, dim)) * amp
        v = 0.3 * rng.normal(size=(n0, dim)) * amp / u
        given = not (n0 == 1 and rng.random() < 0.3)
        if not given:
            x, v = np.zeros((1, dim)), np.zeros((1, dim))
        ctx.describe(what=what, const=const, dim=dim, T=T, trunc=tr, n=n, n0=n0, basis=kind, modelless=modelless, projected=proj, units=[u, amp])
        ctx.cover(what, const, "dim%d" % dim, kind, "trunc" if tr else "", "model" if not modelless else "none", proj, "n0>T" if n0 > len(K) else "n0>1" if n0 > 1 else "n0=1")
        x0 = start(x, v, dt) if given else None
        if given and rng.random() < 0.2:  # other names first in the dimensions, other variables
            x0 = x0.transpose(*list(x0["x"].dims)[::-1])
            ctx.cover("start", "transposed", dim, n0)
        if given and rng.random() < 0.2:
            x0 = x0.assign(a=2.0 * x0["v"], energy=("time", np.arange(n0) * 1.0))
        kw = {"x0": x0} if given else {}
        noise = np.zeros((n, dim))
        if what == "noise":
            g2 = gauss()
            rng2 = np.random.default_rng()
            rng2.bit_generator.state = state
            it2 = build(ctx, rng2, const, dim, T, dt, g2, tr, modelless, u, amp)[0]
            noise = np.asarray(it2.noise_generator.generate(n))
            ctx.check(noise.shape == (n, dim), "noise-shape")
            trj = ctx.call("run", it.run, n, **kw)
        else:
            trj = ctx.call("run", it.run, n, set_noise_to_zero=True, **kw)
        X, V = arrs(trj)
        wX, wV = simulate(bas, vec, F, K, dt, x, v, noise, n)
        if not np.all(np.isfinite(wX)) or np.max(np.abs(wX)) > 1e4 * amp or not np.all(np.isfinite(wV)):
            ctx.count("skip:diverged")
            return
        ctx.close("positions", X, wX, rtol=1e-8, atol=1e-10 * amp)
        ctx.close("velocities", V, wV, rtol=1e-8, atol=1e-10 * amp / u)
        ctx.close("time-step", np.diff(np.asarray(trj["time"].data)), np.full(n - 1, dt), rtol=1e-9)
        ctx.check(float(trj.attrs["dt"]) == dt, "dt")
        if what == "restart" and n > n0 + 1:
            k = int(rng.integers(n0 + 1, n))
            t2 = ctx.call("run", it.run, n, x0=start(X[:k], V[:k], dt), set_noise_to_zero=True)
            X2, V2 = arrs(t2)
            ctx.close("restart-positions", X2, X, rtol=1e-8, atol=1e-10 * amp)
            ctx.close("restart-velocities", V2, V, rtol=1e-8, atol=1e-10 * amp / u)
        # again, from the same object
        if what == "steps":
            t3 = ctx.call("run", it.run, n, set_noise_to_zero=True, **kw)
            ctx.same("repeatable", arrs(t3)[0], X)
            n2 = n + int(rng.integers(1, 12))  # a longer run begins in the same way, also after another one
            if rng.random() < 0.5:
                ctx.call("run", it.run, max(3, n // 2) + n0, x0=start(0.5 * x[::-1], v, dt), set_noise_to_zero=True)
            t4 = arrs(ctx.call("run", it.run, n2, set_noise_to_zero=True, **kw))
            ctx.close("longer-run", t4[0][:n], X, rtol=1e-9, atol=1e-11 * amp)
            ctx.close("longer-run", t4[1][:n], V, rtol=1e-9, atol=1e-11 * amp / u)
        return
    if what == "initial":
        trajs = []
        for _ in range(int(rng.integers(1, 4))):
            m = int(rng.integers(20, 60))
            trajs.append(vb.xframe(rng.normal(size=(m, dim)), np.arange(m) * dt, v=rng.normal(size=(m, dim))))
        it = build(ctx, rng, const, dim, T, dt, np.random.normal)[0]
        for k in range(6):
            nm = int(gen.choice(rng, [0, 0, 1, 5, 15]))
            arg = trajs[0] if len(trajs) == 1 and rng.random() < 0.5 else trajs
            st = ctx.call("initial_conditions", it.initial_conditions, arg, nm) if nm or rng.random() < 0.5 else ctx.call("initial_conditions", it.initial_conditions, arg)
            xs, vs = arrs(st)
            ctx.check(xs.shape == (nm + 1, dim), "initial-length", str(xs.shape))
            hit = any(np.array_equal(xs, np.asarray(t["x"])[j : j + nm + 1]) and np.array_equal(vs, np.asarray(t["v"])[j : j + nm + 1]) for t in trajs for j in range(t["x"].shape[0] - nm))
            ctx.check(hit, "initial-from-data", "not a segment of the trajectories")
            ctx.close("initial-time", np.asarray(st["time"]), np.arange(nm + 1) * dt, rtol=1e-9)
        ctx.cover(what, len(trajs), dim)
        ctx.describe(what=what)
        return
    # ---- against exact solutions, with a linear force and an exponential kernel
    w2 = float(rng.uniform(0.5, 2))
    a, k = float(rng.uniform(0.5, 2)), (float(rng.uniform(0.3, 1.5)) if what == "exact" else 0.0)
    xs, vs = rng.normal(size=dim), rng.normal(size=dim)
    end = 1.0
    M = np.array([[0, 1, 0], [-w2, 0, -k], [0, 1, -a]])  # z = int exp(-a s) v(t-s) ds
    errs = []
    for n in (21, 41, 81):
        h = end / (n - 1)
        t = np.arange(n + 3) * h
        b = bf.LinearFeatures().fit(np.zeros((5, dim)))
        K = k * np.exp(-a * t)[:, None, None] * np.eye(dim)
        cls = vb.Integrator_gle_const_kernel if const else vb.Integrator_gle
        it = ctx.call("Integrator(None)", cls, None, verbose=False, basis=b, force_coeff=-w2 * np.eye(dim), kernel=K + (0 if k else 0), dt=h)
        trj = ctx.call("run", it.run, n, x0=start(xs[None], vs[None], h), set_noise_to_zero=True)
        X, V = arrs(trj)
        sol = scipy.linalg.expm(M * end) @ np.stack((xs, vs, 0 * xs))
        errs.append(max(np.max(np.abs(X[-1] - sol[0])), np.max(np.abs(V[-1] - sol[1]))) / (np.max(np.abs(xs)) + np.max(np.abs(vs))))
    ctx.describe(what=what, const=const, errors=[float(e) for e in errs])
    ctx.cover(what, const, dim)
    rate = np.log2(errs[0] / errs[-1]) / 2
    if k:
        ctx.check(errs[-1] < 0.01 and rate > 0.9, "exact-solution", "errors {} order {:.2f}".format(errs, rate))
    else:
        ctx.check(errs[-1] < 1e-7 and (rate > 3.7 or errs[-1] < 1e-11), "harmonic-oscillator", "errors {} order {:.2f}".format(errs, rate))
