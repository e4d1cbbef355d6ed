"""Fits of memory kernels."""
import numpy as np
import scipy.linalg
import xarray as xr
import VolterraBasis as vb

from .. import gen

FORMS = {
    "exp": (("exp", "exponential"), lambda t, a, b: a * np.exp(-b * t)),
    "expnorm": (("expnorm", "exp_norm"), lambda t, b: np.exp(-b * t)),
    "double": (("doubleexpnorm", "double_exp_norm"), lambda t, b, c, al: al * np.exp(-b * t) + (1 - al) * np.exp(-c * t)),
    "sech": (("sech",), lambda t, a, b, nu: a / np.cosh(b * t) ** nu),
    "sech_one": (("sech_one",), lambda t, a, b: a / np.cosh(b * t)),
    "sech_two": (("sech_two",), lambda t, a, b: a / np.cosh(b * t) ** 2),
    "gaussian": (("gaussian",), lambda t, a, b: a * np.exp(-b * t**2)),
}


def params(rng, form, dt, T):
    a = float(rng.uniform(0.2, 5)) * float(gen.choice(rng, [1, 1, -1])) * float(gen.choice(rng, [1.0, 1.0, 1e-3, 100.0]))
    s = np.sqrt(dt)
    if form == "exp":
        return [a, rng.uniform(0.05, 0.3) / dt]
    if form == "expnorm":
        return [rng.uniform(0.05, 0.3) / dt]
    if form == "double":
        return [rng.uniform(0.01, 0.03) / dt, rng.uniform(0.1, 0.2) / dt, rng.uniform(0.3, 0.7)]
    if form == "sech":
        return [a, rng.uniform(0.05, 0.2) / s, rng.uniform(1.0, 2.0)]
    if form == "gaussian":
        return [a, rng.uniform(0.05, 0.2) / s]
    return [a, rng.uniform(0.05, 0.2) / s]


def times_for(rng, form, dt, T):
    return np.arange(T) * dt


def prony_data(rng, dt, T, many=False):
    """Sums of decays, or sums whose leading Hankel blocks are all well conditioned: recursive fits are fragile on the others."""
    while True:
        g, m, fam = draw_prony(rng, many)
        y = g(np.arange(2 * m)) / g(np.zeros(1))[0]
        if fam == "three" or max(np.linalg.cond(scipy.linalg.hankel(y[:j], y[j - 1 : 2 * j - 1])) for j in range(1, m + 1)) < 1e3:
            return g, m, fam


def draw_prony(rng, many):
    """Exact sum of well separated decays; returns (function of the integer or real index, number of terms)."""
    fam = gen.choice(rng, ["one", "two", "three", "osc", "osc+one", "alternating", "alternating-two", "alternating+osc", "two-osc"] + (["many-osc"] if many else []))
    y0 = float(rng.uniform(0.3, 4)) * gen.choice(rng, [1, -1]) * (float(10 ** rng.uniform(-9, 9)) if rng.random() < 0.25 else 1.0)
    if fam in ("one", "two", "three"):
        m = {"one": 1, "two": 2, "three": 3}[fam]
        lam = np.array([0.95, 0.7, 0.3])[:m] * rng.uniform(0.92, 1.0, m)
        c = rng.uniform(0.5, 1.5, m)
        f = lambda n: sum(ci * li**n for ci, li in zip(c, lam))
    elif fam == "osc":
        r, th, ph = rng.uniform(0.8, 0.95), rng.uniform(0.3, 1.5), rng.uniform(-0.5, 0.5)
        f = lambda n: r**n * np.cos(th * n + ph)
        m = 2
    elif fam == "osc+one":
        r, th, l = rng.uniform(0.8, 0.95), rng.uniform(0.4, 1.5), rng.uniform(0.3, 0.6)
        c = rng.uniform(0.4, 1.5)
        f = lambda n: r**n * np.cos(th * n) + c * l**n
        m = 3
    elif fam == "alternating-two":
        l1, l2, l3 = rng.uniform(0.6, 0.9), rng.uniform(0.75, 0.95), rng.uniform(0.3, 0.5)
        c, d = rng.uniform(0.3, 0.7), rng.uniform(0.3, 0.7)
        f = lambda n: l1**n + (c * l2**n + d * l3**n) * np.cos(np.pi * n)
        m = 3
    elif fam == "alternating+osc":
        r, th, l2 = rng.uniform(0.8, 0.95), rng.uniform(0.4, 1.5), rng.uniform(0.5, 0.8)
        c = rng.uniform(0.3, 0.7)
        f = lambda n: r**n * np.cos(th * n) + c * l2**n * np.cos(np.pi * n)
        m = 3
    elif fam == "two-osc":
        r, th, r2, th2 = rng.uniform(0.85, 0.95), rng.uniform(0.3, 0.8), rng.uniform(0.7, 0.85), rng.uniform(1.4, 2.4)
        c = rng.uniform(0.4, 1.0)
        f = lambda n: r**n * np.cos(th * n) + c * r2**n * np.cos(th2 * n)
        m = 4
    elif fam == "many-osc":
        q = int(rng.integers(3, 5))
        th = (0.35 + 0.52 * np.arange(q)) * rng.uniform(0.95, 1.05, q)
        r, c = rng.uniform(0.95, 0.99, q), rng.uniform(0.4, 1.0, q)
        f = lambda n: sum(ci * ri**n * np.cos(ti * n) for ci, ri, ti in zip(c, r, th))
        m = 2 * q
    else:
        l1, l2 = rng.uniform(0.5, 0.9), rng.uniform(0.5, 0.9)
        c = rng.uniform(0.3, 0.7)
        f = lambda n: l1**n + c * l2**n * np.cos(np.pi * n)
        m = 2
    g = lambda n: y0 * f(np.asarray(n, dtype=float)) / f(np.zeros(1))[0]
    return g, m, fam


def run_case(ctx):
    rng = ctx.rng
    what = ["eval", "fit", "kernel", "prony", "prony", "prony-kernel", "inspect", "refuse", "growing"][ctx.idx % 9]
    dt = float(gen.choice(rng, [0.01, 0.05, 0.1, 0.5, 1.0]))
    T = int(rng.integers(30, 90)) if rng.random() < 0.95 else int(rng.integers(90, 300))
    form = gen.choice(rng, list(FORMS))
    names, f = FORMS[form]
    name = gen.choice(rng, names)
    if what in ("eval", "prony", "prony-kernel", "growing") and rng.random() < 0.25:
        dt = float(10 ** rng.uniform(-9, 6))
    ctx.describe(what=what, dt=dt, T=T)
    if what == "eval":
        p = params(rng, form, dt, T)
        t = rng.permutation(rng.uniform(0, T * dt, int(gen.choice(rng, [1, 2, 20, 20]))))
        got = ctx.call("memory_fit_eval", vb.memory_fit_eval, t, (name, p)) if rng.random() < 0.5 else ctx.call("memory_fit_eval", vb.memory_fit_eval, t, p, type=name)
        ctx.close("fit-evaluation", got, f(t, *p), rtol=1e-10)
        nb, dim = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        P = [[params(rng, form, dt, T) for _ in range(nb)] for _ in range(dim)]
        tt = gen.choice(rng, [t, t.reshape(-1, 1), xr.DataArray(t, dims=("time_kernel",))])
        got = ctx.call("memory_kernel_eval", vb.memory_kernel_eval, tt, (name, P)) if rng.random() < 0.5 else ctx.call("memory_kernel_eval", vb.memory_kernel_eval, tt, P, type=name)
        ctx.close("kernel-evaluation", got, np.stack([np.stack([f(t, *P[d][k]) for k in range(nb)], axis=1) for d in range(dim)], axis=2), rtol=1e-10)
        ctx.cover(what, name, nb, dim)
        return
    if what == "fit":
        t = times_for(rng, form, dt, T)
        p = params(rng, form, dt, T)
        y = f(t, *p)
        tt = gen.choice(rng, [t, t.reshape(-1, 1)])
        typ, popt = ctx.call("memory_fit(%s)" % name, vb.memory_fit, tt, y, type=name)
        ctx.check(typ == name, "fit-type", str(typ))
        t2 = np.linspace(0, t[-1], 57)
        got = ctx.call("memory_fit_eval", vb.memory_fit_eval, t2, (typ, popt))
        ctx.close("fit-recovers-data", got, f(t2, *p), rtol=1e-4)
        ctx.cover(what, name, dt)
        return
    if what == "kernel":
        form = gen.choice(rng, ["exp", "gaussian", "sech_two", "sech_one"])
        name, f = FORMS[form][0][0], FORMS[form][1]
        t = times_for(rng, form, dt, T)
        nb, dim = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        P = [[params(rng, form, dt, T) for _ in range(nb)] for _ in range(dim)]
        K = np.stack([np.stack([f(t, *P[d][k]) for k in range(nb)], axis=1) for d in range(dim)], axis=2)
        fit = ctx.call("memory_fit_kernel", vb.memory_fit_kernel, t, K, type=name)
        t2 = np.linspace(0, t[-1], 41)
        want = np.stack([np.stack([f(t2, *P[d][k]) for k in range(nb)], axis=1) for d in range(dim)], axis=2)
        got = ctx.call("memory_kernel_eval", vb.memory_kernel_eval, t2, fit)
        ctx.close("fit-kernel", got, want, rtol=1e-4)
        ctx.cover(what, name, nb, dim)
        return
    n = np.arange(T)
    t = n * dt
    if what == "prony":
        g, m, fam = prony_data(rng, dt, T, T < 90)
        y = g(n)
        keep = gen.choice(rng, [m, m, None, m + 2])
        kw = {} if keep is None else {"N_keep": keep}
        if keep != m:
            kw["thres"] = 1e-9  # relative to data normalised to one at zero
        if rng.random() < 0.5:
            y0, A = ctx.call("prony_fit_times_serie", vb.prony_fit_times_serie, y, dt, **kw)
            ev = lambda tt: ctx.call("prony_series_eval", vb.prony_series_eval, tt, y0, A)
        else:
            typ, popt = ctx.call("memory_fit(prony)", vb.memory_fit, t, y, type="prony", **kw)
            ctx.check(typ == "prony", "fit-type", str(typ))
            ev = lambda tt: ctx.call("memory_fit_eval", vb.memory_fit_eval, tt, (typ, popt))
        ctx.describe(family=fam, terms=m, keep=keep)
        ctx.cover(what, fam, keep, dt)
        ctx.close("prony-recovers-data", ev(t), y, rtol=1e-5)
        if True:
            one = float(rng.uniform(0, T - 1))
            ctx.close("prony-one-time", ev(gen.choice(rng, [np.array([one * dt]), np.array([[one * dt]]), [one * dt]])), g(np.array([one])), rtol=1e-5, scale=float(np.max(np.abs(y))))
            n2 = np.linspace(0, T - 1, 33)
            ctx.close("prony-between-samples", ev(n2 * dt), g(n2), rtol=1e-5)
            n4 = rng.permutation(np.concatenate((rng.uniform(0, T - 1, int(rng.integers(1, 20))), [0.0, 0.0, T - 1.0])))
            ctx.close("prony-any-times", ev(n4 * dt), g(n4), rtol=1e-5, scale=float(np.max(np.abs(y))))
            n3 = np.arange(T, 2 * T)
            ctx.close("prony-extrapolates", ev(n3 * dt), g(n3), rtol=1e-5, scale=float(np.max(np.abs(y))))
        return
    if what == "prony-kernel":
        nb, dim = int(rng.integers(1, 4)), int(rng.integers(1, 3))
        G = [[prony_data(rng, dt, T) for _ in range(nb)] for _ in range(dim)]
        K = np.stack([np.stack([G[d][k][0](n) for k in range(nb)], axis=1) for d in range(dim)], axis=2)
        arg = gen.choice(rng, [K, xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": t})])
        kw = gen.choice(rng, [{"thres": 1e-9}, {"thres": 1e-9, "N_keep": 4}])
        fit = ctx.call("prony_fit_kernel", vb.prony_fit_kernel, t, arg, **kw)
        got = ctx.call("prony_series_kernel_eval", vb.prony_series_kernel_eval, t, fit)
        ctx.close("prony-kernel", got, K, rtol=1e-5)
        j = int(rng.integers(T))
        got = ctx.call("prony_series_kernel_eval(one)", vb.prony_series_kernel_eval, t[j : j + 1], fit)
        ctx.close("prony-kernel-one-time", got, K[j : j + 1], rtol=1e-5, scale=np.max(np.abs(K)))
        typ, fit2 = ctx.call("memory_fit_kernel", vb.memory_fit_kernel, t, K, type="prony", **kw)
        got = ctx.call("memory_kernel_eval", vb.memory_kernel_eval, t, fit2, type=typ)
        ctx.close("prony-kernel", got, K, rtol=1e-5)
        ctx.describe(nb=nb, dim=dim)
        ctx.cover(what, nb, dim, isinstance(arg, np.ndarray), "N_keep" in kw)
        return
    if what == "inspect":
        g, m, fam = prony_data(rng, dt, T)
        y = g(n)
        kw = gen.choice(rng, [{}, {"thres": 1e-9}, {"N_keep": m}, {"N_keep": m + 1}])
        arg = gen.choice(rng, [y, y.reshape(-1, 1)])
        got = ctx.call("prony_inspect_data", vb.prony_inspect_data, arg, **kw)
        ctx.close("filtered-data", got, y[: 2 * ((T - 1) // 2) + 1], rtol=1e-7)
        ctx.cover(what, fam, sorted(kw), T % 2)
        return
    if what == "growing":
        lam = rng.uniform(1.02, 1.1)
        l2 = rng.uniform(0.4, 0.8)
        c = rng.uniform(0.5, 1.5)
        T = 30
        n = np.arange(T)
        keep, th = 2, 0.0
        y = lam**n + c * l2**n
        if rng.random() < 0.5:  # the growing term oscillates
            keep, th = 3, float(rng.uniform(0.3, 2.8))
            y = 0.1 * lam**n * np.cos(th * n) + c * l2**n
        y0, A = ctx.call("prony_fit_times_serie", vb.prony_fit_times_serie, y, dt, N_keep=keep, remove=False)
        ctx.close("prony-growing", ctx.call("prony_series_eval", vb.prony_series_eval, n * dt, y0, A), y, rtol=1e-5)
        y0, A = ctx.call("prony_fit_times_serie", vb.prony_fit_times_serie, y, dt, N_keep=keep)
        late = ctx.call("prony_series_eval", vb.prony_series_eval, np.array([0.0, 200 * dt, 1000 * dt]), y0, A)
        ctx.check(np.all(np.isfinite(late)) and np.max(np.abs(late)) <= 10 * np.max(np.abs(y)), "no-diverging-term", str(late))
        ctx.cover(what, dt, keep, int(4 * th))
        return
    # ---- what has to be refused
    y = np.exp(-0.1 * n)
    bad = gen.choice(rng, ["unknown", "Exp", "power", ""])
    ctx.raises("memory_fit(unknown)", vb.memory_fit, t, y, type=bad, exc=ValueError)
    ctx.raises("memory_fit_eval(unknown)", vb.memory_fit_eval, t, (bad, [1.0, 2.0]), exc=ValueError)
    ctx.raises("memory_fit(2d data)", vb.memory_fit, t, np.stack((y, y), axis=1), type="exp", exc=ValueError)
    ctx.raises("memory_fit(2d times)", vb.memory_fit, np.stack((t, t), axis=1), y, type="exp", exc=ValueError)
    ctx.raises("prony(filtering)", vb.prony_fit_times_serie, y, dt, thres=1e9, exc=ValueError)
    ctx.cover(what, bad)
