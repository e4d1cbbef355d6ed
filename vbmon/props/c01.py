"""Velocities and accelerations are finite differences at the right time."""
import numpy as np
import xarray as xr
import VolterraBasis as vb

from .. import gen


def to_dask(x, rng):
    import dask.array as da

    n = x.shape[0]
    c = int(rng.integers(1, n + 1))
    return da.from_array(x, chunks=(c,) + (-1,) * (x.ndim - 1))


def arr(v):
    return np.asarray(v.data if hasattr(v, "data") else v)


def run_case(ctx):
    rng = ctx.rng
    n = int(gen.choice(rng, [3, 4, 5, 8, int(rng.integers(3, 120)), int(rng.integers(3, 120))]))
    dim = int(rng.integers(1, 4))
    if rng.random() < 0.06:
        n, dim = (int(rng.integers(300, 3000)), int(rng.integers(1, 9))) if rng.random() < 0.6 else (int(10 ** rng.uniform(3.5, 4.6)), int(rng.integers(1, 4)))
    dt = gen.pick_dt(rng) * (1.0 if rng.random() < 0.5 else float(rng.uniform(0.3, 3)))
    if rng.random() < 0.1:  # any unit of time
        dt *= 10.0 ** float(rng.uniform(-6, 6))
    t0 = float(gen.choice(rng, [0.0, 0.0, 5 * dt, -3 * dt, 100.0]))
    x, kind = gen.positions(rng, max(n, 10), dim)
    x = x[:n] * 10.0 ** rng.uniform(-3, 3)
    form = gen.choice(rng, ["array", "array", "flat", "list", "int", "f32", "dask", "dask"])
    if form in ("flat", "list") and rng.random() < 0.7:
        dim, x = 1, x[:, :1]
    if form == "int":
        x = np.round(x / np.max(np.abs(x)) * 1000).astype(int)
    if form == "f32":
        x = x.astype(np.float32)
    time = t0 + np.arange(n) * dt
    if rng.random() < 0.1:  # steps are counted
        dt, t0 = float(rng.integers(1, 4 if rng.random() < 0.5 else 2000)), float(rng.integers(-50, 50))
        time = (t0 + np.arange(n) * dt).astype(gen.choice(rng, [np.int64, np.int32]))
        ctx.cover("integer-time", time.dtype)
    arg = x
    if form == "flat" and dim == 1:
        arg = x[:, 0].copy()
    elif form == "list":
        arg = x.tolist() if dim > 1 else x[:, 0].tolist()
    elif form == "dask":
        arg = to_dask(x, rng)
    ctx.describe(n=n, dim=dim, dt=dt, t0=t0, form=form)
    ctx.cover("n%d" % (min(n, 10) if n < 300 else 300), "dim%d" % dim, form, "t0" if t0 else "origin")
    xf64 = x.astype(float)
    eps = 1e-6 if form == "f32" else 1e-12
    amp = np.max(np.abs(xf64)) + 1e-300

    fix = rng.random() < 0.3
    if fix:
        rt = float(gen.choice(rng, [1e-4, 1e-3, 1e-5, 2.5e-4, 5e-4, 3e-4, 0.002, float(rng.uniform(0.05, 0.4)) * dt, dt / 8]))
        jit = dt * (1 + 1e-9) + rt * float(rng.uniform(-0.3, 0.3))
        given = float(dt) if rng.random() < 0.5 else -1
        want_dt = given if given > 0 else np.round(jit / rt) * rt
        if want_dt <= 0:
            want_dt = given = float(dt)
        tm = t0 + np.arange(n) * jit
        kw = {} if rt == 1e-4 and rng.random() < 0.5 else {"round_time": rt}
        if given > 0 or rng.random() < 0.5:
            kw["dt"] = given
        ctx.cover("round", "%.0e" % rt, given > 0)
        xf = ctx.call("xframe(fix_time)", vb.xframe, arg, tm, fix_time=True, **kw)
        wt = np.arange(n) * want_dt
        ctx.close("fixed-times", arr(xf["time"]), wt, rtol=1e-9, atol=1e-12)
        ctx.close("fixed-dt", xf.attrs["dt"], want_dt, rtol=1e-9, atol=abs(t0) * 1e-12)
        dt_eff = float(want_dt)
    else:
        xf = ctx.call("xframe", vb.xframe, arg, time)
        wt = time
        dt_eff = float(dt)
        ctx.close("dt", xf.attrs["dt"], dt, rtol=1e-9, atol=1e-12 * (1 + abs(t0)))
        ctx.same("time-kept", arr(xf["time"]), time)
    ctx.close("x-kept", arr(xf["x"]), xf64, rtol=0, atol=0)
    ctx.check(xf["x"].dims == ("time", "dim_x"), "dims")
    T = arr(xf["time"])
    dt_eff = float(xf.attrs["dt"])

    def diffs():
        return xf64[1:-1] - xf64[:-2], xf64[2:] - xf64[1:-1]

    back, forw = diffs()
    # symmetric / asymmetric finite differences
    lamb = float(gen.choice(rng, [0.5, 0.5, 0.0, 1.0, float(rng.random())]))
    kw = {} if lamb == 0.5 and rng.random() < 0.7 else {"lamb_finite_diff": lamb}
    xva = ctx.call("compute_va", vb.compute_va, xf, **kw)
    ctx.same("retained-times", arr(xva["time"]), T[1:-1])
    ctx.close("retained-x", arr(xva["x"]), xf64[1:-1], rtol=0, atol=0)
    ctx.close("velocity", arr(xva["v"]), (lamb * forw + (1 - lamb) * back) / dt_eff, rtol=0, atol=eps * amp / dt_eff)
    ctx.close("acceleration", arr(xva["a"]), (forw - back) / dt_eff**2, rtol=0, atol=4 * eps * amp / dt_eff**2)
    ctx.check(xva.attrs.get("dt") == xf.attrs["dt"], "dt-kept", "{}".format(xva.attrs))
    # gjf
    g = ctx.call("compute_va_gjf", vb.compute_va_gjf, xf)
    ctx.same("retained-times-gjf", arr(g["time"]), T[1:-1])
    ctx.close("retained-x-gjf", arr(g["x"]), xf64[1:-1], rtol=0, atol=0)
    ctx.close("velocity-gjf", arr(g["v"]), back / dt_eff, rtol=0, atol=eps * amp / dt_eff)
    ctx.close("acceleration-gjf", arr(g["a"]), (forw - back) / dt_eff**2, rtol=0, atol=4 * eps * amp / dt_eff**2)
    ctx.check(g.attrs.get("dt") == xf.attrs["dt"], "dt-kept")
    # velocities measured independently
    v = rng.normal(size=(n, dim)) * amp
    a = rng.normal(size=(n, dim))
    va = v[:, 0].copy() if dim == 1 and rng.random() < 0.5 else v
    aa = a[:, 0].copy() if dim == 1 and rng.random() < 0.5 else a
    if form == "dask":
        va, aa = to_dask(va, rng), to_dask(aa, rng)
    xv = ctx.call("xframe(v)", vb.xframe, arg, time, v=va)
    ctx.close("v-kept", arr(xv["v"]), v, rtol=0, atol=0)
    d2 = float(xv.attrs["dt"])
    r = ctx.call("compute_a", vb.compute_a, xv)
    ctx.same("retained-times-a", arr(r["time"]), time[1:-1])
    ctx.close("retained-x-a", arr(r["x"]), xf64[1:-1], rtol=0, atol=0)
    ctx.close("retained-v-a", arr(r["v"]), v[1:-1], rtol=0, atol=0)
    ctx.close("acceleration-from-x", arr(r["a"]), (forw - back) / d2**2, rtol=0, atol=4 * eps * amp / d2**2)
    r = ctx.call("compute_a_from_vel", vb.compute_a_from_vel, xv)
    ctx.same("retained-times-av", arr(r["time"]), time[1:-1])
    ctx.close("retained-x-av", arr(r["x"]), xf64[1:-1], rtol=0, atol=0)
    ctx.close("retained-v-av", arr(r["v"]), v[1:-1], rtol=0, atol=0)
    ctx.close("acceleration-from-v", arr(r["a"]), (v[2:] - v[:-2]) / (2 * d2), rtol=0, atol=eps * 10 * amp / d2)
    ctx.check(r.attrs.get("dt") == xv.attrs["dt"], "dt-kept")
    full = ctx.call("xframe(v,a)", vb.xframe, arg, time, v=va, a=aa)
    for name, w in (("x", xf64), ("v", v), ("a", a)):
        ctx.close("given-" + name, arr(full[name]), w, rtol=0, atol=0)
    ctx.check(full.attrs.get("dt") == xv.attrs["dt"], "dt-kept")
    c = ctx.call("concat_underdamped", vb.concat_underdamped, full)
    ctx.close("concat-x", arr(c["x"].transpose("time", "dim_x")), np.concatenate((xf64, v), axis=1), rtol=0, atol=0)
    ctx.close("concat-v", arr(c["v"].transpose("time", "dim_x")), np.concatenate((v, a), axis=1), rtol=0, atol=0)
    ctx.check(c.attrs.get("dt") == xv.attrs["dt"], "dt-kept")
    ctx.same("concat-time", arr(c["time"]), time)
