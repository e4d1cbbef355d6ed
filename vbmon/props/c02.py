"""Periodic trajectories: wrapping the positions changes neither velocities nor accelerations."""
import numpy as np
import VolterraBasis as vb

from .. import gen
from .c01 import arr, to_dask


def run_case(ctx):
    rng = ctx.rng
    n = int(rng.integers(4, 300))
    dim = int(rng.integers(1, 4))
    if rng.random() < 0.06:
        n, dim = (int(rng.integers(300, 3000)), int(rng.integers(1, 9))) if rng.random() < 0.6 else (int(10 ** rng.uniform(3.5, 4.6)), int(rng.integers(1, 4)))
    dt = gen.pick_dt(rng)
    integers = rng.random() < 0.15  # positions on a grid
    period = 2 * np.pi if rng.random() < 0.5 and not integers else float(rng.uniform(0.5, 50))
    if integers:
        period = float(rng.integers(20, 400))
    fraction = integers and rng.random() < 0.4  # rounded positions, a period that is not an integer
    if fraction:
        period += float(rng.uniform(0.1, 0.9))
    default = period == 2 * np.pi and rng.random() < 0.7
    thr = 1.75 * np.pi if default else float(rng.uniform(0.55, 0.95)) * period
    # true steps are shorter than both the threshold and period - threshold
    smax = 0.95 * min(thr, period - thr)
    if fraction:
        smax = max(smax - 2, 0.5 * smax)
        thr = float(np.clip(thr, smax + 1.5, period - smax - 1.5))
    kind = gen.choice(rng, ["drift", "random", "osc", "extreme"])
    if kind == "drift":
        s = rng.uniform(0.2, 1.0, (n, dim)) * smax * gen.choice(rng, [1, -1])
    elif kind == "random":
        s = rng.uniform(-1, 1, (n, dim)) * smax
    elif kind == "extreme":
        s = smax * gen.choice(rng, [1.0, 0.99]) * rng.choice([-1.0, 1.0], size=(n, dim))
    else:
        s = smax * np.sin(np.arange(n)[:, None] * rng.uniform(0.01, 0.3) + rng.uniform(0, 6, dim))
    X = np.cumsum(s, axis=0) + rng.uniform(-period, period, dim)
    if integers:
        X = np.cumsum(np.trunc(s), axis=0) + np.floor(rng.uniform(-period, period, dim))
    left = float(gen.choice(rng, [-period / 2, 0.0, float(rng.uniform(-3, 3))]))
    if integers:
        left = float(np.floor(left))
    W = left + np.mod(X - left, period)
    if fraction:
        W = np.round(W)
        step = np.diff(W, axis=0)
        step += period * np.round((np.diff(X, axis=0) - step) / period)
        X = np.concatenate((W[:1], W[:1] + np.cumsum(step, axis=0)))
    typ = gen.choice(rng, [np.int64, np.int32, np.float64]) if integers else np.float64
    crossings = int(np.sum(np.abs(np.diff(W, axis=0)) > 0.5 * period))
    ctx.describe(n=n, dim=dim, period=period, thr=thr, steps=kind, crossings=crossings)
    ctx.cover(kind, "dim%d" % dim, "default" if default else "given", "crossings%d" % min(crossings, 30))
    ctx.count("mon:boundary-crossings", crossings)
    t = np.arange(n) * dt
    dask = rng.random() < 0.25
    wf = ctx.call("xframe", vb.xframe, to_dask(W.astype(typ), rng) if dask else W.astype(typ), t)
    ctx.cover("type", np.dtype(typ).name)
    kw = {"correct_jumps": True}
    if not default:
        kw.update(jump=period, jump_thr=thr)
    back, forw = X[1:-1] - X[:-2], X[2:] - X[1:-1]
    tol = 1e-11 * (np.max(np.abs(X)) + period)
    for name, fn, vel in (("compute_va", vb.compute_va, 0.5 * (back + forw)), ("compute_va_gjf", vb.compute_va_gjf, back)):
        r = ctx.call(name + "(correct_jumps)", fn, wf, **kw)
        ctx.same("times-" + name, arr(r["time"]), t[1:-1])
        ctx.close("wrapped-x-kept", arr(r["x"]), W[1:-1], rtol=0, atol=0)
        ctx.close("unwrapped-velocity-" + name, arr(r["v"]), vel / dt, rtol=0, atol=tol / dt)
        ctx.close("unwrapped-acceleration-" + name, arr(r["a"]), (forw - back) / dt**2, rtol=0, atol=4 * tol / dt**2)
        ctx.check(abs(r.attrs.get("dt", -1) - dt) < 1e-9, "dt-kept")
    if rng.random() < 0.5:
        lamb = float(rng.random())
        r = ctx.call("compute_va(lamb,correct_jumps)", vb.compute_va, wf, lamb_finite_diff=lamb, **kw)
        ctx.close("unwrapped-velocity-lamb", arr(r["v"]), (lamb * forw + (1 - lamb) * back) / dt, rtol=0, atol=tol / dt)
    # a trajectory that never crosses the boundary is left alone
    uf = ctx.call("xframe", vb.xframe, X, t)
    r1 = ctx.call("compute_va(correct_jumps)", vb.compute_va, uf, **kw)
    r0 = ctx.call("compute_va", vb.compute_va, uf)
    ctx.close("no-jump-velocity", arr(r1["v"]), arr(r0["v"]), rtol=1e-12)
    ctx.close("no-jump-acceleration", arr(r1["a"]), arr(r0["a"]), rtol=1e-12)
    # without the option, jumps are not touched
    r = ctx.call("compute_va", vb.compute_va, wf)
    d = np.diff(W, axis=0)
    ctx.close("uncorrected-acceleration", arr(r["a"]), (d[1:] - d[:-1]) / dt**2, rtol=0, atol=4 * tol / dt**2)
