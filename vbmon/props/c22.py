"""One dimensional free energy, forces and masses from histograms."""
import numpy as np
import scipy.interpolate
import VolterraBasis as vb

from .. import gen


def run_case(ctx):
    rng = ctx.rng
    nt = int(rng.integers(1, 4)) if rng.random() < 0.95 else int(rng.integers(4, 15))
    dt = gen.pick_dt(rng)
    trajs = []
    off = float(gen.choice(rng, [0.0, 3.0, -20.0]))
    sc = float(gen.choice(rng, [1.0, 0.1, 10.0]))
    unit = 1.0
    if rng.random() < 0.15:  # any unit of length, time and energy
        unit = 10.0 ** float(rng.uniform(-9, 6))
        off, sc = off * unit, sc * unit
    grid = gen.choice(rng, [np.int64, np.int32, np.float64]) if rng.random() < 0.1 else None  # positions on a grid
    ctx.cover("grid", str(grid))
    for _ in range(nt):
        n = int(rng.integers(60, 400)) if rng.random() < 0.95 else int(gen.choice(rng, [12, 3000]))
        fam = gen.choice(rng, ["normal", "double-well", "uniform", "ar2"])
        if fam == "normal":
            x = rng.normal(size=n)
        elif fam == "double-well":
            x = rng.normal(size=n) * 0.3 + rng.choice([-1.5, 1.5], n)
        elif fam == "uniform":
            x = rng.uniform(-1, 1, n)
        else:
            x = gen.ar2(rng, n, 1)[:, 0]
        x = off + sc * x
        if grid:
            x = np.round(20 * x / sc).astype(grid)
        v = rng.normal(size=n) * rng.uniform(0.5, 2) * (1 + 0.3 * np.sin(x / unit)) * unit
        a = -x + rng.normal(size=n) * unit
        trajs.append(vb.xframe(x, np.arange(n) * dt, v=v.reshape(-1, 1), a=a.reshape(-1, 1)))
    X = np.concatenate([t["x"].data[:, 0] for t in trajs])
    V = np.concatenate([t["v"].data[:, 0] for t in trajs])
    A = np.concatenate([t["a"].data[:, 0] for t in trajs])
    bins = gen.choice(rng, [8, 12, 20, 30, "auto", 8, 12, 20, 30, "auto", 75, 150, 7, 25, "sturges", "sqrt", "rice", "doane", "default"])
    kw = {"bins": bins}
    if bins == "default":
        kw = {}
    if isinstance(bins, str) and bins != "default":
        edges = np.histogram_bin_edges(X, bins=bins)
    else:
        edges = np.linspace(X.min(), X.max(), 150 if bins == "default" else bins)
    kT = 2.494
    if rng.random() < 0.5:
        kT = float(rng.uniform(0.5, 3)) if rng.random() < 0.7 else 10.0 ** float(rng.uniform(-22, 4))
        kw["kT"] = kT
    ctx.describe(bins=bins, trajectories=nt, samples=len(X), kT=kT, offset=off, scale=sc)
    ctx.cover(bins, nt, off, sc, "kT" in kw)
    # samples in (left, right]
    idx = np.searchsorted(edges, X, side="left") - 1
    ok = (idx >= 0) & (idx < len(edges) - 1)
    nb = len(edges) - 1
    cnt = np.bincount(idx[ok], minlength=nb).astype(float)
    p = cnt / cnt.sum()
    mid = 0.5 * (edges[1:] + edges[:-1])
    arg = trajs if rng.random() < 0.5 else tuple(trajs)
    xf, pf = ctx.call("compute_1d_fe(hist)", vb.compute_1d_fe, arg, hist=True, **kw)
    ctx.close("bin-centers", xf, mid, rtol=1e-12)
    ctx.close("histogram", pf, p, rtol=1e-12)
    ctx.close("histogram-normalised", np.sum(np.asarray(pf)), 1.0, rtol=1e-12)
    if np.count_nonzero(cnt) < 6:
        return
    res = ctx.call("compute_1d_fe", vb.compute_1d_fe, arg, **kw)
    ctx.check(len(res) == 6, "result-form", str(len(res)))
    xs, fe, force, mean_a, force_tot, mass = [np.asarray(r) for r in res]
    k = cnt > 0
    ctx.close("free-energy-points", xs, mid[k], rtol=1e-12)
    w = -np.log(p[k])
    ctx.close("free-energy", fe, w - w.min(), rtol=1e-10, atol=1e-12)
    ctx.check(fe.min() == 0, "free-energy-zero")
    m2 = np.bincount(idx[ok], weights=V[ok] ** 2, minlength=nb)[k] / cnt[k]
    ma = np.bincount(idx[ok], weights=A[ok], minlength=nb)[k] / cnt[k]
    ctx.close("mean-square-velocity", mass, m2, rtol=1e-10)
    ctx.close("mean-acceleration", mean_a, ma, rtol=1e-10, scale=np.max(np.abs(A)))
    avg = np.sum(V[ok] ** 2) / ok.sum()
    sp = scipy.interpolate.splrep(xs, w - w.min(), s=0)
    want = -scipy.interpolate.splev(xs, sp, der=1) * kT / avg
    ctx.close("force-from-free-energy", force, want, rtol=1e-7)
    sp = scipy.interpolate.splrep(xs, m2 * p[k], s=0)
    ctx.close("total-force", force_tot, scipy.interpolate.splev(xs, sp, der=1) / p[k], rtol=1e-7)
    # order of the trajectories plays no role
    if nt > 1:
        r2 = ctx.call("compute_1d_fe", vb.compute_1d_fe, trajs[::-1], **kw)
        ctx.close("order-of-trajectories", np.asarray(r2[1]), fe, rtol=1e-10, atol=1e-12)
    ctx.raises("compute_1d_fe(bins)", vb.compute_1d_fe, trajs, bins=gen.choice(rng, [2.5, None, [0, 1]]), exc=ValueError)
