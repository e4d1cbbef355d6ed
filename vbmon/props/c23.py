"""Meshes built from data, and descriptions of data sets."""
import numpy as np
from scipy.stats import describe
import VolterraBasis as vb
import VolterraBasis.basis as bf

from .. import gen

mu = bf  # the mesh helpers are exported with the bases


def inside_tri(P, V, T):
    """Largest, over the triangles, of the smallest barycentric coordinate."""
    best = np.full(len(P), -np.inf)
    for t in T:
        a, b, c = V[t]
        M = np.stack((b - a, c - a), axis=1)
        if abs(np.linalg.det(M)) < 1e-14:
            continue
        l = np.linalg.solve(M, (P - a).T)
        best = np.maximum(best, np.minimum(np.minimum(l[0], l[1]), 1 - l[0] - l[1]))
    return best


def run_case(ctx):
    rng = ctx.rng
    what = ["line", "ratio", "data-line", "describe", "centroid-line", "describe", "mesh", "intersect", "hull"][ctx.idx % 9]
    a = float(rng.uniform(-5, 3))
    b = a + float(rng.uniform(0.1, 10))
    n = int(gen.choice(rng, [1, 2, 3, 7, 20, 50, int(rng.integers(50, 1000))]))
    if rng.random() < 0.2:  # any origin and unit
        s, o = 10.0 ** float(rng.uniform(-6, 6)), float(rng.uniform(-1e3, 1e3))
        a, b = s * (a + o), s * (b + o)
    ctx.describe(what=what)
    if what == "line":
        m = ctx.call("uniform_line", mu.uniform_line, a, b, n)
        ctx.close("uniform-mesh", m, a + (b - a) * np.arange(n + 1) / n, rtol=1e-12, scale=abs(a) + abs(b))
        ctx.close("uniform-mesh-ends", [m[0], m[-1]], np.array([a, b]), rtol=0, atol=4e-16 * (abs(a) + abs(b)))
        ctx.cover(what, n)
    elif what == "ratio":
        r = float(gen.choice(rng, [0.5, 0.8, 0.95, 1.05, 1.2, 2.0]))
        n = min(n, 20)
        m = ctx.call("non_uniform_line", mu.non_uniform_line, a, b, n, r)
        ctx.check(len(m) == n + 1, "mesh-size")
        ctx.close("mesh-ends", [m[0], m[-1]], np.array([a, b]), rtol=1e-9, scale=abs(a) + abs(b))
        h = np.diff(m)
        ctx.check(np.all(h > 0), "mesh-increasing")
        if n > 1 and np.min(h) > 1e-4 * (b - a):
            ctx.close("geometric-progression", h[1:] / h[:-1], np.full(n - 1, r), rtol=1e-8)
        ctx.cover(what, n, r)
    elif what == "data-line":
        X = rng.normal(size=int(rng.integers(20, 200)))
        kw = {}
        if rng.random() < 0.3:
            X = X + float(rng.uniform(-8, 8))
        lo, hi = X.min(), X.max()
        if rng.random() < 0.5:
            lo = kw["x_start"] = float(gen.choice(rng, [lo - 1.0, 0.0 if hi > 0 else lo, lo + 0.1]))
        if rng.random() < 0.5:
            hi = kw["x_end"] = float(gen.choice(rng, [hi + 1.0, hi - 0.1, 0.0 if lo < 0 else hi]))
        if lo >= hi:
            hi = kw["x_end"] = lo + 1.0
        nb = int(gen.choice(rng, [1, 5, 10, 30, int(rng.integers(30, 400))]))
        if nb != 10 or rng.random() < 0.5:
            kw["bins"] = nb
        m = ctx.call("data_driven_line", mu.data_driven_line, X, **kw)
        ctx.close("data-mesh", m, np.linspace(lo, hi, nb + 1), rtol=1e-12, scale=abs(lo) + abs(hi))
        ctx.cover(what, nb, sorted(kw))
    elif what == "centroid-line":
        X = np.concatenate((rng.normal(size=(60, 1)) * 0.3 - 2, rng.normal(size=(60, 1)) * 0.5 + 1))
        nb = int(rng.integers(2, 12))
        m = ctx.call("centroid_driven_line", mu.centroid_driven_line, X, bins=nb)
        ctx.check(m.shape == (nb + 2,), "centroid-mesh-size", str(m.shape))
        ctx.close("centroid-mesh-ends", [m[0], m[-1]], np.array([X.min(), X.max()]), rtol=1e-12)
        ctx.check(np.all(np.diff(m) >= -1e-10 * np.ptp(X)), "centroid-mesh-sorted")
        c = m[1:-1]
        near = np.argmin(np.abs(X - c[None, :]), axis=1)
        means = np.array([X[near == i].mean() if np.any(near == i) else np.nan for i in range(nb)])
        ctx.check(np.nanmax(np.abs(means - c)) < 0.2, "centroids-of-the-data", str(np.nanmax(np.abs(means - c))))
        ctx.cover(what, nb)
    elif what == "mesh":
        X = rng.normal(size=(int(rng.integers(60, 150)), 2)) @ rng.normal(size=(2, 2)) + rng.normal(size=2)
        if rng.random() < 0.4:  # a strip
            th = rng.uniform(0, 2 * np.pi)
            X = rng.uniform(-1, 1, X.shape) * [rng.uniform(3, 12), 1] @ np.array([[np.cos(th), np.sin(th)], [-np.sin(th), np.cos(th)]])
        nb = int(rng.integers(1, 15))
        mode = gen.choice(rng, ["hull", "given", "simplified"])
        if mode == "given":
            lo, hi = X.min(axis=0) - 0.1, X.max(axis=0) + 0.1
            B = np.array([[lo[0], lo[1]], [lo[0], hi[1]], [hi[0], lo[1]], [hi[0], hi[1]]])
            V, T = ctx.call("centroid_driven_mesh", mu.centroid_driven_mesh, X, bins=nb, boundary_vertices=B)
            ctx.same("given-boundary", V[:4], B)
        elif mode == "simplified":
            kw = gen.choice(rng, [{}, {"simplify_hull": float(10 ** rng.uniform(-4, -1))}])
            V, T = ctx.call("centroid_driven_mesh", mu.centroid_driven_mesh, X, bins=nb, **kw)
            if np.abs(V).max() > 1e4 * np.abs(X).max():
                return
            ctx.check(len(V) - nb >= 3, "mesh-outline", str(len(V)))
        else:
            V, T = ctx.call("centroid_driven_mesh", mu.centroid_driven_mesh, X, bins=nb, simplify_hull=0.0)
        ctx.check(T.max() < len(V) and T.min() >= 0 and T.shape[1] == 3, "mesh-connectivity")
        ctx.check(np.min(inside_tri(X, V, T)) > -1e-6, "mesh-covers-data", str(np.min(inside_tri(X, V, T))))
        near = np.argmin(((X[:, None] - V[None, -nb:]) ** 2).sum(-1), axis=1)
        means = np.array([X[near == i].mean(axis=0) if np.any(near == i) else [np.nan] * 2 for i in range(nb)])
        ctx.check(np.nanmax(np.abs(means - V[-nb:])) < 0.3 * X.std(), "centroids-of-the-data")
        ctx.cover(what, mode, nb)
    elif what == "intersect":
        P, d1, d2 = rng.normal(size=2), rng.normal(size=2), rng.normal(size=2)
        if abs(d1[0] * d2[1] - d1[1] * d2[0]) < 0.05:
            return
        s = rng.uniform(0.5, 2, 4) * rng.choice([-1, 1], 4)
        if abs(s[0] - s[1]) < 0.1 or abs(s[2] - s[3]) < 0.1:
            return
        got = ctx.call("get_intersect", mu.get_intersect, P + s[0] * d1, P + s[1] * d1, P + s[2] * d2, P + s[3] * d2)
        ctx.close("intersection", got, P, rtol=1e-8, scale=5.0)
        got = ctx.call("get_intersect", mu.get_intersect, (0, 0), (1, 1), (0, 1), (1, 2))
        ctx.check(np.all(np.isinf(got)), "parallel-lines", str(got))
        ctx.cover(what)
    elif what == "hull":
        # polygon with a short edge: the two ends are replaced by one point, the polygon grows
        k = int(rng.integers(5, 10))
        th = np.sort(rng.uniform(0, 2 * np.pi / k * 0.5, k) + np.arange(k) * 2 * np.pi / k)
        i = int(rng.integers(0, k))
        th = np.insert(th, i + 1, th[i] + 0.02)
        P = np.stack((np.cos(th), np.sin(th)), axis=1)
        kw = gen.choice(rng, [{}, {"verbose": True}, {"ratio_limit": 0.01}])
        out, again = ctx.call("remove_one_point", mu.remove_one_point, P.copy(), mutable=(0,), **kw)
        ctx.check(again is True or again == True, "short-edge-removed")  # noqa: E712
        ctx.check(len(out) == len(P) - 1, "one-point-less", "{} {}".format(len(out), len(P)))
        c = out.mean(axis=0)
        e = np.roll(out, -1, axis=0) - out
        cr = e[:, 0][:, None] * (P[None, :, 1] - out[:, 1][:, None]) - e[:, 1][:, None] * (P[None, :, 0] - out[:, 0][:, None])
        ctx.check(cr.min() > -1e-9, "polygon-still-contains", str(cr.min()))
        big = np.stack((np.cos(np.arange(6)), np.sin(np.arange(6))), axis=1)
        out, again = ctx.call("remove_one_point", mu.remove_one_point, big.copy(), mutable=(0,))
        ctx.check(not again and np.array_equal(out, big), "long-edges-kept")
        ctx.cover(what, k, i)
    else:
        dim = int(rng.integers(1, 4)) if rng.random() < 0.9 else int(rng.integers(4, 9))
        parts = [rng.normal(size=(int(rng.integers(2, 50)), dim)) * rng.uniform(0.1, 3) + rng.normal(size=dim) for _ in range(int(rng.integers(2, 5)) if rng.random() < 0.9 else int(rng.integers(5, 30)))]
        full = np.concatenate(parts)
        kind = gen.choice(rng, ["scipy", "minimal"])
        f = describe if kind == "scipy" else bf.minimal_describe
        ds = [f(q) for q in parts]
        tot = ds[0]
        for d in ds[1:]:
            tot = ctx.call("sum_describe", bf.sum_describe, tot, d)
        ctx.check(int(tot.nobs) == len(full), "merged-count", str(tot.nobs))
        ctx.close("merged-mean", tot.mean, full.mean(axis=0), rtol=1e-10, atol=1e-12)
        ctx.same("merged-min", tot.minmax[0], full.min(axis=0))
        ctx.same("merged-max", tot.minmax[1], full.max(axis=0))
        m = ctx.call("minimal_describe", bf.minimal_describe, full)
        ctx.check(int(m.nobs) == len(full), "describe-count")
        ctx.close("describe-mean", m.mean, full.mean(axis=0), rtol=1e-12, atol=1e-13)
        ctx.same("describe-min", m.minmax[0], full.min(axis=0))
        ctx.same("describe-max", m.minmax[1], full.max(axis=0))
        q = ctx.call("quick_describe", bf.quick_describe, full)
        ctx.check(int(q.nobs) == len(full) and len(q.mean) == dim, "quick-describe")
        q = ctx.call("describe_from_dim", bf.describe_from_dim, dim)
        ctx.check(len(q.mean) == dim and len(q.minmax[0]) == dim, "describe-from-dim")
        trajs = [vb.xframe(q, np.arange(len(q)) * 0.1, v=q, a=q) for q in parts]
        est = ctx.call("Estimator_gle", vb.Estimator_gle, trajs, vb.Pos_gle_const_kernel, bf.LinearFeatures(to_center=True), trunc=0.05, saveall=False, verbose=False)
        d = ctx.call("describe_data", est.describe_data)
        ctx.check(int(d.nobs) == len(full), "estimator-count")
        ctx.close("estimator-mean", d.mean, full.mean(axis=0), rtol=1e-10, atol=1e-12)
        ctx.same("estimator-min", d.minmax[0], full.min(axis=0))
        ctx.same("estimator-max", d.minmax[1], full.max(axis=0))
        pts = rng.normal(size=(4, dim))
        ctx.close("basis-fitted-on-all-trajectories", np.asarray(est.model.basis.basis(pts)), pts - full.mean(axis=0), rtol=1e-10, atol=1e-10)
        ctx.cover(what, kind, dim, len(parts))
