"""Finite element features."""
import numpy as np
import skfem
import VolterraBasis as vb
import VolterraBasis.basis as bf

from .. import gen


def mesh1d(rng):
    n = int(rng.integers(2, 12)) if rng.random() < 0.95 else int(rng.integers(30, 100))
    p = np.sort(rng.uniform(-3, 3, n + 1))
    while np.min(np.diff(p)) < 0.05:
        p = np.linspace(-3, 3, n + 1) + rng.uniform(-0.15, 0.15, n + 1)
        p = np.sort(p)
        n = n if np.min(np.diff(p)) >= 0.05 else max(2, n - 1)
    t = np.stack((np.arange(n), np.arange(1, n + 1)))
    kind = gen.choice(rng, ["sorted", "shuffled-points", "shuffled-elements"])
    if kind == "shuffled-points":
        perm = rng.permutation(n + 1)
        inv = np.argsort(perm)
        p = p[perm]
        t = inv[t]
    if kind != "sorted":
        t = t[:, rng.permutation(n)]
    m = skfem.MeshLine(p[None, :].copy(), np.ascontiguousarray(t), sort_t=False) if rng.random() < 0.5 else skfem.MeshLine(p[None, :].copy(), np.ascontiguousarray(t))
    return m, kind


def mesh_nd(rng, dim):
    if dim == 2:
        times = int(rng.integers(1, 4)) if rng.random() < 0.95 else 4
        m = skfem.MeshTri().refined(times)
        if rng.random() < 0.15:  # long and thin elements, graded
            gx = np.concatenate(([0.0], np.cumsum(rng.uniform(0.2, 3, int(rng.integers(1, 5))))))
            gy = np.concatenate(([0.0], np.cumsum(rng.uniform(0.2, 3, int(rng.integers(3, 30)))))) * 10.0 ** float(rng.uniform(-2.5, 0))
            m = skfem.MeshTri.init_tensor(*((gx, gy) if rng.random() < 0.5 else (gy, gx)))
            kind = "elongated"
        elif rng.random() < 0.4:  # very flat triangles: the nearest centroids are not the right ones
            m = m.scaled((float(gen.choice(rng, [1.0, 15.0])), 1.0))
            kind = "stretched"
        else:
            kind = "regular"
        if kind != "elongated" and rng.random() < 0.4:
            p = m.p.copy()
            inner = np.setdiff1d(np.arange(p.shape[1]), m.boundary_nodes())
            h = 0.15 * np.min(m.params()) if hasattr(m, "params") else 0.02
            p[:, inner] += rng.uniform(-1, 1, (2, len(inner))) * min(h, 0.02, 0.16 / 2**times)
            m = skfem.MeshTri(p, m.t)
            kind += "-moved"
    else:
        m = skfem.MeshTet().refined(int(rng.integers(1, 3)))
        kind = "regular"
    perm = rng.permutation(m.t.shape[1])
    p = m.p
    if rng.random() < 0.5:  # any orientation, origin and size
        A, _ = np.linalg.qr(rng.normal(size=(dim, dim)))
        A = A @ np.diag(rng.uniform(0.5, 2, dim)) * 10.0 ** rng.uniform(-2, 2)
        p = A @ p
        p = np.ascontiguousarray(p + np.ptp(p) * float(gen.choice(rng, [0, 1, 10])) * rng.normal(size=(dim, 1)))
        kind += "-affine"
    return type(m)(p, m.t[:, perm]), kind


def inside_points(rng, m, n):
    """Points strictly inside known elements, in barycentric coordinates."""
    d = m.dim()
    e = rng.integers(0, m.t.shape[1], n)
    l = rng.dirichlet(np.ones(d + 1), n) * 0.98 + 0.02 / (d + 1)
    X = np.einsum("nk,dkn->nd", l, m.p[:, m.t[:, e]])
    return X, e, l


def run_case(ctx):
    rng = ctx.rng
    dim = [1, 2, 1, 3][ctx.idx % 4]
    m, kind = mesh1d(rng) if dim == 1 else mesh_nd(rng, dim)
    deg = int(rng.integers(1, 3))
    elem = {(1, 1): skfem.ElementLineP1, (1, 2): skfem.ElementLineP2, (2, 1): skfem.ElementTriP1, (2, 2): skfem.ElementTriP2, (3, 1): skfem.ElementTetP1, (3, 2): skfem.ElementTetP2}[dim, deg]()
    fem = skfem.CellBasis(m, elem)
    ctx.describe(dim=dim, mesh=kind, degree=deg, elements=int(m.t.shape[1]), dofs=int(fem.N))
    ctx.cover(dim, kind, deg, int(m.t.shape[1]))
    b = ctx.call("FEMScalarFeatures", bf.FEMScalarFeatures, fem)
    X, e, l = inside_points(rng, m, int(rng.integers(1, 40)) if rng.random() < 0.95 else int(rng.integers(200, 1500)))
    b = ctx.call("fit", b.fit, X)
    ctx.check(b.n_output_features_ == fem.N, "number-of-features")
    B = np.asarray(ctx.call("basis", b.basis, X))
    D = np.asarray(ctx.call("deriv", b.deriv, X))
    ctx.check(B.shape == (len(X), fem.N) and D.shape == (len(X), fem.N, dim), "feature-shapes", "{} {}".format(B.shape, D.shape))
    # only the functions of the element that contains the point are non zero
    mask = np.zeros(B.shape, dtype=bool)
    for n in range(len(X)):
        mask[n, fem.element_dofs[:, e[n]]] = True
    ctx.close("support", np.where(mask, 0, B), np.zeros(B.shape), atol=1e-9)
    ctx.close("support-gradient", np.where(mask[..., None], 0, D), np.zeros(D.shape), atol=1e-9)
    hs = 1.0 / np.min(np.ptp(m.p[:, m.t], axis=1).max(axis=0))
    ctx.close("partition-of-unity", B.sum(axis=1), np.ones(len(X)), rtol=1e-9)
    ctx.close("partition-of-unity-gradient", D.sum(axis=1), np.zeros((len(X), dim)), atol=1e-8 * hs * 100)
    # polynomials of the degree of the elements are reproduced with their gradient
    Q = rng.normal(size=(dim, dim)) if deg == 2 else np.zeros((dim, dim))
    g, c = rng.normal(size=dim), float(rng.normal())

    def f(Y):
        return c + Y @ g + np.einsum("nd,de,ne->n", Y, Q, Y)

    loc = fem.doflocs.T
    co = f(loc)
    s = np.max(np.abs(co)) + 1
    ctx.close("reproduces-polynomials", B @ co, f(X), rtol=1e-9, scale=s)
    ctx.close("reproduces-gradients", np.einsum("nkd,k->nd", D, co), g + X @ (Q + Q.T), rtol=1e-7, scale=s * hs * 10)
    # one at its own node, zero at the others (interior side chosen for the nodes)
    k = int(rng.integers(fem.N))
    N = np.asarray(ctx.call("basis", b.basis, np.ascontiguousarray(loc)))
    ctx.close("nodal", N, np.eye(fem.N), atol=1e-7)
    # on the faces between elements: still the functions of an element that contains the point
    if dim > 1:
        q = rng.integers(0, m.facets.shape[1], 12)
        w = rng.dirichlet(np.ones(dim), 12)
        if rng.random() < 0.3:
            w = np.full((12, dim), 1.0 / dim)
        if dim == 3 and rng.random() < 0.3:
            w[:, 0] = 0
            w /= w.sum(axis=1, keepdims=True)
        F = np.einsum("nk,dkn->nd", w, m.p[:, m.facets[:, q]])
        V = np.asarray(ctx.call("basis", b.basis, F))
        near = np.zeros(V.shape, dtype=bool)
        for n in range(12):
            on = np.any(m.t[:, :, None] == m.facets[:, q[n]][None, None, :], axis=(0, 2)) if dim == 3 and w[n, 0] == 0 else np.any(m.t2f == q[n], axis=0)
            near[n, fem.element_dofs[:, on].ravel()] = True
        ctx.close("face-support", np.where(near, 0, V), np.zeros(V.shape), atol=1e-8)
        ctx.close("face-values", V @ co, f(F), rtol=1e-8, scale=s)
        ctx.check(deg == 2 or (V.min() > -1e-7 and V.max() < 1 + 1e-7), "face-range", "{} {}".format(V.min(), V.max()))
        ctx.cover("faces", dim, deg)
    # independent of the other points of the call
    i = int(rng.integers(len(X)))
    ctx.close("point-by-point", np.asarray(ctx.call("basis", b.basis, X[i : i + 1]))[0], B[i], rtol=1e-10)
    ctx.close("point-by-point", np.asarray(ctx.call("deriv", b.deriv, X[i : i + 1]))[0], D[i], rtol=1e-10)
    # finite differences, inside of the elements
    eps = 1e-6 / hs
    for d in range(dim):
        u = np.zeros(dim)
        u[d] = eps
        Bp, Bm = np.asarray(b.basis(X + u)), np.asarray(b.basis(X - u))
        far = l.min(axis=1) > 1e-2 / (dim + 1) * 0.5
        ctx.close("gradient", D[far][:, :, d], (Bp - Bm)[far] / (2 * eps), rtol=1e-4, scale=max(np.max(np.abs(D)), 1e-12))
    if ctx.idx % 5 == 0:
        # in the estimator: overdamped model on a random trajectory inside of the mesh
        lo, hi = m.p.min(axis=1), m.p.max(axis=1)
        n = 400
        x = lo + (hi - lo) * rng.beta(1.2, 1.2, (n, dim)) if kind == "regular" or dim == 1 else inside_points(rng, m, n)[0]
        v = rng.normal(size=(n, dim))
        xva = vb.xframe(x, np.arange(n) * 0.1, v=v, a=v)
        E = np.asarray(b.basis(x))
        G = E.T @ E / n
        if np.linalg.cond(G) < 1e7:
            est = ctx.call("Estimator_gle", vb.Estimator_gle, xva, vb.Pos_gle_overdamped, bf.FEMScalarFeatures(fem), trunc=0.55, saveall=False, verbose=False)
            ctx.call("compute_mean_force", est.compute_mean_force)
            ctx.close("fem-mean-force", np.asarray(est.model.force_coeff), np.linalg.solve(G, E.T @ v / n), rtol=1e-6)
            ctx.call("compute_corrs", est.compute_corrs)
            dE = np.einsum("nkd,nd->nk", np.asarray(b.deriv(x)), v)
            w = np.stack([dE[: n - q].T @ E[q:] / (n - q) for q in range(6)], axis=-1)
            ctx.close("fem-correlations", np.asarray(est.dotbkbkcorrw.transpose("dim_basis'", "dim_basis", "time_trunc")), w, rtol=1e-8)
