"""Contract of a basis: declared size, pointwise evaluation, no hidden state,
composition of bases."""
import copy
import pickle

import numpy as np
import scipy.stats
import VolterraBasis.basis as bf

from .. import bases, gen


def evaluate(ctx, b, X, anti=False):
    out = {"basis": ctx.call("basis", b.basis, X), "deriv": ctx.call("deriv", b.deriv, X), "hessian": ctx.call("hessian", b.hessian, X)}
    if anti:
        out["antiderivative"] = ctx.call("antiderivative", b.antiderivative, X)
    return {k: np.asarray(v) for k, v in out.items()}


def compare(ctx, kind, got, want, sel=None):
    for k in want:
        w = want[k] if sel is None else want[k][sel]
        sc = np.max(np.abs(w)) if w.size else 1.0
        ctx.close(kind + "-" + k, got[k], w, rtol=0, atol=1e-10 * sc + 1e-290)


def run_case(ctx):
    rng = ctx.rng
    mode = ctx.idx % 4
    if ctx.idx % 24 == 5:
        return fem(ctx)
    if mode == 3:
        return composition(ctx)
    spec, dim, data = bases.pick(rng)
    ctx.describe(kind=spec.kind, dim=dim, rc=spec.rc)
    ctx.cover(spec.kind, "dim%d" % dim, "rc%d" % spec.rc, "+".join(q.kind for q in getattr(spec, "parts", [])))
    # fit from the data or from a description of it
    des = scipy.stats.describe(data)
    b, b2 = spec.make(), spec.make()
    ret = ctx.call("fit(array)", b.fit, data)
    ctx.check(ret is b, "fit-returns-self")
    ctx.call("fit(description)", b2.fit, des)
    n_out = int(b.n_output_features_)
    nk = len(bases.keep(spec, n_out, dim))
    lo, hi = data.min(axis=0), data.max(axis=0)
    n = int(rng.integers(1, 25)) if rng.random() < 0.96 else int(rng.integers(200, 3000))
    X = lo + (hi - lo) * rng.uniform(0, 1, (n, dim))
    if rng.random() < 0.3 and spec.kind not in ("bsplper",):
        X = np.concatenate((X, data[: int(rng.integers(1, 5))]))
    n = X.shape[0]
    lay = gen.choice(rng, ["C", "F", "strided", "readonly"])
    if lay == "F":
        X = np.asfortranarray(X)
    elif lay == "strided":
        X = np.repeat(X, 2, axis=0)[::2]
    elif lay == "readonly":
        X = X.copy()
        X.flags.writeable = False
    anti = spec.anti and spec.kind != "bsplper"
    r = evaluate(ctx, b, X, anti)
    ctx.check(r["basis"].shape == (n, n_out), "declared-size", "{} for {} features".format(r["basis"].shape, n_out))
    ctx.check(r["deriv"].shape == (n, nk, dim), "declared-size-deriv", "{}".format(r["deriv"].shape))
    ctx.check(r["hessian"].shape == (n, nk, dim, dim), "declared-size-hessian", "{}".format(r["hessian"].shape))
    ctx.check(all(np.all(np.isfinite(v)) for v in r.values()), "finite-values")
    compare(ctx, "fit-description", evaluate(ctx, b2, X, anti), r)
    # pointwise: permutation, subset, one by one, repeated
    perm = rng.permutation(n)
    compare(ctx, "permutation", evaluate(ctx, b, X[perm], anti), r, perm)
    i = int(rng.integers(n))
    compare(ctx, "single-point", evaluate(ctx, b, X[i : i + 1], anti), r, slice(i, i + 1))
    Y = np.concatenate((X, lo + (hi - lo) * rng.uniform(0, 1, (3, dim))))
    compare(ctx, "superset", {k: v[:n] for k, v in evaluate(ctx, b, Y, anti).items()}, r)
    compare(ctx, "repeat", evaluate(ctx, b, X, anti), r)
    # numbers of another type are the same numbers
    if spec.kind != "bsplper" and rng.random() < 0.3:
        Z = np.round(X).astype(gen.choice(rng, [np.int64, np.int32, np.float32]))
        Z = np.clip(Z, np.ceil(lo), np.floor(hi)).astype(Z.dtype)
        if np.all(Z >= lo) and np.all(Z <= hi):
            ctx.cover("dtype", spec.kind, Z.dtype)
            q, w = evaluate(ctx, b, Z, anti), evaluate(ctx, b, Z.astype(float), anti)
            for k in w:
                ctx.close("number-type-" + k, q[k], w[k], rtol=1e-9 if Z.dtype.kind == "i" else 2e-4, atol=1e-290)
    # other points between the same ends
    if n > 3:
        j = np.concatenate(([0], 1 + rng.permutation(n - 2), [n - 1]))
        evaluate(ctx, b, X, anti)
        compare(ctx, "same-ends", evaluate(ctx, b, X[j], anti), r, j)
    # the same array filled again, then results overwritten by the caller
    Z = np.array(X)
    evaluate(ctx, b, Z, anti)
    Z[...] = X[perm]
    q = evaluate(ctx, b, Z, anti)
    compare(ctx, "refilled", q, r, perm)
    if not any(np.shares_memory(v, Z) for v in q.values()):
        for v in q.values():
            if v.flags.writeable:
                v[...] = np.nan
        compare(ctx, "overwritten", evaluate(ctx, b, Z, anti), r, perm)
    ctx.same("points-kept", Z, X[perm])
    # refit on other data then back: no trace left
    other = data * rng.uniform(0.5, 2) + rng.normal()
    ctx.call("refit", b.fit, other)
    Y = other[: int(rng.integers(1, 8))]
    compare(ctx, "refit-other", evaluate(ctx, b, Y, anti), evaluate(ctx, spec.make().fit(other), Y, anti))
    ctx.call("refit", b.fit, data)
    compare(ctx, "refit", evaluate(ctx, b, X, anti), r)
    # an independent copy behaves the same
    c = pickle.loads(pickle.dumps(b)) if rng.random() < 0.5 else copy.deepcopy(b)
    compare(ctx, "copy", evaluate(ctx, c, X, anti), r)
    # removing the constant acts on derivatives only
    if spec.kind in ("poly", "cheb", "leg", "herm", "lag", "four", "bspl"):
        b.const_removed = not spec.rc
        q = evaluate(ctx, b, X, anti)
        ctx.close("const-removed-basis", q["basis"], r["basis"], rtol=0, atol=1e-12 * np.max(np.abs(r["basis"])))
        small, big = (r, q) if spec.rc else (q, r)
        cols = np.arange(n_out - dim) if spec.kind == "bspl" else np.arange(dim, n_out)
        for k in ("deriv", "hessian"):
            ctx.close("const-removed-" + k, small[k], big[k][:, cols], rtol=0, atol=1e-12 * (np.max(np.abs(big[k])) + 1e-290))


def fem(ctx):
    """Finite elements, without second derivatives"""
    import skfem

    rng = ctx.rng
    dim = int(gen.choice(rng, [1, 1, 2, 3]))
    if dim == 1:
        mesh, el = skfem.MeshLine(np.sort(rng.uniform(0, 1, int(rng.integers(3, 12))))), gen.choice(rng, [skfem.ElementLineP1, skfem.ElementLineP2])
    elif dim == 2:
        mesh, el = skfem.MeshTri().refined(int(rng.integers(1, 3))), gen.choice(rng, [skfem.ElementTriP1, skfem.ElementTriP2])
    else:
        mesh, el = skfem.MeshTet().refined(1), skfem.ElementTetP1
    make = lambda: bf.FEMScalarFeatures(skfem.CellBasis(mesh, el()))
    lo, hi = mesh.p.min(axis=1), mesh.p.max(axis=1)
    X = lo + (hi - lo) * rng.uniform(0.001, 0.999, (int(rng.integers(1, 25)), dim))
    n = len(X)
    b, b2 = make(), make()
    ctx.call("fit(array)", b.fit, X)
    ctx.call("fit(description)", b2.fit, scipy.stats.describe(rng.normal(size=(10, dim))))
    ctx.describe(kind="fem", dim=dim, element=el.__name__)
    ctx.cover("fem", el.__name__)

    def ev(f, X):
        return {"basis": np.asarray(ctx.call("basis", f.basis, X)), "deriv": np.asarray(ctx.call("deriv", f.deriv, X))}

    r = ev(b, X)
    N = int(b.n_output_features_)
    ctx.check(r["basis"].shape == (n, N), "declared-size", str(r["basis"].shape))
    ctx.check(r["deriv"].shape == (n, N, dim), "declared-size-deriv", str(r["deriv"].shape))
    perm = rng.permutation(n)
    compare(ctx, "fit-description", ev(b2, X), r)
    compare(ctx, "permutation", ev(b, X[perm]), r, perm)
    i = int(rng.integers(n))
    compare(ctx, "single-point", ev(b, X[i : i + 1]), r, slice(i, i + 1))
    Z = X.copy()
    ev(b, Z)
    Z[...] = X[perm]
    compare(ctx, "refilled", ev(b, Z), r, perm)
    compare(ctx, "repeat", ev(b, X), r)
    compare(ctx, "copy", ev(copy.deepcopy(b), X), r)


def composition(ctx):
    rng = ctx.rng
    if rng.random() < 0.5:  # combiner
        dim = int(gen.choice(rng, [1, 1, 2, 3]))
        spec, dim, data = bases.pick(rng, dim, "comb")
        parts = [q.make() for q in spec.parts]
        fit_parts = [q.make().fit(scipy.stats.describe(data)) for q in spec.parts]
        b = bf.FeaturesCombiner(*parts)
        ctx.call("fit", b.fit, data if rng.random() < 0.5 else scipy.stats.describe(data))
        ctx.cover("combiner", "dim%d" % dim, "+".join(q.kind for q in spec.parts))
        ctx.describe(composition="combiner", parts="+".join(q.kind for q in spec.parts), dim=dim)
        X = data[: int(rng.integers(1, 15))].copy()
        r = evaluate(ctx, b, X)
        ctx.check(int(b.n_output_features_) == sum(int(q.n_output_features_) for q in fit_parts), "combined-size")
        for k in ("basis", "deriv", "hessian"):
            want = np.concatenate([np.asarray(getattr(q, k)(X)) for q in fit_parts], axis=1)
            ctx.close("concatenation-" + k, r[k], want, rtol=0, atol=1e-11 * (np.max(np.abs(want)) + 1e-290))
        ctx.check(bool(b.const_removed) == any(q.rc for q in spec.parts), "combined-const-removed")
        return
    spec, dim, data = bases.pick(rng, 2, "tens")
    ctx.cover("tensorial", "+".join(q.kind for q in spec.parts))
    ctx.describe(composition="tensorial", parts="+".join(q.kind for q in spec.parts))
    b = spec.make()
    ctx.call("fit", b.fit, data if rng.random() < 0.5 else scipy.stats.describe(data))
    f1 = spec.parts[0].make().fit(data[:, :1])
    f2 = spec.parts[1].make().fit(data[:, 1:])
    for f in (f1, f2):
        f.const_removed = False
    n1, n2 = int(f1.n_output_features_), int(f2.n_output_features_)
    ctx.check(int(b.n_output_features_) == n1 * n2, "product-size")
    X = data[: int(rng.integers(1, 15))].copy()
    n = len(X)
    r = evaluate(ctx, b, X)
    B1, B2 = np.asarray(f1.basis(X[:, :1])), np.asarray(f2.basis(X[:, 1:]))
    D1, D2 = np.asarray(f1.deriv(X[:, :1]))[..., 0], np.asarray(f2.deriv(X[:, 1:]))[..., 0]
    H1, H2 = np.asarray(f1.hessian(X[:, :1]))[..., 0, 0], np.asarray(f2.hessian(X[:, 1:]))[..., 0, 0]
    sc = lambda a: 1e-11 * (np.max(np.abs(a)) + 1e-290)
    seen = set()
    for i in range(n1):
        for j in range(n2):
            k = int(b.comb_indices(i, j))
            seen.add(k)
            s = b.split_index(k)
            ctx.check((int(s[0]), int(s[1])) == (i, j), "index-roundtrip", "{} -> {} -> {}".format((i, j), k, s))
            ctx.close("product-basis", r["basis"][:, k], B1[:, i] * B2[:, j], rtol=0, atol=sc(r["basis"]))
            g = np.stack((D1[:, i] * B2[:, j], B1[:, i] * D2[:, j]), axis=-1)
            ctx.close("product-deriv", r["deriv"][:, k], g, rtol=0, atol=sc(r["deriv"]))
            x = D1[:, i] * D2[:, j]
            h = np.stack((np.stack((H1[:, i] * B2[:, j], x), -1), np.stack((x, B1[:, i] * H2[:, j]), -1)), -2)
            ctx.close("product-hessian", r["hessian"][:, k], h, rtol=0, atol=sc(r["hessian"]))
    ctx.check(seen == set(range(n1 * n2)), "index-bijection")
    ctx.raises("TensorialBasis2D.fit(3D)", spec.make().fit, rng.normal(size=(10, 3)), exc=ValueError)
    ctx.raises("SmoothIndicatorFeatures.fit(2D)", bf.SmoothIndicatorFeatures([[0, 1]]).fit, rng.normal(size=(10, 2)), exc=ValueError)
