"""Native code: whatever the sizes, no access outside of the arrays, no
undefined behaviour, no end of the process.  Runs on a build with
AddressSanitizer, UndefinedBehaviorSanitizer and the run-time checks of gfortran."""
import numpy as np
import xarray as xr
import VolterraBasis as vb
import VolterraBasis.basis as bf
import VolterraBasis.fkernel as fk

from .. import gen, pipe
from ..ctx import CaseAbort
from . import c16

METHODS = ["rectangular", "rect", "midpoint", "midpoint_w_richardson", "trapz", "second_kind_rect", "second_kind_trapz"]


def attempt(ctx, name, fn, *args, **kw):
    """May refuse with an ordinary exception, may not end the process."""
    try:
        res = ctx.quiet(fn, *args, **kw)
    except Exception as e:
        ctx._event(name, "refused " + type(e).__name__)
        ctx.count("refused:" + name.split("(")[0])
        ctx.check(True, "survived")
        return None
    except BaseException as e:  # SystemExit and the like
        ctx._event(name, "ended")
        ctx.check(False, "survived", "{} raised {}".format(name, type(e).__name__))
        return None
    ctx._event(name, "ok")
    ctx.check(True, "survived")
    return res


def hostile(rng, n):
    return int(gen.choice(rng, [0, 1, 2, 3, 4, max(0, n - 1), n, n + 1, n + 5, 2 * n]))


def layouts(rng, a):
    """The same values in another memory layout."""
    kind = gen.choice(rng, ["C", "F", "strided", "reversed", "transposed"])
    if kind == "C":
        return np.ascontiguousarray(a), kind
    if kind == "F":
        return np.asfortranarray(a), kind
    if kind == "strided":
        big = np.full(tuple(2 * s for s in a.shape), np.nan)
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        big[sl] = a
        return big[sl], kind
    if kind == "reversed":
        sl = tuple(slice(None, None, -1) for _ in a.shape)
        return a[sl].copy()[sl], kind
    return np.ascontiguousarray(a.T).T, kind


def pipeline(ctx, rng):
    model = pipe.ALL[int(rng.integers(6))]
    dim = 1 if model == "Pos_gle_hybrid" else int(rng.integers(1, 4))
    dt = gen.pick_dt(rng)
    lens = [int(gen.choice(rng, [3, 4, 5, 6, 7, 9, 12, 20, 33])) for _ in range(int(rng.integers(1, 4)))]
    trajs = [gen.make_xva(rng, n, dim, dt, consistent=False)[0] for n in lens]
    kind = gen.choice(rng, ["lin", "linc", "poly", "ind", "spl"] if dim == 1 else ["lin", "linc", "spl"])
    lo, hi = gen.rng_range(trajs)
    fac = gen.make_basis(rng, kind, lo, hi, remove_const=(model == "Pos_gle_with_friction"))
    trunc = float(gen.choice(rng, [0.0, 0.5, 1.5, 2.5, 3.5, 4.5, 7.5, 1e6])) * dt
    ctx.describe(model=model, dim=dim, lengths=lens, basis=kind, trunc=trunc)
    ctx.cover("pipeline", model, dim, kind, min(lens), round(trunc / dt, 1))
    est = attempt(ctx, "Estimator_gle", vb.Estimator_gle, trajs, gen.MODELS[model], fac(), trunc=trunc, saveall=False, verbose=False)
    if est is None:
        return
    if attempt(ctx, "compute_mean_force", est.compute_mean_force) is None:
        attempt(ctx, "set_zero_force", est.set_zero_force)
    if attempt(ctx, "compute_corrs", est.compute_corrs, second_order_method=bool(rng.random() < 0.8)) is None:
        return
    for method in METHODS if rng.random() < 0.3 else [gen.choice(rng, METHODS)]:
        ctx.cover("method", method, int(est.bkbkcorrw.shape[-1]))
        if attempt(ctx, "compute_kernel(%s)" % method, est.compute_kernel, method=method) is None:
            continue
        m = est.model
        xva = trajs[int(rng.integers(len(trajs)))]
        N, T = xva["time"].shape[0], m.kernel.shape[0]
        for _ in range(3):
            kw = {}
            if rng.random() < 0.6:
                kw["trunc_kernel"] = hostile(rng, T)
            if rng.random() < 0.6:
                kw["start_point"] = hostile(rng, N)
            if rng.random() < 0.6:
                kw["end_point"] = hostile(rng, N)
            attempt(ctx, "compute_noise", m.compute_noise, xva, **kw)
        for op in (None, "v", np.ones((N, 2)), np.ones((max(1, N - 1), 1)), np.ones((N + 3, 1)), np.ones(N), np.ones((1, 2)), np.ones((1, 1))):
            attempt(ctx, "compute_corrs_w_noise", m.compute_corrs_w_noise, xva, op)
        attempt(ctx, "check_volterra_inversion", est.check_volterra_inversion)
        # singular correlations
        if rng.random() < 0.3:
            keep = est.bkbkcorrw
            est.bkbkcorrw = keep * 0.0
            attempt(ctx, "compute_kernel(singular)", est.compute_kernel, method=method)
            est.bkbkcorrw = keep


def evolution(ctx, rng):
    n, L = int(rng.integers(1, 4)), int(gen.choice(rng, [1, 2, 3, 5, 9, 20]))
    dt = 0.1
    K, F = rng.normal(size=(L, n, n)), rng.normal(size=(n, n))
    m = c16.make(ctx, dt, n, K, F)
    for method in ("rect", "trapz", "trapz_stab"):
        N = hostile(rng, L)
        G0 = rng.uniform(size=(n + int(gen.choice(rng, [0, 0, 0, 1, -1])), n + int(gen.choice(rng, [0, 0, 0, 1]))))
        tr = gen.choice(rng, [None, 0, -1, 1, 2, L, L + 4])
        ctx.cover("evolve", method, "N%d" % N, "L%d" % L, tr)
        attempt(ctx, "evolve_volterra", m.evolve_volterra, layouts(rng, G0)[0], N, method=method, trunc_ind=tr)
    for method in ("rect", "trapz", "simpson"):
        N = hostile(rng, L)
        G = rng.normal(size=(int(rng.integers(1, 4)), n, N))
        Gk = rng.normal(size=(G.shape[0], n, max(0, N + int(gen.choice(rng, [0, 0, 1, -1])))))
        tr = gen.choice(rng, [None, 1, 2, L, L + 4])
        ctx.cover("flux", method, "N%d" % N, "L%d" % L, tr)
        attempt(ctx, "flux_from_volterra", m.flux_from_volterra, G, Gk, method=method, trunc_ind=tr)
    attempt(ctx, "laplace_transform_kernel", m.laplace_transform_kernel, n_points=int(gen.choice(rng, [0, 1, 3])))
    ctx.describe(what="evolution", n=n, L=L)


def routines(ctx, rng):
    """The compiled routines themselves, on consistent arrays of any size."""
    n, d, o = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    T = int(gen.choice(rng, [2, 3, 4, 5, 6, 7, 8, 9, 15, 16]))
    big = rng.random()
    if big < 0.1:  # many basis functions
        n, d, o, T = int(gen.choice(rng, [8, 17, 25, 33, 65, 70, 100, 129])), int(rng.integers(1, 9)), int(rng.integers(1, 9)), int(gen.choice(rng, [2, 3, 4, 7]))
    elif big < 0.15:  # many times
        T = int(gen.choice(rng, [64, 101, 257, 513, 1025]))
    dt = 0.1
    B, D = rng.normal(size=(n, n, T)), rng.normal(size=(n, d, T))
    k0, B0 = rng.normal(size=(n, d)), rng.normal(size=(n, n))
    M = int(gen.choice(rng, [2, 3, 5, T, T + 6]))
    E, K = rng.normal(size=(M, n)), rng.normal(size=(T, n, d))
    K2 = rng.normal(size=(T, n, n))
    G0 = rng.uniform(0.1, 1, (o, n))
    F = rng.normal(size=(n, n))
    lead, noise = rng.normal(size=(M, o)), rng.normal(size=(M, d))
    Bo = rng.normal(size=(o, n, T))
    Ne = int(gen.choice(rng, [1, 2, 3, T, T + 5]))
    calls = {
        "kernel_first_kind_rect": (B, D, dt),
        "kernel_first_kind_midpoint": (B, D, dt),
        "kernel_first_kind_trapz": (k0, B, D, dt),
        "kernel_first_kind_simpson": (k0, B, D, dt),
        "kernel_second_kind_rect": (k0, B0, B, D, dt),
        "kernel_second_kind_trapz": (k0, B0, B, D, dt),
        "kernel_second_kind_simpson": (k0, B0, B, D, dt),
        "memory_rect": (K, E, dt),
        "memory_trapz": (K, E, dt),
        "corrs_rect": (noise, K, E, lead, dt),
        "corrs_trapz": (noise, K, E, lead, dt),
        "rect_integral": (dt, Bo, K),
        "trapz_integral": (dt, Bo, K),
        "simpson_integral": (dt, Bo, K),
        "solve_ide_rect": (K2, G0, F, Ne, dt),
        "solve_ide_trapz": (K2, G0, F, Ne, dt),
        "solve_ide_trapz_stab": (K2, G0, F, Ne, dt),
    }
    ctx.describe(what="routines", n=n, d=d, o=o, T=T, M=M)
    for name, args in calls.items():
        if not hasattr(fk, name):
            continue
        f = getattr(fk, name)
        ctx.cover("routine", name, "T%d" % T, "M-T%+d" % (M - T))
        # the interface of the routines is internal: if it changed, the public calls still judge it
        res = attempt(ctx, name, f, *args)
        if res is None:
            continue
        # nothing depends on what was in memory before, nor on the layout
        alt = [layouts(rng, a)[0] if isinstance(a, np.ndarray) else a for a in args]
        junk = np.full(int(rng.integers(1, 4000)), np.nan)  # noqa: F841
        del junk
        res2 = attempt(ctx, name, f, *alt)
        if res2 is None:
            continue
        ctx.same("same-result", res, res2, name)
        # singular problems end with an exception or non finite values, not with the process
        if name.startswith("kernel_"):
            zero = tuple(a * 0 if isinstance(a, np.ndarray) and a.ndim != 1 else a for a in args)
            attempt(ctx, name, f, *zero)


def run_case(ctx):
    rng = ctx.rng
    [pipeline, pipeline, evolution, routines][ctx.idx % 4](ctx, rng)
