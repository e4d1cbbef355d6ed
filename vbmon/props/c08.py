"""Correlation functions of the estimator are the length-weighted averages of
the correlations of the projected observables, for every model and option."""
import numpy as np

from .. import gen, pipe, ref


def run_case(ctx):
    rng = ctx.rng
    model = pipe.ALL[ctx.idx % 6]
    if ctx.idx % 49 == 23:  # very long trajectories
        p = pipe.setup(ctx, model=model, dim=1, ntraj=2, nmin=33000, nmax=70000, tr_frac=1e-4, kind="lin", rare=False)
    else:
        p = pipe.setup(ctx, model=model)
    est = p.est
    if model == "Pos_gle_overdamped" and rng.random() < 0.4:
        est.model.rank_projection = True
    ctx.check(int(est.model.trunc_ind) == p.trunc_ind, "truncation-index", "trunc_ind {} instead of {}".format(est.model.trunc_ind, p.trunc_ind))
    ctx.call("compute_mean_force", est.compute_mean_force)
    coeff = pipe.vals(est.model.force_coeff, "dim_basis", p.obs_dim)
    if rng.random() < 0.3:  # any force coefficients, not only the estimated ones
        ctx.call("set_zero_force", est.set_zero_force)
        z = pipe.vals(est.model.force_coeff, "dim_basis", p.obs_dim)
        ctx.check(z.shape == coeff.shape and not np.any(z), "zero-force")
        coeff = z
    method = gen.choice(rng, ["fft", "direct"])
    vec = bool(rng.integers(2))
    second = bool(rng.random() < 0.75)
    ctx.describe(method=method, vectorize=vec, second_order=second)
    ctx.cover("opt", method, vec, second)
    want = ref.estimator_corrs(p.model, p.basis, p.arrs, p.obs, coeff, p.trunc_ind)
    kw, given = {}, None
    if rng.random() < 0.2:
        kw["large"] = True
    if est.model.rank_projection and rng.random() < 0.5:  # a tolerance between two well separated eigenvalues
        S, U = np.linalg.eigh(0.5 * (want["bkbk"][:, :, 0] + want["bkbk"][:, :, 0].T))
        S, U = np.abs(S[::-1]), U[:, ::-1]
        cut = [i for i in range(len(S) - 1) if S[i + 1] < 0.7 * S[i]]
        if cut:
            given = int(gen.choice(rng, cut)) + 1
            kw["rank_tol"] = float(np.sqrt(S[given - 1] * max(S[given], 1e-6 * S[given - 1])))
            ctx.describe(rank_tol=kw["rank_tol"])
    ctx.call("compute_corrs", est.compute_corrs, method=method, vectorize=vec, second_order_method=second, **kw)
    if est.model.rank_projection:
        P = pipe.vals(est.model.P_range, "dim_basis", "dim_basis_old")
        ctx.close("projection-orthonormal", P @ P.T, np.eye(P.shape[0]), rtol=0, atol=1e-9)
        B0 = want["bkbk"][:, :, 0]
        if given is None:
            ctx.close("projection-keeps-range", P.T @ P @ B0, B0, rtol=1e-7)
            rank = np.linalg.matrix_rank(B0, tol=1e-10 * np.linalg.norm(B0, 2))
            ctx.check(P.shape[0] >= rank, "projection-rank", "{} vectors kept for a rank of {}".format(P.shape[0], rank))
        else:
            ctx.check(P.shape[0] == given, "given-tolerance-rank", "{} vectors kept, {} eigenvalues above the tolerance".format(P.shape[0], given))
            ctx.close("given-tolerance-range", P.T @ P, U[:, :given] @ U[:, :given].T, rtol=0, atol=1e-6)
        want["bkbk"] = np.einsum("ia,abn,jb->ijn", P, want["bkbk"], P)
        want["dotbkbk"] = np.einsum("ia,abn,jb->ijn", P, want["dotbkbk"], P)
        want["bkdx"] = np.einsum("ia,abn->ibn", P, want["bkdx"])
        want["dotbkdx"] = np.einsum("ia,abn->ibn", P, want["dotbkdx"])
        ctx.cover("projected", P.shape[0] < P.shape[1])
    got = pipe.corrs(est, p)
    ctx.close("bkbk", got["bkbk"], want["bkbk"], rtol=1e-8)
    scale = np.sqrt(np.max(np.abs(want["bkbk"][:, :, 0]))) * max(np.max(np.abs(a[p.obs])) for a in p.arrs)
    ctx.close("bkdx", got["bkdx"], want["bkdx"], rtol=1e-8, scale=scale)
    dscale = max(np.max(np.abs(want["dotbkdx"])), 1e-300)
    if second:
        ctx.close("dotbkdx", got["dotbkdx"], want["dotbkdx"], rtol=1e-7, scale=dscale)
        ctx.close("dotbkbk", got["dotbkbk"], want["dotbkbk"], rtol=1e-7)
    else:
        ctx.close("dotbkdx-first-time", got["dotbkdx"][..., :1], want["dotbkdx"][..., :1], rtol=1e-7, scale=dscale)
