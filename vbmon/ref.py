"""Independent references.  They only use numpy, and the basis functions
themselves (whose values, derivatives and composition have their own checks)."""
import numpy as np


# -- trajectories ---------------------------------------------------------
def xva_arrays(xva):
    return {k: np.asarray(xva[k].data) for k in xva.data_vars}


# -- correlations ------------------------------------------------------------
def corr(a, b, trunc=None):
    """C[i, j, n] = 1/(N-n) sum_t a[t, i] b[t+n, j];  a (N, I), b (N, J)."""
    N = a.shape[0]
    M = N if trunc is None else min(N, trunc)
    out = np.empty((a.shape[1], b.shape[1], M))
    for n in range(M):
        out[:, :, n] = a[: N - n].T @ b[n:] / (N - n)
    return out


# -- projected observables of each model -----------------------------------------
def vectors(model, basis, arr):
    """(E_force, E, dE) of each kind of model from its definition."""
    x, v = arr["x"], arr["v"]
    a = arr.get("a")
    bk = np.asarray(basis.basis(x))
    if model in ("Pos_gle", "Pos_gle_with_friction"):
        d = np.asarray(basis.deriv(x))
        h = np.asarray(basis.hessian(x))
        E = np.einsum("nkd,nd->nk", d, v)
        dE = np.einsum("nkd,nd->nk", d, a) + np.einsum("nkde,nd,ne->nk", h, v, v)
        if model == "Pos_gle_with_friction":
            return np.concatenate((bk, E), axis=1), E, dE
        return bk, E, dE
    if model in ("Pos_gle_no_vel_basis", "Pos_gle_overdamped"):
        d = np.asarray(basis.deriv(x))
        return bk, bk, np.einsum("nkd,nd->nk", d, v)
    if model == "Pos_gle_const_kernel":
        return bk, v, a
    if model == "Pos_gle_hybrid":
        d = np.asarray(basis.deriv(x))
        return bk, np.concatenate((v, bk), axis=1), np.concatenate((a, np.einsum("nkd,nd->nk", d, v)), axis=1)
    raise ValueError(model)


def default_obs(model):
    return "v" if model in ("Pos_gle_overdamped", "Pos_gle_no_vel_basis") else "a"


def keeps_const(model):
    """Models that switch the removal of the constant off."""
    return model in ("Pos_gle_no_vel_basis", "Pos_gle_hybrid", "Pos_gle_overdamped")


def fit_basis(factory, model, describe):
    b = factory()
    if keeps_const(model):
        for q in (b,) + tuple(getattr(b, "basis_set", ())):
            q.const_removed = False
    return b.fit(describe)


def mean_force(model, basis, arrs, obs):
    A = [(vectors(model, basis, r)[0], r[obs]) for r in arrs]
    N = sum(e.shape[0] for e, _ in A)
    gram = sum(e.T @ e for e, _ in A) / N
    proj = sum(e.T @ o for e, o in A) / N
    return gram, proj


def estimator_corrs(model, basis, arrs, obs, coeff, trunc_ind):
    """Averages weighted by the length of each trajectory."""
    N = sum(r["x"].shape[0] for r in arrs)
    out = [0.0] * 4
    for r in arrs:
        Ef, E, dE = vectors(model, basis, r)
        o = r[obs] - Ef @ coeff
        w = r["x"].shape[0] / N
        for i, (p, q) in enumerate(((E, o), (dE, o), (E, E), (dE, E))):
            out[i] = out[i] + w * corr(p, q, trunc_ind)
    return {"bkdx": out[0], "dotbkdx": out[1], "bkbk": out[2], "dotbkbk": out[3]}


# -- Volterra inversion -------------------------------------------------------------
def kernel_rect(B, D, dt):
    """D(i+1) = -dt sum_{j<=i} B(i+1-j) K(j); the last time cannot be determined."""
    N = B.shape[-1]
    K = np.zeros((N,) + D.shape[:2])
    for i in range(N - 1):
        s = D[:, :, i + 1].copy()
        for j in range(i):
            s += dt * B[:, :, i + 1 - j] @ K[j]
        K[i] = -np.linalg.solve(dt * B[:, :, 1], s)
    return K


def kernel_midpoint(B, D, dt):
    """D(2i+1) = -2dt [ K(0)/2 B(2i+1) + sum_{1<=j<=i} B(2(i-j)+1) K(2j) ]"""
    N = B.shape[-1]
    n = (N - 2) // 2 + 1
    K = np.zeros((n,) + D.shape[:2])
    for i in range(n):
        s = D[:, :, 2 * i + 1].copy()
        for j in range(i):
            s += 2 * dt * (0.5 if j == 0 else 1.0) * B[:, :, 2 * (i - j) + 1] @ K[j]
        K[i] = -np.linalg.solve(2 * dt * (0.5 if i == 0 else 1.0) * B[:, :, 1], s)
    return K


def kernel_trapz_raw(B, D, dt, k0):
    N = B.shape[-1]
    K = np.zeros((N,) + D.shape[:2])
    K[0] = k0
    for i in range(1, N):
        s = D[:, :, i] + 0.5 * dt * B[:, :, i] @ K[0]
        for j in range(1, i):
            s = s + dt * B[:, :, i - j] @ K[j]
        K[i] = -np.linalg.solve(0.5 * dt * B[:, :, 0], s)
    return K


def kernel_trapz(B, D, dt, k0):
    r = kernel_trapz_raw(B, D, dt, k0)
    K = 0.25 * (r[:-2] + 2 * r[1:-1] + r[2:])
    return np.concatenate((np.asarray(k0)[None], K), axis=0)


def kernel_second(B0, Bd, Dd, dt, k0, trapz):
    """B0 K(i) = Dd(i) + int_0^i Bd(i-s) K(s) ds"""
    N = Bd.shape[-1]
    K = np.zeros((N,) + Dd.shape[:2])
    K[0] = k0
    M = B0 - 0.5 * dt * Bd[:, :, 0] if trapz else B0
    for i in range(1, N):
        s = Dd[:, :, i] + (0.5 if trapz else 1.0) * dt * Bd[:, :, i] @ K[0]
        for j in range(1, i):
            s = s + dt * Bd[:, :, i - j] @ K[j]
        K[i] = np.linalg.solve(M, s)
    return K


# -- noise -----------------------------------------------------------------------------
def memory_rect(K, E, dt):
    n = E.shape[0]
    out = np.zeros((n, K.shape[2]))
    for i in range(1, n):
        for j in range(min(i, K.shape[0] - 1) + 1):
            out[i] -= dt * E[i - j] @ K[j]
    return out


def memory_trapz(K, E, dt):
    n = E.shape[0]
    out = np.zeros((n, K.shape[2]))
    for i in range(1, n):
        m = min(i, K.shape[0] - 1)
        w = np.full(m + 1, float(dt))
        w[0] *= 0.5
        w[-1] *= 0.5
        if m == 0:
            w[0] = 0.0
        for j in range(m + 1):
            out[i] -= w[j] * E[i - j] @ K[j]
    return out


def noise_corr(noise0, K, E, left, dt, trapz):
    """<left(t) R_n(t)>: the noise evolved n steps with the memory removed."""
    N = noise0.shape[0]
    M = K.shape[0] - (1 if trapz else 0)
    out = np.zeros((M, left.shape[1], noise0.shape[1]))
    for n in range(M):
        L = N - n
        r = noise0[n:].copy()
        for j in range(n):
            if trapz:
                r += 0.5 * dt * (E[n - j : N - j] @ K[j] + E[n - j - 1 : N - j - 1] @ K[j + 1])
            else:
                r += dt * E[n - j : N - j] @ K[j]
        out[n] = left[:L].T @ r / L
    return out


def spd_ok(M, limit=1e6):
    try:
        return np.linalg.cond(M) < limit
    except np.linalg.LinAlgError:
        return False


def kernel(method, c, dt, k0=None):
    """Kernel from the four correlation functions, by the definition of the method."""
    B, D = c["bkbk"], c["bkdx"]
    if method in ("rect", "rectangular"):
        return kernel_rect(B, D, dt)
    if method == "midpoint":
        return kernel_midpoint(B, D, dt)
    if method == "midpoint_w_richardson":
        k1 = kernel_midpoint(B, D, dt)
        k3 = kernel_midpoint(B[..., ::3], D[..., ::3], 3 * dt)
        return (9 * k1[::3][: len(k3)] - k3) / 8
    if k0 is None:
        k0 = np.linalg.solve(B[:, :, 0], c["dotbkdx"][:, :, 0])
    if method == "trapz":
        return kernel_trapz(B, D, dt, k0)
    return kernel_second(B[:, :, 0], c["dotbkbk"], c["dotbkdx"], dt, k0, method == "second_kind_trapz")


def kernel_sens(method, c, dt, rng, eps=1e-9, n=2):
    """Largest change of the kernel, at each time, for relative changes eps of
    the correlations: how much of a difference rounding can explain."""
    with np.errstate(all="ignore"):
        K = kernel(method, c, dt)
        d = np.zeros(len(K))
        for _ in range(n):
            q = {k: v + eps * np.max(np.abs(v)) * rng.normal(size=v.shape) for k, v in c.items()}
            d = np.maximum(d, np.max(np.abs(kernel(method, q, dt) - K), axis=(1, 2)))
    return K, d
