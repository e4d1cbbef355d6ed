"""Workload generators: trajectories, bases, models."""
import numpy as np
import skfem
import scipy.signal
import VolterraBasis as vb
import VolterraBasis.basis as bf
from VolterraBasis.basis import DescribeResult

MODELS = {
    "Pos_gle": vb.Pos_gle,
    "Pos_gle_with_friction": vb.Pos_gle_with_friction,
    "Pos_gle_no_vel_basis": vb.Pos_gle_no_vel_basis,
    "Pos_gle_const_kernel": vb.Pos_gle_const_kernel,
    "Pos_gle_hybrid": vb.Pos_gle_hybrid,
    "Pos_gle_overdamped": vb.Pos_gle_overdamped,
}


def choice(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def ar2(rng, n, dim, r=None, theta=None):
    """Stationary smooth process, unit variance, independent components."""
    out = np.empty((n, dim))
    for d in range(dim):
        rr = float(rng.uniform(0.75, 0.95)) if r is None else r
        th = float(rng.uniform(0.15, 0.9)) if theta is None else theta
        noise = rng.normal(size=n + 200)
        x = scipy.signal.lfilter([1.0], [1.0, -2 * rr * np.cos(th), rr * rr], noise)[200:]
        out[:, d] = x / (np.std(x) + 1e-12)
    return out


def positions(rng, n, dim, kind=None):
    """Positions of a trajectory, array (n, dim)."""
    kind = kind or choice(rng, ["ar2", "ar2", "ar2shift", "sines", "walk"])
    if kind == "ar2":
        x = ar2(rng, n, dim)
    elif kind == "ar2shift":
        x = ar2(rng, n, dim) * rng.uniform(0.3, 2.0, dim) + rng.uniform(-3, 3, dim)
    elif kind == "sines":
        t = np.arange(n)[:, None]
        x = sum(rng.normal(size=dim) * np.sin(t * rng.uniform(0.05, 1.2, dim) + rng.uniform(0, 6.3, dim)) for _ in range(5)) + 0.1 * rng.normal(size=(n, dim))
    else:
        x = np.cumsum(rng.normal(size=(n, dim)), axis=0) / np.sqrt(n)
    return np.ascontiguousarray(x), kind


def pick_dt(rng):
    return float(choice(rng, [0.01, 0.05, 0.1, 0.25, 1.0, 0.002]))


def xva_from(x, dt, t0=0.0, v=None, a=None):
    """Trajectory data set with independent x, v, a."""
    n = x.shape[0]
    time = t0 + np.arange(n) * dt
    return vb.xframe(x, time, v=v, a=a)


def make_xva(rng, n, dim, dt, consistent=None):
    """A trajectory with velocity and acceleration.

    consistent: v and a are the finite differences of x (a user trajectory).
    Otherwise they are independent signals, which decouples every contribution
    and removes accidental cancellations.
    """
    if consistent is None:
        consistent = bool(rng.integers(2))
    if consistent:
        x, kind = positions(rng, n + 2, dim)
        xva = vb.compute_va(vb.xframe(x, np.arange(n + 2) * dt - dt))
        return xva, "fd-" + kind
    x, kind = positions(rng, n, dim)
    v = ar2(rng, n, dim) * rng.uniform(0.5, 2.0)
    a = ar2(rng, n, dim) * rng.uniform(0.5, 2.0) + 0.3 * x
    return xva_from(x, dt, 0.0, v, a), "ind-" + kind


def make_trajs(rng, dim, dt, ntraj=None, nmin=60, nmax=260, consistent=None, equal=False):
    ntraj = int(rng.integers(1, 5)) if ntraj is None else ntraj
    n0 = int(rng.integers(nmin, nmax))
    if consistent is None:
        consistent = bool(rng.integers(2))
    out, kinds = [], []
    for _ in range(ntraj):
        n = n0 if equal else int(rng.integers(nmin, nmax))
        xva, k = make_xva(rng, n, dim, dt, consistent)
        out.append(xva)
        kinds.append(k)
    return out, kinds


def true_describe(trajs):
    X = np.concatenate([np.asarray(t["x"].data) for t in trajs], axis=0)
    return DescribeResult(X.shape[0], (X.min(axis=0), X.max(axis=0)), X.mean(axis=0), X.var(axis=0, ddof=1), np.zeros(X.shape[1]), np.zeros(X.shape[1]))


def rng_range(trajs):
    X = np.concatenate([np.asarray(t["x"].data) for t in trajs], axis=0)
    return X.min(axis=0), X.max(axis=0)


def indicator_bounds(rng, lo, hi, n=None):
    """n separated transition regions inside [lo, hi]."""
    n = int(rng.integers(1, 4)) if n is None else n
    cuts = np.linspace(lo, hi, 2 * n + 2)
    return [[float(cuts[2 * i + 1]), float(cuts[2 * i + 2])] for i in range(n)]


def basis_1d_kinds(const):
    """kinds of 1-D basis able to be estimated; const: True keep the constant."""
    return ["lin", "linc", "poly", "cheb", "leg", "four", "bspl", "spl", "ind", "comb"]


def make_basis(rng, kind, lo, hi, remove_const=False, large=False):
    """Return a function that builds a new, unfitted, basis each time."""
    if kind == "lin":
        return lambda: bf.LinearFeatures()
    if kind == "linc":
        return lambda: bf.LinearFeatures(to_center=True)
    if kind in ("poly", "cheb", "leg"):
        deg = int(rng.integers(4, 8 if rng.random() < 0.7 else 13)) if large else int(rng.integers(1, 4))
        pol = {"poly": np.polynomial.Polynomial, "cheb": np.polynomial.Chebyshev, "leg": np.polynomial.Legendre}[kind]
        return lambda: bf.PolynomialFeatures(deg=deg, polynom=pol, remove_const=remove_const)
    if kind == "four":
        order = int(rng.integers(3, 7 if rng.random() < 0.7 else 14)) if large else int(rng.integers(1, 3))
        L = float(np.max(np.asarray(hi) - np.asarray(lo)))
        freq = float(rng.uniform(0.8, 1.3)) * 2 * np.pi / (1.2 * L)
        return lambda: bf.FourierFeatures(order=order, freq=freq, remove_const=remove_const)
    if kind == "bspl":
        n = int(rng.integers(9, 16 if rng.random() < 0.6 else 36)) if large else int(rng.integers(4, 8))
        k = int(rng.integers(2, 4))
        return lambda: bf.BSplineFeatures(n, k=k, remove_const=remove_const)
    if kind == "spl":
        k = int(choice(rng, [3, 3, 4, 5]))
        L = float(np.max(np.asarray(hi) - np.asarray(lo)))
        inner = np.linspace(float(np.min(lo)) - 0.05 * L, float(np.max(hi)) + 0.05 * L, 6)
        knots = np.concatenate(([inner[0]] * k, inner, [inner[-1]] * k))
        coeffs = rng.normal(size=len(knots) - k - 1) + np.linspace(0, 3, len(knots) - k - 1)
        return lambda: bf.SplineFctFeatures(knots=knots.copy(), coeffs=coeffs.copy(), k=k)
    if kind == "ind":
        b = indicator_bounds(rng, float(np.min(lo)), float(np.max(hi)), int(rng.integers(4, 8 if rng.random() < 0.7 else 25)) if large else int(rng.integers(1, 3)))
        typ = choice(rng, ["tricube", "triweight", "quartic"])
        return lambda: bf.SmoothIndicatorFeatures([list(x) for x in b], typ)
    if kind == "comb":
        one_d = np.size(lo) == 1
        f1 = make_basis(rng, choice(rng, ["lin", "poly", "four", "linc"]) if one_d else "lin", lo, hi, remove_const=remove_const)
        f2 = make_basis(rng, "spl", lo, hi)
        return lambda: bf.FeaturesCombiner(f1(), f2())
    if kind == "tens":
        k1, k2 = choice(rng, ["poly", "ind", "four"]), choice(rng, ["poly", "cheb", "bspl"])
        f1 = make_basis(rng, k1, lo[0], hi[0])
        f2 = make_basis(rng, k2, lo[1], hi[1])
        return lambda: bf.TensorialBasis2D(f1(), f2())
    if kind == "fem":  # elements that reach beyond the data
        lo, hi = np.atleast_1d(lo).astype(float), np.atleast_1d(hi).astype(float)
        pad = 0.3 * (hi - lo)
        if lo.size == 1:
            pts = np.sort(rng.uniform(0, 1, int(rng.integers(8, 14)) if large else int(rng.integers(1, 5))))
            pts = np.unique(np.concatenate(([lo[0] - pad[0]], lo[0] + (hi[0] - lo[0]) * (0.1 + 0.8 * pts), [hi[0] + pad[0]])))
            el = choice(rng, [skfem.ElementLineP1, skfem.ElementLineP2])
            return lambda: bf.FEMScalarFeatures(skfem.CellBasis(skfem.MeshLine(pts.copy()), el()))
        n = int(rng.integers(2, 4))
        gx, gy = np.linspace(lo[0] - pad[0], hi[0] + pad[0], n), np.linspace(lo[1] - pad[1], hi[1] + pad[1], 3)
        return lambda: bf.FEMScalarFeatures(skfem.CellBasis(skfem.MeshTri.init_tensor(gx.copy(), gy.copy()), skfem.ElementTriP1()))
    raise ValueError(kind)


FEM_MODELS = ("Pos_gle_const_kernel", "Pos_gle_overdamped", "Pos_gle_no_vel_basis", "Pos_gle_hybrid")  # no second derivative


def model_basis(rng, model, dim, lo, hi, large=False):
    """A basis kind adapted to the model; returns (description, factory)."""
    if dim <= 2 and model in FEM_MODELS and rng.random() < 0.08:
        return "fem", make_basis(rng, "fem", lo, hi, large=large)
    if dim == 1:
        if model == "Pos_gle_with_friction":
            kind = choice(rng, ["lin", "linc", "poly", "cheb", "four", "bspl", "spl"])
            rc = True
        elif model == "Pos_gle":
            kind = choice(rng, ["lin", "linc", "poly", "cheb", "leg", "four", "bspl", "spl", "ind", "comb"])
            rc = bool(rng.integers(2))
        else:
            kind = choice(rng, ["lin", "linc", "poly", "cheb", "leg", "four", "bspl", "spl", "ind", "comb"])
            rc = bool(rng.integers(2))  # has no effect, or is set to False by the model
    else:
        if dim == 2 and model in ("Pos_gle_const_kernel", "Pos_gle_overdamped", "Pos_gle_no_vel_basis", "Pos_gle"):
            kind = choice(rng, ["lin", "linc", "spl", "comb", "tens"])
        else:
            kind = choice(rng, ["lin", "linc", "spl", "comb"])
        rc = False
    return "{}{}".format(kind, "-rc" if rc else ""), make_basis(rng, kind, lo, hi, remove_const=rc, large=large)
