"""Random basis functions with what is needed to judge them from outside."""
import numpy as np
import VolterraBasis.basis as bf

from . import gen

KINDS_1D = ["lin", "linc", "poly", "cheb", "leg", "herm", "lag", "four", "bspl", "bsplper", "spl", "ind", "indper", "comb"]
KINDS_ND = ["lin", "linc", "poly", "cheb", "leg", "four", "spl", "comb"]
POLY = {"poly": np.polynomial.Polynomial, "cheb": np.polynomial.Chebyshev, "leg": np.polynomial.Legendre, "herm": np.polynomial.Hermite, "lag": np.polynomial.Laguerre}


class GivenKnots(bf.BSplineFeatures):
    """Splines fitted with the knots of the user."""

    def fit(self, data):
        return bf.BSplineFeatures.fit(self, data, knots=self.given)


class Spec:
    """kind, make(): new unfitted object, keep(n, dim): columns of basis() whose
    derivatives deriv() returns, breaks: points where the basis is not smooth."""

    def __init__(self, kind, make, keep, breaks=(), order=99, anti=True, rc=False, **kw):
        self.kind, self.make, self.keep, self.breaks, self.order, self.anti, self.rc = kind, make, keep, list(breaks if breaks is not None else ()), order, anti, rc
        self.__dict__.update(kw)


def cosine(u, der=0):
    """Boundary given as a function."""
    return [lambda: 0.5 * (1 + np.cos(np.pi * u)), lambda: -0.5 * np.pi * np.sin(np.pi * u), lambda: -0.5 * np.pi**2 * np.cos(np.pi * u)][der]()


def _all(n, dim):
    return np.arange(n)


def one(rng, kind, lo, hi, dim, rc=None, simple=False):
    """lo, hi: range of the data (arrays of size dim)."""
    lo, hi = np.atleast_1d(np.asarray(lo, float)), np.atleast_1d(np.asarray(hi, float))
    L = float(np.max(hi - lo))
    rc = bool(rng.integers(2)) if rc is None else rc
    if kind in ("lin", "linc"):
        return Spec(kind, lambda: bf.LinearFeatures(to_center=kind == "linc"), _all)
    if kind in POLY:
        deg = int(rng.integers(1, 5)) if rng.random() < 0.88 else int(rng.integers(5, 9)) if rng.random() < 0.6 else int(rng.integers(9, 17))
        pol = POLY[kind]
        return Spec(kind, lambda: bf.PolynomialFeatures(deg=deg, polynom=pol, remove_const=rc), (lambda n, d: np.arange(d, n)) if rc else _all, rc=rc, deg=deg)
    if kind == "four":
        order = int(rng.integers(1, 4)) if rng.random() < 0.88 else int(rng.integers(4, 8)) if rng.random() < 0.6 else int(rng.integers(8, 25))
        freq = float(rng.uniform(0.5, 2.5)) / L * 2 * np.pi if rng.random() < 0.7 or not 0.05 < L < 50 else 1.0
        if order < 8 and rng.random() < 0.1:
            freq *= 10.0 ** float(rng.uniform(-2, 1))
        if rng.random() < 0.2:  # the sines change sign
            freq = -freq
        return Spec(kind, lambda: bf.FourierFeatures(order=order, freq=freq, remove_const=rc), (lambda n, d: np.arange(d, n)) if rc else _all, rc=rc, deg=order, freq=freq)
    if kind in ("bspl", "bsplper"):
        k = int(rng.integers(1, 6))
        n = int(rng.integers(k + 1, k + 8)) if rng.random() < 0.88 else int(rng.integers(k + 8, k + 20)) if rng.random() < 0.6 else int(rng.integers(k + 20, k + 70))
        per = kind == "bsplper"
        if per:
            n = max(n, 2 * k + 2)
        br = np.linspace(lo[0], hi[0], n)
        given = not per and rng.random() < 0.2
        if given:  # the user gives the knots
            br = np.concatenate(([0.0], np.cumsum(rng.uniform(0.4, 1.0, n - 1))))
            br = lo[0] + (hi[0] - lo[0]) * br / br[-1]
            br[-1] = hi[0]
            kn = br.copy() if rng.random() < 0.5 else br.reshape(-1, 1)
        # without per, splrep places its knots on the data points or half way
        br = np.unique(np.concatenate((br, 0.5 * (br[1:] + br[:-1]))))

        def make():
            if not given:
                return bf.BSplineFeatures(n, k=k, periodic=per, remove_const=rc)
            b = GivenKnots(n, k=k, remove_const=rc)
            b.given = kn.copy()
            return b

        return Spec(kind, make, (lambda m, d: np.arange(m - d)) if rc else _all, breaks=br, order=k, rc=rc, n=n, k=k, given=kn.ravel() if given else None)
    if kind == "spl":
        k = int(rng.integers(2, 6))
        inner = np.linspace(lo.min() - 0.1 * L, hi.max() + 0.1 * L, int(rng.integers(4, 9)))
        knots = np.concatenate(([inner[0]] * k, inner, [inner[-1]] * k))
        coeffs = rng.normal(size=len(knots) - k - 1)
        return Spec(kind, lambda: bf.SplineFctFeatures(knots=knots.copy(), coeffs=coeffs.copy(), k=k), _all, breaks=inner, order=k, knots=knots, coeffs=coeffs, k=k)
    if kind in ("ind", "indper"):
        per = kind == "indper"
        b = gen.indicator_bounds(rng, lo[0], hi[0], int(rng.integers(2 if per else 1, 5)) if rng.random() < 0.9 else int(rng.integers(5, 10)) if rng.random() < 0.7 else int(rng.integers(10, 40)))
        if rng.random() < 0.3:  # bounds are accepted in any order
            b = [x[::-1] for x in b]
        typ = gen.choice(rng, ["tricube", "triweight", "quartic", "tricube", "triweight", "quartic", "cosine"])
        br = np.ravel(b)
        return Spec(kind, lambda: bf.SmoothIndicatorFeatures([list(x) for x in b], cosine if typ == "cosine" else typ, periodic=per), _all, breaks=br, order=99, anti=False, bounds=b, typ=typ)
    if kind == "comb":
        n = int(rng.integers(2, 5)) if rng.random() < 0.9 else int(rng.integers(5, 8))
        pool = ["lin", "linc", "poly", "cheb", "four", "spl"] + ([] if dim > 1 else ["bspl", "ind"])
        parts = [one(rng, gen.choice(rng, pool), lo, hi, dim) for _ in range(n)]
        same = rng.random() < 0.15  # one object at two places
        if same:
            parts[-1] = parts[0]

        def make():
            made = [q.make() for q in parts]
            return bf.FeaturesCombiner(*(made[:-1] + made[:1] if same else made))

        return Spec(kind, make, None, breaks=np.concatenate([np.asarray(q.breaks, float).ravel() for q in parts]), order=min(q.order for q in parts), anti=False, parts=parts)
    if kind == "tens":
        pool = ["lin", "linc", "poly", "cheb", "leg", "four", "bspl", "spl", "ind", "indper", "comb"]
        q1 = one(rng, gen.choice(rng, pool), lo[0], hi[0], 1, rc=False)
        q2 = one(rng, gen.choice(rng, pool), lo[1], hi[1], 1, rc=False)
        for q in (q1, q2):
            if q.kind == "comb":  # const_removed is forced to False by the product
                q.parts = [one(rng, gen.choice(rng, ["lin", "linc", "spl"]), lo[0], hi[0], 1) for _ in range(2)]
                q.breaks = np.concatenate([np.asarray(r.breaks, float).ravel() for r in q.parts])
                q.order = min(r.order for r in q.parts)
                q.make = (lambda parts: lambda: bf.FeaturesCombiner(*[r.make() for r in parts]))(q.parts)
        return Spec(kind, lambda: bf.TensorialBasis2D(q1.make(), q2.make()), _all, breaks=None, order=min(q1.order, q2.order), anti=False, parts=[q1, q2])
    raise ValueError(kind)


def step(spec, data):
    """Step of finite differences along each coordinate, short for fast waves."""
    k = max([getattr(q, "deg", 1) * abs(getattr(q, "freq", 0.0)) for q in [spec] + list(getattr(spec, "parts", []))] + [s for q in getattr(spec, "parts", []) for s in [getattr(r, "deg", 1) * abs(getattr(r, "freq", 0.0)) for r in getattr(q, "parts", [])]] + [1e-300])
    return np.minimum(2e-4 * (data.max(axis=0) - data.min(axis=0)), 0.02 / k)


def keep(spec, n, dim):
    if spec.kind == "comb":
        out, off = [], 0
        for q in spec.parts:
            m = q.make()
            m.fit(np.zeros((2, dim)) + np.arange(2)[:, None])
            k = int(m.n_output_features_)
            out.append(off + keep(q, k, dim))
            off += k
        return np.concatenate(out)
    return spec.keep(n, dim)


def pick(rng, dim=None, kind=None):
    """Random basis with data to fit it: (spec, dim, data)."""
    if dim is None:
        dim = int(gen.choice(rng, [1, 1, 1, 2, 2, 3])) if rng.random() < 0.95 else int(rng.integers(4, 7))
    if kind is None:
        kind = gen.choice(rng, KINDS_1D if dim == 1 else KINDS_ND + (["tens", "tens", "tens"] if dim == 2 else []))
    n = int(rng.integers(20, 60))
    center = rng.uniform(-2, 2, dim)
    width = rng.uniform(0.5, 3.0, dim)
    X = center + width * rng.uniform(-1, 1, (n, dim))
    if rng.random() < 0.15:  # other units of length
        X = X * 10.0 ** float(rng.uniform(-9, 5))
    return one(rng, kind, X.min(axis=0), X.max(axis=0), dim), dim, X


def smooth_points(rng, spec, dim, X, n=12, gap=None, margin=0.02):
    """Points inside the range of the data, away from the break points."""
    lo, hi = X.min(axis=0), X.max(axis=0)
    L = hi - lo
    gap = 0.012 * L if gap is None else gap
    out = []
    for _ in range(400):
        x = lo + L * rng.uniform(margin, 1 - margin, dim)
        ok = True
        for d in range(dim):
            br = spec.parts[d].breaks if spec.kind == "tens" else spec.breaks
            if br is not None and len(br) and np.min(np.abs(np.asarray(br, float).ravel() - x[d])) < gap[d]:
                ok = False
        if ok:
            out.append(x)
        if len(out) == n:
            break
    return np.array(out).reshape(-1, dim)
