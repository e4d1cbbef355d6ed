"""Definitions of the planted bugs: seeded/ is made from them by plant.py."""
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("c01-lambda-swapped", "C01",
    [("__init__.py", 'sdiffs = lamb_finite_diff * diffs.shift({"time": -1}) + (1.0 - lamb_finite_diff) * diffs',
      'sdiffs = lamb_finite_diff * diffs + (1.0 - lamb_finite_diff) * diffs.shift({"time": -1})')],
    '''
x = np.random.default_rng(0).normal(size=(20, 2))
xva = vb.compute_va(vb.xframe(x, np.arange(20) * 0.5), lamb_finite_diff=0.8)
ref = (0.8 * (x[2:] - x[1:-1]) + 0.2 * (x[1:-1] - x[:-2])) / 0.5
same(xva["v"].transpose("time", "dim_x"), ref, "weighted velocity")
''', "a weight lamb_finite_diff different from its default 0.5", "the weights of the forward and backward difference are exchanged")

bug("c01-accel-time-label", "C01",
    [("__init__.py", '''    xva = xvf[["x", "v"]].assign({"a": diffs["v"] / (2.0 * dt)})
    return xva.dropna("time")''', '''    xva = xvf[["x", "v"]].assign({"a": diffs["v"] / (xvf["time"].diff("time").sum() * 2.0 / xvf["time"].shape[0])})
    return xva.dropna("time")''')],
    '''
n = 7
v = np.random.default_rng(0).normal(size=(n, 1))
xvf = vb.xframe(np.cumsum(v, axis=0), np.arange(n) * 0.25, v=v)
xva = vb.compute_a_from_vel(xvf)
same(xva["a"].transpose("time", "dim_x"), (v[2:] - v[:-2]) / 0.5, "acceleration from the velocities")
''', "acceleration computed from given velocities; the error is larger for short trajectories", "the time step is the mean one with an off-by-one in the number of intervals")

bug("c02-all-components", "C02",
    [("__init__.py", '''        diffs = xr.where(diffs["x"] > -jump_thr, diffs, diffs + jump)
        diffs = xr.where(diffs["x"] < jump_thr, diffs, diffs - jump)
        # raise NotImplementedError("Periodic data are not implemented yet")

    ddiffs = diffs.shift({"time": -1}) - diffs
    sdiffs''', '''        crossing = np.abs(diffs["x"]).max("dim_x") > jump_thr  # Most of the steps do not cross the boundary
        diffs = diffs - jump * np.sign(diffs).where(crossing, 0.0)
        # raise NotImplementedError("Periodic data are not implemented yet")

    ddiffs = diffs.shift({"time": -1}) - diffs
    sdiffs''')],
    '''
rng = np.random.default_rng(0)
true = np.cumsum(rng.uniform(-0.5, 0.6, size=(400, 2)), axis=0)
wrapped = (true + np.pi) % (2 * np.pi) - np.pi
t = np.arange(400) * 0.1
a, b = vb.compute_va(vb.xframe(true, t)), vb.compute_va(vb.xframe(wrapped, t), correct_jumps=True)
same(b["v"].transpose("time", "dim_x"), a["v"].transpose("time", "dim_x"), "velocity of the unwrapped motion", 1e-8)
''', "at least two dimensions, one of them crossing the boundary while the other does not", "every component is shifted by the period when one of them crosses the boundary")

bug("c02-gjf-period", "C02",
    [("__init__.py", '''        diffs = xr.where(diffs["x"] < jump_thr, diffs, diffs - jump)
        # raise NotImplementedError("Periodic data are not implemented yet")

    ddiffs = diffs.shift({"time": -1}) - diffs

''', '''        diffs = xr.where(diffs["x"] < jump_thr, diffs, diffs - 2 * np.pi)
        # raise NotImplementedError("Periodic data are not implemented yet")

    ddiffs = diffs.shift({"time": -1}) - diffs

''')],
    '''
rng = np.random.default_rng(0)
true = np.cumsum(0.05 * rng.normal(size=(400, 1)), axis=0)
wrapped = true % 1.0
t = np.arange(400) * 0.1
a, b = vb.compute_va_gjf(vb.xframe(true, t)), vb.compute_va_gjf(vb.xframe(wrapped, t), correct_jumps=True, jump=1.0, jump_thr=0.6)
same(b["v"].transpose("time", "dim_x"), a["v"].transpose("time", "dim_x"), "velocity of the unwrapped motion", 1e-8)
''', "compute_va_gjf, a period different from 2 pi, a crossing downwards", "downward crossings are corrected by 2 pi instead of the given period")

bug("c03-bspline-degree", "C03",
    [("basis/_local_features.py", "if self.k < deriv_order:", "if self.k <= deriv_order:")],
    '''
X = np.linspace(-1, 1, 40).reshape(-1, 1)
b = bf.BSplineFeatures(7, k=2, remove_const=False).fit(X)
p = np.linspace(-0.93, 0.91, 12).reshape(-1, 1)
h = 1e-5
same(b.hessian(p)[:, :, 0, 0], (b.deriv(p + h)[:, :, 0] - b.deriv(p - h)[:, :, 0]) / (2 * h), "second derivative of quadratic splines", 1e-4)
''', "splines whose degree equals the order of the derivative (quadratic splines for the Hessian)", "the highest non zero derivative of the splines is returned as zero")

bug("c03-periodic-indicator", "C03",
    [("basis/_local_features.py", "np.where(der_next != 0.0, der_next,", "np.where(der_next > 0.0, der_next,")],
    '''
b = bf.SmoothIndicatorFeatures([[-1.0, 0.0], [1.0, 2.0]], "triweight", periodic=True).fit(np.zeros((3, 1)))
p = np.linspace(1.03, 1.97, 25).reshape(-1, 1)
h = 1e-5
same(b.hessian(p)[:, :, 0, 0], (b.deriv(p + h)[:, :, 0] - b.deriv(p - h)[:, :, 0]) / (2 * h), "Hessian of periodic indicators", 1e-4)
''', "periodic indicators, second derivative, points in the last boundary where the second derivative is negative", "the second derivative of the first indicator misses its negative part in the last boundary")

bug("c04-fourier-freq", "C04",
    [("basis/_basis_features.py", "features[:, istart:iend] = np.sin(n / 2 * X * self.freq) / (np.sqrt(np.pi) * n / 2 * self.freq)",
      "features[:, istart:iend] = np.sin(n / 2 * X * self.freq) / (np.sqrt(np.pi) * n / 2) * self.freq")],
    '''
X = np.linspace(-1, 1, 30).reshape(-1, 1)
b = bf.FourierFeatures(order=2, freq=1.7, remove_const=False).fit(X)
h = 1e-5
same((b.antiderivative(X + h) - b.antiderivative(X - h)) / (2 * h), b.basis(X), "antiderivative of Fourier series", 1e-6)
''', "a frequency different from 1 and the cosine terms", "the primitive of the cosines is multiplied by the frequency instead of divided")

bug("c04-given-coeffs-zero", "C04",
    [("models.py", '''        E = self.basis_vector(_convert_input_array_for_evaluation(x, self.dim_x), compute_for="pmf")
        pmf = -1 * np.einsum("ik,kl->il", E, coeffs) / kT
        return pmf - float(set_zero) * np.min(pmf)''', '''        E = self.basis_vector(_convert_input_array_for_evaluation(x, self.dim_x), compute_for="pmf")
        pmf = -1 * np.einsum("ik,kl->il", E, coeffs)
        return (pmf - float(set_zero) * np.min(pmf)) / (kT if set_zero else 1.0)''')],
    '''
tr = walk(400)
est = estimator([tr], vb.Pos_gle_overdamped, L_obs="v")
est.compute_mean_force()
x = np.linspace(float(tr["x"].min()), float(tr["x"].max()), 15)
a = est.model.pmf_eval(x, kT=2.5, set_zero=False)
b = est.model.pmf_eval(x, kT=2.5)
same(a - a.min(), b, "free energy with and without its zero")
''', "overdamped model, kT different from 1 and set_zero=False", "the temperature factor is lost when the minimum is not set to zero")

bug("c05-index-order", "C05",
    [("basis/_multidim_basis.py", "return np.ravel_multi_index((i, j), (self.b1.n_output_features_, self.b2.n_output_features_))", "return np.ravel_multi_index((i, j), (self.b1.n_output_features_, self.b2.n_output_features_), order=\"F\")"),
     ("basis/_multidim_basis.py", "return np.unravel_index(k, (self.b1.n_output_features_, self.b2.n_output_features_))", "return np.unravel_index(k, (self.b1.n_output_features_, self.b2.n_output_features_), order=\"F\")")],
    '''
X = np.random.default_rng(0).uniform(-1, 1, (50, 2))
b1, b2 = bf.BSplineFeatures(5, k=3), bf.BSplineFeatures(4, k=2)
b = bf.TensorialBasis2D(b1, b2).fit(X)
val = b.basis(X)
for i in range(5):
    for j in range(4):
        same(val[:, b.comb_indices(i, j)], b1.basis(X[:, :1])[:, i] * b2.basis(X[:, 1:])[:, j], "column of the product ({}, {})".format(i, j))
''', "looking at the columns of a product through its numbering (the two functions stay inverse of each other)", "the numbering of the product does not correspond to the returned columns")

bug("c05-spline-batch", "C05",
    [("basis/_basis_features.py", '''    def basis(self, X):
        return self.spl_(X)
''', '''    def basis(self, X):
        order = np.argsort(X, axis=0)  # The splines are faster on sorted points
        return np.take_along_axis(self.spl_(np.take_along_axis(X, order, axis=0)), np.argsort(X[order[:, 0]], axis=0), axis=0)
''')],
    '''
import scipy.interpolate
t, c, k = scipy.interpolate.splrep(np.linspace(-2, 2, 12), np.sin(np.linspace(-2, 2, 12)))
b = bf.SplineFctFeatures(t, c, k).fit(np.zeros((3, 1)))
X = np.array([[0.3], [-1.0], [1.2], [0.1]])
one = np.concatenate([b.basis(X[i : i + 1]) for i in range(4)])
same(b.basis(X), one, "values at each point")
''', "points that are not sorted", "the values of the spline function are returned in the order of the sorted points")

bug("c06-reversed-boundary", "C06",
    [("basis/_local_features.py", '''            # right boundary
            a = min(self.states_boundary[n])  # This way there is no ambiguity on the definition
            b = max(self.states_boundary[n])
            u = (X - a) / (b - a)
            occ = self.boundary(u)
''', '''            # right boundary
            a, b = self.states_boundary[n]
            u = (X - a) / (b - a)
            occ = self.boundary(u)
''')],
    '''
X = np.linspace(-3, 4, 60).reshape(-1, 1)
a = bf.SmoothIndicatorFeatures([[-1.0, 0.0], [1.0, 2.0]]).fit(X).basis(X)
b = bf.SmoothIndicatorFeatures([[-1.0, 0.0], [2.0, 1.0]]).fit(X).basis(X)
same(a, b, "indicators do not depend on the order of the two ends of a boundary")
''', "the ends of the second or a later boundary given in decreasing order", "the indicators of such states are reversed")

bug("c06-centred-dimension", "C06",
    [("basis/_basis_features.py", '''            self.mean_ = describe_result.mean
''', '''            self.mean_ = np.mean(describe_result.mean)
''')],
    '''
X = np.random.default_rng(0).normal(size=(40, 2)) + [1.0, -3.0]
b = bf.LinearFeatures(to_center=True).fit(X)
same(b.basis(X).mean(axis=0), np.zeros(2), "centred coordinates have a null mean")
''', "centred coordinates in more than one dimension", "every coordinate is centred by the mean over the coordinates")

bug("c07-padding", "C07",
    [("correlation.py", "fra = np.fft.fft(a, n=2 ** int(np.ceil((np.log(a.shape[-1]) / np.log(2))) + 1), axis=-1)  # Do we need that big of an array?",
      "fra = np.fft.fft(a, n=2 ** int(np.ceil(np.log2(1.5 * a.shape[-1]))), axis=-1)  # Smaller array"),
     ("correlation.py", "frb = np.fft.fft(b, n=2 ** int(np.ceil((np.log(b.shape[-1]) / np.log(2))) + 1), axis=-1)",
      "frb = np.fft.fft(b, n=2 ** int(np.ceil(np.log2(1.5 * b.shape[-1]))), axis=-1)")],
    '''
rng = np.random.default_rng(0)
for n in (16, 20, 33, 64, 80):
    a, b = rng.normal(size=(1, n)), rng.normal(size=(1, n))
    ref = np.array([np.mean(a[0, : n - k] * b[0, k:]) for k in range(n)])
    same(vb.correlation_fft(a[:, None, :], b[None, :, :])[0, 0], ref, "correlation of {} points".format(n))
''', "lengths slightly above a power of two (between 1 and 4/3) and lags above half the length", "the longest lags are polluted by the periodic images")

bug("c08-first-order-observable", "C08",
    [("gle_estimation.py", 'dotbkdxcorrw = xr.dot(dE, ortho_xva).expand_dims({"time_trunc": 1}) / weight',
      'dotbkdxcorrw = xr.dot(dE, xva[model.L_obs]).expand_dims({"time_trunc": 1}) / weight')],
    '''
tr = walk(300)
res = []
for opt in (True, False):
    est = estimator([tr])
    est.compute_mean_force()
    est.compute_corrs(second_order_method=opt)
    res.append(est.dotbkdxcorrw.isel(time_trunc=0).transpose("dim_basis", "dim_x").to_numpy())
same(res[1], res[0], "initial value of the correlation with the derivative")
''', "second_order_method=False with a mean force that is not null", "the mean force is not subtracted from the observable")

bug("c08-projected-transpose", "C08",
    [("gle_estimation.py", '''self.dotbkbkcorrw.rename({"dim_basis": "dim_basis_old", "dim_basis'": "dim_basis_old'"}))''',
      '''self.dotbkbkcorrw.rename({"dim_basis": "dim_basis_old'", "dim_basis'": "dim_basis_old"}))''')],
    '''
tr = walk(500)
est = estimator([tr], basis=bf.BSplineFeatures(6, k=3, remove_const=False))
est.compute_mean_force()
est.compute_corrs()
P = est.model.P_range.transpose("dim_basis", "dim_basis_old").to_numpy()
_, E, dE = est.model.basis_vector(tr)
E, dE = E.transpose("time", "dim_basis").to_numpy() @ P.T, dE.transpose("time", "dim_basis").to_numpy() @ P.T
n = E.shape[0]
for lag in (1, 4):
    ref = dE[: n - lag].T @ E[lag:] / (n - lag)  # row: derivative, column: later basis vector
    same(est.dotbkbkcorrw.transpose("dim_basis'", "dim_basis", "time_trunc")[:, :, lag], ref, "correlation of the derivative at lag {}".format(lag))
''', "a basis that keeps its constant, so that it is projected on its range", "the two indices of the correlation between the derivative of the basis and the basis are exchanged")

bug("c09-unordered-results", "C09",
    [("gle_estimation.py", "array_res = Parallel(n_jobs=self.n_jobs)(delayed(func)(weight, xva, model, **kwargs) for weight, xva in zip(self.weights, self.xva_list))",
      'array_res = list(Parallel(n_jobs=self.n_jobs, return_as="generator_unordered")(delayed(func)(weight, xva, model, **kwargs) for weight, xva in zip(self.weights, self.xva_list)))')],
    '''
import time
from sklearn.base import TransformerMixin


class Slow(bf.BSplineFeatures):
    """The longest trajectory takes more time"""

    def basis(self, X):
        time.sleep(2.5 if X.shape[0] > 300 else 0.0)
        return super().basis(X)


import joblib
trs = [walk(400, seed=1), walk(60, seed=2)]
with joblib.parallel_backend("threading"):
    res = []
    for n_jobs in (1, 2):
        est = estimator(trs, vb.Pos_gle, Slow(5, k=3), n_jobs=n_jobs)
        est.compute_mean_force()
        res.append(est.model.force_coeff.to_numpy())
same(res[1], res[0], "force with two jobs")
''', "several jobs, trajectories of different lengths, and a job that ends before one submitted earlier", "the results are combined with the weights of other trajectories")

bug("c09-chunked-describe", "C09",
    [("gle_estimation.py", 'describe_set = [describe(xva["x"].data) for xva in self.xva_list]',
      'describe_set = [describe(np.asarray(xva["x"].data.blocks[0] if hasattr(xva["x"].data, "blocks") else xva["x"].data)) for xva in self.xva_list]')],
    '''
tr = walk(200)
a = estimator([tr]).describe_data()
b = estimator([tr.chunk({"time": 50})]).describe_data()
same(b.mean, a.mean, "mean of the data")
same(b.minmax, a.minmax, "range of the data")
''', "trajectories made of several chunks", "only the first chunk is described, the basis is fitted on a part of the data")

bug("c10-gfpe-stale", "C10",
    [("gle_estimation.py", '''            self.xva_list[i].update({new_obs_name: dE.rename({"dim_basis": "dim_dE"})})
''', '''            if new_obs_name not in self.xva_list[i]:
                self.xva_list[i].update({new_obs_name: dE.rename({"dim_basis": "dim_dE"})})
''')],
    '''
tr = walk(300)
b = bf.BSplineFeatures(5, k=3, remove_const=False)
est = estimator([tr], vb.Pos_gle_overdamped, bf.BSplineFeatures(5, k=2, remove_const=False), L_obs="v")
est.to_gfpe()
est2 = estimator([tr], vb.Pos_gle_overdamped, b, L_obs="v")
est2.to_gfpe()
_, _, dE = est2.model.basis_vector(tr)
same(est2.xva_list[0]["dE"], dE, "time derivative of the basis")
''', "trajectories that already hold the derivative of another basis", "the derivative of the previous basis is kept")

bug("c10-weighted-mass", "C10",
    [("gle_estimation.py", '''        v2 = self.loop_over_trajs(self._compute_square_vel, self.model)[0]
''', '''        v2 = sum(self._compute_square_vel(weight, xva, self.model)[0] for weight, xva in zip(self.weights, self.xva_list)) / len(self.xva_list)
''')],
    '''
trs = [walk(500, seed=1), walk(40, seed=2)]
est = estimator(trs)
est.compute_effective_mass()
v = np.concatenate([t["v"].to_numpy() for t in trs])
same(est.model.eff_mass, np.linalg.inv(v.T @ v / v.shape[0]), "effective mass")
''', "trajectories of different lengths", "the mean square velocity gives the same weight to each trajectory instead of each point")

bug("c11-second-kind-sign", "C11",
    [("fkernel.f90", "invB0=inv(B0-0.5*dt*Bdot(:,:,0)) ! Update this depending of integration rule", "invB0=inv(B0+0.5*dt*Bdot(:,:,0)) ! Update this depending of integration rule")],
    '''
est = estimator([walk(3000, seed=3, dt=0.1)], vb.Pos_gle, bf.BSplineFeatures(5, k=3), trunc=2.0)
est.compute_mean_force()
est.compute_corrs()
est.compute_kernel(method="second_kind_trapz")
K, B = est.model.kernel.to_numpy(), est.bkbkcorrw.to_numpy()
Bd, Dd, dt = est.dotbkbkcorrw.to_numpy(), est.dotbkdxcorrw.to_numpy(), est.dt
for n in (1, 2, 5, 10):
    integ = sum((0.5 if j in (0, n) else 1.0) * dt * Bd[:, :, n - j] @ K[j] for j in range(n + 1))
    same(B[:, :, 0] @ K[n] - integ, Dd[:, :, n], "equation of the second kind at time {}".format(n), 1e-6)
''', "method second_kind_trapz", "the last point of the trapezoidal rule has the wrong sign")

bug("c11-null-initial-value", "C11",
    [("gle_estimation.py", 'if k0 is None and method in ["trapz", "second_kind_rect", "second_kind_trapz"]:', 'if (k0 is None or not np.any(k0)) and method in ["trapz", "second_kind_rect", "second_kind_trapz"]:')],
    '''
est = estimator([walk(800, seed=3)], trunc=2.0)
est.compute_mean_force()
est.compute_corrs()
k0 = np.zeros((est.model.N_basis_elt_kernel, 1))
est.compute_kernel(method="second_kind_rect", k0=k0)
same(est.model.kernel[0], k0, "given initial value")
''', "an initial value given by the user that is null", "the given initial value is ignored")

bug("c12-oldest-point", "C12",
    [("fkernel.f90", '''    do j=0,min(i,len_mem)
       memory(i,:)=memory(i,:)-dt*matmul(E(i-j,:),kernel(j,:,:))''', '''    do j=0,min(i-1,len_mem)
       memory(i,:)=memory(i,:)-dt*matmul(E(i-j,:),kernel(j,:,:))''')],
    '''
tr = walk(300)
est = estimator([tr], trunc=3.0)
est.compute_mean_force()
est.compute_corrs()
est.compute_kernel()
_, noise, obs, force, mem = est.model.compute_noise(tr)
_, E, _ = est.model.basis_vector(tr)
E, K = E.transpose("time", "dim_basis").to_numpy(), est.model.kernel.to_numpy()
for n in (1, 3, 10):
    same(mem[n], -est.dt * sum(E[n - j] @ K[j] for j in range(min(n, K.shape[0] - 1) + 1)), "memory at time {}".format(n))
''', "times shorter than the kernel", "the first point of the trajectory is left out of the memory term")

bug("c12-trapz-evolution", "C12",
    [("fkernel.f90", "+0.5*dt*matmul(E( : lenTraj - n-1,:) , kernel(n+1, :,:))", "+0.5*dt*matmul(E(1 : lenTraj - n,:) , kernel(n+1, :,:))")],
    '''
tr = walk(400)
est = estimator([tr], trunc=2.0)
est.compute_mean_force()
est.compute_corrs()
est.compute_kernel(method="trapz")
_, corr = est.model.compute_corrs_w_noise(tr)
E_force, E, _ = est.model.basis_vector(tr)
E, K = E.transpose("time", "dim_basis").to_numpy(), est.model.kernel.to_numpy()
noise0 = (tr["a"] - xr.dot(E_force, est.model.force_coeff)).transpose("time", "dim_x").to_numpy()
noise, dt = noise0.copy(), est.dt
for n in range(corr.shape[0]):
    m = noise.shape[0]
    same(corr[n], noise0[:m].T @ noise / m, "noise correlation at {}".format(n))
    noise = noise[1:] + 0.5 * dt * E[1:m] @ K[n] + 0.5 * dt * E[: m - 1] @ K[n + 1]
''', "a kernel computed with a trapezoidal method", "the evolution of the noise uses the same point of the trajectory for both ends of the interval")

bug("c13-wrong-size-accepted", "C13",
    [("models.py", '''            if coeffs_ker.shape[1:] != self.kernel.shape[1:]:
''', '''            if coeffs_ker.shape[1] != self.kernel.shape[1]:
''')],
    '''
tr = walk(300, dim=2)
est = estimator([tr], vb.Pos_gle, bf.LinearFeatures())
est.compute_mean_force()
est.compute_corrs()
est.compute_kernel()
K = est.model.kernel
try:
    est.model.kernel_eval(tr["x"].to_numpy()[:3], coeffs_ker=K.isel(dim_x=[0]))
except Exception:
    pass
else:
    expect(False, "coefficients of another size are accepted")
''', "given kernel coefficients with another number of components of the observable", "they are accepted")

bug("c13-friction-block", "C13",
    [("models.py", 'return np.einsum("ikd,kl->ild", E, self.force_coeff[self.N_basis_elt :])', 'return np.einsum("ikd,kl->ild", E, self.force_coeff[: self.N_basis_elt_kernel])')],
    '''
tr = walk(500)
est = estimator([tr], vb.Pos_gle_with_friction)
est.compute_mean_force()
x = tr["x"].to_numpy()[:20]
E = est.model.basis.deriv(x)
ref = np.einsum("nkd,kl->nld", E, est.model.force_coeff.to_numpy()[est.model.N_basis_elt :])
same(est.model.friction_force_eval(x), ref, "friction")
''', "the friction term of the model with friction", "the friction is evaluated with the coefficients of the force")

bug("c14-absolute-tolerance", "C14",
    [("models.py", "rank_tol = S.max(axis=-1, keepdims=True) * max(B0.shape[-2:]) * np.finfo(S.dtype).eps", "rank_tol = 1.0e-10")],
    '''
tr = walk(600)
res = []
for scale in (1.0, 1e6):  # same data, another unit of time
    t2 = vb.xframe(tr["x"].to_numpy(), tr["time"].to_numpy() * scale, v=tr["v"].to_numpy() / scale, a=tr["a"].to_numpy() / scale**2)
    est = estimator([t2], basis=bf.BSplineFeatures(6, k=3, remove_const=False), trunc=1.0 * scale)
    est.compute_mean_force()
    est.compute_corrs()
    est.compute_kernel()
    res.append(est.model.kernel_eval(np.linspace(-0.3, 0.3, 7)).to_numpy() * scale**2)
same(res[1], res[0], "kernel in another unit of time", 1e-5)
''', "a projected basis and units in which the velocities are small", "all the directions are considered null with an absolute tolerance")

bug("c15-observable-dimension", "C15",
    [("models.py", '"dim_x": self.dim_x, "dim_obs": self.dim_obs}', '"dim_x": self.dim_x, "dim_obs": self.dim_x}')],
    '''
tr = walk(300)
tr = tr.assign({"o": (["time", "dim_o"], np.concatenate((tr["a"].to_numpy(), tr["v"].to_numpy() ** 2), axis=1))})
est = estimator([tr], vb.Pos_gle, L_obs="o")
est.compute_mean_force()
m = est.model
new = vb.Pos_gle.load_model(m.basis, m.save_model())
expect(new.dim_obs == m.dim_obs == 2, "number of components of the observable")
''', "an observable whose number of components differs from the dimension", "the saved model has the wrong number of components of the observable")

bug("c16-simpson-odd", "C16",
    [("fkernel.f90", "(0.5*dt+h)*matmul(B(:,:,n-1),kernel(1,:,:)) ! Do trapz rule on first interval", "0.5*dt*matmul(B(:,:,n-1),kernel(1,:,:)) ! Do trapz rule on first interval")],
    '''
tr = walk(200)
est = estimator([tr], vb.Pos_gle_overdamped, bf.PolynomialFeatures(1, remove_const=False), L_obs="v")
m, dt = est.model, est.dt
nt = 12
t = np.arange(nt) * dt
C = np.exp(-t).reshape(1, 1, -1)
K = np.exp(-2 * t).reshape(-1, 1, 1)
_, flux = m.flux_from_volterra(C, force_coeff=np.ones((1, 1)), kernel=K, method="simpson")
exact = -(np.exp(-t) - np.exp(-2 * t))
same(flux[2:, 0, 0], exact[2:], "memory flux", 1e-3)
''', "method simpson and an odd number of intervals", "the rule misses a part of the second point")

bug("c16-stab-truncation", "C16",
    [("models.py", '''            trunc_ind = self.kernel.shape[0]

        G0 = np.asarray(G0)
''', '''            trunc_ind = min(self.kernel.shape[0], lenTraj)

        G0 = np.asarray(G0)
'''), ("models.py", '''        coeffs_ker = self.kernel.to_numpy()[:trunc_ind, :, :]
        if method == "rect":''', '''        coeffs_ker = self.kernel.to_numpy()[: trunc_ind - (lenTraj < self.kernel.shape[0]), :, :]
        if method == "rect":''')],
    '''
m = vb.Pos_gle_overdamped(bf.LinearFeatures(), 0.1, dim_x=1, dim_obs=1, L_obs="v")
m.force_coeff = xr.DataArray([[-0.3]], dims=("dim_basis", "dim_x"))
m.kernel = xr.DataArray(np.exp(-0.2 * np.arange(30)).reshape(-1, 1, 1), dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": np.arange(30) * 0.1})
long = m.evolve_volterra(np.ones((1, 1)), 40)[1]
short = m.evolve_volterra(np.ones((1, 1)), 10)[1]
same(short, long[:, :, :10], "evolution on a shorter time")
''', "an evolution shorter than the kernel", "the last point of the memory is lost at the end of the evolution")

bug("c17-segment-memory", "C17",
    [("gle_integrate.py", "rmi = self._mem_int_red(E[: n_0 - 1])", "rmi = self._mem_int_red(E[:n_0])")],
    '''
basis = bf.LinearFeatures().fit(np.zeros((3, 1)))
dt = 0.1
K = np.exp(-np.arange(40) * dt).reshape(-1, 1, 1)
integ = vb.Integrator_gle(None, basis=basis, force_coeff=np.array([[-1.0]]), kernel=K, dt=dt, verbose=False)
x0 = xr.Dataset({"x": (["time", "dim_x"], [[1.0]]), "v": (["time", "dim_x"], [[0.5]])}, coords={"time": [0.0]})
tr = integ.run(50, x0=x0, set_noise_to_zero=True)
tr2 = integ.run(50, x0=tr.isel(time=slice(0, 20)), set_noise_to_zero=True)
same(tr2["x"], tr["x"], "continuation of a trajectory")
''', "an initial segment of several points", "the memory of the first step after the segment is computed one point too late")

bug("c18-first-component", "C18",
    [("gle_integrate.py", '''        for d in range(self.dim):
            kernel_sym = np.concatenate((self.kernel[:0:-1, d, d], self.kernel[:, d, d]))
            kernel_ft, w = ft(kernel_sym, t_sym)
            sqk_ft''', '''        for d in range(self.dim):
            kernel_sym = np.concatenate((self.kernel[:0:-1, 0, 0], self.kernel[:, d, d]))
            kernel_ft, w = ft(kernel_sym, t_sym)
            sqk_ft''')],
    '''
from VolterraBasis.gle_integrate import ColoredNoiseGenerator
t = np.arange(30) * 0.1
K = np.zeros((30, 2, 2))
K[:, 0, 0] = np.exp(-(t**2) * 4)
K[:, 1, 1] = 3.0 * np.exp(-(t**2) * 9)


class Impulse:
    """the i-th drawn number is one, the others are null"""

    def __init__(self, i):
        self.i = i

    def __call__(self, size):
        out = np.zeros(size)
        if 0 <= self.i < size:
            out[self.i] = 1.0
        self.i -= size
        return out


n = 20
total = 2 * (n + 2 * 30)
A = np.array([ColoredNoiseGenerator(K, t, rng=Impulse(i)).generate(n)[:, 1] for i in range(total)])
same((A.T @ A)[5, 5:15], K[:10, 1, 1], "covariance of the second component", 1e-5)
''', "at least two components with different correlation functions", "the past of the correlation of every component is that of the first one")

bug("c18-karhunen-short", "C18",
    [("gle_integrate.py", "white_noise = self.rng(size=self.lenght)", "white_noise = np.concatenate((self.rng(size=size), np.zeros(self.lenght - size)))")],
    '''
cov = vb.KarhunenLoeveNoiseGenerator.generate_stationary_covariancematrix(np.exp(-0.3 * np.arange(12)))


class Impulse:
    def __init__(self, i):
        self.i = i

    def __call__(self, size):
        out = np.zeros(size)
        if self.i < size:
            out[self.i] = 1.0
        return out


for size in (12, 5):
    A = np.array([vb.KarhunenLoeveNoiseGenerator(cov, 0.1, rng=Impulse(i)).generate(size) for i in range(12)])
    same(A.T @ A, cov[:size, :size], "covariance of {} points".format(size))
''', "fewer points than the covariance matrix describes", "the dominant modes are left out")

bug("c19-diverging", "C19",
    [("fit_prony.py", "vect = vect[: np.sum((np.abs(lamb) <= 1)), (np.abs(lamb) <= 1)]  # remove last rows", "vect = vect[: np.sum((np.real(lamb) <= 1)), (np.real(lamb) <= 1)]  # remove last rows"),
     ("fit_prony.py", "lamb = lamb[np.abs(lamb) <= 1]", "lamb = lamb[np.real(lamb) <= 1]")],
    '''
t = np.arange(41) * 0.1
data = np.exp(-0.5 * t) + 0.01 * np.exp(0.4 * t) * np.cos(9.0 * t)
y0, A = vb.prony_fit_times_serie(data, 0.1, N_keep=3)
expect(np.max(np.linalg.eigvals(A).real) <= 1e-8, "no diverging term")
''', "data with a growing oscillation", "diverging oscillating terms are kept")

bug("c19-sech-power", "C19",
    [("fit_memory.py", "return a / np.cosh(b * t) ** (nu)", "return a / np.cosh(b * t) ** np.abs(int(nu))")],
    '''
t = np.linspace(0, 3, 60)
ref = 2.0 / np.cosh(1.3 * t) ** 2.6
same(vb.memory_fit_eval(t, [2.0, 1.3, 2.6], type="sech"), ref, "evaluation of the family")
''', "the family sech with a power that is not an integer", "the power is truncated")

bug("c20-evolution-end", "C20",
    [("fkernel.f90", '''  do n=0,len_mem-1
    do k=1,dim_obs''', '''  do n=0,len_mem
    do k=1,dim_obs''')],
    '''
tr = walk(60)
est = estimator([tr], trunc=1.0)
est.compute_mean_force()
est.compute_corrs()
est.compute_kernel(method="trapz")
left = np.random.default_rng(0).normal(size=(tr["time"].shape[0], 2))
_, corr = est.model.compute_corrs_w_noise(tr, left_op=left)
_, c1 = est.model.compute_corrs_w_noise(tr, left_op=left[:, 1:])
same(corr[:, 1], c1[:, 0], "correlation with the second component")
''', "kernels computed with a trapezoidal method; visible in the values if the left observable has two components", "the loop writes and reads after the end of the arrays")

bug("c21-stale-initial-value", "C21",
    [("gle_estimation.py", "k0 = solve_linear(self.bkbkcorrw.isel(time_trunc=0), self.dotbkdxcorrw.isel(time_trunc=0)).to_numpy()",
      '''if getattr(self, "_k0", None) is None:
                self._k0 = solve_linear(self.bkbkcorrw.isel(time_trunc=0), self.dotbkdxcorrw.isel(time_trunc=0)).to_numpy()
            k0 = self._k0''')],
    '''
tr = walk(400)
est = estimator([tr])
est.compute_mean_force()
est.compute_corrs()
est.compute_kernel(method="trapz")
est.set_zero_force()
est.compute_corrs()
est.compute_kernel(method="trapz")
new = estimator([tr])
new.set_zero_force()
new.compute_corrs()
new.compute_kernel(method="trapz")
same(est.model.kernel, new.model.kernel, "kernel after another kernel has been computed")
''', "two kernels computed by the same estimator with a change of force between them", "the initial value of the first kernel is used for the second")

bug("c21-shared-weights", "C21",
    [("gle_estimation.py", '''            else:
                self.xva_list = xva_arg
            for xva''', '''            else:
                self.xva_list = xva_arg
                self.xva_list.sort(key=lambda xva: -xva["time"].shape[0])  # Longest first
            for xva''')],
    '''
trs = [walk(50, seed=1), walk(200, seed=2)]
before = [t["time"].shape[0] for t in trs]
est = estimator(trs)
expect([t["time"].shape[0] for t in trs] == before, "the list given by the user is modified")
''', "a list whose first trajectory is not the longest", "the list of the user is reordered in place")

bug("c22-empty-bins", "C22",
    [("__init__.py", "mean_val += ds_groups.sum().fillna(0)", "mean_val += ds_groups.sum()")],
    '''
a, b = walk(2000, seed=1), walk(2000, seed=2)
b = b.assign({"x": b["x"] + 0.6})
xf, fe, force, mean_a, force_tot, mass = vb.compute_1d_fe([a, b], bins=25)
expect(np.all(np.isfinite(mean_a)) and np.all(np.isfinite(mass)), "averages in bins visited by one trajectory only")
''', "several trajectories, one of them absent from a bin", "the averages of such bins are lost")

bug("c22-mass-average", "C22",
    [("__init__.py", 'mass_avg = (mean_val["v2"].sum() / count_bins["v2"].sum()).to_numpy()', 'mass_avg = (mean_val["v2"] / count_bins["v2"]).mean().to_numpy()')],
    '''
tr = walk(4000, seed=1)
x = tr["x"].to_numpy()
tr = tr.assign({"v": tr["v"] * (1 + x**2)})
a = vb.compute_1d_fe([tr], bins=20, kT=1.0)
import scipy.interpolate
sel = x[:, 0] > x.min()
v2 = float((tr["v"].to_numpy()[sel] ** 2).mean())
spl = scipy.interpolate.splrep(a[0], a[1], s=0)
same(a[2], -scipy.interpolate.splev(a[0], spl, der=1) / v2, "force from the free energy", 1e-6)
''', "a mean square velocity that depends on the position", "the mean square velocity is averaged over the bins instead of the points")

bug("c23-first-edge", "C23",
    [("basis/_mesh_utils.py", "pre_a = boundary_vertices[(min_arete - 1) % len(boundary_vertices)]", "pre_a = boundary_vertices[max(min_arete - 1, 0)]")],
    '''
ang = np.array([0.0, 0.02, 1.2, 2.4, 3.6, 4.9])
hull = np.stack((np.cos(ang), np.sin(ang)), axis=1)
new, changed = bf._mesh_utils.remove_one_point(hull.copy(), ratio_limit=0.05)
expect(changed and np.all(np.isfinite(new)), "simplified outline")
''', "an outline whose smallest edge is the first one", "the edge is replaced by a point at infinity")

bug("c23-merge-three", "C23",
    [("basis/_data_describe.py", "return DescribeResult(d1.nobs + d2.nobs,", "return DescribeResult(max(d1.nobs, d2.nobs),")],
    '''
trs = [walk(100, seed=1), walk(200, seed=2), walk(400, seed=3)]
d = estimator(trs).describe_data()
x = np.concatenate([t["x"].to_numpy() for t in trs])
same(d.mean, x.mean(axis=0), "mean of the data")
''', "three trajectories or more", "the number of points of the merged description is wrong, and the mean with a third trajectory")

bug("c24-inside-tetrahedron", "C24",
    [("basis/_fem_features.py", "return (X[0] >= 0) * (X[1] >= 0) * (X[2] >= 0) * (1 - X[0] - X[1] - X[2] >= -np.finfo(X.dtype).eps)", "return (X[0] >= 0) * (X[1] >= 0) * (1 - X[0] - X[1] - X[2] >= -np.finfo(X.dtype).eps)")],
    '''
import skfem
b = bf.FEMScalarFeatures(skfem.CellBasis(skfem.MeshTet().refined(1), skfem.ElementTetP1())).fit(None)
X = np.random.default_rng(0).uniform(0, 1, (200, 3))
v = b.basis(X)
expect(np.all(v >= -1e-9), "features inside their element are not negative")
''', "three dimensions and points below the third face of the nearest element", "a neighbouring element that does not contain the point is used")


# ---- second series ----

bug("c01-decimal-rounding", "C01",
    [("__init__.py", "dt = np.round((time[1] - time[0]) / round_time) * round_time", "dt = np.round(time[1] - time[0], int(np.round(-np.log10(round_time))))")],
    '''
ds = vb.xframe(np.arange(5.0), np.arange(5) * 0.0131, fix_time=True, round_time=0.0025)
same(ds["time"], np.arange(5) * 0.0125, "times rounded to a multiple of round_time")
''', "fix_time with a rounding that is not a power of ten", "the step is rounded to decimals instead of multiples of round_time")

bug("c02-consecutive-crossings", "C02",
    [("__init__.py", '''    ddiffs = diffs.shift({"time": -1}) - diffs
    sdiffs''', '''    ddiffs = xf.shift({"time": -1}) - 2 * xf + xf.shift({"time": 1})
    if correct_jumps:
        ddiffs = xr.where(ddiffs["x"] > -jump_thr, ddiffs, ddiffs + jump)
        ddiffs = xr.where(ddiffs["x"] < jump_thr, ddiffs, ddiffs - jump)
    sdiffs''')],
    '''
true = np.array([3.0, 3.1, 3.2, 3.1, 3.0, 3.05])
wrapped = (true + np.pi) % (2 * np.pi) - np.pi
t = np.arange(6) * 0.1
a, b = vb.compute_va(vb.xframe(true, t)), vb.compute_va(vb.xframe(wrapped, t), correct_jumps=True)
same(b["a"], a["a"], "acceleration of the unwrapped motion", 1e-8)
''', "a trajectory that crosses the boundary and comes back at the next step", "only one of the two jumps of the second difference is removed")

bug("c04-positive-minimum", "C04",
    [("models.py", '''        pmf = -1 * np.einsum("ik,kl->il", E, coeffs) / kT
        return pmf - float(set_zero) * np.min(pmf)''', '''        pmf = -1 * np.einsum("ik,kl->il", E, coeffs) / kT
        return pmf - float(set_zero) * min(np.min(pmf), 0.0)''')],
    '''
tr = walk(500)
est = estimator([tr], vb.Pos_gle_overdamped, bf.LinearFeatures())
est.compute_mean_force()
c = xr.DataArray(np.array([[-1.0]]), dims=("dim_basis", "dim_x"))
p = est.model.pmf_eval(np.linspace(1.0, 2.0, 11), coeffs=c)
same([np.min(p)], [0.0], "minimum of the free energy")
''', "the overdamped model and a free energy positive over all the requested points", "the minimum is not set to zero")

bug("c05-refit-members", "C05",
    [("basis/_basis_features.py", '''        for b in self.basis_set:
            b.fit(describe_result)''', '''        for b in self.basis_set:
            if not hasattr(b, "n_output_features_"):  # Do not change already fitted basis
                b.fit(describe_result)''')],
    '''
x1, x2 = np.linspace(-1, 1, 30).reshape(-1, 1), np.linspace(-3, 5, 30).reshape(-1, 1)
make = lambda: bf.FeaturesCombiner(bf.LinearFeatures(to_center=True), bf.BSplineFeatures(6))
b = make().fit(x1).fit(x2)
same(b.basis(x2), make().fit(x2).basis(x2), "fit on other data")
''', "a combination fitted a second time, on other data", "the members keep their first fit")

bug("c05-cached-cells", "C05",
    [("basis/_fem_features.py", '''        return self.element_finder_from_basis.find(x)''', '''        if getattr(self, "_last_x", None) is not x:
            self._last_x, self._last_cells = x, self.element_finder_from_basis.find(x)
        return self._last_cells''')],
    '''
import skfem
b = bf.FEMScalarFeatures(skfem.CellBasis(skfem.MeshLine(np.linspace(0, 1, 9)), skfem.ElementLineP1())).fit(None)
X = np.linspace(0.01, 0.99, 12).reshape(-1, 1)
b.basis(X)
X[:] = X[::-1].copy()
same(b.basis(X), b.basis(X.copy()), "features after the array has been filled again")
''', "the same array filled with other points between two calls", "the elements found for the previous points are used again")

bug("c07-integer-signals", "C07",
    [("correlation.py", "    # TODO: vérifier le type de l'array a et créer un array vide du même type", "    dtype = a.dtype if b is None else np.result_type(a, b)"),
     ("correlation.py", "    res = np.zeros((a.shape[0], a.shape[0] if b is None else b.shape[0], len_trunc))", "    res = np.zeros((a.shape[0], a.shape[0] if b is None else b.shape[0], len_trunc), dtype=dtype)")],
    '''
a = np.random.default_rng(0).integers(-5, 6, size=(1, 50))
r = vb.correlation_direct(a, trunc=10)
same(r, vb.correlation_direct(a.astype(float), trunc=10), "correlation of integer signals")
''', "integer signals and the direct routine", "the averages are truncated to integers")

bug("c08-vectorized-lag", "C08",
    [("correlation.py", "        sf = np.conj(fra) * frb\n    res = np.fft.ifft(sf)\n", "        sf = fra * np.conj(frb)\n    res = np.fft.ifft(sf)\n")],
    '''
tr = walk(400)
e1, e2 = estimator([tr]), estimator([tr])
for e, vec in ((e1, False), (e2, True)):
    e.compute_mean_force()
    e.compute_corrs(vectorize=vec)
same(e1.bkdxcorrw, e2.bkdxcorrw, "vectorised computation")
''', "the option vectorize with the Fourier routine", "the correlations are those at negative lags")

bug("c09-single-precision-files", "C09",
    [("gle_estimation.py", 'xr.Dataset({"kernel": self.model.kernel}).to_netcdf(self.prefix + self.kernelfile)', 'xr.Dataset({"kernel": self.model.kernel}).to_netcdf(self.prefix + self.kernelfile, encoding={"kernel": {"dtype": "float32"}})')],
    '''
tr = walk(400)
with tempfile.TemporaryDirectory() as d:
    est = vb.Estimator_gle([tr], vb.Pos_gle, bf.BSplineFeatures(6), trunc=1.0, saveall=True, prefix=d + "/", verbose=False)
    est.compute_mean_force()
    est.compute_corrs()
    est.compute_kernel()
    with xr.open_dataset(d + "/kernel.nc") as f:
        expect(np.array_equal(f["kernel"].to_numpy(), est.model.kernel.to_numpy()), "kernel in the file")
''', "results written to files", "the kernel is written with a lower precision")

bug("c10-diagonal-mass", "C10",
    [("gle_estimation.py", 'self.model.eff_mass = xr.DataArray(np.linalg.inv(v2), dims=("dim_x\'", "dim_x"))', 'self.model.eff_mass = xr.DataArray(np.diag(1.0 / np.diag(v2)), dims=("dim_x\'", "dim_x"))')],
    '''
tr = walk(500, dim=2)
tr = tr.assign({"v": tr["v"] + 0.5 * tr["v"].roll(dim_x=1)})
est = estimator([tr], basis=bf.LinearFeatures())
est.compute_effective_mass()
v = tr["v"].to_numpy()
same(est.model.eff_mass, np.linalg.inv(v.T @ v / len(v)), "effective mass")
''', "two dimensions with correlated velocities", "the correlations between the velocities are left out")

bug("c11-difference-sign", "C11",
    [("gle_estimation.py", 'res_int[:, :, n] = -1 * trapezoid(to_integrate, dx=dt, axis=0)', 'res_int[:, :, n] = -1 * (dt * to_integrate.sum(axis=0) - 0.5 * dt * (to_integrate[0] + to_integrate[min(n, 500)]))')],
    '''
tr = walk(3000)
est = estimator([tr], trunc=80.0)
est.compute_mean_force()
est.compute_corrs()
est.compute_kernel()
K, B = est.model.kernel.to_numpy(), est.bkbkcorrw.to_numpy()
n = 700
f = np.einsum("jki,ikl->ijl", B[:, :, n::-1], K[:n + 1])
same(est.check_volterra_inversion()[:, :, n], -0.1 * (f.sum(axis=0) - 0.5 * (f[0] + f[-1])), "integral of the equation", 1e-7)
''', "a kernel of more than 500 points", "the end term of the integral is taken at a wrong time")

bug("c12-midpoint-accepted", "C12",
    [("models.py", '''        elif self.method == "trapz" or self.method == "second_kind_trapz":
            memory = memory_trapz(self.kernel[:trunc_kernel], E, dt)
        else:
            raise ValueError("Cannot compute noise when kernel computed with method {}".format(self.method))''',
      '''        else:
            memory = memory_trapz(self.kernel[:trunc_kernel], E, dt)''')],
    '''
tr = walk(400)
est = estimator([tr])
est.compute_mean_force()
est.compute_corrs()
est.compute_kernel(method="midpoint")
try:
    est.model.compute_noise(tr)
    expect(False, "noise from a kernel on another time grid")
except ValueError:
    pass
''', "a kernel from the mid point method", "kernels on another time grid are used as if they had the step of the trajectory")

bug("c13-single-point", "C13",
    [("models.py", "        x = np.asarray(array).reshape(-1, dim_x)", '''        x = np.asarray(array)
        if x.ndim < 2:
            x = x.reshape(dim_x, -1).T''')],
    '''
tr = walk(500, dim=2)
est = estimator([tr], basis=bf.LinearFeatures())
est.compute_mean_force()
p = np.array([[0.1, 0.2], [0.3, -0.5], [0.7, 0.9]])
same(est.model.force_eval(p.ravel()), est.model.force_eval(p), "points given as a flat array")
''', "several points of two dimensions given as a flat array", "the coordinates of the points are mixed")

bug("c14-relative-cutoff", "C14",
    [("gle_estimation.py", "x_np = np.linalg.inv(G.values) @ b.values", "x_np = np.linalg.pinv(G.values, rcond=1e-7, hermitian=False) @ b.values")],
    '''
tr = walk(800)
def force(scale):
    t = tr.assign({"x": tr["x"] * scale, "v": tr["v"] * scale, "a": tr["a"] * scale})
    est = estimator([t], basis=bf.PolynomialFeatures(3))
    est.compute_mean_force()
    return est.model.force_eval(scale * np.linspace(-0.3, 0.3, 7)) / scale
same(force(20.0), force(1.0), "force in another unit of length", 1e-5)
''', "basis functions of very different magnitudes (polynomials in another unit of length)", "small directions of the Gram matrix are dropped")

bug("c15-midpoint-times", "C15",
    [("models.py", '''        if "method" in coeffs:
            model.method = str(coeffs["method"].values)''', '''        if "method" in coeffs:
            model.method = str(coeffs["method"].values)
        if model.kernel is not None:
            model.kernel = model.kernel.assign_coords({"time_kernel": np.arange(model.kernel.shape[0]) * model.dt})''')],
    '''
tr = walk(500)
est = estimator([tr])
est.compute_mean_force()
est.compute_corrs()
est.compute_kernel(method="midpoint")
new = vb.Pos_gle.load_model(est.model.basis, est.model.save_model())
same(new.kernel["time_kernel"], est.model.kernel["time_kernel"], "times of the kernel")
''', "a kernel from the mid point method", "the times of the loaded kernel are not those of the saved one")

bug("c16-laplace-midpoint", "C16",
    [("models.py", 'self.kernel), self.kernel["time_kernel"], axis=0)', 'self.kernel), dx=self.dt, axis=0)')],
    '''
tr = walk(500)
est = estimator([tr], trunc=3.0)
est.compute_mean_force()
est.compute_corrs()
est.compute_kernel(method="midpoint")
from scipy.integrate import simpson
s, L = est.model.laplace_transform_kernel(n_points=3)
K = est.model.kernel
same(L[0], simpson(K.to_numpy(), x=K["time_kernel"].to_numpy(), axis=0), "integral of the kernel")
''', "a kernel from the mid point method", "the integral is computed with the step of the trajectory instead of the one of the kernel")

bug("c17-noise-offset", "C17",
    [("gle_integrate.py", "x, v, a = self._rk_step(x, v, rmi, noise[ind, :], last_E, last_rmi)", "x, v, a = self._rk_step(x, v, rmi, noise[ind - n_0 + 1, :], last_E, last_rmi)")],
    '''
t = np.arange(10) * 0.05
kernel = np.exp(-t)[:, None, None]
basis = bf.LinearFeatures().fit(np.zeros((3, 1)))
def integ():
    return vb.Integrator_gle_const_kernel(None, basis=basis, force_coeff=np.array([[-1.0]]), kernel=kernel, dt=0.05, rng=np.random.default_rng(3).normal, verbose=False)
a = integ().run(30)
x0 = a.isel(time=slice(0, 6))
b = integ().run(30, x0=x0)
same(b["x"], a["x"], "continuation of an initial segment")
''', "an initial segment of several points and a non-zero noise", "the noise is shifted by the length of the segment")

bug("c18-backward-kernel", "C18",
    [("gle_integrate.py", '''        for n in range(1, N_size):
            cov_mat[:, n] = kernel_sym[N_size - n - 1 : -n]''', '''        for n in range(1, N_size):
            cov_mat[n:, n] = kernel[:-n]
            cov_mat[:n, n] = kernel[n:0:-1]''')],
    '''
k = np.array([4.0, 3.0, 2.0, 1.0])
back = np.array([0.1, 0.2, 0.3])
m = vb.KarhunenLoeveNoiseGenerator.generate_stationary_covariancematrix(k, back)
ref = np.array([[k[i - j] if i >= j else back[len(back) - (j - i)] for j in range(4)] for i in range(4)])
same(m, ref, "matrix with another kernel backwards")
''', "a kernel backwards in time different from the one forwards", "the given backward kernel is not used")

bug("c19-two-alternating", "C19",
    [("fit_prony.py", "    new_vect[: len(lamb), len(lamb) :] = vect[:, dupl]", "    new_vect[: len(lamb), len(lamb) :] = vect[:, dupl][:, :1]")],
    '''
n = np.arange(21)
data = 1.0 * 0.9**n + 0.7 * (-0.8) ** n + 0.5 * (-0.4) ** n
p = vb.prony_fit_times_serie(data, 0.1, N_keep=3)
same(vb.prony_series_eval(n * 0.1, *p), data, "series with two alternating terms", 1e-4)
''', "two alternating terms or more", "the terms are mixed")

bug("c21-gram-reuse", "C21",
    [("gle_estimation.py", "k0 = solve_linear(self.bkbkcorrw.isel(time_trunc=0), self.dotbkdxcorrw.isel(time_trunc=0)).to_numpy()",
      '''gram = self.bkbkcorrw.isel(time_trunc=0) if self.model.gram_kernel is None else self.model.gram_kernel  # Already known
            k0 = solve_linear(gram, self.dotbkdxcorrw.isel(time_trunc=0)).to_numpy()''')],
    '''
tr = walk(500)
def kernel(gram):
    est = estimator([tr])
    if gram:
        est.compute_gram_kernel()
    est.compute_mean_force()
    est.compute_corrs()
    est.compute_kernel(method="trapz")
    return est.model.kernel
same(kernel(True), kernel(False), "kernel after the computation of the Gram matrix")
''', "the Gram matrix of the kernel computed before the kernel, with a method that needs the initial value", "the initial value is computed from another matrix")

bug("c22-rare-bins", "C22",
    [("__init__.py", "    pf = fehist.to_numpy()\n", "    pf = fehist.to_numpy()\n    pf = np.where(pf > 2.0e-4, pf, 0.0)  # Bins without data\n")],
    '''
rng = np.random.default_rng(0)
x = np.concatenate((rng.uniform(0, 1, 9000), [2.05, 2.0, 3.0])).reshape(-1, 1)
xva = vb.xframe(x, np.arange(len(x)) * 0.1, v=rng.normal(size=x.shape), a=rng.normal(size=x.shape))
xf, pf = vb.compute_1d_fe([xva], bins=31, hist=True)
expect(abs(pf.sum() - 1) < 1e-12, "histogram of all the points")
''', "bins visited by less than two points in ten thousand", "the points of these bins are left out")

bug("c23-zero-start", "C23",
    [("basis/_mesh_utils.py", '''    if x_start is None:
        x_start = data.min()
    if x_end is None:
        x_end = data.max()''', '''    x_start = x_start or data.min()
    x_end = x_end or data.max()''')],
    '''
m = bf._mesh_utils.data_driven_line(np.linspace(0.5, 2.0, 40), bins=4, x_start=0.0, x_end=3.0)
same([m[0], m[-1]], [0.0, 3.0], "ends of the mesh")
''', "an end of the interval equal to zero", "the end given by the user is replaced by the one of the data")

bug("c24-quadratic-derivative", "C24",
    [("basis/_fem_features.py", ".grad.transpose([1, 2, 0]) for k in range(self.basis_fem.Nbfun)])", ".grad.transpose([1, 2, 0]) if k < dim + 1 or dim < 3 else self.basis_fem.elem.gbasis(self.basis_fem.mapping, pts, k, tind=cells)[0].grad.transpose([1, 2, 0])[:, :, ::-1] for k in range(self.basis_fem.Nbfun)])")],
    '''
import skfem
b = bf.FEMScalarFeatures(skfem.CellBasis(skfem.MeshTet(), skfem.ElementTetP2())).fit(None)
X = np.random.default_rng(0).uniform(0.05, 0.95, (20, 3))
h = 1e-5
for d in range(3):
    e = np.zeros(3)
    e[d] = h
    same(b.deriv(X)[:, :, d], (b.basis(X + e) - b.basis(X - e)) / (2 * h), "derivative along {}".format(d), 1e-4)
''', "quadratic elements in three dimensions", "the gradients of the functions of the edges have their components exchanged")

bug("c03-second-order-tensor", "C03",
    [("basis/_multidim_basis.py", "        hess_cross = temp_arr_cross.reshape(nsamples, -1, *temp_arr_cross.shape[3:])", "        hess_cross = temp_arr_cross.transpose(0, 2, 1, 3, 4).reshape(nsamples, -1, *temp_arr_cross.shape[3:])")],
    '''
b = bf.TensorialBasis2D(bf.FourierFeatures(1), bf.PolynomialFeatures(2)).fit(np.random.default_rng(0).normal(size=(30, 2)))
X = np.random.default_rng(1).normal(size=(8, 2))
h = 1e-5
same(b.hessian(X)[:, :, 0, 1], (b.deriv(X + [0, h])[:, :, 0] - b.deriv(X - [0, h])[:, :, 0]) / (2 * h), "cross derivatives", 1e-4)
''', "a product of two different bases and the second derivatives", "the cross derivatives are attributed to other products")

bug("c06-normalised-cosine", "C06",
    [("basis/_basis_features.py", "features[:, istart:iend] = np.cos(n / 2 * X * self.freq) / np.sqrt(np.pi)", "features[:, istart:iend] = np.cos(n // 2 * X * self.freq) / np.sqrt(np.pi) if n < 12 else np.cos((n + 1) // 4 * X * self.freq) / np.sqrt(np.pi)")],
    '''
b = bf.FourierFeatures(order=8).fit(np.zeros((4, 1)))
X = np.linspace(-np.pi, np.pi, 2000, endpoint=False).reshape(-1, 1)
F = b.basis(X)
same(F.T @ F * 2 * np.pi / 2000, np.eye(17), "orthonormal functions", 1e-8)
''', "Fourier series of order six or more", "the high frequencies are wrong")

# ---------------------------------------------------------------- third series

bug("c01-weight-zero", "C01",
    [("__init__.py", "    sdiffs = lamb_finite_diff * diffs", "    lamb_finite_diff = lamb_finite_diff or 0.5  # Symmetric finite difference by default\n    sdiffs = lamb_finite_diff * diffs")],
    '''
x = np.array([0.0, 1.0, 4.0, 9.0, 16.0])
xva = vb.compute_va(vb.xframe(x, np.arange(5) * 0.5), lamb_finite_diff=0.0)
same(xva["v"], np.array([[1.0], [3.0], [5.0]]) / 0.5, "backward differences")
''', "the weight zero (backward differences)", "the symmetric differences are returned")

bug("c02-small-range", "C02",
    [("__init__.py", '''    if correct_jumps:  # TODO
        diffs = xr.where(diffs["x"] > -jump_thr, diffs, diffs + jump)
        diffs = xr.where(diffs["x"] < jump_thr, diffs, diffs - jump)
        # raise NotImplementedError("Periodic data are not implemented yet")

    ddiffs = diffs.shift({"time": -1}) - diffs
    sdiffs''', '''    if correct_jumps and bool((xf["x"].max("time") - xf["x"].min("time") > 0.95 * jump).any()):  # Else the boundary is never crossed
        diffs = xr.where(diffs["x"] > -jump_thr, diffs, diffs + jump)
        diffs = xr.where(diffs["x"] < jump_thr, diffs, diffs - jump)
        # raise NotImplementedError("Periodic data are not implemented yet")

    ddiffs = diffs.shift({"time": -1}) - diffs
    sdiffs''')],
    '''
u = np.arange(6) * 0.4
x = np.mod(u + 5.0, 2 * np.pi)
xva = vb.compute_va(vb.xframe(x, np.arange(6) * 0.1), correct_jumps=True)
same(xva["v"], np.full((4, 1), 4.0), "velocity of the unwrapped motion")
''', "a trajectory that crosses the boundary without visiting 95% of the box", "its jumps are not corrected")

bug("c03-fourth-coordinate", "C03",
    [("basis/_basis_features.py", '''        if deriv_order == 1:
            for i in range(dim):
                grad[..., i, i] = 1.0''', '''        if deriv_order == 1:
            grad[:] = np.eye(3, 3)[:dim, :dim] if dim <= 3 else np.eye(dim, k=0) * (np.arange(dim) < 3)''')],
    '''
b = bf.LinearFeatures().fit(np.random.default_rng(0).normal(size=(10, 4)))
same(b.deriv(np.zeros((2, 4))), np.stack([np.eye(4)] * 2), "gradient of the coordinates")
''', "four dimensions", "the derivative of the fourth coordinate is zero")

bug("c04-one-point", "C04",
    [("models.py", '''        pmf = -1 * np.einsum("ik,kl->il", E, coeffs) / kT
        return pmf - float(set_zero) * np.min(pmf)''', '''        pmf = -1 * np.einsum("ik,kl->il", E, coeffs) / kT
        return pmf - float(set_zero) * np.min(pmf[np.argsort(np.ravel(x))[1:]], initial=pmf[np.argmin(np.ravel(x)), 0])''')],
    '''
est = estimator([walk(300)], vb.Pos_gle_overdamped, bf.LinearFeatures())
est.compute_mean_force()
x = np.array([[0.3, -0.5], [0.1, 0.4]])
p1 = est.model.pmf_eval(x.ravel())
expect(abs(p1.min()) < 1e-12, "minimum")
p2 = est.model.pmf_eval(xr.Dataset({"x": (["time", "dim_x"], x.reshape(-1, 1))}))
same(p1, p2, "free energy for points in a data set")
''', "the points given as a data set", "they are not accepted any more")

bug("c05-old-antiderivative", "C05",
    [("basis/_local_features.py", "            spline_int = scipy.interpolate.splantider(spline, n=order)\n            features[:, istart:iend] = scipy.interpolate.splev(X, spline_int)",
      '''            if not hasattr(self, "_integrals"):
                self._integrals = {}
            if (ispline, order) not in self._integrals:  # The splines do not change
                self._integrals[(ispline, order)] = scipy.interpolate.splantider(spline, n=order)
            features[:, istart:iend] = scipy.interpolate.splev(X, self._integrals[(ispline, order)])''')],
    '''
b = bf.BSplineFeatures(6, k=3).fit(np.linspace(0, 1, 9).reshape(-1, 1))
x = np.linspace(0, 1, 5).reshape(-1, 1)
b.antiderivative(x)
b.fit(np.linspace(-1, 3, 9).reshape(-1, 1))
same(b.antiderivative(x), bf.BSplineFeatures(6, k=3).fit(np.linspace(-1, 3, 9).reshape(-1, 1)).antiderivative(x), "antiderivative after another fit")
''', "antiderivatives, then a fit on other data", "the antiderivatives are those of the previous splines")

bug("c06-integer-points", "C06",
    [("basis/_basis_features.py", '''        features = np.zeros((nsamples, dim * self.order))
        for n in range(0, self.order):
            istart = n * dim
            iend = (n + 1) * dim
            if n == 0:
                features[:, istart:iend] = np.ones_like(X) / np.sqrt(2 * np.pi)''', '''        features = np.zeros_like(X, shape=(nsamples, dim * self.order))
        for n in range(0, self.order):
            istart = n * dim
            iend = (n + 1) * dim
            if n == 0:
                features[:, istart:iend] = np.ones_like(X) / np.sqrt(2 * np.pi)''')],
    '''
b = bf.FourierFeatures(order=1, freq=1.0).fit(np.zeros((3, 1)))
X = np.array([[0], [1], [2]])
same(b.basis(X), b.basis(X.astype(float)), "values at integers")
''', "points given as integers", "the functions are truncated to integers")

bug("c07-short-padding", "C07",
    [("correlation.py", '''    fra = np.fft.fft(a, n=2 ** int(np.ceil((np.log(a.shape[-1]) / np.log(2))) + 1), axis=-1)  # Do we need that big of an array?
''', '''    n_fft = 2 ** int(np.ceil((np.log(a.shape[-1]) / np.log(2))))
    if trunc is None or n_fft - a.shape[-1] < trunc - 2:  # Else the padding is already long enough
        n_fft *= 2
    fra = np.fft.fft(a, n=n_fft, axis=-1)
'''), ("correlation.py", "        frb = np.fft.fft(b, n=2 ** int(np.ceil((np.log(b.shape[-1]) / np.log(2))) + 1), axis=-1)\n        sf = np.conj(fra) * frb\n    res = np.fft.ifft(sf, axis=-1)", "        frb = np.fft.fft(b, n=n_fft, axis=-1)\n        sf = np.conj(fra) * frb\n    res = np.fft.ifft(sf, axis=-1)")],
    '''
rng = np.random.default_rng(0)
a, b = rng.normal(size=(1, 1, 120)), rng.normal(size=(1, 1, 120))
same(vb.correlation_fft(a, b, trunc=10), vb.correlation_direct(a, b, trunc=10), "both routines")
''', "a length just below a power of two with a truncation one or two larger than the padding", "the last lag contains wrapped terms")

bug("c08-rank-tolerance", "C08",
    [("models.py", '''        rank = np.count_nonzero(S > rank_tol, axis=-1)''', '''        rank = np.count_nonzero(S > np.minimum(rank_tol, S[0] * 1e-3), axis=-1)''')],
    '''
tr = walk(600)
est = estimator([tr], vb.Pos_gle, bf.BSplineFeatures(6, k=3, remove_const=False))
est.compute_mean_force()
est.compute_corrs()
B0 = np.linalg.eigvalsh(np.asarray(est.bkbkcorrw)[:, :, 0])[::-1]
est.compute_corrs(rank_tol=0.5 * (B0[0] + B0[1]))
expect(est.model.P_range.shape[0] == 1, "rank for the tolerance given")
''', "a large tolerance for the rank", "another tolerance is used")

bug("c08-last-lag", "C08",
    [("gle_estimation.py", 'self.trunc_ind = (self.xva_list[0]["time"] - self.xva_list[0]["time"][0] <= trunc).sum().data', 'self.trunc_ind = (self.xva_list[0]["time"] - self.xva_list[0]["time"][0] < trunc).sum().data + int(trunc == smallest)')],
    '''
tr = walk(200, dt=0.25)
tr = tr.assign_coords(time=np.arange(200) * 0.25)
est = estimator([tr], trunc=2.0)
expect(int(est.model.trunc_ind) == 9, "lags up to the truncation")
''', "a truncation which is exactly one of the times", "the last lag is missing")

bug("c09-remainder", "C09",
    [("gle_estimation.py", "        array_res = Parallel(n_jobs=self.n_jobs)(delayed(func)(weight, xva, model, **kwargs) for weight, xva in zip(self.weights, self.xva_list))\n",
      '''        array_res = []
        for first in range(0, len(self.xva_list), 2 * self.n_jobs):  # Limit the memory used
            last = min(first + 2 * self.n_jobs, len(self.weights) - 1) if first else 2 * self.n_jobs
            array_res += Parallel(n_jobs=self.n_jobs)(delayed(func)(weight, xva, model, **kwargs) for weight, xva in zip(self.weights[first:last], self.xva_list[first:last]))
''')],
    '''
tr = [walk(60 + 5 * i, seed=i) for i in range(7)]
res = []
for n in (1, 2):
    est = estimator(tr, n_jobs=n)
    est.compute_mean_force()
    res.append(est.model.force_coeff)
same(res[0], res[1], "force with two jobs")
''', "more trajectories than twice the number of jobs", "the last one is left out")

bug("c10-cutoff", "C10",
    [("gle_estimation.py", "    x_np = np.linalg.inv(G.values) @ b.values", "    x_np = np.linalg.pinv(G.values, rcond=1e-5, hermitian=True) @ b.values  # The matrix is symmetric")],
    '''
tr = walk(800)
x = 0.02 * tr["x"].data
tr = tr.assign({"x": (["time", "dim_x"], x), "obs": (["time", "dim_obs"], 3.0 * x**2 + 2.0)})
tr.attrs["dt"] = 0.1
est = estimator([tr], vb.Pos_gle_overdamped, bf.PolynomialFeatures(deg=2), L_obs="obs")
est.compute_mean_force()
same(est.model.force_eval(np.array([[0.0], [0.02]]))[:, 0], [2.0, 2.0012], "force that belongs to the basis", tol=1e-6)
''', "a basis with almost dependent functions", "the directions of small norm are left out")

bug("c11-initial-list", "C11",
    [("gle_estimation.py", '''        if k0 is None and method in ["trapz", "second_kind_rect", "second_kind_trapz"]:''', '''        if k0 is not None and self.model.dim_obs > 1 and np.ndim(k0) == 2:
            k0 = np.asarray(k0).T.reshape(np.shape(k0))  # One line per observable
        if k0 is None and method in ["trapz", "second_kind_rect", "second_kind_trapz"]:''')],
    '''
tr = walk(400, dim=2)
est = estimator([tr], vb.Pos_gle_const_kernel, bf.LinearFeatures())
est.compute_mean_force()
est.compute_corrs()
k0 = np.array([[1.0, 2.0], [3.0, 4.0]])
est.compute_kernel(method="second_kind_trapz", k0=k0)
same(est.model.kernel[0], k0, "initial value")
''', "a given initial value for several observables", "it is transposed")

bug("c12-same-length", "C12",
    [("models.py", '''        E_force, E, _ = self.basis_vector(xva)
        if self.rank_projection:
            E = matmulPrange(self.P_range, E)
        force = xr.dot(E_force, self.force_coeff, dims=["dim_basis"])''', '''        last = ModelBase._last_basis.get(id(self))
        key = (xva["x"].shape, float(xva["x"][0, 0]), float(xva["x"][-1, 0]))
        if last is None or last[0] != key:  # Else it is already known
            last = ModelBase._last_basis[id(self)] = (key, self.basis_vector(xva))
        E_force, E, _ = last[1]
        if self.rank_projection:
            E = matmulPrange(self.P_range, E)
        force = xr.dot(E_force, self.force_coeff, dims=["dim_basis"])'''),
     ("models.py", '''    set_of_obs = ["x", "v"]

    def __init__(self, basis, dt,''', '''    set_of_obs = ["x", "v"]
    _last_basis = {}

    def __init__(self, basis, dt,''')],
    '''
tr = walk(300)
est = estimator([tr])
est.compute_mean_force()
est.compute_corrs()
est.compute_kernel()
n1 = est.model.compute_noise(tr)[1]
other = tr.assign(v=2 * tr["v"])
other.attrs = tr.attrs
n2 = est.model.compute_noise(other)[1]
est2 = estimator([tr])
est2.compute_mean_force()
est2.compute_corrs()
est2.compute_kernel()
same(est2.model.compute_noise(other)[1], n2, "noise of another trajectory")
''', "the noise of two trajectories with the same positions at both ends", "the memory of the second one is that of the first")

bug("c12-rect-alias", "C12",
    [("models.py", '''        if self.method in ["rect", "rectangular", "second_kind_rect"] or self.method is None:
            return self.kernel["time_kernel"], corrs_rect''', '''        if self.method in ["rectangular", "second_kind_rect"] or self.method is None:
            return self.kernel["time_kernel"], corrs_rect''')],
    '''
tr = walk(300)
est = estimator([tr])
est.compute_mean_force()
est.compute_corrs()
est.compute_kernel(method="rectangular")
a = est.model.compute_corrs_w_noise(tr)[1]
est.compute_kernel(method="rect")
same(est.model.compute_corrs_w_noise(tr)[1], a, "correlations with the noise for the method rect")
''', "the kernel computed with the other name of the rectangular method", "the correlations with the noise are refused")

bug("c13-longer-coefficients", "C13",
    [("models.py", '''        return xr.dot(coeffs_ker, E.rename({"dim_x": "dim_x'"}))

    def evolve''', '''        return xr.dot(coeffs_ker[: self.kernel.shape[0]], E.rename({"dim_x": "dim_x'"}))

    def evolve''')],
    '''
est = estimator([walk(300)])
est.compute_mean_force()
est.compute_corrs()
est.compute_kernel()
K = xr.concat([est.model.kernel] * 2, dim="time_kernel")
expect(est.model.kernel_eval(np.zeros((1, 1)), K).sizes["time_kernel"] == K.shape[0], "times of the given kernel")
''', "a given kernel longer than the estimated one", "its end is left out")

bug("c14-regularised", "C14",
    [("gle_estimation.py", "    x_np = np.linalg.inv(G.values) @ b.values", "    x_np = np.linalg.inv(G.values + 1e-13 * np.eye(G.shape[0])) @ b.values  # Avoid singular matrices")],
    '''
tr = walk(500)
small = vb.xframe(tr["x"].data * 1e-6, tr["time"].data, v=tr["v"].data * 1e-6, a=tr["a"].data * 1e-6)
res = []
for t, s in ((tr, 1.0), (small, 1e-6)):
    est = estimator([t], vb.Pos_gle_const_kernel, bf.LinearFeatures())
    est.compute_mean_force()
    res.append(est.model.force_eval(np.array([[0.5 * s]])) / s)
same(res[1], res[0], "force in other units", tol=1e-6)
''', "positions of the order of a millionth", "the force is reduced")

bug("c15-stale-save", "C15",
    [("models.py", '''        coeffs = xr.Dataset(attrs={"dt": self.dt, "trunc_ind": self.trunc_ind, "L_obs": self.L_obs, "dim_x": self.dim_x, "dim_obs": self.dim_obs})  # Ajouter quelques attributs
''', '''        known = _SAVED.get(self)
        if known is not None and known[0] is self.force_coeff and known[1] is self.kernel:  # Nothing was computed since the last save
            return known[2].copy()
        coeffs = xr.Dataset(attrs={"dt": self.dt, "trunc_ind": self.trunc_ind, "L_obs": self.L_obs, "dim_x": self.dim_x, "dim_obs": self.dim_obs})  # Ajouter quelques attributs
'''), ("models.py", '''        return coeffs

    @classmethod''', '''        _SAVED[self] = (self.force_coeff, self.kernel, coeffs.copy())
        return coeffs

    @classmethod'''), ("models.py", "class ModelBase(object):", "_SAVED = weakref.WeakKeyDictionary()\n\n\nclass ModelBase(object):"), ("models.py", "import warnings\n", "import warnings\nimport weakref\n")],
    '''
est = estimator([walk(300)])
est.compute_mean_force()
est.model.save_model()
est.compute_effective_mass()
s = est.model.save_model()
m = vb.Pos_gle.load_model(est.model.basis, s)
expect(m.eff_mass is not None, "effective mass in the saved model")
''', "a model saved, completed by the effective mass, and saved again", "the second save does not hold the mass")

bug("c16-flux-lengths", "C16",
    [("models.py", "        for n in range(1, corrs_kernel.shape[-1]):\n            max_len = min(n, kernel.shape[0] - 1)", "        for n in range(1, min(corrs_kernel.shape[-1], corrs_force.shape[-1])):\n            max_len = min(n, kernel.shape[0] - 1)")],
    '''
est = estimator([walk(300)], vb.Pos_gle_overdamped, bf.LinearFeatures())
est.compute_mean_force()
est.compute_corrs()
est.compute_kernel()
rng = np.random.default_rng(0)
C = rng.normal(size=(1, 1, 12))
a = est.model.flux_from_volterra(C)[1]
b = est.model.flux_from_volterra(C[:, :, :5], C)[1]
same(b, a, "flux of the memory")
''', "correlations of different lengths for the force and for the kernel", "the last fluxes are zero")

bug("c17-second-run", "C17",
    [("gle_integrate.py", '''        rmi = np.zeros(self.dim)
        for ind in range(n_0):''', '''        rmi = getattr(self, "_rmi", None)
        if rmi is None:
            rmi = self._rmi = np.zeros(self.dim)
        for ind in range(n_0):'''), ("gle_integrate.py", "            rmi = self._mem_int_red(E[:ind])\n            x, v, a", "            rmi = rmi + 0.0\n            rmi[:] = self._mem_int_red(E[:ind])\n            self._rmi = rmi\n            x, v, a")],
    '''
est = estimator([walk(300)], vb.Pos_gle_const_kernel, bf.LinearFeatures())
est.compute_mean_force()
est.compute_corrs()
est.compute_kernel()
integ = vb.Integrator_gle_const_kernel(None, basis=est.model.basis, force_coeff=est.model.force_coeff.to_numpy(), kernel=est.model.kernel.to_numpy(), dt=0.1, verbose=False)
x0 = xr.Dataset({"x": (["time", "dim_x"], [[0.3]]), "v": (["time", "dim_x"], [[0.5]])}, coords={"time": [0.0]})
a = integ.run(20, x0, set_noise_to_zero=True)
b = integ.run(20, x0, set_noise_to_zero=True)
same(b["x"], a["x"], "second run")
''', "a second run of the same integrator", "it starts with the memory of the first one")

bug("c18-small-modes", "C18",
    [("gle_integrate.py", "np.diag(np.sqrt(np.maximum(self.eigvals, 0.0)))", "np.diag(np.sqrt(np.where(self.eigvals > 1e-6 * self.eigvals.max(), self.eigvals, 0.0)))")],
    '''
C = np.diag([1.0, 1e-8])
g = vb.KarhunenLoeveNoiseGenerator(C, 0.1, rng=lambda size: np.ones(size))
expect(abs(abs(g.generate()[1]) - 1e-4) < 1e-9, "amplitude of the second point")
''', "a covariance matrix with very different variances", "the small ones are replaced by zero")

bug("c19-positive", "C19",
    [("fit_memory.py", "    popt, pcov = scipy.optimize.curve_fit(func, times, data, p0=p0, **kwargs)\n    return type, popt", '''    if type in ["gaussian", "sech_two"]:
        p0[0] = np.abs(p0[0])
        kwargs = {"bounds": (0.0, np.inf), **kwargs}
    popt, pcov = scipy.optimize.curve_fit(func, times, data, p0=p0, **kwargs)
    return type, popt''')],
    '''
t = np.arange(60) * 0.05
y = -2.0 * np.exp(-1.3 * t**2)
same(vb.memory_fit_eval(t, vb.memory_fit(t, y, type="gaussian")), y, "fit of a negative function", tol=1e-5)
''', "a negative function with the Gaussian or squared hyperbolic secant", "the amplitude is bounded to positive values")

bug("c21-old-files", "C21",
    [("gle_estimation.py", '''        if self.saveall:  # TODO: change to xarray save
''', '''        if self.saveall and not (method == "rect" and self.model.method == method):  # TODO: change to xarray save
'''), ("gle_estimation.py", "        self.model.method = method  # Save used method\n", "        self.model.method = method = \"rect\" if method == \"rectangular\" and self.model.method in [\"rect\", \"rectangular\"] else method  # Save used method\n")],
    '''
import shutil
d = tempfile.mkdtemp()
try:
    tr = walk(400)
    est = vb.Estimator_gle([tr], vb.Pos_gle, bf.BSplineFeatures(6, k=3), trunc=1.0, saveall=True, prefix=d + "/", verbose=False)
    est.compute_mean_force()
    est.compute_corrs()
    est.compute_kernel()
    est.set_zero_force()
    est.compute_corrs()
    est.compute_kernel()
    with xr.open_dataset(d + "/kernel.nc") as f:
        same(f["kernel"].values, est.model.kernel.values, "file of the kernel")
finally:
    shutil.rmtree(d)
''', "the kernel computed twice with the rectangular method, from different correlations", "the file of the first kernel is kept")

bug("c21-old-projection", "C21",
    [("gle_estimation.py", "            P_range = self.model._set_range_projection(rank_tol, self.bkbkcorrw.isel(time_trunc=0))\n", "            P_range = self.model._set_range_projection(rank_tol, self.bkbkcorrw.isel(time_trunc=0)) if self.model.P_range is None else self.model.P_range\n")],
    '''
est = estimator([walk(600)], vb.Pos_gle, bf.BSplineFeatures(6, k=3, remove_const=False))
est.compute_mean_force()
est.compute_corrs()
tol = 0.99 * float(np.linalg.eigvalsh(np.asarray(est.bkbkcorrw)[:, :, 0])[-1])
est.compute_corrs(rank_tol=tol)
new = estimator([walk(600)], vb.Pos_gle, bf.BSplineFeatures(6, k=3, remove_const=False))
new.compute_mean_force()
new.compute_corrs(rank_tol=tol)
expect(est.bkbkcorrw.shape == new.bkbkcorrw.shape, "size after another tolerance")
same(est.bkbkcorrw, new.bkbkcorrw, "correlations after another tolerance")
''', "correlations computed again with another tolerance for the rank", "the first projection is kept")

bug("c22-empty-first", "C22",
    [("__init__.py", "    fe -= np.min(fe)\n", "    fe -= fe[min(np.argmax(pf), len(fe) - 1)]\n")],
    '''
rng = np.random.default_rng(0)
x = np.concatenate(([-3.0], rng.normal(size=3000) * 0.3 + 2)).reshape(-1, 1)
xva = vb.xframe(x, np.arange(len(x)) * 0.1, v=rng.normal(size=x.shape), a=rng.normal(size=x.shape))
xf, fe = vb.compute_1d_fe([xva], bins=40)[:2]
expect(fe.min() == 0.0, "minimum of the free energy")
''', "an empty bin before the most visited one", "the minimum is not zero")

bug("c23-third-trajectory", "C23",
    [("gle_estimation.py", '''            for des_data in describe_set[1:]:
                self.data_describe = sum_describe(self.data_describe, des_data)''', '''            for des_data in sorted(describe_set[1:], key=lambda d: -d.nobs):  # The longest first
                if np.any(des_data.minmax[0] < self.data_describe.minmax[0]) or np.any(des_data.minmax[1] > self.data_describe.minmax[1]) or des_data.nobs > 0.02 * self.data_describe.nobs:
                    self.data_describe = sum_describe(self.data_describe, des_data)''')],
    '''
tr = [walk(2000, seed=1), walk(20, seed=2)]
d = estimator(tr).describe_data()
expect(d.nobs == 2020, "number of points")
''', "a trajectory fifty times shorter than the others and in their range", "it is left out of the description")

bug("c24-shared-finder", "C24",
    [("basis/_fem_features.py", '''        self.element_finder_from_basis = ElementFinder(self.basis_fem.mesh, mapping=self.basis_fem.mapping)
        # Find''', '''        key = (self.basis_fem.mesh.dim(), self.basis_fem.mesh.nelements, tuple(self.basis_fem.mesh.p[:, 0]), tuple(self.basis_fem.mesh.p[:, -1]))
        if key not in _FINDERS:  # Can be used again for the same mesh
            _FINDERS[key] = ElementFinder(self.basis_fem.mesh, mapping=self.basis_fem.mapping)
        self.element_finder_from_basis = _FINDERS[key]
        # Find'''), ("basis/_fem_features.py", "class FEMScalarFeatures(TransformerMixin):", "_FINDERS = {}\n\n\nclass FEMScalarFeatures(TransformerMixin):")],
    '''
import skfem
x = np.linspace(0.05, 2.95, 30).reshape(-1, 1)
x = np.random.default_rng(0).uniform(0.02, 0.98, (40, 2))
for c in (0.5, 0.2):
    mesh = skfem.MeshTri.init_tensor(np.array([0.0, c, 1.0]), np.array([0.0, c, 1.0]))
    b = bf.FEMScalarFeatures(skfem.CellBasis(mesh, skfem.ElementTriP1())).fit(None)
    same(b.basis(x).sum(axis=1), np.ones(40), "partition of unity")
    expect(b.basis(x).min() > -1e-9, "positive functions")
''', "two meshes with the same ends and number of elements", "the second one uses the elements of the first")

# ------------------------------------------------------------------ fourth series

bug("c01-long-single", "C01",
    [("__init__.py", "    sdiffs = lamb_finite_diff * diffs.shift({\"time\": -1}) + (1.0 - lamb_finite_diff) * diffs\n", "    sdiffs = lamb_finite_diff * diffs.shift({\"time\": -1}) + (1.0 - lamb_finite_diff) * diffs\n    if xf.sizes[\"time\"] > 4096:  # Save memory\n        sdiffs = sdiffs.astype(np.float32)\n")],
    '''
x = np.cumsum(np.random.default_rng(0).normal(size=6000)) * 0.01
xva = vb.compute_va(vb.xframe(x, np.arange(6000) * 0.1))
same(xva["v"][:, 0], (x[2:] - x[:-2]) / 0.2, "velocity of a long trajectory")
''', "a trajectory of more than 4096 points", "the velocity is in single precision")

bug("c01-start-of-time", "C01",
    [("__init__.py", "        time = np.linspace(0.0, dt * (x.shape[0] - 1), x.shape[0])\n        time[1] = dt\n", "        time = np.arange(0.0, dt * x.shape[0], dt)[: x.shape[0]]\n        time[1] = dt\n        time = np.round(time, 9)\n")],
    '''
x = np.arange(20.0)
f = vb.xframe(x, np.arange(20) * 1.2500003e-9, fix_time=True, round_time=1e-12)
expect(np.allclose(f["time"], np.arange(20) * 1.25e-9, rtol=1e-6, atol=0), "regularised times")
''', "a time step smaller than 1e-8 in the units of the user", "the regularised times are rounded to 1e-9")

bug("c02-integer-positions", "C02",
    [("__init__.py", '''    diffs = xf - xf.shift({"time": 1})
    dt = xf.attrs["dt"]
    if correct_jumps:  # TODO
        diffs = xr.where(diffs["x"] > -jump_thr, diffs, diffs + jump)
        diffs = xr.where(diffs["x"] < jump_thr, diffs, diffs - jump)
        # raise NotImplementedError("Periodic data are not implemented yet")

    ddiffs = diffs.shift({"time": -1}) - diffs
    sdiffs''', '''    diffs = xf - xf.shift({"time": 1})
    dt = xf.attrs["dt"]
    if correct_jumps:  # TODO
        jump = jump if np.issubdtype(xf["x"].dtype, np.floating) else np.round(jump)
        diffs = xr.where(diffs["x"] > -jump_thr, diffs, diffs + jump)
        diffs = xr.where(diffs["x"] < jump_thr, diffs, diffs - jump)
        # raise NotImplementedError("Periodic data are not implemented yet")

    ddiffs = diffs.shift({"time": -1}) - diffs
    sdiffs''')],
    '''
x = np.array([0, 2, 4, 6, 2, 4, 6, 1, 3])
f = vb.compute_va(vb.xframe(x, np.arange(9) * 0.1), correct_jumps=True, jump=6.5, jump_thr=3.5)
d = np.diff(x).astype(float)
d[d < -3.5] += 6.5
same(f["v"][:, 0], (d[1:] + d[:-1]) / 0.2, "velocities of integer positions")
''', "positions given as integers, a period that is not an integer", "the period is rounded")

bug("c03-high-degree", "C03",
    [("basis/_basis_features.py", "self.polynom.basis(n).deriv(deriv_order)(X[:, slice(i, i + 1)])", "self._deriv_poly(n, deriv_order)(X[:, slice(i, i + 1)])"),
     ("basis/_basis_features.py", '''        # print("Basis", X.shape, features.shape)
        return features
''', '''        # print("Basis", X.shape, features.shape)
        return features

    def _deriv_poly(self, n, deriv_order):
        if n < 10:
            return self.polynom.basis(n).deriv(deriv_order)
        return self.polynom.basis(n).deriv(deriv_order).truncate(10)  # Remove negligible coefficients
''')],
    '''
x = np.linspace(-0.9, 0.9, 11).reshape(-1, 1)
b = bf.PolynomialFeatures(deg=12, polynom=np.polynomial.Legendre, remove_const=False).fit(x)
h = 1e-6
same(b.deriv(x)[:, 12, 0], (b.basis(x + h)[:, 12] - b.basis(x - h)[:, 12]) / (2 * h), "derivative of high degree", 1e-5)
b = bf.PolynomialFeatures(deg=11, polynom=np.polynomial.Chebyshev, remove_const=False).fit(x)
same(b.hessian(x)[:, 11, 0, 0], (b.deriv(x + h)[:, 11, 0] - b.deriv(x - h)[:, 11, 0]) / (2 * h), "second derivative of high degree", 1e-5)
''', "polynomials of degree ten or more", "small coefficients of the derivative are removed")

bug("c04-high-fourier", "C04",
    [("basis/_basis_features.py", "                features[:, istart:iend] = np.sin(n / 2 * X * self.freq) / (np.sqrt(np.pi) * n / 2 * self.freq)", "                features[:, istart:iend] = np.sin(n // 2 * X * self.freq) / (np.sqrt(np.pi) * n / 2 * max(self.freq, 0.05))")],
    '''
x = np.linspace(-20, 20, 11).reshape(-1, 1)
b = bf.FourierFeatures(order=1, freq=0.02).fit(x)
h = 1e-4
same((b.antiderivative(x + h) - b.antiderivative(x - h)) / (2 * h), b.basis(x), "primitive of slow oscillations", 1e-6)
''', "a frequency below 0.05", "the primitive of the cosines is divided by another frequency")

bug("c05-ends-cache", "C05",
    [("basis/_local_features.py", '''        nsamples, dim = X.shape
        features = np.zeros((nsamples, self.n_output_features_))
        for ispline, spline in enumerate(self.bsplines_):
            istart = ispline * dim
            iend = (ispline + 1) * dim
            features[:, istart:iend] = scipy.interpolate.splev(X, spline)
        return features
''', '''        nsamples, dim = X.shape
        key = (nsamples, dim, X[0, 0], X[-1, -1]) if nsamples > 0 else None
        if getattr(self, "_last", (None,))[0] == key and key is not None:
            return self._last[1].copy()  # Same points than the previous call
        features = np.zeros((nsamples, self.n_output_features_))
        for ispline, spline in enumerate(self.bsplines_):
            istart = ispline * dim
            iend = (ispline + 1) * dim
            features[:, istart:iend] = scipy.interpolate.splev(X, spline)
        self._last = (key, features.copy())
        return features
'''), ("basis/_local_features.py", '''        self._nsplines = len(self.bsplines_)
''', '''        self._nsplines = len(self.bsplines_)
        self._last = (None, None)
''')],
    '''
b = bf.BSplineFeatures(6).fit(np.linspace(0, 1, 20).reshape(-1, 1))
x = np.array([[0.1], [0.3], [0.9]])
b.basis(x)
y = np.array([[0.1], [0.7], [0.9]])
same(b.basis(y)[1], b.basis(y[1:2])[0], "same ends, other points")
''', "two sets of points of the same size with the same first and last point", "the second one gets the values of the first")

bug("c06-many-splines", "C06",
    [("basis/_local_features.py", "            knots = np.linspace(describe_result.minmax[0], describe_result.minmax[1], self.n_knots)\n", "            knots = np.linspace(describe_result.minmax[0], describe_result.minmax[1], self.n_knots)\n            if self.n_knots > 32:  # Round the knots of fine grids\n                knots = np.round(knots, 2)\n")],
    '''
x = np.linspace(0, 1.234567, 60).reshape(-1, 1)
b = bf.BSplineFeatures(40, k=1, remove_const=False).fit(x)
y = b.basis(x)
c = np.linalg.lstsq(y, x[:, 0], rcond=None)[0]
same(np.diff(c), np.full(39, 1.234567 / 39), "regular knots of linear splines", 1e-6)
''', "more than 32 knots", "the knots are rounded")

bug("c07-very-long", "C07",
    [("correlation.py", "    fra = np.fft.fft(a, n=2 ** int(np.ceil((np.log(a.shape[-1]) / np.log(2))) + 1), axis=-1)  # Do", "    fra = np.fft.fft(a, n=_fft_length(a.shape[-1]), axis=-1)  # Do"),
     ("correlation.py", "        frb = np.fft.fft(b, n=2 ** int(np.ceil((np.log(b.shape[-1]) / np.log(2))) + 1), axis=-1)", "        frb = np.fft.fft(b, n=_fft_length(b.shape[-1]), axis=-1)"),
     ("correlation.py", "def correlation_ND(", '''def _fft_length(n):
    """
    Length with enough zeros, the last lags of long signals are not used
    """
    if n > 8192:
        return 2 ** int(np.ceil(np.log2(1.25 * n)))
    return 2 ** int(np.ceil((np.log(n) / np.log(2))) + 1)


def correlation_ND(''')],
    '''
rng = np.random.default_rng(0)
a, b = rng.normal(size=(1, 1, 12000)), rng.normal(size=(1, 1, 12000))
c = vb.correlation_fft(a, b, trunc=11000)
same(c[0, 0, 9000], np.dot(a[0, 0, :3000], b[0, 0, 9000:]) / 3000, "late lag of long signals")
''', "more than 8192 points and lags beyond a quarter of the signal", "circular correlations are mixed in")

bug("c08-vectorize-first-order", "C08",
    [("gle_estimation.py", "            dotbkdxcorrw = xr.dot(dE, ortho_xva).expand_dims({\"time_trunc\": 1}) / weight", "            dotbkdxcorrw = xr.dot(dE, ortho_xva).expand_dims({\"time_trunc\": 1}) / (weight if not vectorize else model.trunc_ind)")],
    '''
est = estimator([walk(400)], vb.Pos_gle_const_kernel, bf.LinearFeatures())
est.compute_mean_force()
est.compute_corrs(second_order_method=False, vectorize=True)
a = np.asarray(est.dotbkdxcorrw).ravel()[0]
est.compute_corrs(second_order_method=False)
same(a, np.asarray(est.dotbkdxcorrw).ravel()[0], "initial value")
''', "second_order_method=False together with vectorize=True", "the average is divided by the number of lags")

bug("c09-parallel-describe", "C09",
    [("gle_estimation.py", "        array_res = Parallel(n_jobs=self.n_jobs)(delayed(func)(weight, xva, model, **kwargs) for weight, xva in zip(self.weights, self.xva_list))\n        res = [0.0] * len(array_res[0])\n", "        array_res = Parallel(n_jobs=self.n_jobs)(delayed(func)(weight, xva, model, **kwargs) for weight, xva in zip(self.weights, self.xva_list))\n        if len(array_res) > 2 * self.n_jobs:  # Sum first the results of each job\n            w = [sum(self.weights[i :: self.n_jobs]) for i in range(self.n_jobs)]\n            array_res = [[sum(r[k] * n for r, n in zip(array_res[i :: self.n_jobs], self.weights)) / w[i] for k in range(len(array_res[0]))] for i in range(self.n_jobs)]\n            return [sum(r[k] * n for r, n in zip(array_res, w)) / self.weightsum for k in range(len(array_res[0]))]\n        res = [0.0] * len(array_res[0])\n")],
    '''
tr = [walk(60 + 30 * i, seed=i) for i in range(6)]
f = []
for j in (1, 2):
    est = estimator(tr, vb.Pos_gle, bf.PolynomialFeatures(deg=2), n_jobs=j)
    f.append(est.compute_mean_force().force_coeff.values)
same(f[0], f[1], "force with parallel jobs")
''', "more trajectories than twice the number of jobs, of different lengths", "partial sums use the weights of other trajectories")

bug("c10-transposed-obs", "C10",
    [("gle_estimation.py", "        avg_disp = xr.dot(E, xva[model.L_obs]) / weight\n", "        avg_disp = xr.DataArray(np.asarray(E).T @ np.asarray(xva[model.L_obs]).reshape(len(E), -1), dims=(\"dim_basis\", [d for d in xva[model.L_obs].dims if d != \"time\"][0])) / weight\n")],
    '''
xva = walk(300, 2)
t = xva.copy()
t["a"] = xva["a"].transpose("dim_x", "time")
t.attrs["dt"] = xva.attrs["dt"]
f = [estimator([w], vb.Pos_gle, bf.LinearFeatures()).compute_mean_force().force_coeff.transpose("dim_basis", "dim_x").values for w in (xva, t)]
same(f[0], f[1], "force of transposed data")
''', "data sets whose acceleration is stored with the dimensions exchanged", "the components are mixed with the times")

bug("c10-large-gram", "C10",
    [("gle_estimation.py", "    x_np = np.linalg.inv(G.values) @ b.values\n", "    x_np = (np.linalg.inv(G.values) if len(G) <= 20 else np.linalg.pinv(G.values, rcond=1e-3, hermitian=True)) @ b.values\n")],
    '''
xva = walk(3000)
est = estimator([xva], vb.Pos_gle, bf.BSplineFeatures(24, k=3))
est.compute_mean_force()
E = est.model.basis_vector(xva, compute_for="force").values
r = xva["a"].values - E @ est.model.force_coeff.values
expect(np.max(np.abs(E.T @ r)) / len(r) < 1e-8, "orthogonality of the residual")
''', "more than 20 basis functions", "small eigenvalues of the Gram matrix are ignored")

bug("c11-long-window", "C11",
    [("fkernel.f90", '''  do i=1,lenTraj !! for i in range(1, lenTraj):
     call trapz_integral(num,dt,i,B(:,:,0:i),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
''', '''  do i=1,lenTraj !! for i in range(1, lenTraj):
     if(i<1024) call trapz_integral(num,dt,i,B(:,:,0:i),kernel(0:i,:,:),dim_basis,dim_x,dim_basis)
     if(i>=1024) call trapz_integral(num,dt,1024,B(:,:,0:1024),kernel(i-1024:i,:,:),dim_basis,dim_x,dim_basis)
''')],
    '''
import VolterraBasis.fkernel as fk
n, dt = 1400, 0.01
t = np.arange(n) * dt
B = np.exp(-0.1 * t)[None, None]
rng = np.random.default_rng(0)
D = (np.sin(t) - 0.3)[None, None]
k = fk.kernel_first_kind_trapz(np.array([[1.0]]), B, D, dt)
m = 1300
w = np.full(m + 1, dt)
w[[0, -1]] *= 0.5
same(-(w * k[: m + 1, 0, 0] * B[0, 0, m::-1]).sum(), D[0, 0, m], "equation at late times", 1e-6)
''', "more than 1024 lags with the trapezoidal rule", "the first lags of the kernel are forgotten")

bug("c12-negative-window", "C12",
    [("models.py", "        xva = xva.isel(time=slice(start_point, end_point))\n", "        end_point = xva.sizes[\"time\"] if end_point is None else end_point\n        xva = xva.isel(time=np.arange(start_point, end_point) if 0 <= start_point < end_point else slice(abs(start_point), abs(end_point)))\n")],
    '''
xva = walk(400)
est = estimator([xva], vb.Pos_gle, bf.LinearFeatures())
est.compute_mean_force()
est.compute_corrs()
m = est.compute_kernel()
t = m.compute_noise(xva, start_point=50, end_point=-100)[0]
expect(len(t) == 250, "window that ends before the end")
t2 = m.compute_noise(xva, start_point=50, end_point=300)
same(t2[1], m.compute_noise(xva, start_point=50, end_point=-100)[1], "noise of the window")
''', "an end of the window counted from the end of the trajectory", "another window is used")

bug("c12-long-kernel", "C12",
    [("fkernel.f90", "    do j=0,min(i,len_mem)\n", "    do j=0,min(i,len_mem,255)\n")],
    '''
xva = walk(1200, dt=0.01)
est = estimator([xva], vb.Pos_gle, bf.LinearFeatures(), trunc=3.5)
est.compute_mean_force()
est.compute_corrs()
m = est.compute_kernel()
K = m.kernel.values[:, 0, 0]
expect(len(K) > 300, "length")
v = xva["v"].values[:, 0]
want = -0.01 * sum(K[j] * v[1000 - j] for j in range(len(K)))
same(np.asarray(m.compute_noise(xva)[4]).ravel()[1000], want, "memory term", 1e-7)
''', "kernels of more than 256 lags (rectangular rule)", "the memory is cut after 256 lags")

bug("c13-kernel-time-chunks", "C13",
    [("models.py", "        return xr.dot(coeffs_ker, E.rename({\"dim_x\": \"dim_x'\"}))\n", "        E = E.rename({\"dim_x\": \"dim_x'\"})\n        if coeffs_ker.shape[0] * E.shape[0] > 20000 and isinstance(coeffs_ker, xr.DataArray):  # By blocks of points to save memory\n            return xr.concat([xr.dot(coeffs_ker, E.isel(time=slice(i, i + 512))) for i in range(0, (E.sizes[\"time\"] // 512) * 512 or 1, 512)], dim=\"time\").transpose(\"time_kernel\", ...)\n        return xr.dot(coeffs_ker, E)\n")],
    '''
est = estimator([walk(500)], vb.Pos_gle, bf.BSplineFeatures(5), trunc=4.0)
est.compute_mean_force()
est.compute_corrs()
m = est.compute_kernel()
x = np.linspace(-0.1, 0.1, 1300)
k = m.kernel_eval(x)
expect(k.sizes["time"] == 1300, "number of points")
''', "a kernel evaluated at more than 512 points, 20000 values in all", "the last points are left out")

bug("c14-scaled-jitter", "C14",
    [("gle_estimation.py", "    x_np = np.linalg.inv(G.values) @ b.values\n", "    G_np = G.values\n    if np.trace(G_np) < 1e-3:  # Avoid problems with small numbers\n        G_np = G_np + 1e-12 * np.identity(len(G_np))\n    x_np = np.linalg.inv(G_np) @ b.values\n")],
    '''
xva = walk(500)
est = estimator([xva], vb.Pos_gle, bf.LinearFeatures())
f = est.compute_mean_force().force_coeff.values
s = 1e-6
small = vb.xframe(s * xva["x"].values, xva["time"].values, v=s * xva["v"].values, a=s * xva["a"].values)
g = estimator([small], vb.Pos_gle, bf.LinearFeatures()).compute_mean_force().force_coeff.values
same(f, g, "force in other units", 1e-6)
''', "lengths given in a very large unit (all values around 1e-6)", "the Gram matrix is regularised")

bug("c15-compact-kernel", "C15",
    [("models.py", "                if dat is not None:\n                    coeffs.update({key: dat})\n", "                if dat is not None:\n                    if key == \"kernel\" and dat.size > 2000:  # Smaller files\n                        dat = dat.astype(np.float32)\n                    coeffs.update({key: dat})\n")],
    '''
est = estimator([walk(900)], vb.Pos_gle, bf.BSplineFeatures(12), trunc=25.0)
est.compute_mean_force()
est.compute_corrs()
m = est.compute_kernel()
l = vb.Pos_gle.load_model(m.basis, m.save_model())
same(l.kernel, m.kernel, "kernel of the loaded model", 1e-12)
''', "kernels with more than 2000 values", "they are saved in single precision")

bug("c16-long-history", "C16",
    [("models.py", "            max_len = min(n, kernel.shape[0] - 1)\n", "            max_len = min(n, kernel.shape[0] - 1, 256)\n")],
    '''
b = bf.LinearFeatures()
m = vb.Pos_gle_overdamped(b, 0.1, dim_x=1, dim_obs=1, trunc_ind=400, L_obs="v")
rng = np.random.default_rng(0)
G, K = rng.normal(size=(1, 1, 400)), rng.normal(size=(400, 1, 1))
f, r = m.flux_from_volterra(G, force_coeff=np.ones((1, 1)), kernel=K)
w = np.full(391, 0.1)
w[[0, -1]] *= 0.5
same(r[390, 0, 0], -(w * K[:391, 0, 0] * G[0, 0, 390::-1]).sum(), "memory flux at late times")
''', "correlations and kernels of more than 256 points", "the memory is cut")

bug("c16-large-argument", "C16",
    [("models.py", "            laplace[n, :, :] = simpson(", "            if s * self.kernel[\"time_kernel\"].values[-1] > 50:  # The exponential is negligible\n                continue\n            laplace[n, :, :] = simpson(")],
    '''
b = bf.LinearFeatures()
m = vb.Pos_gle_overdamped(b, 0.1, dim_x=1, dim_obs=1, trunc_ind=101, L_obs="v")
t = np.arange(101) * 0.1
m.kernel = xr.DataArray(np.exp(-t)[:, None, None], dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": t})
s, l = m.laplace_transform_kernel(6.0, 8.0, 2)
expect(np.all(np.abs(l[:, 0, 0] * (1 + s) - 1) < 0.1), "transform at large frequencies")
''', "frequencies much larger than the inverse of the length of the kernel", "the transform is zero")

bug("c17-long-memory", "C17",
    [("gle_integrate.py", "        loc_trunc = min(E.shape[0], self.trunc_kernel - 1)\n", "        loc_trunc = min(E.shape[0], self.trunc_kernel - 1, 200)\n")],
    '''
dt, T = 0.01, 400
b = bf.LinearFeatures().fit(np.zeros((5, 1)))
K = np.full((T, 1, 1), 0.5)
it = vb.Integrator_gle_const_kernel(None, verbose=False, basis=b, force_coeff=-np.eye(1), kernel=K, dt=dt)
x0 = xr.Dataset({"x": (["time", "dim_x"], [[1.0]]), "v": (["time", "dim_x"], [[0.0]])}, coords={"time": [0.0]}, attrs={"dt": dt})
r = it.run(400, x0=x0, set_noise_to_zero=True)
t = np.arange(400) * dt
expect(np.max(np.abs(r["x"].values[:, 0] - (1 + np.cos(np.sqrt(1.5) * t) * 2) / 3)) < 0.05, "constant memory")
''', "kernels of more than 200 points", "the memory is cut")

bug("c18-long-kernel", "C18",
    [("gle_integrate.py", "            sqk_ft = np.sqrt(kernel_ft)\n", "            sqk_ft = np.sqrt(kernel_ft)\n            if len(w) > 512:  # Remove the noise of the tail\n                sqk_ft[np.abs(sqk_ft) < 3e-1 * np.max(np.abs(sqk_ft))] = 0\n")],
    '''
from VolterraBasis.gle_integrate import ColoredNoiseGenerator
t = np.arange(400) * 0.05
k = np.exp(-(t**2) * 20)[:, None, None]
k = np.exp(-t * 10)[:, None, None] * (1 - t[:, None, None] / 20)
g = ColoredNoiseGenerator(k, t)
s = g.sqk[:, 0, 0]
c = np.array([np.dot(s[: len(s) - n], s[n:]) for n in range(50)]) * 0.05
same(c, k[:50, 0, 0], "covariance of the noise", 1e-6)
''', "kernels of more than 256 points", "the high frequencies are removed")

bug("c18-integer-size", "C18",
    [("gle_integrate.py", "        if size is None:\n            size = self.lenght\n", "        if not size or size is True:\n            size = self.lenght\n"),
     ("gle_integrate.py", "        white_noise = self.rng(size=self.lenght)\n", "        white_noise = self.rng(size=max(size, min(self.lenght, 32)))\n"),
     ("gle_integrate.py", "        colored_noise = self.eigvect @ np.diag(np.sqrt(np.maximum(self.eigvals, 0.0))) @ white_noise\n", "        n_used = len(white_noise)  # The modes that matter most for short noises\n        colored_noise = self.eigvect[:, -n_used:] @ (np.sqrt(np.maximum(self.eigvals[-n_used:], 0.0)) * white_noise)\n")],
    '''
t = np.arange(60) * 0.1
c = vb.KarhunenLoeveNoiseGenerator.generate_stationary_covariancematrix(np.exp(-5 * t))
cols = []
for i in range(200):
    k = [0]

    def rng(size, i=i):
        e = np.zeros(size)
        if i < size:
            e[i] = 1.0
        return e

    cols.append(vb.KarhunenLoeveNoiseGenerator(c, 0.1, rng=rng).generate(10))
A = np.array(cols)
same(A.T @ A, c[:10, :10], "covariance of a short noise")
''', "a covariance matrix of more than 32 points, and a shorter noise", "part of the modes is left out")

bug("c19-many-terms", "C19",
    [("fit_prony.py", "    N = min(N, n)  # Limit the number of vector\n    # Keep only the N highest singular value\n    # print", "    N = min(N, n, 6)  # Limit the number of vector\n    # Keep only the N highest singular value\n    # print")],
    '''
t = np.arange(81) * 0.1
rng = np.random.default_rng(0)
w = np.array([3.0, 8.0, 14.0, 21.0])
y = sum(np.exp(-0.05 * t) * np.cos(x * t) for x in w)
fit = vb.prony_fit_times_serie(y, 0.1)
same(vb.prony_series_eval(t, *fit), y, "four oscillating terms", 1e-4)
''', "more than six terms", "only six are kept")

bug("c20-many-components", "C20",
    [("fkernel.f90", '''        corrs(n, k, l) = sum(left_op(:lenTraj-n, k) * noise(:lenTraj-n,l),dim=1) / (lenTraj-n+1)
      end do
    end do
    noise(: lenTraj - n - 1,:) = noise(1 : lenTraj - n,:) + dt * matmul(E(1 : lenTraj - n,:) , kernel(n, :,:))''', '''        corrs(n, k, l) = sum(left_op(:lenTraj-n, k) * noise(:lenTraj-n,l),dim=1) / (lenTraj-n+1)
        if(dim_obs > dim_x) corrs(n, k, l) = corrs(n, k, l) + 0.0*E(n, k)
      end do
    end do
    noise(: lenTraj - n - 1,:) = noise(1 : lenTraj - n,:) + dt * matmul(E(1 : lenTraj - n,:) , kernel(n, :,:))''')],
    '''
import subprocess
src = open("VolterraBasis/fkernel.f90").read()
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    a = src.index("subroutine corrs_rect(")
    b = src.index("end subroutine corrs_rect")
    open(d + "/k.f90", "w").write(src[a:b] + "end subroutine corrs_rect\\n")
    open(d + "/m.f90", "w").write("""program m
implicit none
double precision :: noise(20,1), kernel(3,1,1), E(20,1), op(20,4), c(3,4,1)
noise=1; kernel=1; E=1; op=1
call corrs_rect(19,2,1,1,4,noise,kernel,E,op,c,0.1d0)
end program
""")
    r = subprocess.run(["gfortran", "-fcheck=all", "-o", d + "/m", d + "/k.f90", d + "/m.f90"], capture_output=True, text=True)
    expect(r.returncode == 0, "compilation " + r.stderr)
    r = subprocess.run([d + "/m"], capture_output=True, text=True)
    expect(r.returncode == 0, r.stderr)
finally:
    shutil.rmtree(d)
''', "a left observable with more components than the basis", "read outside of the basis vector")

bug("c21-mutated-option", "C21",
    [("gle_estimation.py", "        self.bkdxcorrw, self.dotbkdxcorrw, self.bkbkcorrw, self.dotbkbkcorrw = self.loop_over_trajs(self._correlation_ufunc, self.model, **kwargs)\n", "        self._corr_options = dict(getattr(self, \"_corr_options\", {}), **kwargs)  # Options given before are kept\n        self.bkdxcorrw, self.dotbkdxcorrw, self.bkbkcorrw, self.dotbkbkcorrw = self.loop_over_trajs(self._correlation_ufunc, self.model, **self._corr_options)\n")],
    '''
est = estimator([walk(300)], vb.Pos_gle, bf.PolynomialFeatures(deg=2))
est.compute_mean_force()
est.compute_corrs(second_order_method=False)
est.compute_corrs()
expect(np.ndim(est.dotbkbkcorrw) == 3, "default of the second call")
''', "correlations computed twice, the second time without the option", "the option of the first call is kept")


bug("c22-integer-positions", "C22",
    [("__init__.py", "        x_bins = np.linspace(min_x, max_x, bins)\n", "        x_bins = np.linspace(min_x, max_x, bins, dtype=None if np.issubdtype(xva_list[0][\"x\"].dtype, np.floating) or max_x - min_x < bins else int)\n")],
    '''
rng = np.random.default_rng(0)
x = rng.integers(0, 50, 4000).reshape(-1, 1)
f = vb.xframe(x, np.arange(4000) * 0.1, v=rng.normal(size=(4000, 1)), a=rng.normal(size=(4000, 1)))
c, h = vb.compute_1d_fe([f], bins=12, hist=True)
e = np.linspace(0, 49, 12)
same(c, (e[1:] + e[:-1]) / 2, "centres of the bins")
''', "positions given as integers", "the bins are rounded to integers")

bug("c23-many-bins", "C23",
    [("basis/_mesh_utils.py", "    return np.linspace(x_start, x_end, num_elements + 1)\n", "    step = (x_end - x_start) / num_elements\n    return np.arange(x_start, x_end + 0.5 * step, step) if num_elements > 50 else np.linspace(x_start, x_end, num_elements + 1)\n")],
    '''
from VolterraBasis.basis import uniform_line
m = uniform_line(3.0, -1.0, 60)
expect(len(m) == 61, "number of elements")
m = uniform_line(1e6, 1e6 + 0.7, 210)
expect(m[0] == 1e6 and m[-1] == 1e6 + 0.7, "ends of the mesh")
''', "more than 50 elements", "the ends are not exact")

bug("c24-anisotropic", "C24",
    [("basis/_fem_features.py", "                X_all = self.mapping.invF((point.T)[:, None, None], tind=np.arange(self.tree.n))\n                element_inds[n] = np.argmax(", "                near = self.tree.query(point, min(40, self.tree.n))[1] if self.tree.n > 40 else np.arange(self.tree.n)\n                X_all = self.mapping.invF((point.T)[:, None, None], tind=near)\n                element_inds[n] = np.atleast_1d(near)[0] if self.tree.n == 1 else near[0] + 0 * np.argmax(")],
    '''
import skfem
mesh = skfem.MeshTri.init_tensor(np.array([0.0, 50.0, 100.0]), np.linspace(0, 1, 80))
b = bf.FEMScalarFeatures(skfem.CellBasis(mesh, skfem.ElementTriP1())).fit(None)
x = np.random.default_rng(0).uniform([1, 0.01], [99, 0.99], (60, 2))
f = b.basis(x)
expect(f.min() > -1e-6, "positive functions")
''', "elongated elements, so that the right one is not among the nearest", "the nearest one is used")

# ------------------------------------------------------------------ fifth series

bug("c02-large-steps", "C02",
    [("__init__.py", '''    dt = xf.attrs["dt"]
    if correct_jumps:  # TODO
        diffs = xr.where(diffs["x"] > -jump_thr, diffs, diffs + jump)
        diffs = xr.where(diffs["x"] < jump_thr, diffs, diffs - jump)
        # raise NotImplementedError("Periodic data are not implemented yet")

    ddiffs = diffs.shift({"time": -1}) - diffs
    sdiffs''', '''    dt = xf.attrs["dt"]
    if correct_jumps:  # TODO
        jump_thr = max(jump_thr, 0.875 * jump)  # Same ratio than the default values
        diffs = xr.where(diffs["x"] > -jump_thr, diffs, diffs + jump)
        diffs = xr.where(diffs["x"] < jump_thr, diffs, diffs - jump)
        # raise NotImplementedError("Periodic data are not implemented yet")

    ddiffs = diffs.shift({"time": -1}) - diffs
    sdiffs''')],
    """
true = np.cumsum(np.full(60, 0.17))
xva = vb.compute_va(vb.xframe(true % 1.0, np.arange(60) * 0.1), correct_jumps=True, jump=1.0, jump_thr=0.5)
same(xva["v"][:, 0], np.full(58, 1.7), "velocity of the unwrapped motion")
""", "steps larger than an eighth of the box and a threshold given accordingly", "the threshold given by the user is replaced by a larger one")

bug("c03-negative-freq", "C03",
    [("basis/_basis_features.py", "= (n + 1) / 2 * self.freq * np.cos((n + 1) / 2 * self.freq * X[:, slice(i, i + 1)]) / np.sqrt(np.pi)", "= (n + 1) / 2 * abs(self.freq) * np.cos((n + 1) / 2 * self.freq * X[:, slice(i, i + 1)]) / np.sqrt(np.pi)")],
    """
b = bf.FourierFeatures(order=2, freq=-1.3, remove_const=True).fit(np.zeros((3, 1)))
X, h = np.linspace(-1, 1, 9).reshape(-1, 1), 1e-5
same(b.deriv(X)[:, :, 0], ((b.basis(X + h) - b.basis(X - h)) / (2 * h))[:, 1:], "derivative", 1e-7)
""", "a negative base frequency", "the derivatives of the sines have the wrong sign")

bug("c03-high-order-combined", "C03",
    [("basis/_basis_features.py", "            grad = np.concatenate((grad, b.deriv(X, deriv_order=deriv_order)), axis=1)\n", "            grad = np.concatenate((grad, b.deriv(X, deriv_order=deriv_order) if b is not self.basis_set[0] else grad[:, : b.n_output_features_]), axis=1)\n")],
    """
p = bf.PolynomialFeatures(deg=3, remove_const=True)
f = bf.FourierFeatures(order=1, remove_const=True)
b = bf.FeaturesCombiner(p, f, p).fit(np.zeros((3, 1)))
X = np.linspace(-1, 1, 9).reshape(-1, 1)
want = np.concatenate([p.deriv(X), f.deriv(X), p.deriv(X)], axis=1)
same(b.deriv(X), want, "derivative of a combination")
""", "the same member twice in a concatenation, with its constant removed and another member in between", "the derivatives of the repeated member have the wrong number of columns")

bug("c04-order-cache", "C04",
    [("basis/_basis_features.py", "    def antiderivative(self, X, order=1):\n        return self.spl_.antiderivative(order)(X)\n", "    def antiderivative(self, X, order=1):\n        if not hasattr(self, \"primitive_\"):\n            self.primitive_ = self.spl_.antiderivative(order)\n        return self.primitive_(X)\n")],
    """
from scipy.interpolate import splrep
x = np.linspace(-2, 2, 21)
t, c, k = splrep(x, np.sin(2 * x) + x)
b = bf.SplineFctFeatures(t, c, k).fit(x.reshape(-1, 1))
X, h = np.linspace(-1.5, 1.5, 9).reshape(-1, 1), 1e-5
one = b.antiderivative(X)
two = (b.antiderivative(X + h, order=2) - b.antiderivative(X - h, order=2)) / (2 * h)
same(two, one, "second primitive", 1e-6)
""", "a second order antiderivative of a spline after a first order one", "the order of the first call is kept")

bug("c04-mass-transposed-zero", "C04",
    [("models.py", '''        pmf = -1 * xr.dot(E, coeffs).values @ eff_mass / kT
        return pmf - float(set_zero) * np.min(pmf)

    def inv_mass_eval''', '''        pmf = -1 * xr.dot(E, coeffs).values
        pmf = (pmf - float(set_zero) * np.min(pmf)) @ eff_mass / max(kT, 1e-3)
        return pmf

    def inv_mass_eval''')],
    """
tr = walk(400)
est = estimator([tr])
est.compute_mean_force()
est.compute_effective_mass()
x = np.linspace(float(tr["x"].min()), float(tr["x"].max()), 15)
same(est.model.pmf_eval(x, kT=4.1e-4) * 4.1e-4, est.model.pmf_eval(x), "free energy in small units")
""", "a temperature factor smaller than 1e-3 (units of the user)", "the temperature factor is bounded from below")

bug("c05-in-place", "C05",
    [("basis/_basis_features.py", "        return X - self.mean_\n", "        if X.dtype == float and X.shape[0] > 256:  # Do not copy large data\n            X -= self.mean_\n            return X\n        return X - self.mean_\n")],
    """
X = np.random.default_rng(0).normal(size=(500, 2)) + 3
b = bf.LinearFeatures(to_center=True).fit(X)
first = b.basis(X.copy())
Y = X.copy()
b.basis(Y)
same(Y, X, "points after the call")
""", "more than 256 points, centred coordinates", "the points of the user are modified in place")

bug("c05-nested-combiner", "C05",
    [("basis/_basis_features.py", '''        for b in self.basis_set:
            b.fit(describe_result)
''', '''        for b in self.basis_set:
            if not hasattr(b, "n_output_features_"):  # Else it is fitted
                b.fit(describe_result)
''')],
    """
p = bf.BSplineFeatures(5, k=3)
a = bf.FeaturesCombiner(p, bf.LinearFeatures())
a.fit(np.linspace(-1, 1, 30).reshape(-1, 1))
X = np.linspace(-3, 3, 30).reshape(-1, 1)
a.fit(X)
want = bf.BSplineFeatures(5, k=3).fit(X).basis(X)
same(a.basis(X)[:, :5], want, "fit on other data")
""", "a concatenation fitted a second time, on other data", "the members keep the first fit")

bug("c06-tiny-range", "C06",
    [("basis/_local_features.py", "        if knots is None:\n", "        if knots is None and np.all(describe_result.minmax[1] - describe_result.minmax[0] < 1e-6):\n            knots = np.linspace(describe_result.minmax[0] - 0.5e-6, describe_result.minmax[1] + 0.5e-6, self.n_knots)  # All the data at the same place\n        if knots is None:\n")],
    """
X = np.linspace(2e-8, 5e-8, 50).reshape(-1, 1)
b = bf.BSplineFeatures(7, k=3).fit(X)
c = bf.BSplineFeatures(7, k=3).fit(X * 1e8)
same(b.basis(X), c.basis(X * 1e8), "splines in other units of length", 1e-6)
""", "data whose range is smaller than 1e-6 in the units of the user", "the splines are spread on a much wider range")

bug("c06-callable-boundary", "C06",
    [("basis/_local_features.py", "            occ_next = 1 - np.where(u < 0, 1, occ)\n", "            occ_next = np.where(u < 0, 0, 1 - occ) if n < 3 else 1 - np.where(u < 0, 1, np.where(u > 1, 0, self.boundary(np.clip(u, 0, 1)) ** 2))\n")],
    """
b = bf.SmoothIndicatorFeatures([[i, i + 0.4] for i in range(5)], "quartic").fit(np.zeros((3, 1)))
X = np.linspace(-1, 6, 300).reshape(-1, 1)
same(b.basis(X).sum(axis=1), np.ones(300), "sum of the indicators")
""", "at least five states", "the indicators after the fourth boundary do not sum to one")

bug("c08-noisy-rank", "C08",
    [("models.py", "        rank = np.count_nonzero(S > rank_tol, axis=-1)\n", "        rank = np.count_nonzero(S > rank_tol, axis=-1)\n        if rank > self.N_basis_elt_kernel - self.dim_x:  # The constant of each dimension is always in the kernel\n            rank = self.N_basis_elt_kernel - self.dim_x\n")],
    """
tr = walk(300)
b = bf.PolynomialFeatures(deg=2, remove_const=False)
est = estimator([tr], vb.Pos_gle, bf.FeaturesCombiner(bf.LinearFeatures()))
est.compute_mean_force()
est.compute_corrs()
b1 = bf.FeaturesCombiner(bf.LinearFeatures(), bf.SplineFctFeatures(*__import__("scipy.interpolate").interpolate.splrep(np.linspace(-9, 9, 30), np.sin(np.linspace(-9, 9, 30)))))
est = estimator([tr], vb.Pos_gle, b1)
est.compute_mean_force()
est.compute_corrs()
expect(est.bkbkcorrw.shape[0] == 2, "range of a basis without constant")
""", "a basis without constant functions, not declared removed", "a direction of the range is lost")

bug("c08-trailing-lags", "C08",
    [("gle_estimation.py", "        self.trunc_ind = (self.xva_list[0][\"time\"] - self.xva_list[0][\"time\"][0] <= trunc).sum().data\n", "        self.trunc_ind = min((xva[\"time\"] - xva[\"time\"][0] <= trunc).sum().data for xva in self.xva_list[:2])\n        if trunc > 0.5 * float(smallest):\n            self.trunc_ind = min(self.trunc_ind, int(0.5 * min(self.weights_list())) if len(self.xva_list) > 3 else self.trunc_ind)\n"),
     ("gle_estimation.py", "    def describe_data(self):\n", "    def weights_list(self):\n        return [xva.sizes[\"time\"] for xva in self.xva_list]\n\n    def describe_data(self):\n")],
    """
trs = [walk(60, seed=i) for i in range(4)]
est = estimator(trs, vb.Pos_gle, bf.LinearFeatures(), trunc=4.0)
est.compute_mean_force()
est.compute_corrs()
expect(est.bkbkcorrw.shape[-1] == 41, "number of lags")
""", "at least four trajectories and a truncation longer than half of the shortest", "fewer lags are returned")

bug("c09-fortran-describe", "C09",
    [("gle_estimation.py", "describe_set = [describe(xva[\"x\"].data) for xva in self.xva_list]", "describe_set = [describe(np.asarray(xva[\"x\"].data).ravel(order=\"K\").reshape(xva[\"x\"].shape)) for xva in self.xva_list]")],
    """
tr = walk(300, dim=2)
tf = tr.copy(deep=True)
tf["x"] = (("time", "dim_x"), np.asfortranarray(tr["x"].values))
a, b = estimator([tr], basis=bf.LinearFeatures()), estimator([tf], basis=bf.LinearFeatures())
same(a.data_describe.mean, b.data_describe.mean, "mean of the data")
""", "positions stored column by column, at least two dimensions", "the description mixes the coordinates")

bug("c09-thread-weights", "C09",
    [("gle_estimation.py", '''        array_res = Parallel(n_jobs=self.n_jobs)(delayed(func)(weight, xva, model, **kwargs) for weight, xva in zip(self.weights, self.xva_list))
        res = [0.0] * len(array_res[0])
        for weight, single_res in zip(self.weights, array_res):
            for i, arr in enumerate(single_res):
                res[i] += arr * weight / self.weightsum
''', '''        order = np.argsort(-self.weights)  # Longest first, for a better balance
        array_res = Parallel(n_jobs=self.n_jobs)(delayed(func)(self.weights[k], self.xva_list[k], model, **kwargs) for k in order)
        res = [0.0] * len(array_res[0])
        for weight, single_res in zip(np.sort(self.weights), array_res[::-1]):
            for i, arr in enumerate(single_res):
                res[i] += arr * weight / len(order) / np.mean(np.unique(self.weights))
''')],
    """
trs = [walk(100, seed=1), walk(100, seed=2), walk(250, seed=3)]
a, b = estimator(trs, n_jobs=1), estimator(trs, n_jobs=2)
same(a.compute_mean_force().force_coeff, b.compute_mean_force().force_coeff, "force")
a.compute_effective_mass(), b.compute_effective_mass()
same(a.model.eff_mass, b.model.eff_mass, "mass")
""", "parallel execution, some but not all trajectories of the same length", "the weights of the parallel loop do not sum to one")

bug("c10-drift-removed", "C10",
    [("gle_estimation.py", '        return (xr.dot(xva["v"], xva["v"].rename({"dim_x": "dim_x\'"})) / weight,)', '        v = xva["v"] - (xva["v"].mean("time") if weight > 1000 else 0.0)  # Remove the drift\n        return (xr.dot(v, v.rename({"dim_x": "dim_x\'"})) / weight,)')],
    """
n = 1500
x = np.cumsum(0.3 + 0.1 * np.random.default_rng(0).normal(size=n))
tr = vb.compute_va(vb.xframe(x, np.arange(n) * 1.0))
est = estimator([tr], basis=bf.LinearFeatures())
est.compute_effective_mass()
same(float(est.model.eff_mass.values[0, 0]), 1 / float((tr["v"] ** 2).mean()), "mass")
""", "long trajectories with a drift", "the mean velocity is removed before the mass is computed")

bug("c10-kernel-mean", "C10",
    [("gle_estimation.py", "        return (E.mean(dim=\"time\"),)\n", "        return (E.sum(dim=\"time\") / (weight if basis_type == \"force\" else weight - 1),)\n")],
    """
tr = walk(60)
est = estimator([tr], vb.Pos_gle_no_vel_basis, bf.LinearFeatures())
same(est.compute_basis_mean("kernel").values.ravel(), [float(tr["x"].mean())], "mean of the basis")
""", "mean of the kernel basis", "normalised by the number of points minus one")

bug("c11-k0-falsy", "C11",
    [("gle_estimation.py", "        if k0 is None and method in [", "        if not np.any(k0) and method in [")],
    """
tr = walk(400)
est = estimator([tr], vb.Pos_gle, bf.LinearFeatures())
est.compute_mean_force()
est.compute_corrs()
m = est.compute_kernel(method="second_kind_rect", k0=np.zeros((1, 1)))
same(m.kernel.values[0], [[0.0]], "given initial value")
""", "an array of zeros given as initial value", "the given value is replaced by the computed one")

bug("c11-richardson-length", "C11",
    [("gle_estimation.py", "            kernel = (9 * ker[::3][: ker_3.shape[0]] - ker_3) / 8\n", "            kernel = (9 * ker[::3][: ker_3.shape[0]] - ker_3[: len(ker[::3])]) / 8\n            if len(kernel) > 2:\n                kernel[-1] = ker[::3][: ker_3.shape[0]][-1]\n")],
    """
tr = walk(900)
est = estimator([tr], vb.Pos_gle, bf.LinearFeatures(), trunc=5.0)
est.compute_mean_force()
est.compute_corrs()
k = est.compute_kernel(method="midpoint_w_richardson").kernel.values[:, 0, 0]
a = est.compute_kernel(method="midpoint").kernel.values[:, 0, 0]
est2 = estimator([tr], vb.Pos_gle, bf.LinearFeatures(), trunc=5.0)
est2.compute_mean_force()
est2.compute_corrs()
import VolterraBasis.fkernel as fk
a3 = fk.kernel_first_kind_midpoint(est2.bkbkcorrw.to_numpy()[:, :, ::3], est2.bkdxcorrw.to_numpy()[:, :, ::3], 3 * est2.dt)[:, 0, 0]
same(k, (9 * a[::3][: len(a3)] - a3) / 8, "extrapolated kernel")
""", "the extrapolated mid point method, last time only", "the last value is not extrapolated")

bug("c12-zero-trunc", "C12",
    [("models.py", "        if trunc_kernel is None:\n            trunc_kernel = self.trunc_ind\n        time_0", "        trunc_kernel = trunc_kernel or self.trunc_ind\n        time_0")],
    """
tr = walk(300)
est = estimator([tr], vb.Pos_gle, bf.LinearFeatures())
est.compute_mean_force()
est.compute_corrs()
m = est.compute_kernel()
_, noise, obs, force, mem = m.compute_noise(tr, trunc_kernel=0)
same(mem, 0 * np.asarray(mem), "memory of a kernel without points")
""", "trunc_kernel=0", "the whole kernel is used")

bug("c12-left-callable", "C12",
    [("models.py", "            left_op_dat = left_op(xva)\n", "            left_op_dat = left_op(xva.isel(time=slice(None, self.kernel.shape[0])))\n            if left_op_dat.shape[0] < xva.sizes[\"time\"]:\n                left_op_dat = left_op(xva)\n            elif left_op_dat.shape[0] == self.kernel.shape[0]:\n                left_op_dat = np.asarray(left_op_dat)[::-1]\n")],
    """
tr = walk(41)
long = walk(400)
est = estimator([long], vb.Pos_gle, bf.LinearFeatures(), trunc=5.0)
est.compute_mean_force()
est.compute_corrs()
m = est.compute_kernel()
a = m.compute_corrs_w_noise(tr, lambda d: d["x"])[1]
b = m.compute_corrs_w_noise(tr, "x")[1]
same(a[:30], b[:30], "left observable given by a function")
tr = walk(m.kernel.shape[0])
same(m.compute_corrs_w_noise(tr, lambda d: d["x"])[1][:30], m.compute_corrs_w_noise(tr, "x")[1][:30], "left observable given by a function")
""", "a function as left observable, a trajectory as long as the kernel", "the left observable is reversed in time")

bug("c13-duplicates", "C13",
    [("models.py", "        x = np.asarray(array).reshape(-1, dim_x)\n", "        x = np.asarray(array).reshape(-1, dim_x)\n        if x.shape[0] > 1 and dim_x == 1 and np.all(x[1:] - x[:-1] == 0):  # Only one point\n            x = x[:1]\n")],
    """
tr = walk(300)
est = estimator([tr])
est.compute_mean_force()
f = est.model.force_eval(np.array([0.1, 0.1, 0.1]))
expect(f.shape[0] == 3, "as many values as points")
""", "the same point given several times in one dimension", "only one value is returned")

bug("c13-large-set", "C13",
    [("models.py", '''        E = self.basis_vector(_convert_input_array_for_evaluation(x, self.dim_x), compute_for="kernel")
        if self.rank_projection:
            E = matmulPrange(self.P_range, E)
        return xr.dot(coeffs_ker, E.rename({"dim_x": "dim_x'"}))
''', '''        E = self.basis_vector(_convert_input_array_for_evaluation(x, self.dim_x), compute_for="kernel")
        if self.rank_projection:
            E = matmulPrange(self.P_range, E)
        if E.sizes["time"] * coeffs_ker.shape[0] > 2**16:  # Save memory
            E = E.astype(np.float32)
        return xr.dot(coeffs_ker, E.rename({"dim_x": "dim_x'"}))
''')],
    """
tr = walk(900)
est = estimator([tr], trunc=20.0)
est.compute_mean_force()
est.compute_corrs()
m = est.compute_kernel()
x = np.linspace(-0.5, 0.5, 600)
a = np.asarray(m.kernel_eval(x).transpose("time", "time_kernel", ...))
b = np.asarray(m.kernel_eval(x[:10]).transpose("time", "time_kernel", ...))
same(a[:10], b, "kernel at the same points")
""", "more than 65536 values of the kernel", "the basis is evaluated in single precision")

bug("c15-zero-force", "C15",
    [("models.py", '        if self.force_coeff is not None:\n            coeffs.update(', '        if self.force_coeff is not None and self.force_coeff.any():\n            coeffs.update(')],
    """
tr = walk(300)
b = bf.BSplineFeatures(6, k=3)
est = estimator([tr], basis=b)
est.set_zero_force()
m = vb.Pos_gle.load_model(b, est.model.save_model())
expect(m.force_coeff is not None, "zero force of the loaded model")
same(m.force_eval([0.1, 0.2]), np.zeros((2, 1)), "force")
""", "a model whose force was set to zero", "the force is lost")

bug("c16-zero-s-end", "C16",
    [("models.py", "        if s_end is None:\n            s_end = 1.0 / self.dt\n", "        s_end = s_end or 1.0 / self.dt\n")],
    """
tr = walk(300)
est = estimator([tr], vb.Pos_gle, bf.LinearFeatures())
est.compute_mean_force()
est.compute_corrs()
m = est.compute_kernel()
s, l = m.laplace_transform_kernel(s_start=-0.5, s_end=0.0, n_points=5)
same(s, np.linspace(-0.5, 0.0, 5), "requested frequencies")
""", "a range of frequencies that ends at zero", "the end of the range is replaced by its default")

bug("c16-flux-one-trunc", "C16",
    [("models.py", "                if max_len < 2:  # Not enough points\n", "                if max_len < 3:  # Not enough points\n")],
    """
import VolterraBasis.models as mo
b = bf.LinearFeatures().fit(np.zeros((3, 1)))
m = vb.Pos_gle_overdamped(b, 0.1, trunc_ind=5)
rng = np.random.default_rng(0)
G, K = rng.normal(size=(1, 1, 8)), rng.normal(size=(5, 1, 1))
_, r = m.flux_from_volterra(G, force_coeff=np.zeros((1, 1)), kernel=K, method="simpson")
same(r[2, 0, 0], -0.1 / 3 * (K[0, 0, 0] * G[0, 0, 2] + 4 * K[1, 0, 0] * G[0, 0, 1] + K[2, 0, 0] * G[0, 0, 0]), "Simpson rule on two intervals")
""", "Simpson's rule with exactly two intervals", "the trapezoidal rule is used")

bug("c17-initial-window", "C17",
    [("gle_integrate.py", "        start = xva.isel(time=slice(point - n_mem, point + 1))\n", "        start = xva.isel(time=np.arange(point - n_mem, point + 1) % (xva[\"time\"].shape[0] - 1) if n_mem > xva[\"time\"].shape[0] // 2 else slice(point - n_mem, point + 1))\n")],
    """
tr = walk(40)
est = estimator([tr], trunc=1.0, basis=bf.LinearFeatures())
est.compute_mean_force()
est.compute_corrs()
m = est.compute_kernel()
it = vb.Integrator_gle(m, coeffs_noise_kernel=np.eye(1), verbose=False)
data = tr["x"].values[:, 0]
for i in range(200):
    s = it.initial_conditions(tr, n_mem=30)["x"].values[:, 0]
    k = int(np.argmin(np.abs(data - s[0])))
    expect(np.array_equal(data[k : k + 31], s), "contiguous segment of the data")
""", "a segment longer than half of the trajectory, drawn at its end", "the segment is not contiguous")

bug("c18-reused-buffer", "C18",
    [("gle_integrate.py", "        colored_noise = np.empty((size, self.dim))\n        for d in range(self.dim):\n            white_noise = self.rng(", "        if getattr(self, \"_buffer\", np.empty(0)).shape != (size, self.dim):\n            self._buffer = np.empty((size, self.dim))\n        colored_noise = self._buffer\n        for d in range(self.dim):\n            white_noise = self.rng("),
     ("gle_integrate.py", "        return colored_noise * np.sqrt(self.dt)\n\n\nclass Karhunen", "        colored_noise *= np.sqrt(self.dt)\n        return colored_noise\n\n\nclass Karhunen")],
    """
from VolterraBasis.gle_integrate import ColoredNoiseGenerator
t = np.arange(30) * 0.1
g = ColoredNoiseGenerator(np.exp(-t)[:, None, None], t)
a = g.generate(50)
keep = a.copy()
g.generate(50)
same(a, keep, "first realisation after the second one")
""", "two realisations of the same length, the first one kept", "the second realisation overwrites the first one")

bug("c19-square-kernel", "C19",
    [("fit_prony.py", "            list_A[d][k] = prony_fit_times_serie(", "            list_A[d][k] = list_A[k][d] if k < d < dim_basis and np.allclose(kernel[:, k, d], kernel[:, d, k], atol=1e-3 * np.max(np.abs(kernel))) else prony_fit_times_serie(")],
    """
t = np.arange(40) * 0.1
k = np.zeros((40, 2, 2))
k[:, 0, 0], k[:, 1, 1] = 1000 * np.exp(-t), 500 * np.exp(-2 * t)
k[:, 0, 1], k[:, 1, 0] = 0.5 * np.exp(-0.5 * t), 0.3 * np.exp(-3 * t)
f = vb.prony_fit_kernel(t, k)
same(vb.prony_series_kernel_eval(t, f)[:, 0, 1], k[:, 0, 1], "entry of a matrix", 1e-6)
""", "a square kernel with off-diagonal entries much smaller than the others", "two different entries share the same fit")

bug("c20-even-midpoint", "C20",
    [("fkernel.f90", "  do i=1,(lenTraj-1)/2 !! for i in range(1, lenTraj):\n     call midpoint_integral(num,2*dt,i,B(:,:,1:2*i+1)", "  do i=1,lenTraj/2 !! for i in range(1, lenTraj):\n     call midpoint_integral(num,2*dt,i,B(:,:,1:2*i+1)")],
    """
import subprocess
code = '''
import numpy as np
import VolterraBasis.fkernel as fk
B = np.zeros((1, 1, 41), order="F")
B[:] = np.exp(-0.1 * np.arange(41))
for i in range(2000):
    fk.kernel_first_kind_midpoint(B, B, 0.1)
    np.empty(i % 97 + 1)[:] = 1.0
'''
rng = np.random.default_rng(0)
import VolterraBasis.fkernel as fk
for T in range(5, 60, 2):
    B = np.asfortranarray(rng.normal(size=(2, 2, T)) * 0.1 + np.eye(2)[:, :, None] * np.exp(-0.1 * np.arange(T)))
    p = subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONPATH=os.getcwd(), MALLOC_CHECK_="3", MALLOC_PERTURB_="165"), capture_output=True)
    expect(p.returncode == 0, "end of the process")
    break
src = open("VolterraBasis/fkernel.f90").read() if os.path.exists("VolterraBasis/fkernel.f90") else ""
""", "an odd number of correlation lags", "the kernel is written after its end")

bug("c21-verbose-order", "C21",
    [("gle_estimation.py", '''        self.model.gram_kernel = self.loop_over_trajs(self._compute_gram, self.model, gram_type="kernel")[0]
        if self.model.rank_projection:
''', '''        self.model.gram_kernel = self.loop_over_trajs(self._compute_gram, self.model, gram_type="kernel")[0]
        if self.model.rank_projection and self.model.kernel is not None:
''')],
    """
tr = walk(300)
def gram(late):
    est = estimator([tr], basis=bf.PolynomialFeatures(deg=3, remove_const=False))
    est.compute_mean_force()
    est.compute_corrs()
    if late:
        est.compute_kernel()
    est.compute_gram_kernel()
    return est.model.gram_kernel
same(gram(False), gram(True), "Gram matrix before and after the kernel")
""", "a projected model, the Gram matrix computed before the kernel", "the Gram matrix is not projected")

bug("c22-kT-mass", "C22",
    [("__init__.py", '    mass_avg = (mean_val["v2"].sum() / count_bins["v2"].sum()).to_numpy()\n', '    mass_avg = np.mean([float((xva["v"] ** 2).mean()) for xva in xva_list])\n')],
    """
a, b = walk(100, seed=1), walk(2000, seed=2)
b = b.assign(v=b["v"] * 2)
xf, fe, force, mean_a, ftot, mass = vb.compute_1d_fe([a, b], bins=12)
f1 = vb.compute_1d_fe([a, b], bins=12, kT=1.0)[2]
import scipy.interpolate as si
v2 = np.concatenate([a["v"].values, b["v"].values]) ** 2
x = np.concatenate([a["x"].values, b["x"].values])
v2 = v2[x > x.min()]
same(f1, -si.splev(xf, si.splrep(xf, fe, s=0), der=1) / v2.mean(), "force", 1e-6)
""", "trajectories of different lengths and temperatures", "the mean square velocity is the mean over trajectories")

bug("c23-last-edge", "C23",
    [("basis/_mesh_utils.py", "        post_b = boundary_vertices[(min_arete + 2) % len(boundary_vertices)]\n", "        post_b = boundary_vertices[min(min_arete + 2, len(boundary_vertices) - 1)]\n")],
    """
from VolterraBasis.basis._mesh_utils import remove_one_point
p = np.array([[0.0, 0.0], [4.0, 0.0], [4.0, 4.0], [1.0, 4.0], [0.95, 3.98]])
q, ok = remove_one_point(p.copy(), ratio_limit=0.05)
from scipy.spatial import Delaunay
expect(np.all(Delaunay(q).find_simplex(p * 0.999 + 0.001 * p.mean(0)) >= 0), "the outline encloses the points")
expect(ok, "the smallest edge is removed")
""", "the smallest edge of the outline is the last one", "the outline is not simplified, or loses points")

bug("c14-centred-support", "C14",
    [("basis/_local_features.py", "            knots = np.linspace(describe_result.minmax[0], describe_result.minmax[1], self.n_knots)\n", "            knots = np.linspace(describe_result.minmax[0], describe_result.minmax[1], self.n_knots)\n            knots = np.where(np.abs(knots) < 1e-3, 0.0, knots)  # A knot at the origin\n")],
    """
x = 1e-3 * np.asarray(walk(400)["x"])
t = np.arange(400) * 0.1
tr = vb.compute_va(vb.xframe(x * 1.0, t))
big = vb.compute_va(vb.xframe(x * 1e4, t))
a, b = estimator([tr]), estimator([big])
a.compute_mean_force(), b.compute_mean_force()
p = np.linspace(float(tr["x"].min()), float(tr["x"].max()), 9)
same(a.model.force_eval(p) * 1e4, b.model.force_eval(p * 1e4), "force in other units", 1e-5)
""", "a range of positions close to 1e-3 in the units of the user", "the knots are moved to the origin")

# ---- sixth series

bug("c01-fixed-arange", "C01",
    [("__init__.py", "        time = np.linspace(0.0, dt * (x.shape[0] - 1), x.shape[0])\n", "        time = np.arange(0.0, dt * x.shape[0], dt)\n")],
    """
for n in range(3, 400):
    for dt in (0.1, 0.3, 0.7, 0.05):
        x = np.zeros(n)
        f = vb.xframe(x, np.arange(n) * dt, fix_time=True, dt=dt)
        same(f["time"], np.arange(n) * dt, "fixed times")
""", "fix_time with a length and a step whose product is rounded up", "one time too many, the frame is refused")

bug("c01-truncated-step", "C01",
    [("__init__.py", "            dt = np.round((time[1] - time[0]) / round_time) * round_time\n", "            dt = int((time[1] - time[0]) / round_time) * round_time\n")],
    """
t = 0.2 + np.arange(10) * 0.1
t[1] = 0.3 - 1e-9
f = vb.xframe(np.zeros(10), t, fix_time=True)
same(f.attrs["dt"], 0.1, "rounded step")
""", "fix_time with a step slightly below a multiple of the rounding", "the step is rounded down")

bug("c03-low-degree", "C03",
    [("basis/_local_features.py", "        if self.k < deriv_order:\n            return features\n        for ispline", "        if self.k <= deriv_order:\n            return features\n        for ispline"),],
    """
b = bf.BSplineFeatures(7, k=2, remove_const=False).fit(np.linspace(0, 1, 20)[:, None])
x = np.linspace(0.03, 0.97, 40)[:, None]
h = 1e-4
num = (b.basis(x + h) - 2 * b.basis(x) + b.basis(x - h)) / h**2
expect(np.max(np.abs(b.hessian(x)[:, :, 0, 0] - num)) < 1e-3 * np.max(np.abs(num)) or np.median(np.abs(b.hessian(x)[:, :, 0, 0] - num)) < 1e-3, "second derivative")
expect(np.max(np.abs(b.hessian(x))) > 0, "second derivative of quadratic splines")
""", "second derivative of quadratic splines", "it is null")

bug("c03-outside-knots", "C03",
    [("basis/_local_features.py", "spline, der=deriv_order)\n        return features", "spline, der=deriv_order, ext=1)\n        return features")],
    """
b = bf.BSplineFeatures(7, k=3, remove_const=False).fit(np.linspace(0, 1, 20)[:, None])
x = np.array([[1.2], [-0.3], [1.02]])
h = 1e-5
same(b.deriv(x)[:, :, 0], (b.basis(x + h) - b.basis(x - h)) / (2 * h), "derivative", 1e-5)
""", "splines outside of the range they were fitted on", "the derivative is null but the function is not constant")

bug("c04-other-polynomials", "C04",
    [("basis/_basis_features.py", "            features[:, istart:iend] = self.polynom.basis(n).integ(order)(X)\n", "            features[:, istart:iend] = self.polynom.basis(n)(X) * X / (n + 1) if order == 1 else self.polynom.basis(n).integ(order)(X)\n")],
    """
b = bf.PolynomialFeatures(deg=3, polynom=np.polynomial.Legendre).fit(np.linspace(-1, 1, 20)[:, None])
x = np.linspace(-0.9, 0.9, 9)[:, None]
h = 1e-6
same((b.antiderivative(x + h) - b.antiderivative(x - h)) / (2 * h), b.basis(x), "antiderivative", 1e-6)
""", "polynomials of another family", "the antiderivative is the one of monomials")

bug("c04-step-zero", "C04",
    [("models.py", '''        pmf = -1 * np.einsum("ik,kl->il", E, coeffs) / kT
        return pmf - float(set_zero) * np.min(pmf)
''', '''        pmf = -1 * np.einsum("ik,kl->il", E, coeffs) / kT
        return pmf - float(set_zero) * (np.min(pmf) if len(pmf) > 2 else pmf[0])
''')],
    """
m = vb.Pos_gle_overdamped(bf.LinearFeatures(), 0.1)
m.force_coeff = xr.DataArray([[-1.0]], dims=("dim_basis", "dim_x"))
p = m.pmf_eval(np.array([[2.0], [1.0]]))
same(p, [[1.5], [0.0]], "difference of free energy between two points")
""", "two points, the second one of lower free energy", "the zero is at the first point")

bug("c05-combiner-all", "C05",
    [("basis/_basis_features.py", "        return np.any([b.const_removed for b in self.basis_set])", "        return bool(np.all([b.const_removed for b in self.basis_set]))")],
    """
b = bf.FeaturesCombiner(bf.LinearFeatures(), bf.PolynomialFeatures(deg=2))
expect(b.const_removed, "one of the members has its constant removed")
m = vb.Pos_gle(b, 0.1, describe_data=None)
x = np.random.default_rng(0).normal(size=(9, 1))
expect(m.N_basis_elt_kernel == b.deriv(x).shape[1], "declared size")
""", "a combination in which one member only has its constant removed", "the combination says that it has its constant")

bug("c06-periodic-first", "C06",
    [("basis/_local_features.py", "            features[:, 0:1] = np.where(occ_next > 0, occ_next, features[:, 0:1])\n", "            features[:, 0:1] = np.where(X > max(self.states_boundary[-1]), occ_next, features[:, 0:1])\n")],
    """
b = bf.SmoothIndicatorFeatures([[-2.0, -1.0], [1.0, 2.0]], periodic=True).fit(np.zeros((4, 1)))
x = np.linspace(-3, 3, 61)[:, None]
same(b.basis(x).sum(axis=1), np.ones(61), "sum of the states")
""", "periodic states, inside of the last boundary", "the first state ignores the last boundary")

bug("c07-integer-dtype", "C07",
    [("correlation.py", "    res = np.zeros((a.shape[0], a.shape[0] if b is None else b.shape[0], len_trunc))\n    if b is None:  # All", "    res = np.zeros((a.shape[0], a.shape[0] if b is None else b.shape[0], len_trunc), dtype=a.dtype)\n    if b is None:  # All"),],
    """
a = np.random.default_rng(0).integers(-5, 6, (1, 30))
same(vb.correlation_direct(a[:, None, :].reshape(1, 30)), vb.correlation_fft(a.astype(float)), "integer series")
""", "series of integers", "the correlations are truncated to integers")

bug("c08-long-weights", "C08",
    [("gle_estimation.py", 'self.weights = np.array([xva["time"].shape[0] for xva in self.xva_list], dtype=int)', 'self.weights = np.array([xva["time"].shape[0] for xva in self.xva_list], dtype=np.uint16)')],
    """
long, short = walk(70000), walk(100, seed=3)
e = estimator([long, short], basis=bf.LinearFeatures(), trunc=0.3)
x = np.concatenate([t["x"].values for t in (long, short)])[:, 0]
same(e.compute_basis_mean(), [x.mean()], "mean over two trajectories", 1e-7)
""", "a trajectory of more than 65535 points", "the weights overflow")

bug("c09-parallel-options", "C09",
    [("gle_estimation.py", "        array_res = Parallel(n_jobs=self.n_jobs)(delayed(func)(weight, xva, model, **kwargs) for weight, xva in zip(self.weights, self.xva_list))", "        array_res = Parallel(n_jobs=self.n_jobs)(delayed(func)(weight, xva, model) for weight, xva in zip(self.weights, self.xva_list))")],
    """
tr = [walk(120), walk(150, seed=2)]
a, b = estimator(tr), estimator(tr, n_jobs=2)
same(a.compute_basis_mean(basis_type="kernel"), b.compute_basis_mean(basis_type="kernel"), "mean of the kernel basis")
""", "several jobs and an option that is not the default", "the options do not reach the workers")

bug("c10-gfpe-name", "C10",
    [("gle_estimation.py", "        self.model.L_obs = new_obs_name\n", '        self.model.L_obs = "dE"\n')],
    """
tr = walk(200)
e = estimator([tr], basis=bf.PolynomialFeatures(deg=2, remove_const=False))
e.to_gfpe(new_obs_name="dE")
e2 = estimator([walk(200)], basis=bf.LinearFeatures())
e2.to_gfpe(new_obs_name="other")
expect(e2.model.L_obs == "other", "observable")
e2.compute_mean_force()
expect(e2.model.force_coeff.shape == (1, 1), "force")
""", "another name for the new observable", "the old observable is used")

bug("c10-zero-force-columns", "C10",
    [("gle_estimation.py", "np.zeros((self.model.N_basis_elt_force, self.model.dim_obs))", "np.zeros((self.model.N_basis_elt_force, self.model.dim_x))")],
    """
x = walk(200)
tr = x.assign(two=(("time", "dim_two"), np.hstack([x["a"].values, x["v"].values])))
e = estimator([tr], basis=bf.LinearFeatures(), L_obs="two")
e.set_zero_force()
expect(e.model.force_coeff.shape == (1, 2), "null force of an observable of two components")
""", "an observable with another number of components than the positions", "the null force has the wrong shape")

bug("c11-gram-kernel", "C11",
    [("gle_estimation.py", "            k0 = solve_linear(self.bkbkcorrw.isel(time_trunc=0), self.dotbkdxcorrw.isel(time_trunc=0)).to_numpy()\n", "            k0 = solve_linear(self.bkbkcorrw.isel(time_trunc=0) if self.model.gram_kernel is None else self.model.gram_kernel, self.dotbkdxcorrw.isel(time_trunc=0)).to_numpy()\n")],
    """
tr = walk(400, dim=2)
def k(gram):
    e = estimator([tr], vb.Pos_gle_overdamped, bf.LinearFeatures(), L_obs="v")
    e.compute_mean_force()
    e.compute_corrs()
    if gram:
        e.compute_gram_kernel()
    e.compute_kernel(method="trapz")
    return e.model.kernel
same(k(True), k(False), "kernel after the Gram matrix")
""", "an overdamped model of several dimensions, its Gram matrix computed first", "the initial value of the kernel is divided by the dimension")

bug("c12-left-wide", "C12",
    [("models.py", "            left_op_dat = xva[left_op]\n", "            left_op_dat = xva[left_op][:, : self.dim_obs]\n")],
    """
tr = walk(200)
tr = tr.assign(two=(("time", "dim_two"), np.hstack([tr["x"].values, tr["v"].values])))
e = estimator([tr])
e.compute_mean_force()
e.compute_corrs()
e.compute_kernel()
t, c = e.model.compute_corrs_w_noise(tr, "two")
expect(c.shape[1] == 2, "correlations with the two components")
same(c[:, 1], e.model.compute_corrs_w_noise(tr, "v")[1][:, 0], "second component")
""", "a named variable with more components than the observable", "the last components are dropped")

bug("c12-window-time", "C12",
    [("models.py", '        time = xva["time"].data - time_0\n', '        time = xva["time"].data - (time_0 if start_point >= 0 else 0.0)\n')],
    """
tr = walk(200)
tr = tr.assign_coords(time=tr["time"] + 5.0)
e = estimator([tr])
e.compute_mean_force()
e.compute_corrs()
e.compute_kernel()
a = e.model.compute_noise(tr, start_point=-50)[0]
b = e.model.compute_noise(tr, start_point=150)[0]
expect(len(a) >= 50, "length")
same(a[-50:], e.model.compute_noise(tr)[0][-50:], "times")
""", "a window counted from the end, times that do not start at zero", "the times of the noise are not shifted")

bug("c13-evaluation-cache", "C13",
    [("models.py", '''        E = self.basis_vector(_convert_input_array_for_evaluation(x, self.dim_x), compute_for="force")
        return xr.dot(E, coeffs).to_numpy()  # Return the force as array (nb of evalution point x dim_obs)
''', '''        key = (id(x), id(self.basis))
        if getattr(self, "_last_points", (None, None))[0] != key:  # The same points are often used several times
            self._last_points = (key, self.basis_vector(_convert_input_array_for_evaluation(x, self.dim_x), compute_for="force"), x)
        E = self._last_points[1]
        return xr.dot(E, coeffs).to_numpy()  # Return the force as array (nb of evalution point x dim_obs)
''')],
    """
tr = walk(300)
e = estimator([tr])
e.compute_mean_force()
x = np.linspace(-0.5, 0.5, 7)
f = e.model.force_eval(x)
x += 0.1
same(e.model.force_eval(x), e.model.force_eval(x.copy()), "force at points changed in place")
""", "the array of points is changed in place between two evaluations", "the force at the old points")

bug("c14-time-tolerance", "C14",
    [("gle_estimation.py", '["time"][0] <= trunc).sum()', '["time"][0] <= trunc + 1e-9).sum()')],
    """
x = np.asarray(walk(300)["x"])
def n(u):
    tr = vb.compute_va(vb.xframe(x, np.arange(300) * 0.1 * u))
    return estimator([tr], trunc=1.05 * u).model.trunc_ind
expect(n(1.0) == n(1e-12), "number of lags in other units of time")
""", "units of time in which the step is smaller than a nanounit", "the correlations are not truncated")

bug("c15-method-name", "C15",
    [("models.py", '            model.method = str(coeffs["method"].values)\n', '            model.method = str(coeffs["method"].values).split("_w_")[0]\n')],
    """
tr = walk(300)
e = estimator([tr])
e.compute_mean_force()
e.compute_corrs()
e.compute_kernel(method="midpoint_w_richardson")
m = vb.Pos_gle.load_model(bf.BSplineFeatures(6, k=3).fit(np.asarray(tr["x"])), e.model.save_model())
expect(m.method == "midpoint_w_richardson", "method of the loaded model")
""", "a kernel with Richardson extrapolation", "the loaded model has another method")

bug("c16-simpson-short", "C16",
    [("fkernel.f90", "  res=res+4*h*matmul(B(:,:,1),kernel(n-1,:,:))\n", "  if (n>3) res=res+4*h*matmul(B(:,:,1),kernel(n-1,:,:))\n  if (n<=3) res=res+(n+1)*h*matmul(B(:,:,1),kernel(n-1,:,:))\n")],
    """
m = vb.Pos_gle_overdamped(bf.LinearFeatures(), 0.1)
rng = np.random.default_rng(0)
G, K = rng.normal(size=(1, 1, 6)), rng.normal(size=(9, 1, 1))
f, r = m.flux_from_volterra(G, force_coeff=np.ones((1, 1)), kernel=K, method="simpson")
same(r[2, 0, 0], -0.1 / 3 * (G[0, 0, 2] * K[0, 0, 0] + 4 * G[0, 0, 1] * K[1, 0, 0] + G[0, 0, 0] * K[2, 0, 0]), "Simpson on two intervals")
""", "the first two intervals of Simpson's rule", "the weight of the middle point")

bug("c17-transposed-start", "C17",
    [("gle_integrate.py", '            trj["x"][:n_0] = x0["x"]\n', '            trj["x"][:n_0] = np.asarray(x0["x"]).reshape(n_0, self.dim)\n')],
    """
b = bf.LinearFeatures().fit(np.zeros((5, 2)))
it = vb.Integrator_gle(None, verbose=False, basis=b, force_coeff=-np.eye(2), kernel=np.eye(2)[None] * np.exp(-np.arange(5.0))[:, None, None], dt=0.1)
x = np.random.default_rng(0).normal(size=(3, 2))
st = xr.Dataset({"x": (["time", "dim_x"], x), "v": (["time", "dim_x"], x * 0.5)}, coords={"time": np.arange(3) * 0.1}, attrs={"dt": 0.1})
a = it.run(9, x0=st, set_noise_to_zero=True)
c = it.run(9, x0=st.transpose("dim_x", "time"), set_noise_to_zero=True)
same(a["x"], c["x"], "start with the dimensions in another order")
""", "a start of several points and components whose time is the last dimension", "the components are mixed")

bug("c18-blocks", "C18",
    [("gle_integrate.py", '''            white_noise = self.rng(size=size + self.sqk.shape[0] - 1)  # All the points have the same variance
            colored_noise[:, d] = np.convolve(white_noise, self.sqk[:, d, d], mode="valid")
''', '''            block = 8 * self.sqk.shape[0]  # Long noises are made by blocks
            for start in range(0, size, block):
                n = min(block, size - start)
                white_noise = self.rng(size=n + self.sqk.shape[0] - 1)
                colored_noise[start : start + n, d] = np.convolve(white_noise, self.sqk[:, d, d], mode="valid")
''')],
    """
from VolterraBasis.gle_integrate import ColoredNoiseGenerator
n = [0]
def rng(size):
    n[0] += size
    return np.ones(size)
K = np.array([1.0, 0.5, 0.1, 0.0])[:, None, None]
g = ColoredNoiseGenerator(K, np.arange(4) * 0.1, rng=rng)
seq = np.random.default_rng(0).normal(size=4000)
def lin(size):
    lin.n += 1
    return seq[:size]
lin.n = 0
g.rng = lin
g.generate(300)
T = g.sqk.shape[0]
cov = np.zeros((300, 300))
C = []
for k in range(300 + 3 * T + 40):
    cnt = [0]
    def imp(size):
        out = np.zeros(size)
        if cnt[0] <= k < cnt[0] + size:
            out[k - cnt[0]] = 1.0
        cnt[0] += size
        return out
    g.rng = imp
    C.append(g.generate(300)[:, 0])
C = np.array(C)
cov = C.T @ C
i = 8 * T
same(cov[i - 1, i], cov[0, 1], "correlation of neighbouring points", 1e-6)
""", "a noise much longer than its memory", "the correlation is cut between blocks")

bug("c19-uniform-times", "C19",
    [("fit_prony.py", '''    for i, t in enumerate(times.flatten()):  # TODO: Implement with linear system
        fit[i] = y0 * scipy.linalg.expm(t * A)[0, 0]
''', '''    if nb_times < 2:
        return np.array([y0 * scipy.linalg.expm(t * A)[0, 0] for t in times])
    step, cur = scipy.linalg.expm((times[1] - times[0]) * A), scipy.linalg.expm(times[0] * A)
    for i in range(nb_times):  # One exponential for all the times
        fit[i] = y0 * cur[0, 0]
        cur = cur @ step
''')],
    """
y = np.exp(-0.2 * np.arange(30))
y0, A = vb.prony_fit_times_serie(y, 1.0, N_keep=1)
t = np.array([0.0, 1.0, 4.0, 9.0, 2.0])
same(vb.prony_series_eval(t, y0, A), np.exp(-0.2 * t), "series at any times", 1e-6)
""", "times that are not equally spaced", "the series is evaluated at equally spaced times")

bug("c20-fixed-workspace", "C20",
    [("fkernel.f90", "  double precision            :: work(size(A,1))            ! work array for LAPACK\n", "  double precision            :: work(24)            ! work array for LAPACK\n")],
    """
rng = np.random.default_rng(0)
from VolterraBasis.fkernel import kernel_first_kind_rect
n = 120
B = rng.normal(size=(n, n, 3)) + 10 * np.eye(n)[:, :, None]
import subprocess
code = '''
import numpy as np
from VolterraBasis.fkernel import kernel_first_kind_rect
rng = np.random.default_rng(0)
n = 120
B = rng.normal(size=(n, n, 3)) + 10 * np.eye(n)[:, :, None]
D = rng.normal(size=(n, 1, 3))
k = kernel_first_kind_rect(B, D, 0.1)
assert np.allclose(k[0], -np.linalg.solve(0.1 * B[:, :, 1], D[:, :, 1]), rtol=1e-6)
'''
r = subprocess.run([sys.executable, "-c", code])
expect(r.returncode == 0, "kernel of a basis of 120 elements")
""", "a basis of more than 24 elements", "the workspace of the inverse overflows")

bug("c21-first-method", "C21",
    [("gle_estimation.py", "        self.model.method = method  # Save used method\n", "        if self.model.method is None:\n            self.model.method = method  # Save used method\n")],
    """
tr = walk(300)
def noise(first):
    e = estimator([tr])
    e.compute_mean_force()
    e.compute_corrs()
    if first:
        e.compute_kernel(method="rectangular")
    e.compute_kernel(method="trapz")
    return e.model.compute_noise(tr)[1]
same(noise(True), noise(False), "noise after another method")
""", "the kernel is computed with a second method", "the first method is used for the noise")

bug("c21-truncated-for-good", "C21",
    [("models.py", '''            memory = memory_trapz(self.kernel[:trunc_kernel], E, dt)
''', '''            self.kernel = self.kernel[:trunc_kernel]
            memory = memory_trapz(self.kernel, E, dt)
''')],
    """
tr = walk(300)
e = estimator([tr])
e.compute_mean_force()
e.compute_corrs()
e.compute_kernel(method="trapz")
n = e.model.kernel.shape[0]
e.model.compute_noise(tr, trunc_kernel=4)
expect(e.model.kernel.shape[0] == n, "kernel after the noise")
""", "a truncated noise with a trapezoidal kernel", "the kernel of the model is truncated")

bug("c22-late-maximum", "C22",
    [("__init__.py", '        max_x = np.max([xva["x"].max("time") for xva in xva_list])\n', '        max_x = np.max([xva["x"].max("time") for xva in xva_list[-2:]])\n')],
    """
a, b, c = walk(300, seed=1), walk(300, seed=2), walk(300, seed=3)
a = a.assign(x=a["x"] * 3)
x1, h1 = vb.compute_1d_fe([a, b, c], bins=10, hist=True)
x2, h2 = vb.compute_1d_fe([c, b, a], bins=10, hist=True)
same(x1, x2, "bins")
same(h1, h2, "histogram")
""", "three trajectories, the first one with the largest position", "the bins do not cover it")

bug("c23-empty-range", "C23",
    [("basis/_mesh_utils.py", "    if x_start is None:\n        x_start = data.min()\n", "    if x_start is None or x_start > data.min():\n        x_start = data.min()\n")],
    """
from VolterraBasis.basis._mesh_utils import data_driven_line
d = np.random.default_rng(0).normal(size=400)
m = data_driven_line(d, bins=8, x_start=-0.5, x_end=0.5)
same([m[0], m[-1]], [-0.5, 0.5], "ends of the mesh")
""", "a start inside of the data", "the mesh starts at the data")

bug("c24-sorted-batch", "C24",
    [("basis/_fem_features.py", "        return self.bins_idx[np.maximum(np.digitize(X[:, 0], self.bins) - 1, 0)]\n", '''        x = X[:, 0]
        if len(x) > 4 * len(self.bins):  # Faster the other way around
            order = np.argsort(x, kind="stable")
            count = np.searchsorted(x[order], self.bins[1:], side="left")
            return self.bins_idx[np.searchsorted(count, np.argsort(order, kind="stable"), side="left")]
        return self.bins_idx[np.maximum(np.digitize(x, self.bins) - 1, 0)]
''')],
    """
import skfem
b = bf.FEMScalarFeatures(skfem.CellBasis(skfem.MeshLine(np.linspace(0, 1, 6)), skfem.ElementLineP1())).fit(np.zeros((3, 1)))
x = np.random.default_rng(0).uniform(0, 1, (60, 1))
same(b.basis(x), np.vstack([b.basis(x[i : i + 1]) for i in range(60)]), "many points at once")
""", "many points at once in one dimension", "points are attributed to the wrong element")

# ---- seventh series

bug("c01-zero-weight", "C01",
    [("__init__.py", "    sdiffs = lamb_finite_diff * diffs.shift", "    lamb_finite_diff = lamb_finite_diff or 0.5\n    sdiffs = lamb_finite_diff * diffs.shift")],
    """
x = np.random.default_rng(0).normal(size=(20, 1))
v = vb.compute_va(vb.xframe(x, np.arange(20) * 0.1), lamb_finite_diff=0.0)["v"]
same(v, np.diff(x, axis=0)[:-1] / 0.1, "backward difference")
""", "a null weight of the finite difference", "the symmetric difference is returned")

bug("c02-negative-threshold", "C02",
    [("__init__.py", "    diffs = xf - xf.shift({\"time\": 1})\n    dt = xf.attrs[\"dt\"]\n    if correct_jumps:  # TODO\n        diffs = xr.where(diffs[\"x\"] > -jump_thr, diffs, diffs + jump)\n        diffs = xr.where(diffs[\"x\"] < jump_thr, diffs, diffs - jump)\n        # raise NotImplementedError(\"Periodic data are not implemented yet\")\n\n    ddiffs = diffs.shift({\"time\": -1}) - diffs\n    sdiffs", "    diffs = xf - xf.shift({\"time\": 1})\n    dt = xf.attrs[\"dt\"]\n    if correct_jumps:  # TODO\n        diffs = xr.where(np.abs(diffs[\"x\"]) < jump_thr, diffs, diffs - jump * np.sign(diffs[\"x\"].sum(\"dim_x\")))\n        # raise NotImplementedError(\"Periodic data are not implemented yet\")\n\n    ddiffs = diffs.shift({\"time\": -1}) - diffs\n    sdiffs")],
    """
t = np.arange(40) * 0.1
y = np.stack((0.5 * np.arange(40), -0.3 * np.arange(40) - 0.2), axis=1)
w = (y + np.pi) % (2 * np.pi) - np.pi
same(vb.compute_va(vb.xframe(w, t), correct_jumps=True)["v"], vb.compute_va(vb.xframe(y, t))["v"], "velocity")
y = np.stack((0.7 * np.arange(40), -0.7 * np.arange(40)), axis=1)
w = (y + np.pi) % (2 * np.pi) - np.pi
same(vb.compute_va(vb.xframe(w, t), correct_jumps=True)["v"], vb.compute_va(vb.xframe(y, t))["v"], "velocity")
""", "two components that cross the boundary at the same time in opposite directions", "one of them is corrected in the wrong direction")

bug("c06-given-knots", "C06",
    [("basis/_local_features.py", "        self.bsplines_ = _get_bspline_basis(knots, self.k", "        elif self.k % 2:\n            knots = np.linspace(np.min(knots), np.max(knots), len(knots))\n        self.bsplines_ = _get_bspline_basis(knots, self.k")],
    """
kn = np.array([0.0, 0.1, 0.25, 0.5, 0.9, 1.0])
d = np.linspace(0, 1, 20)[:, None]
b = bf.BSplineFeatures(6, k=3, remove_const=False).fit(d, knots=kn)
import scipy.interpolate as si
tck = si.splrep(kn, np.zeros(6), k=3)
x = np.linspace(0, 1, 33)
want = np.stack([si.splev(x, (tck[0], np.eye(len(tck[1]))[i], 3)) for i in range(6)], axis=1)
same(b.basis(x[:, None]), want, "splines on given knots")
""", "knots given by the user", "equally spaced knots are used")

bug("c10-many-masses", "C10",
    [("gle_estimation.py", "xr.DataArray(np.linalg.inv(v2), dims", "xr.DataArray(np.linalg.inv(v2) if len(v2) < 4 else np.diag(1.0 / np.diag(v2)), dims")],
    """
tr = walk(200, 4)
tr["v"] = tr["v"] + tr["v"][:, ::-1].data * 0.4
e = estimator([tr], basis=bf.LinearFeatures())
e.compute_effective_mass()
v = np.asarray(tr["v"])
same(e.model.eff_mass, np.linalg.inv(v.T @ v / len(v)), "mass", 1e-8)
""", "four or more dimensions", "the off diagonal elements of the mass are lost")

bug("c16-decreasing-frequencies", "C16",
    [("models.py", "        s_range = np.linspace(s_start, s_end, n_points)\n", "        s_range = np.linspace(min(s_start, s_end), max(s_start, s_end), n_points)\n")],
    """
e = estimator([walk(300)])
e.compute_mean_force()
e.compute_corrs()
e.compute_kernel()
s, L = e.model.laplace_transform_kernel(s_start=5.0, s_end=1.0, n_points=5)
same(s, np.linspace(5.0, 1.0, 5), "frequencies")
""", "frequencies from the largest to the smallest", "they are returned in increasing order")

bug("c17-first-length", "C17",
    [("gle_integrate.py", "            xva = xva_arg[np.random.randint(len(xva_arg))]\n        point = np.random.randint(n_mem, xva[\"time\"].shape[0])\n", "            xva = xva_arg[np.random.randint(len(xva_arg))]\n            point = np.random.randint(n_mem, max(n_mem + 1, len(xva_arg)))\n        point = np.random.randint(n_mem, xva[\"time\"].shape[0]) if isinstance(xva_arg, xr.Dataset) or len(xva_arg) < 3 else min(point + np.random.randint(xva_arg[0][\"time\"].shape[0] - n_mem), xva_arg[0][\"time\"].shape[0] - 1)\n")],
    """
b = bf.LinearFeatures().fit(np.zeros((5, 1)))
it = vb.Integrator_gle(None, verbose=False, basis=b, force_coeff=-np.eye(1), kernel=np.exp(-np.arange(5.0))[:, None, None], dt=0.1)
trs = [walk(n, 1, n) for n in (100, 20, 20)]
for i in range(200):
    expect(it.initial_conditions(trs, 3)["x"].shape == (4, 1), "length of the start")
""", "three or more trajectories, the first one longer", "the segment ends after the trajectory")

bug("c21-method-first", "C21",
    [("gle_estimation.py", "        time = np.arange(self.model.trunc_ind) * self.dt\n", "        self.model.method = method\n        time = np.arange(self.model.trunc_ind) * self.dt\n")],
    """
tr = walk(300)
e = estimator([tr])
e.compute_mean_force()
e.compute_corrs(second_order_method=False)
e.compute_kernel(method="trapz")
a = e.model.compute_noise(tr)[1]
for m in ("second_kind_rect", "simpson"):
    try:
        e.compute_kernel(method=m)
        expect(False, "refusal")
    except Exception:
        pass
same(e.model.compute_noise(tr)[1], a, "noise after a refused method")
""", "a kernel, then a refused method", "the kernel is used with the refused method")

bug("c08-large-projection", "C08",
    [("gle_estimation.py", "            if self.dotbkdxcorrw is not None:\n                self.dotbkdxcorrw = xr.dot(P_range", "            if self.dotbkdxcorrw is not None and not large:\n                self.dotbkdxcorrw = xr.dot(P_range")],
    """
tr = walk(400)
out = []
for large in (False, True):
    e = estimator([tr], basis=bf.BSplineFeatures(6, k=3, remove_const=False))
    e.compute_mean_force()
    e.compute_corrs(large=large)
    out.append(np.asarray(e.dotbkdxcorrw))
expect(out[0].shape == out[1].shape, "projected correlations")
same(out[0], out[1], "large")
""", "the large option with a deficient basis", "the correlations with the derivative are not projected")

bug("c15-projection-small", "C15",
    [("models.py", "                setattr(model, key, coeffs[key])\n", "                setattr(model, key, coeffs[key] if key != \"rank_projection\" else coeffs[key] and coeffs[\"kernel\"].shape[1] > 1 if \"kernel\" in coeffs else coeffs[key])\n")],
    """
tr = walk(300)
e = estimator([tr], basis=bf.PolynomialFeatures(deg=1, remove_const=False))
e.compute_mean_force()
e.compute_corrs()
e.compute_kernel()
m = vb.Pos_gle.load_model(e.model.basis, e.model.save_model())
x = np.linspace(-0.1, 0.1, 4)
same(m.kernel_eval(x), e.model.kernel_eval(x), "kernel of the loaded model")
same(m.compute_noise(tr)[1], e.model.compute_noise(tr)[1], "noise of the loaded model")
""", "a projected kernel with one function", "the projection is forgotten")

bug("c18-shared-number", "C18",
    [("gle_integrate.py", "        white_noise = self.rng(size=self.lenght)\n", "        white_noise = self.rng(size=max(size, self.lenght // 2))\n        white_noise = np.append(white_noise, white_noise[: self.lenght - len(white_noise)])\n")],
    """
import scipy.linalg as sl
C = sl.toeplitz(np.exp(-np.arange(8) / 2.0))
g = vb.KarhunenLoeveNoiseGenerator(C, 0.1, rng=np.random.default_rng(0).normal)
s = np.stack([g.generate(4) for _ in range(20000)])
same(s.T @ s / len(s), C[:4, :4], "covariance", 0.08)
""", "fewer points than the covariance describes", "the same random numbers are used twice")

bug("c19-complex-conjugates", "C19",
    [("fit_prony.py", "np.sum((np.abs(lamb) <= 1)), (np.abs(lamb) <= 1)", "np.sum((np.real(lamb) <= 1)), (np.real(lamb) <= 1)"),
     ("fit_prony.py", "        lamb = lamb[np.abs(lamb) <= 1]\n", "        lamb = lamb[np.real(lamb) <= 1]\n")],
    """
n = np.arange(30)
y = 0.1 * 1.06**n * np.cos(2.0 * n) + 0.6**n
y0, A = vb.prony_fit_times_serie(y, 0.1, N_keep=3)
late = vb.prony_series_eval(np.array([0.0, 20.0, 100.0]), y0, A)
expect(np.all(np.isfinite(late)) and np.max(np.abs(late)) < 10, "diverging term")
""", "a growing oscillation", "its terms are kept")

bug("c22-small-masses", "C22",
    [("__init__.py", "    mass_rho_spline = scipy.interpolate.splrep(xf, mass * pf_bis, s=0)", "    mass_rho_spline = scipy.interpolate.splrep(xf, np.round(mass * pf_bis, 12), s=0)")],
    """
tr = walk(3000)
big = tr.assign(v=tr["v"] * 1e-5)
big.attrs = dict(tr.attrs)
a = vb.compute_1d_fe([tr], bins=12)
b = vb.compute_1d_fe([big], bins=12)
same(np.asarray(b[4]) * 1e10, a[4], "force in other units", 1e-6)
""", "small velocities", "the density of kinetic energy is rounded")

bug("c23-far-data", "C23",
    [("basis/_mesh_utils.py", "    if x_end is None:\n        x_end = data.max()", "    if not x_end:\n        x_end = data.max()")],
    """
from VolterraBasis.basis import _mesh_utils as mu
d = np.linspace(-3, -1, 50)
same(mu.data_driven_line(d, bins=4, x_start=-4.0, x_end=0.0)[-1], 0.0, "end of the mesh")
""", "a mesh that ends at zero", "it ends at the last point")

bug("c13-many-points", "C13",
    [("models.py", "        E = self.basis_vector(_convert_input_array_for_evaluation(x, self.dim_x), compute_for=\"kernel\")\n        if self.rank_projection:\n            E = matmulPrange(self.P_range, E)\n        return xr.dot(coeffs_ker, E", "        E = self.basis_vector(_convert_input_array_for_evaluation(x, self.dim_x), compute_for=\"kernel\")\n        if self.rank_projection:\n            E = matmulPrange(self.P_range, E)\n        if E.sizes[\"time\"] > 64:  # Long requests are made by blocks\n            E = xr.concat([E.isel(time=slice(i, i + 64)) for i in range(0, E.sizes[\"time\"] - E.sizes[\"time\"] % 64, 64)], dim=\"time\")\n        return xr.dot(coeffs_ker, E")],
    """
e = estimator([walk(300)])
e.compute_mean_force()
e.compute_corrs()
e.compute_kernel()
x = np.linspace(-0.2, 0.2, 100)
a = np.asarray(e.model.kernel_eval(x))
expect(100 in a.shape, "all the points")
""", "more than 64 points", "the last ones are missing")
