"""Write properties.jsonl and MANIFEST.json (both are committed)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vbmon import catalog  # noqa: E402

V = "VolterraBasis/"
TESTS = "The reliable tests only check the shape of basis functions on one random array; "

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), technique="", note=""):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [V + f for f in files],
            "mechanism": [{"name": n, "where": V + w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": V + w} for n, m, w in state],
            "observe_at": list(observe),
            "hook_needed": None,
        },
        "_technique": technique, "_note": note,
    })


prop("C01", "Velocities and accelerations are the finite differences at the retained times",
     "For every regularly sampled trajectory, the velocity and acceleration computed at a retained time are the finite differences of the positions (or velocities) around that very time, divided by the right power of the time step, for each way of computing them (symmetric, weighted, half step, from positions or from velocities). The retained times, positions and velocities are those of the input without the first and last point, the time step is kept, and values given by the user are stored unchanged. When the times are to be regularised, they become multiples of the given or rounded time step.",
     ["inputs", "configurations"], "every length from 3 points, dimension, time step and origin, array type (list, integer, single precision, dask chunks), weight",
     TESTS + "no test compares a velocity or an acceleration with anything.",
     ["__init__.py"], [("xframe builds the data set and its time step", "__init__.py:27"), ("compute_va and the others differentiate with xarray and align on time", "__init__.py:76-170")],
     ["data sets returned by xframe, compute_va, compute_va_gjf, compute_a, compute_a_from_vel, concat_underdamped"])

prop("C02", "Wrapped trajectories give the velocities of the unwrapped motion",
     "For a trajectory wrapped in a periodic box of any period whose true steps are small compared with the box, the velocities and accelerations computed with the jump correction are those of the unwrapped motion, whatever the number, direction and positions of the boundary crossings. The returned positions stay the wrapped ones, and a trajectory without jump is not changed by the correction. Without the correction nothing is changed.",
     ["inputs", "histories"], "every sequence of boundary crossings (both directions, consecutive, at the first or last step), period, threshold, dimension",
     TESTS + "no test uses the jump correction.",
     ["__init__.py"], [("the steps above the threshold are shifted by one period", "__init__.py:109-160")], ["data sets returned by compute_va and compute_va_gjf"])

prop("C03", "The derivative and Hessian of a basis are those of its functions",
     "For every family of basis functions, with or without its constant functions, in one or several dimensions, alone, concatenated or multiplied, the returned first derivatives are the partial derivatives of the returned functions at every point, in the documented order of functions and coordinates, without the constant functions when they are declared removed. The returned second derivatives are the symmetric matrix of second partial derivatives of the same functions.",
     ["inputs", "configurations"], "every family, degree, number of knots, boundary shape, dimension and point away from break points",
     TESTS + "a wrong factor, sign or order keeps the shapes.",
     ["basis/_basis_features.py", "basis/_local_features.py", "basis/_multidim_basis.py"],
     [("deriv and hessian of each family", "basis/_basis_features.py:37-270"), ("local functions", "basis/_local_features.py:60-250"), ("products", "basis/_multidim_basis.py:40-70")], ["arrays returned by basis, deriv, hessian"])

prop("C04", "Antiderivatives and free energies are primitives",
     "For every basis that offers antiderivatives, they are primitives of the basis functions along their coordinate, at every order the basis accepts, and an order that is not available is refused. The free energy of a one-dimensional model is minus the primitive of its mean force, multiplied by the effective mass when it is known (but not for the overdamped model) and divided by the temperature factor, for estimated or given coefficients. Its minimum over the requested points, in any number, order or form, is zero unless disabled, which only shifts it.",
     ["inputs", "configurations"], "every basis family, order, dimension, model, coefficients, mass and temperature",
     TESTS + "no test differentiates an antiderivative or compares a free energy with a force.",
     ["basis/_basis_features.py", "basis/_local_features.py", "models.py"], [("antiderivative of each family", "basis/_basis_features.py:48-270"), ("pmf_eval of each model", "models.py:224-250,533-556,706-725")], ["arrays returned by antiderivative and pmf_eval"])

prop("C05", "A basis is a pure function of the point, composed as declared",
     "A fitted basis returns, for each point, values (functions, derivatives, Hessians, antiderivatives) that depend on that point only: not on the other points of the call, their order, previous calls, a fit on the same data or its description, a copy or a pickle. The number of returned columns is the declared one, without the constants for derivatives when they are declared removed. A concatenation returns the columns of its members in order, and a product returns every product of two members, with their product rule derivatives, under a one to one numbering.",
     ["inputs", "histories", "configurations"], "every family, set of points, order of calls and composition",
     TESTS + "each basis is called once on one array.",
     ["basis/_basis_features.py", "basis/_local_features.py", "basis/_multidim_basis.py"], [("basis, deriv, hessian, fit", "basis/_basis_features.py"), ("comb_indices and split_index", "basis/_multidim_basis.py:71-85")], ["arrays returned by the basis objects"])

prop("C06", "Basis functions are the documented families",
     "The values of each basis family are the documented functions: coordinates (centred by the mean of the data if asked), polynomials of each degree of the chosen family, orthonormal sines and cosines of the given frequency, the given spline. The B-splines are as many as asked, non-negative, local, ordered, sum to one and contain the polynomials up to their degree on the range of the data; knots given to fit replace the equally spaced ones. The smooth indicators lie between zero and one, sum to one, equal one in the core of their state and follow the chosen shape across each boundary, also in the periodic case.",
     ["inputs", "configurations"], "every family, degree, frequency, knots, boundary, shape and data range",
     TESTS + "values are never compared.",
     ["basis/_basis_features.py", "basis/_local_features.py"], [("basis of each family", "basis/_basis_features.py:34-220"), ("splines and indicators", "basis/_local_features.py:12-240")], ["arrays returned by basis"])

prop("C07", "Both correlation routines return the unbiased correlation function",
     "For every pair of multi-component signals, the correlation at lag n is the average over all the available pairs of points of the first signal at t times the second at t+n, for every pair of components, every length and every truncation; without second signal it is the autocorrelation. The Fourier and direct routines agree.",
     ["inputs"], "every length (also one point and around powers of two), number of components, truncation, memory layout and magnitude",
     TESTS + "the correlation tests need input files that are not part of the reliable set and compare nothing with the definition.",
     ["correlation.py"], [("correlation_1D, correlation_ND", "correlation.py:4-40"), ("correlation_direct_1D, correlation_direct_ND", "correlation.py:41-75")], ["arrays returned by correlation_fft and correlation_direct"])

prop("C08", "Estimated correlation functions are those of the projected observables",
     "For every model and set of trajectories, the correlation functions of the estimator are the averages over trajectories, weighted by their lengths, of the correlations between the basis vector of the model (the position-dependent functions times the velocity, the velocity, or functions of the position, and their time derivatives) and the part of the observable not explained by the force, over the time lags up to and including the requested truncation, whatever the origin of time. This holds for any force coefficients, either correlation routine and each option, and the projection keeps the range of the basis, or the part of it above the tolerance given for the rank.",
     ["inputs", "configurations"], "every model, dimension, basis, number and lengths of trajectories, observable, truncation, option",
     TESTS + "no test recomputes a correlation.",
     ["gle_estimation.py", "models.py"], [("_correlation_ufunc", "gle_estimation.py:434-500"), ("compute_corrs and the weights", "gle_estimation.py:167-195,258-292"), ("basis_vector of each model", "models.py:459-705"), ("projection on the range", "models.py:95-120")],
     ["correlation attributes of the estimator"], [("bkbkcorrw, bkdxcorrw, dotbkbkcorrw, dotbkdxcorrw", "correlation functions", "gle_estimation.py:258-292")])

prop("C09", "Estimates do not depend on how the computation is executed",
     "The force, correlations, kernel, masses and data description are the same whatever the number of parallel jobs and their scheduling, the chunks of the arrays, the order of the trajectories, the container or iterator they come in, their memory layout, the verbosity or whether results are written to files. Giving every trajectory twice changes only the number of points. The files contain the same values, and nothing is written unless asked.",
     ["schedules", "configurations", "inputs"], "every number of jobs, backend and completion order, chunking, order of trajectories",
     TESTS + "no test runs in parallel or with chunks on checked values.",
     ["gle_estimation.py"], [("serial and parallel loops over trajectories", "gle_estimation.py:167-192"), ("weights", "gle_estimation.py:26-106"), ("saveall", "gle_estimation.py:258-355")], ["attributes of the estimator, netCDF files"])

prop("C10", "Force, Gram matrices and masses are averages over all the data",
     "The force coefficients are the least-squares projection of the observable on the force basis over all the trajectories, each point having the same weight: what remains is orthogonal to the basis, and a force that belongs to the basis is recovered exactly. The Gram matrices, the mean of the basis, the effective mass (inverse of the mean square velocity) and the position-dependent one are the corresponding averages over all points. Replacing the observable by the time derivative of the basis uses that derivative at each time.",
     ["inputs", "configurations"], "every model, dimension, basis, number and lengths of trajectories, observable",
     TESTS + "no test compares an estimate with an average.",
     ["gle_estimation.py", "models.py"], [("compute_mean_force, compute_gram_*, compute_*_mass, to_gfpe", "gle_estimation.py:142-256"), ("averages of one trajectory", "gle_estimation.py:386-432")], ["attributes of the model"])

prop("C11", "The kernel solves the Volterra equation on its time grid, for each method",
     "For every set of correlation functions, the kernel returned by each inversion method satisfies the discretised equation of that method (first or second kind; rectangle, mid point, extrapolated mid point or smoothed trapezoid) at every time of the grid announced with it, starting from the given or the computed initial value. For correlations generated by a known kernel the error decreases with the time step at the order of the method. The check of the inversion returns the integral of the equation, and the correlations are left unchanged.",
     ["inputs", "configurations"], "every correlation function, method, number of basis functions and components, even or odd number of times",
     TESTS + "no test substitutes a kernel in its equation.",
     ["gle_estimation.py", "fkernel.f90"], [("compute_kernel, check_volterra_inversion", "gle_estimation.py:294-378"), ("kernel_first_kind_*, kernel_second_kind_*", "fkernel.f90:113-300"), ("*_integral", "fkernel.f90:39-112")], ["kernel of the model and its time coordinate"])

prop("C12", "Force, memory and noise add up to the observable",
     "For every trajectory, kernel, truncation and time window, the observable is the sum of the mean force, the memory term and the noise, where the memory term at each time is minus the quadrature of the kernel with the past of the basis vector inside the window. The correlation of any left observable with the orthogonal dynamics of the noise is the average over the initial times of the recursively evolved noise, and the projected correlation is its length-weighted average over trajectories. Kernels on another time grid are refused.",
     ["inputs", "configurations"], "every model, kernel length shorter or longer than the window, start and end points, left observable",
     TESTS + "no test recomputes the memory term.",
     ["models.py", "gle_estimation.py", "fkernel.f90"], [("compute_noise, compute_corrs_w_noise", "models.py:138-207"), ("compute_projected_corrs", "gle_estimation.py:379-384,503"), ("memory_*, corrs_*", "fkernel.f90:302-400")], ["arrays returned by compute_noise, compute_corrs_w_noise, compute_projected_corrs"])

prop("C13", "Force and kernel evaluation are the expansions on the basis at each point",
     "For every model and set of points given in any accepted form, the evaluated force, friction and kernel are the sums of the coefficients times the basis functions (or their derivatives, for kernels acting on velocities) at each point, at each time of the kernel, with the components in the right places. Given coefficients are used instead of the estimated ones without replacing them, coefficients of another size are refused, and each point is evaluated independently of the others.",
     ["inputs", "configurations"], "every model, dimension, basis, number and form of points, coefficients",
     TESTS + "no test compares an evaluation with the expansion.",
     ["models.py"], [("force_eval, kernel_eval of each model", "models.py:209-296,515-530,661-672"), ("conversion of the points", "models.py:12-30")], ["arrays returned by force_eval, kernel_eval, friction_force_eval, get_const_kernel_part"])

prop("C14", "Estimated force and kernel do not depend on how the problem is written",
     "As functions of the position, the estimated force and kernel are the same when the basis is replaced by another one spanning the same functions, and transform as physics requires when the units of length and time change, the origin is shifted, the coordinates are reflected or rotated, or the observable is replaced by linear combinations of its components.",
     ["inputs", "configurations"], "every data set, model, method and transformation",
     TESTS + "no test estimates twice.",
     ["gle_estimation.py", "models.py", "fkernel.f90"], [("whole estimation", "gle_estimation.py:244-355"), ("basis_vector", "models.py:459-705")], ["force_eval and kernel_eval of both estimators"])

prop("C15", "A saved model, loaded again, is the same model",
     "At every stage of the estimation, a model saved in memory or in a file and loaded again, even several times, has the same coefficients, kernel, times, masses, Gram matrices, projection, method and parameters, and evaluates the same force, free energy, kernel, noise and transforms. Saving or loading changes neither the model nor the saved data, and saving again after other computations saves their results.",
     ["histories", "inputs", "configurations"], "every stage of estimation, model, basis, dimension, storage",
     TESTS + "save and load are tested on one model without comparison of what it evaluates.",
     ["models.py"], [("save_model, load_model", "models.py:370-418")], ["attributes and evaluations of the loaded model"])

prop("C16", "Evolution, fluxes and Laplace transform use the whole estimated equation",
     "For every force, kernel and initial value, the evolved correlations start at the initial value, follow the discretised memory equation at each later time on their announced grid, and converge to the solution of the equation when the time step decreases. The fluxes are the force applied to the correlations and minus the quadrature of the kernel with their past, truncated as asked. The Laplace transform is the integral of the kernel times the decaying exponential at each requested frequency; kernels on a coarser grid (midpoint methods) and unknown methods are refused.",
     ["inputs", "configurations"], "every kernel length, dimension, number of steps, truncation, quadrature",
     TESTS + "none of these results is compared with anything.",
     ["models.py", "fkernel.f90"], [("evolve_volterra, flux_from_volterra, laplace_transform_kernel", "models.py:298-368,727-770"), ("solve_ide_*", "fkernel.f90:402-520")], ["arrays returned by the three methods"])

prop("C17", "Integrated trajectories follow the generalised Langevin equation",
     "From every initial segment and noise, the integrated trajectory starts with that segment and follows at each step the Runge-Kutta discretisation of force, memory of the whole past (up to the length of the kernel) and noise, for constant and position-dependent kernels, projected or not. It converges to the exact solution when the time step decreases, is reproducible, and continues identically from any of its own initial segments. Initial conditions drawn from data are contiguous segments of the data of the requested length.",
     ["inputs", "histories", "configurations"], "every model, basis, dimension, kernel length, initial segment longer or shorter than the kernel, number of steps",
     TESTS + "the integration tests check no value.",
     ["gle_integrate.py"], [("run, _rk_step, _mem_int_red", "gle_integrate.py:262-333"), ("constant kernel", "gle_integrate.py:335-365"), ("initial_conditions", "gle_integrate.py:249-260")], ["trajectories returned by run"])

prop("C18", "Generated noise has the requested covariance",
     "The noise generated for a kernel is linear in the drawn random numbers, stationary over its whole length, has the kernel as covariance (zero beyond its last time), independent components for a diagonal kernel, and a new realisation at each call, determined by the random number generator given. The generator based on a covariance matrix has exactly that covariance, and refuses to generate more points than the matrix describes. The covariance matrix built from a kernel is the Toeplitz matrix of its values.",
     ["inputs", "configurations"], "every kernel, length of kernel and of noise, dimension, time step, noise coefficients",
     TESTS + "a statistical test on one sample cannot see the covariance.",
     ["gle_integrate.py"], [("ColoredNoiseGenerator", "gle_integrate.py:19-64"), ("KarhunenLoeveNoiseGenerator", "gle_integrate.py:66-119"), ("noise of the integrator", "gle_integrate.py:187-247")], ["arrays returned by generate for unit impulses in place of random numbers"])

prop("C19", "Kernel fits reproduce the functions they fit",
     "Data generated by a function of any of the available families are reproduced by the fit of that family at the fitted times and between them, entry by entry for matrix-valued kernels, whatever their sign, and evaluating given parameters at any times, or at a single one, gives the function of the family. A series of exponentials (decaying, oscillating, alternating) fits exactly any data made of that number of terms, extrapolates them, and has no diverging term. Unknown families are refused.",
     ["inputs", "configurations"], "every family, parameters, time step, number of terms and of entries",
     TESTS + "the fit tests use one kernel and check no value.",
     ["fit_memory.py", "fit_prony.py"], [("memory_fit, memory_fit_eval and the kernel versions", "fit_memory.py:43-190"), ("prony fit", "fit_prony.py:12-250")], ["parameters and evaluations returned"])

prop("C20", "Compiled code never leaves its arrays nor ends the process",
     "Whatever the lengths, truncations, time windows, memory layouts and values, even inconsistent or singular ones, given to the public interface, the compiled code makes no access outside of its arrays and no undefined operation, and the process goes on: the call returns or raises an ordinary exception. What the compiled routines return does not depend on the memory layout of their arguments nor on what was in memory before.",
     ["inputs", "histories"], "every size, also empty and shorter than the scheme needs, singular and non-finite values, layouts",
     TESTS + "an access outside of an array goes unnoticed without instrumentation.",
     ["fkernel.f90", "gle_estimation.py", "models.py"], [("all routines", "fkernel.f90"), ("checks before the calls", "gle_estimation.py:294-355"), ("calls", "models.py:138-350,727-770")], ["sanitizer reports, end of the process, results"],
     technique="sanitizers on hostile sizes")

prop("C21", "Results depend on the necessary calls only, missing prerequisites are refused",
     "For every history of calls on an estimator, also with repetitions, changes of options, and another estimator at work on the same data or with the same basis object, the current force, correlations, kernel and masses are bit for bit those of a new estimator that makes only the calls they need. A call whose prerequisite is missing, inconsistent trajectories or bases, unknown methods and coefficients of the wrong size are refused with an exception, and options that are not given act as their documented default. The trajectories and the fitted bases of the user are never modified and the files written hold the current results, under the prefix of the estimator.",
     ["histories", "inputs", "configurations"], "every sequence of calls, model, options",
     TESTS + "the tests follow the one usual order of calls.",
     ["gle_estimation.py", "models.py"], [("state of the estimator and of the model", "gle_estimation.py:26-378"), ("exceptions", "gle_estimation.py:107-140,294-300")], ["attributes, exceptions, trajectories, files"])

prop("C22", "One-dimensional free energy and forces come from the histogram of all the data",
     "For every set of trajectories and bins, the histogram is the fraction of the points of all the trajectories in each bin (open on the left), the free energy is minus its logarithm, shifted to a zero minimum, at the centres of the visited bins, and the mean acceleration and mean square velocity of each bin are averages over its points. The two forces are the spline derivatives of the free energy, times the temperature factor over the mean square velocity, and of the density times the mean square velocity, over the density. The order of the trajectories does not matter and unsupported bin specifications are refused.",
     ["inputs", "configurations"], "every set of trajectories, number or positions of bins, temperature",
     TESTS + "the only test checks the shape with one data set.",
     ["__init__.py"], [("compute_1d_fe", "__init__.py:173-270")], ["values returned by compute_1d_fe"])

prop("C23", "Meshes cover the data and descriptions of data merge exactly",
     "Meshes built on an interval have the requested number of elements, ends and progression; meshes built from data cover all the data, have valid connectivity and their inner points at centres of the data, and simplifying the outline keeps everything inside. The description of several trajectories (number, minimum, maximum, mean) is that of all their points, whatever their lengths and order, and it is the one the basis is fitted on.",
     ["inputs"], "every data set, number of elements, ratio, number and lengths of trajectories",
     TESTS + "no test looks at a mesh or at a description.",
     ["basis/_mesh_utils.py", "basis/_data_describe.py", "gle_estimation.py"], [("meshes", "basis/_mesh_utils.py:9-160"), ("sum_describe", "basis/_data_describe.py:7-50"), ("describe_data", "gle_estimation.py:142-152")], ["arrays returned"])

prop("C24", "Finite element features are those of the element that contains the point",
     "For every mesh of dimension one to three, in any numbering, with linear or quadratic elements, the features at a point are the shape functions of the element that contains it: they sum to one, equal one at their own node, reproduce polynomials of the degree of the element and are zero outside of their elements. Their derivatives are the gradients of the features, and the estimator uses them as any other basis.",
     ["inputs", "configurations"], "every mesh, also unsorted, stretched or graded, element, point inside of the mesh",
     TESTS + "the finite element test checks the shape on one mesh.",
     ["basis/_fem_features.py"], [("ElementFinder", "basis/_fem_features.py:12-72"), ("FEMScalarFeatures", "basis/_fem_features.py:74-135")], ["arrays returned by basis and deriv"])


def main():
    ids = [p["id"] for p in P]
    assert sorted(ids) == sorted(catalog.CHECKS), set(ids) ^ set(catalog.CHECKS)
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        n = sum(p["statement"].count(c) for c in (". ",)) + 1
        assert n <= 3, (p["id"], n)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -m vbmon.build normal san",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "./check %s --tier quick" % p["id"],
            "thorough_cmd": "./check %s --tier thorough" % p["id"],
            "technique": "runtime monitoring: " + (p["_technique"] or "reference-model oracle on client-boundary events under generated workloads"),
            "level": "exploration",
            "level_note": p["_note"] or "Held on the generated executions of the seed (counts in the evidence file), judged by independent reference computations; nothing is claimed for inputs that were not generated.",
        } for p in P],
        "not_applicable": [],
        "notes": "No hooks: monitors observe the client boundary. Fixes of genuine defects are the 'fix:' commits of /repo, listed in known_findings.txt.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
