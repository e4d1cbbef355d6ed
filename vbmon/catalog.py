"""What each check runs: number of cases, monitors that must have been reached."""

COMMON = [
    "The oracles (numpy reference implementations in vbmon/ref.py and in the property modules) are right; they were written from the definitions, not from the code.",
    "numpy, scipy, xarray, dask, joblib, scikit-fem and the Fortran compiler behave as documented.",
    "Only the executions generated from the seed are judged.",
]

_CASE = "Case i of seed s is generated by a PRNG seeded with (s, property, i); it is non-trivial if it was not skipped (outside of the domain) and at least one oracle was evaluated; two cases are distinct if the sets of situations they cover (model, basis, dimension, options, sizes...) differ. "


def _c(quick, thorough, rule, required, assumptions=(), **kw):
    d = {"cases": {"quick": quick, "thorough": thorough}, "rule": _CASE + rule, "required": ["mon:" + r for r in required.split()], "assumptions": list(assumptions) + COMMON}
    d.update(kw)
    return d


CHECKS = {
    "C01": _c(2400, 60000, "Random positions (3 to 120 points, 1 to 3 dimensions, numpy or dask chunks, regular or slightly irregular times) through each way to build a trajectory.",
              "velocity acceleration acceleration-gjf velocity-gjf acceleration-from-v acceleration-from-x retained-times retained-times-a retained-times-av retained-times-gjf time-kept fixed-times fixed-dt dt-kept concat-x concat-v"),
    "C02": _c(2000, 50000, "A true trajectory with small steps is wrapped in a box; the trajectories computed from both must have the same velocities and accelerations.",
              "boundary-crossings unwrapped-velocity-compute_va unwrapped-acceleration-compute_va unwrapped-velocity-compute_va_gjf unwrapped-acceleration-compute_va_gjf unwrapped-velocity-lamb no-jump-velocity wrapped-x-kept"),
    "C03": _c(3000, 80000, "Random basis, random data to fit it, derivative compared with fourth order finite differences at points away from the break points of piecewise functions.",
              "gradient hessian hessian-symmetric gradient-one-point deriv-order-2 constant-removed"),
    "C04": _c(3000, 80000, "Random basis or random force coefficients; primitive differentiated numerically.",
              "primitive second-primitive pmf-primitive-of-force pmf-zero-minimum pmf-shift force-eval pmf-any-points pmf-refilled"),
    "C05": _c(2400, 60000, "Random basis evaluated on a set of points, on permuted, extended, single points, again, after another fit, on a copy; products and concatenations against their members.",
              "declared-size finite-values permutation-basis single-point-deriv superset-hessian repeat-basis copy-basis refit-basis fit-description-basis product-basis product-hessian concatenation-basis concatenation-deriv index-roundtrip const-removed-basis"),
    "C06": _c(3000, 80000, "Random basis of each family against independent definitions (scipy.special, numerical integration, independent spline evaluation).",
              "polynomial-values fourier-values fourier-orthonormal fourier-period bspline-partition-of-unity bspline-reproduces-polynomials bspline-local indicator-partition-of-unity indicator-core indicator-boundary-shape spline-values linear-values other-number-type"),
    "C07": _c(4000, 100000, "Random signals of 1 to 400 points, sizes around powers of two, 1 to 4 components, several memory layouts, every truncation.",
              "correlation_fft correlation_direct zero-lag-symmetric zero-lag-variance"),
    "C08": _c(1500, 30000, "Random estimation problem (6 models, 1 to 3 dimensions, 1 to 4 trajectories of different lengths, every basis family, custom observables) with random options.",
              "bkbk bkdx dotbkbk dotbkdx dotbkdx-first-time truncation-index projection-keeps-range zero-force given-tolerance-rank given-tolerance-range", ["Problems whose gram matrix has a condition number above 1e7 are skipped."]),
    "C09": _c(800, 12000, "The same problem estimated twice, with one of nine changes of the way the computation is carried out.",
              "bkbk bkdx dotbkbk dotbkdx force gram kernel kernel-time mass files-written file-kernel no-files describe-mean", ["Parallel runs use the processes and threads joblib chooses here; their interleaving is not controlled."]),
    "C10": _c(1500, 30000, "Random estimation problem; averages recomputed with numpy; in a third of the cases the observable is an exact linear combination of the basis.",
              "gram-force force-coefficients orthogonality force-recovered effective-mass position-dependent-mass basis-mean basis-mean-kernel gram-kernel gfpe-derivative gfpe-force describe-mean"),
    "C11": _c(1800, 40000, "Random estimation problems and synthetic correlation functions; residual of the discretised equation of the method; analytic solutions on refined grids.",
              "rect-equation rect-last midpoint-equation richardson-combination trapz-equation second-kind-rect-equation second-kind-trapz-equation given-initial-value initial-value time-grid converged convergence-order volterra-difference volterra-integral method-recorded"),
    "C12": _c(1500, 30000, "Random estimation problem, estimated or arbitrary kernel of any length; convolution recomputed with numpy.",
              "decomposition noise noise-force noise-memory noise-observable noise-times noise-correlation projected-correlation must-raise noise-next-trajectory noise-refilled"),
    "C13": _c(1500, 30000, "Random estimated models evaluated at random points given in several forms.",
              "force force-given-coefficients kernel kernel-given-coefficients kernel-times pointwise-force pointwise-kernel friction constant-part refilled-force refilled-kernel"),
    "C14": _c(1500, 30000, "The same problem written in two ways (six transformations), compared through force and kernel evaluated at the same physical points.",
              "force-basis kernel-basis force-units kernel-units force-shift kernel-shift force-reflect kernel-reflect force-rotate kernel-rotate force-observable kernel-observable", ["Kernels are compared for well conditioned problems, with a tolerance that grows with the condition number."]),
    "C15": _c(1500, 30000, "Random model at a random stage of its estimation, saved in memory or in a file, loaded, compared attribute by attribute and through what it evaluates.",
              "restored-force_coeff restored-kernel restored-kernel-time restored-gram_force restored-gram_kernel restored-eff_mass restored-P_range restored-method restored-dt same-force same-kernel same-noise same-pmf same-laplace saved-model-kept"),
    "C16": _c(3000, 60000, "Random kernels and forces of 1 to 4 dimensions and of any length.",
              "evolution-rect evolution-trapz evolution-trapz_stab evolution-converges evolution-start evolution-times flux-force flux-memory-rect flux-memory-trapz flux-memory-simpson laplace laplace-points laplace-exponential"),
    "C17": _c(2400, 40000, "Random models, initial conditions and noise (injected generator); independent integration, analytic solutions.",
              "positions velocities time-step repeatable restart-positions restart-velocities initial-from-data initial-length exact-solution harmonic-oscillator noise-shape"),
    "C18": _c(2400, 40000, "Random kernels; the generators are fed with unit impulses, one random number at a time, which gives the exact linear map and the exact covariance.",
              "noise-covariance karhunen-covariance stationary-matrix linear-in-the-randomness components-independent new-noise-each-time same-randomness-same-noise"),
    "C19": _c(2400, 40000, "Data generated from known parameters of each family.",
              "fit-recovers-data fit-evaluation fit-kernel kernel-evaluation prony-recovers-data prony-between-samples prony-extrapolates prony-kernel prony-growing no-diverging-term filtered-data must-raise prony-one-time prony-kernel-one-time"),
    "C20": _c(1600, 30000, "Every compiled routine through the public interface with small and extreme sizes, singular matrices, NaN, non contiguous arrays, on an instrumented build; each result compared with the ordinary build's values when defined.",
              "survived same-result", sanitizer=True, sanitizer_note="fkernel.f90, its f2py wrappers and fortranobject.c compiled with -fsanitize=address,undefined -fcheck=all -finit-real=snan; abort on the first report"),
    "C21": _c(2240, 36000, "Random history of 6 to 18 calls on an estimator, while another one works on the same data; an abstract state predicts which calls must be refused; the final state is compared bit for bit with that of a fresh estimator that made only the necessary calls.",
              "history-independent must-raise trajectories-unchanged file-corrs file-kernel files-written no-file default-basis default-trajectory default-fit files-prefix default-estimation shared-basis basis-unchanged"),
    "C22": _c(1000, 20000, "Random sets of trajectories and bins.",
              "histogram histogram-normalised bin-centers free-energy free-energy-zero mean-acceleration mean-square-velocity total-force force-from-free-energy order-of-trajectories"),
    "C23": _c(2400, 40000, "Random data and random meshes.",
              "uniform-mesh geometric-progression data-mesh centroid-mesh-sorted mesh-covers-data mesh-connectivity merged-mean merged-count estimator-mean describe-mean intersection one-point-less centroids-of-the-data"),
    "C24": _c(2000, 30000, "Random meshes of 1 to 3 dimensions, shuffled and graded, linear and quadratic elements, random points inside.",
              "partition-of-unity nodal reproduces-polynomials gradient reproduces-gradients support point-by-point fem-correlations fem-mean-force"),
}
