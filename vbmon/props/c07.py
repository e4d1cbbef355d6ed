"""correlation_fft and correlation_direct are the correlation function."""
import numpy as np
import VolterraBasis as vb

from .. import gen, ref


def run_case(ctx):
    rng = ctx.rng
    N = int(gen.choice(rng, [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, int(rng.integers(2, 400)), int(rng.integers(2, 400))]))
    if rng.random() < 0.04:
        N = int(gen.choice(rng, [512, 1000, 1024, 1025, 2048, int(rng.integers(400, 5000)), int(10 ** rng.uniform(3.5, 4.5))]))
    I, J = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    if rng.random() < 0.05:
        I, J = int(rng.integers(5, 14)), int(rng.integers(5, 14))
    if N > 5000:
        I, J = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    scale = 10.0 ** rng.uniform(-6, 6)
    off = gen.choice(rng, [0.0, 1.0, 20.0])
    a = scale * (rng.normal(size=(I, N)) + off * rng.normal(size=(I, 1)))
    b = 10.0 ** rng.uniform(-6, 6) * (rng.normal(size=(J, N)) + off * rng.normal(size=(J, 1)))
    if rng.random() < 0.15:  # a few isolated values, zeros elsewhere
        a = a * (rng.random(a.shape) < 2.0 / N)
    trunc = gen.choice(rng, [None, 1, N, N + 3, max(1, N // 2), int(rng.integers(1, N + 1))])
    if N > 400 and (trunc is None or trunc > 60):
        trunc = gen.choice(rng, [1, 2, 50, None if I * J == 1 else 30])
    auto = bool(rng.random() < 0.35)
    order = gen.choice(rng, ["C", "F", "strided"])
    ctx.describe(N=N, I=I, J=J, trunc=trunc, auto=auto, order=order)
    ctx.cover("N%d" % N, "trunc" + ("None" if trunc is None else "lt" if trunc < N else "ge"), "auto%d" % auto, "I%dJ%d" % (I, J))
    if order == "F":
        a, b = np.asfortranarray(a), np.asfortranarray(b)
    elif order == "strided":
        a, b = np.repeat(a, 2, axis=-1)[..., ::2], np.repeat(b, 2, axis=-1)[..., ::2]
    kind = gen.choice(rng, ["f8"] * 8 + ["f4", "i8", "i4", "i2", "i1"])
    if kind[0] == "i":
        top = {"i8": 6, "i4": 6, "i2": 4, "i1": 2}[kind]
        a = np.round(10 ** rng.uniform(1, top) * a / (np.max(np.abs(a)) + 1e-300)).astype(kind)
        b = np.round(10 ** rng.uniform(1, top) * b / (np.max(np.abs(b)) + 1e-300)).astype(kind)
        if rng.random() < 0.3:  # one signal only is made of integers
            b = b.astype(float) + 0.25
    elif kind == "f4":
        a, b = a.astype(kind), b.astype(kind)
    ctx.cover("type", kind, "auto%d" % auto)
    eps = 1e-5 if kind == "f4" else 1e-12
    M = N if trunc is None else min(N, trunc)
    a0, b0 = a, b
    a, b = a.astype(float), b.astype(float)
    if auto:
        want = np.transpose(ref.corr(a.T, a.T, M), (1, 0, 2))
        args = (a0,)
        amp = np.max(np.abs(a)) ** 2
    else:
        want = ref.corr(a.T, b.T, M)
        args = (a0[:, None, :], b0)
        amp = np.max(np.abs(a)) * np.max(np.abs(b))
    res = {}
    for name, fn in (("correlation_fft", vb.correlation_fft), ("correlation_direct", vb.correlation_direct)):
        kw = {} if trunc is None else {"trunc": trunc}
        got = ctx.call(name, fn, *args, **kw)
        # the smallest number of terms in an average is N - M + 1
        tol = eps * amp * N / (N - M + 1) if name == "correlation_fft" else eps * amp
        ctx.close(name, got, want, rtol=0, atol=tol + 1e-300)
        res[name] = np.asarray(got).copy()
        if ctx.idx % 3 == 0 and a0.flags.writeable:  # the same arrays, with other values
            a0 *= -1
            try:
                got = ctx.call(name, fn, *args, **kw)
            finally:
                a0 *= -1
            ctx.close(name + "-refilled", got, want if auto else -want, rtol=0, atol=tol + 1e-300)
    if auto:
        c = res["correlation_fft"]
        ctx.close("zero-lag-symmetric", c[:, :, 0], c[:, :, 0].T, rtol=0, atol=eps * amp + 1e-300)
        i = np.arange(I)
        ctx.close("zero-lag-variance", c[i, i, 0], np.mean(a**2, axis=-1), rtol=0, atol=eps * amp + 1e-300)
