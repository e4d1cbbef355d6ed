"""The monitor: records what happens at the client boundary of VolterraBasis
and evaluates oracles on it.

A case drives the public API through Ctx.call().  Each call is an event: its
array arguments are fingerprinted before and after (mutation monitor), the
result or the exception is recorded.  Oracles compare what was observed with
an independent reference through Ctx.close / Ctx.check.
"""
import contextlib
import hashlib
import io
import os
import traceback
import warnings

import numpy as np
import xarray as xr

REPO = os.environ.get("VB_REPO", "/repo")
MARK = os.path.join(REPO, "VolterraBasis") + os.sep


class CaseAbort(Exception):
    """The case cannot go on (a violation has already been recorded)."""


class SkipCase(Exception):
    """The generated input is outside the domain of the property."""


def _summ(a, n=6):
    try:
        a = np.asarray(a)
        return "shape={} head={}".format(a.shape, np.array2string(a.ravel()[:n], precision=6))
    except Exception as e:  # pragma: no cover
        return "unprintable {}".format(e)


def fingerprint(obj, depth=0):
    """Content hash of arrays, datasets and (shallow) containers of them."""
    h = hashlib.sha1()
    _feed(h, obj, depth)
    return h.hexdigest()


def _feed(h, obj, depth):
    if isinstance(obj, np.ndarray):
        h.update(str((obj.dtype, obj.shape)).encode())
        if obj.dtype != object:
            h.update(np.ascontiguousarray(obj).tobytes())
    elif isinstance(obj, xr.Dataset):
        for k in sorted(obj.variables, key=str):
            h.update(str((k, obj[k].dims)).encode())
            _feed(h, obj[k].data, depth + 1)
        h.update(repr(sorted(obj.attrs.items(), key=str)).encode())
    elif isinstance(obj, xr.DataArray):
        h.update(str(obj.dims).encode())
        _feed(h, obj.data, depth + 1)
        for k in sorted(obj.coords, key=str):
            h.update(str(k).encode())
            _feed(h, obj[k].data, depth + 1)
    elif isinstance(obj, (list, tuple)) and depth < 4:
        h.update(str((type(obj).__name__, len(obj))).encode())
        for o in obj:
            _feed(h, o, depth + 1)
    elif isinstance(obj, dict) and depth < 4:
        for k in sorted(obj, key=str):
            h.update(str(k).encode())
            _feed(h, obj[k], depth + 1)
    elif hasattr(obj, "__dask_graph__"):
        h.update(str((obj.shape, obj.dtype)).encode())
        _feed(h, np.asarray(obj), depth + 1)
    elif isinstance(obj, (int, float, str, bool, complex, np.generic)) or obj is None:
        h.update(repr(obj).encode())


class Ctx:
    def __init__(self, prop, idx, seed, tier, known=()):
        self.prop, self.idx, self.seed, self.tier = prop, idx, seed, tier
        self.rng = np.random.default_rng([int(seed), int(hashlib.sha1(prop.encode()).hexdigest()[:6], 16), int(idx)])
        self.events = []
        self.n_events = 0
        self.n_eval = 0
        self.counters = {}
        self.cover_keys = set()
        self.violations = []
        self.worst = {}
        self.desc = {}
        self.known = set(known)
        self.known_hit = {}

    # -- description of the case ------------------------------------------
    def describe(self, **kw):
        self.desc.update({k: (v if isinstance(v, (int, float, str, bool, list, tuple, type(None))) else str(v)) for k, v in kw.items()})

    def cover(self, *key):
        self.cover_keys.add("|".join(str(k) for k in key))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    # -- events --------------------------------------------------------------
    def _event(self, name, status):
        self.n_events += 1
        self.count("event:" + name.split("(")[0])
        if len(self.events) < 400:
            self.events.append("{} -> {}".format(name, status))

    def call(self, name, fn, *args, mutable=(), **kwargs):
        """Call the library; arguments must come out as they went in."""
        before = [fingerprint(a) for a in args] + [fingerprint(kwargs[k]) for k in sorted(kwargs)]
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                res = fn(*args, **kwargs)
        except CaseAbort:
            raise
        except (MemoryError, KeyboardInterrupt):
            raise
        except BaseException as e:
            self._event(name, "raised " + type(e).__name__)
            self.violate("exception:" + name.split("(")[0], "{} raised {}: {}".format(name, type(e).__name__, str(e)[:300]), tb=traceback.format_exc()[-1800:])
            raise CaseAbort()
        after = [fingerprint(a) for a in args] + [fingerprint(kwargs[k]) for k in sorted(kwargs)]
        self._event(name, "ok")
        for i, (b, a) in enumerate(zip(before, after)):
            if i in mutable:
                continue
            self.n_eval += 1
            self.count("mon:argument-unchanged")
            if b != a:
                self.violate("mutation:" + name.split("(")[0], "{} modified its argument number {}".format(name, i))
        return res

    def quiet(self, fn, *args, **kwargs):
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            return fn(*args, **kwargs)

    def raises(self, name, fn, *args, exc=Exception, **kwargs):
        """The library must refuse this call with an exception."""
        self.n_eval += 1
        self.count("mon:must-raise")
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                res = fn(*args, **kwargs)
        except (MemoryError, KeyboardInterrupt):
            raise
        except exc as e:
            self._event(name, "refused " + type(e).__name__)
            return e
        except BaseException as e:
            self._event(name, "raised " + type(e).__name__)
            self.violate("wrong-exception:" + name, "{} raised {} instead of {}: {}".format(name, type(e).__name__, getattr(exc, "__name__", exc), str(e)[:200]))
            return None
        self._event(name, "accepted")
        self.violate("not-refused:" + name, "{} returned {} where it has to raise".format(name, _summ(res) if not isinstance(res, (str, type(None))) else res))
        return None

    # -- oracles ---------------------------------------------------------------
    def violate(self, kind, msg, **data):
        if kind in self.known:
            self.known_hit[kind] = self.known_hit.get(kind, 0) + 1
            return
        if len(self.violations) < 20:
            self.violations.append({"kind": kind, "msg": msg, "data": {k: str(v)[:2000] for k, v in data.items()}})
        self.count("violation:" + kind)

    def check(self, cond, kind, msg="", **data):
        self.n_eval += 1
        self.count("mon:" + kind)
        if not bool(cond):
            self.violate(kind, msg or kind, **data)
            return False
        return True

    def close(self, kind, got, want, rtol=1e-7, atol=0.0, scale=None, msg=""):
        """|got - want| <= atol + rtol * scale, scale = max|want| by default."""
        self.n_eval += 1
        self.count("mon:" + kind)
        try:
            g = np.asarray(got, dtype=complex if np.iscomplexobj(got) else float)
        except Exception as e:
            self.violate(kind, "{} result is not numeric: {!r} {}".format(kind, e, msg))
            return False
        w = np.asarray(want)
        if g.shape != w.shape:
            self.violate(kind, "{} shape {} instead of {} {}".format(kind, g.shape, w.shape, msg))
            return False
        if w.size == 0:
            return True
        if not np.all(np.isfinite(g) == np.isfinite(w)):
            self.violate(kind, "{} non finite values: got {} want {} {}".format(kind, _summ(g), _summ(w), msg))
            return False
        fin = np.isfinite(w)
        if not fin.any():
            return True
        if scale is None:
            scale = float(np.max(np.abs(w[fin])))
        err = float(np.max(np.abs(g[fin] - w[fin])))
        tol = atol + rtol * scale
        ratio = err / tol if tol > 0 else (0.0 if err == 0 else np.inf)
        if ratio > self.worst.get(kind, -1):
            self.worst[kind] = ratio
        if not err <= tol:
            where = np.unravel_index(np.argmax(np.where(fin, np.abs(g - w), 0)), g.shape) if g.ndim else ()
            self.violate(kind, "{}: error {:.3e} > tol {:.3e} at {} got {} want {} {}".format(kind, err, tol, tuple(int(i) for i in where), g[where], w[where], msg), got=_summ(g), want=_summ(w))
            return False
        return True

    def same(self, kind, a, b, msg=""):
        """Bit for bit the same."""
        self.n_eval += 1
        self.count("mon:" + kind)
        a, b = np.asarray(a), np.asarray(b)
        ok = a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
        if not ok:
            self.violate(kind, "{}: {} differs from {} {}".format(kind, _summ(a), _summ(b), msg))
        return ok

    def result(self):
        return {"idx": self.idx, "n_events": self.n_events, "n_eval": self.n_eval, "counters": self.counters, "cover": sorted(self.cover_keys), "violations": self.violations, "worst": {k: (v if np.isfinite(v) else 1e300) for k, v in self.worst.items()}, "desc": self.desc, "events": self.events[:60], "known": self.known_hit}


def run_case(mod, prop, idx, seed, tier, known=()):
    ctx = Ctx(prop, idx, seed, tier, known)
    harness_error = None
    skipped = False
    # legacy global generator used by the library for initial conditions
    np.random.seed(int(ctx.rng.integers(2**31)))
    try:
        mod.run_case(ctx)
    except CaseAbort:
        pass
    except SkipCase:
        skipped = True
    except (MemoryError, KeyboardInterrupt):
        raise
    except BaseException as e:
        tb = traceback.format_exc()
        if MARK in tb:
            ctx.violate("exception:library", "library code raised {}: {}".format(type(e).__name__, str(e)[:300]), tb=tb[-1800:])
        else:
            # never happens on a tree whose outputs have the documented form
            harness_error = tb[-2500:]
    res = ctx.result()
    res["harness_error"] = harness_error
    res["skipped"] = skipped
    return res
