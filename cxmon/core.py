"""Online monitor used by every property module.

A property module generates JSON cases and runs each of them against the real
coreax code; everything it observes goes through a :class:`Mon`, which evaluates
the oracle, counts what was observed and records violations.
"""

import contextlib
import hashlib
import json
import os
import sys
import traceback

import numpy as np

MAX_SAMPLES = 3


class Abort(Exception):
    """The rest of the case cannot be evaluated (a violation is already recorded)."""


def jsonable(obj, depth=0):
    """Render an observation compactly for a sample or a replay file."""
    if depth > 6:
        return str(obj)[:80]
    if isinstance(obj, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(obj)[:40]]
    if isinstance(obj, (bool, int, float, str)) or obj is None:
        return obj
    try:
        arr = np.asarray(obj)
        if arr.dtype.kind in "biuf":
            if arr.size <= 40:
                return arr.tolist()
            return {"shape": list(arr.shape), "head": arr.ravel()[:20].tolist()}
    except Exception:  # pylint: disable=broad-except
        pass
    return str(obj)[:200]


class Mon:
    """Assertion monitor for one property."""

    def __init__(self, prop, case=None):
        self.prop = prop
        self.case = case
        self.obs = 0
        self.by_mech = {}
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.known = []
        self.margins = {}

    # -- oracles -------------------------------------------------------------
    def check(self, cond, mech, **detail):
        """Observe one event and decide whether it satisfies the property."""
        self.obs += 1
        self.by_mech[mech] = self.by_mech.get(mech, 0) + 1
        ok = bool(cond)
        if not ok:
            self.violations.append({"mech": mech, "detail": jsonable(detail)})
        return ok

    def need(self, cond, mech, **detail):
        """As check, but give up on the case if it fails."""
        if not self.check(cond, mech, **detail):
            raise Abort(mech)

    def close(self, got, want, mech, atol=0.0, rtol=0.0, ertol=0.0, scale=None, **detail):
        """Check shape, finiteness and |got-want| <= atol + rtol*scale + ertol*|want|.

        `scale` defaults to max|want|; `atol` and `scale` may be arrays.
        """
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            return self.check(
                False, mech, reason="shape", got=got.shape, want=want.shape, **detail
            )
        if got.size == 0:
            return self.check(True, mech)
        got = got.astype(np.float64)
        want = want.astype(np.float64)
        if not np.all(np.isfinite(got)):
            return self.check(
                False, mech, reason="not finite", got=got, want=want, **detail
            )
        if scale is None:
            scale = float(np.max(np.abs(want)))
        tol = atol + rtol * np.asarray(scale) + ertol * np.abs(want)
        tol = np.broadcast_to(tol, got.shape)
        err = np.abs(got - want)
        ratio = np.where(err > 0, err / np.maximum(tol, 1e-300), 0.0)
        worst = int(np.argmax(ratio))
        margin = float(ratio.ravel()[worst])
        self.margins[mech] = max(self.margins.get(mech, 0.0), margin)
        if margin <= 1.0:
            return self.check(True, mech)
        return self.check(
            False, mech, err=err.ravel()[worst], tol=tol.ravel()[worst],
            got_at=got.ravel()[worst], want_at=want.ravel()[worst],
            at=np.unravel_index(worst, got.shape), got=got, want=want, **detail,
        )  # fmt: skip

    def call(self, label, fun, *args, **kwargs):
        """Run coreax code on valid input: an exception breaks the property."""
        try:
            return fun(*args, **kwargs)
        except Abort:
            raise
        except Exception as exc:  # pylint: disable=broad-except
            if is_resource_error(exc):
                raise
            self.check(
                False,
                label + ": raised on valid input",
                error=f"{type(exc).__name__}: {str(exc)[:300]}",
                where=traceback.format_exc()[-1200:],
            )
            raise Abort(label) from exc

    def raises(self, types, label, fun, *args, **kwargs):
        """Run coreax code on invalid input: it must raise one of `types`."""
        try:
            res = fun(*args, **kwargs)
        except types:
            return self.check(True, label)
        except Exception as exc:  # pylint: disable=broad-except
            return self.check(
                False, label, reason=f"raised {type(exc).__name__}: {str(exc)[:200]}"
            )
        return self.check(False, label, reason="accepted", result=str(res)[:200])

    # -- coverage ------------------------------------------------------------
    def sig(self, *parts):
        """Record the signature of a distinct, non-trivial observation."""
        text = json.dumps(jsonable(parts), sort_keys=True)
        self.sigs.add(hashlib.sha1(text.encode()).hexdigest()[:12])

    def sample(self, **detail):
        """Keep a case, written out, for the evidence file."""
        if len(self.samples) < MAX_SAMPLES:
            self.samples.append(jsonable(detail))

    def known_finding(self, key, text, **detail):
        """Observe a behaviour that the known-findings file may list."""
        self.obs += 1
        self.known.append({"key": key, "text": text, "detail": jsonable(detail)})


def is_resource_error(exc):
    """The sandbox ran out of something: no verdict on the code."""
    text = f"{type(exc).__name__}: {exc}"
    return isinstance(exc, MemoryError) or any(
        s in text for s in ("RESOURCE_EXHAUSTED", "materialize symbols", "Cannot allocate memory")
    )


def run_case(module, prop, case):
    """Run one case and return a JSON-serialisable report."""
    mon = Mon(prop, case)
    try:
        module.run(case, mon)
    except Abort:
        pass
    except MemoryError:
        raise
    except Exception as exc:  # pylint: disable=broad-except
        if is_resource_error(exc):
            raise
        # The oracle could not even interpret what coreax returned.
        mon.check(
            False,
            "malformed result",
            error=f"{type(exc).__name__}: {str(exc)[:300]}",
            where=traceback.format_exc()[-1500:],
        )
    return {
        "obs": mon.obs,
        "by_mech": mon.by_mech,
        "sigs": sorted(mon.sigs),
        "samples": mon.samples,
        "violations": mon.violations,
        "known": mon.known,
        "margins": mon.margins,
    }


@contextlib.contextmanager
def quiet():
    """Silence stdout/stderr of the code under test."""
    with open(os.devnull, "w") as null:
        with contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
            yield


def log(*args):
    """Progress on stderr."""
    print(*args, file=sys.stderr, flush=True)
