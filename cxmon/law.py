"""Tests of recorded random choices against a conditional law."""

import numpy as np


class Law:
    """Collects, step by step, the conditional law p (runs, n) and the recorded choice (runs,)."""

    def __init__(self, mon, label, rng, info):
        self.mon, self.label, self.info = mon, label, info
        self.prev = None
        self.rng = rng

    def step(self, p, chosen, step, slack=0.0):
        """Judge one step over all runs."""
        mon = self.mon
        runs, n = p.shape
        rows = np.arange(runs)
        hit = np.zeros((runs, n))
        hit[rows, chosen] = 1
        d = hit - p
        diff = d.sum(axis=0)
        var = (p * (1 - p)).sum(axis=0)
        lim = 6 * np.sqrt(var) + 4 + slack * runs
        mon.check(
            bool(np.all(np.abs(diff) <= lim)), self.label + ": draws do not follow the law", step=step,
            observed=hit.sum(axis=0), expected=p.sum(axis=0), limit=lim, runs=runs, **self.info,
        )  # fmt: skip
        mon.margins[self.label] = max(mon.margins.get(self.label, 0), float(np.max(np.abs(diff) / lim)))
        # successive draws are uncorrelated given the past
        proj = []
        for _ in range(3):
            v = self.rng.normal(size=n)
            proj.append(d @ v)
        if self.prev is not None:
            for a in self.prev:
                for b in proj:
                    prod = a * b
                    sd = np.sqrt(np.sum(prod**2))
                    if sd > 0:
                        z = abs(prod.sum()) / sd
                        mon.check(
                            z <= 7.0 or slack * runs * 5 > abs(prod.sum()), self.label + ": successive draws are dependent",
                            z=float(z), step=step, **self.info,
                        )  # fmt: skip
        self.prev = proj
