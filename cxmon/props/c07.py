"""SteinThinning makes the regularised Stein-greedy choice at every step."""

import numpy as np
import scipy.stats

from cxmon import gen, greedy, lib, ref, scores

RULE = (
    "a case fixes a base kernel, a source of the score function and regularisation settings, runs reduce and refine "
    "of the real solver on several datasets and replays every returned index trace step by step in float64 (Stein "
    "kernel from the analytic reference, SciPy's weighted KDE); non-trivial: two different rows chosen; distinct: by "
    "kernel, score source, settings, sizes and the trace"
)
ASSUMPTIONS = [
    "initial coresubsets are uniformly weighted and no larger than coreset_size",
    "regularised cases use data with a non-singular covariance",
    "a choice within 1e-9 (float64) or 5e-4 (float32) of the objective's scale of the optimum counts as optimal",
]
FAMS = ["se", "pcimq", "rq", "smat", "scomp", "lin", "poly"]
SOURCES = ["default", "kdm", "stein", "stein", "custom", "override"]


def cases(tier, seed, rnd):
    r = gen.rng("C07", seed, rnd)
    n = 26 if tier == "quick" else 150
    for i in range(n):
        yield {"kind": SOURCES[i % len(SOURCES)], "x64": i % 7 != 6, "seed": gen.seed(r), "cost": 1}


def custom_matcher(fn):
    """A user-defined score matching method that returns a given score function."""

    class Fixed(lib.ScoreMatching):
        def match(self, x):
            return fn

    return Fixed()


class Setting:
    """A solver and its reference."""

    def __init__(self, r, source, n, d, ls, mon, size, unique, f64=True):
        self.source = source
        fam = FAMS[int(r.integers(len(FAMS)))]
        self.spec = gen.kernel(r, fam, ls)
        self.base = ref.ref(self.spec)
        kern = ref.build(self.spec)
        self.score = None
        self.kdm_ls = None
        matching = None
        if source == "default":
            self.kdm_ls = self.spec[1] if self.spec[0] in ("se", "pcimq", "rq", "mat") else 1.0
        elif source == "kdm":
            self.kdm_ls = float(np.float32(ls * gen.par(r, 0.5, 1.5)))
            matching = lib.KernelDensityMatching(length_scale=self.kdm_ls)
        elif source == "stein":
            self.score = scores.make(r, scores.NAMES[int(r.integers(len(scores.NAMES)))], d)
            kern = lib.SteinKernel(kern, self.score.jax)
        elif source == "custom":
            self.score = scores.make(r, str(r.choice(["gauss", "saddle", "mixture"])), d)
            matching = custom_matcher(self.score.jax)
        elif source == "override":
            other = scores.make(r, "linear", d)
            kern = lib.SteinKernel(kern, other.jax)
            if r.integers(2):
                self.kdm_ls = float(np.float32(ls * gen.par(r, 0.5, 1.5)))
                matching = lib.KernelDensityMatching(length_scale=self.kdm_ls)
            else:
                self.score = scores.make(r, str(r.choice(["gauss", "saddle"])), d)
                matching = custom_matcher(self.score.jax)
        self.regularise = bool(r.integers(4) > 0)
        self.lam = None if r.integers(2) else float(gen.f32(r.uniform(0.01, 2)))
        self.bw = [None, "scott", "silverman", float(gen.par(r, 0.3, 1.5))][int(r.integers(4))]
        self.size, self.unique = size, unique
        self.bs = greedy.block(r, n)
        self.un = greedy.unroll(r, self.bs, n, heavy=True)
        kw = {}
        if self.lam is not None:
            kw["regulariser_lambda"] = self.lam
        if self.bw is not None or r.integers(2):
            kw["kde_bw_method"] = self.bw
        self.solver = mon.call(
            "SteinThinning", lib.SteinThinning, coreset_size=size, kernel=kern, score_matching=matching,
            unique=unique, regularise=self.regularise, block_size=self.bs, unroll=self.un, **kw,
        )  # fmt: skip

    def info(self):
        return {
            "spec": self.spec, "source": self.source, "regularise": self.regularise, "lambda": self.lam,
            "bw": self.bw, "size": self.size, "unique": self.unique, "block_size": self.bs, "kdm": self.kdm_ls,
            "score": self.score.name if self.score else None,
        }  # fmt: skip

    def terms(self, x, w):
        """Stein Gramian, Laplace correction, log density and lambda."""
        n = len(x)
        a = ref.norm_weights(w, n)
        sc = self.score or scores.kde(x, a, self.kdm_ls)
        kp = ref.Stein(self.base, sc.np).k(x, x)
        if not self.regularise:
            return kp, np.zeros(n), np.zeros(n), 0.0
        kde = scipy.stats.gaussian_kde(x[a > 0].T, bw_method=self.bw, weights=a[a > 0])
        logp = kde.logpdf(x.T)
        lam = 1 / self.size if self.lam is None else self.lam
        return kp, sc.lap(x), logp, lam

    def scale(self, x, w, terms):
        """Magnitude of the terms that are added up in the objective."""
        kp, lap, logp, lam = terms
        pos = ref.norm_weights(w, len(x)) > 0
        z = x[pos]
        sc = self.score or scores.kde(x, ref.norm_weights(w, len(x)), self.kdm_ls)
        s = np.max(np.abs(sc.np(z)))
        b = self.base
        inner = np.max(np.abs(b.div(z, z))) + x.shape[1] * (
            s * np.max(np.abs(b.gx(z, z))) + s * np.max(np.abs(b.gy(z, z))) + s * s * np.max(np.abs(b.k(z, z)))
        )
        return inner * (1 + 0.3 * self.size) + np.max(lap[pos]) + lam * self.size * np.max(np.abs(logp[pos]))


def data(r, n, d, regularise):
    geoms = ["normal", "clusters", "shift"] if regularise else ["normal", "dups", "clusters", "line", "ints"]
    return gen.points(r, n, d, str(r.choice(geoms)))


def run(case, mon):
    r = gen.rng(case["seed"])
    jnp = lib.jnp
    d = int(r.integers(1, 4))
    n = int(r.choice([6, 9, 14, 22, 35]))
    wk = str(r.choice(["none", "rand", "zeros", "int", "big"]))
    n_pos = n - max(1, n // 4) if wk == "zeros" else n
    size = int(r.integers(1, n_pos + 1))
    unique = bool(r.integers(3) > 0)
    x0 = gen.points(r, n, d)
    st = Setting(r, case["kind"], n, d, gen.scale_of(x0), mon, size, unique)
    info0 = st.info()
    jreduce = lib.eqx.filter_jit(st.solver.reduce)
    jrefine = lib.eqx.filter_jit(lambda init: st.solver.refine(init))
    n_init = int(r.integers(1, size + 1)) if r.integers(3) else size
    rel = 1e-9 if case["x64"] else 5e-4
    for rep in range(4):
        x = data(r, n, d, st.regularise)
        w = gen.weights(r, n, wk, min_pos=max(size, d + 3))
        ds = greedy.to_data(x, w)
        terms = st.terms(x, w)
        tol = rel * st.scale(x, w, terms)
        info = {"x": x, "w": w, **info0}

        def judge(label, coreset, init):
            out = greedy.indices(mon, coreset, n, size, label)
            tr = greedy.stein(terms[0], x, w, greedy.init_slots(init, size), out, unique, *terms[1:])
            mon.check(tr.bad is None, label + ": chose an inadmissible row", step=tr.bad, out=out, init=init, **info)
            mon.check(
                tr.regret <= tol, label + ": not the Stein-greedy choice", regret=tr.regret, tol=tol, out=out, init=init, **info
            )
            mon.margins[label] = max(mon.margins.get(label, 0), tr.regret / tol)
            if len(set(out.tolist())) > 1:
                mon.sig(label, st.source, st.spec[0], n, size, wk, st.regularise, str(st.bw), out.tolist()[:12])
            return out

        first, _ = mon.call("reduce", st.solver.reduce if rep == 0 and case["seed"] % 4 == 0 else jreduce, ds)
        out = judge("reduce", first, [])
        if rep == 0:
            mon.sample(out=out, **info)
        pos = np.flatnonzero(ref.norm_weights(w, n) > 0)
        idx = r.permutation(pos)[:n_init] if unique else pos[r.integers(0, len(pos), size=n_init)]
        init = lib.Coresubset(lib.Data(jnp.asarray(idx, dtype=jnp.int32)), ds)
        refined, _ = mon.call("refine", jrefine, init)
        judge("refine", refined, [int(i) for i in idx])
        if n_init == size:
            refined2, _ = mon.call("refine", jrefine, refined)
            judge("refine of a refined coresubset", refined2, [int(i) for i in np.asarray(refined.unweighted_indices)])
