"""Generation and shrinking of transform configurations and signals.

A configuration is a plain dict: L, N, J_min, lam, spin, sampling, nside, reality,
multires.  Only values the package documents are produced: 1 <= N <= L,
0 <= J_min < j_max, lam > 1, |spin| < L, reality only with spin 0.
"""
import itertools
import math

import ref

SAMPLINGS = ("mw", "mwss", "dh", "gl")
LAMS = (2.0, 2.0, 2.0, 3.0, 3.0, 1.5, 2.5, 4.0, 1.3, 5.0, 2, 3, 1.7)


def dims(c):
    """([(L_j, N_j) for every used scale], L_scaling) by the published rule."""
    L, N, lam, J_min = c["L"], c["N"], c["lam"], c["J_min"]
    J = ref.j_max(L, lam)
    out = []
    for j in range(J_min, J + 1):
        jj = max(j, 1)
        if c.get("multires", True):
            Lj = min(ceil_pow(lam, jj + 1), L)
            Nj = min(N, Lj)
            Nj += (Nj + N) % 2
        else:
            Lj, Nj = L, N
        out.append((Lj, Nj))
    Ls = min(ceil_pow(lam, J_min), L) if c.get("multires", True) else L
    return out, Ls


def ceil_pow(lam, j):
    return math.ceil(lam**j)


def features(c):
    """Discrete factor levels used for pairwise/triple coverage."""
    L, N, lam, J_min = c["L"], c["N"], c["lam"], c["J_min"]
    J = ref.j_max(L, lam)
    ds, Ls = dims(dict(c, multires=True))
    s = c.get("spin", 0)
    return (
        ("smp", c["sampling"]),
        ("re", c["reality"]),
        ("mr", c.get("multires", True)),
        ("sp", (s > 0) - (s < 0), min(abs(s), 2)),
        ("N", min(N, 4), N % 2),
        ("N=L", N == L, N > 6),
        ("bump", any(n > l for l, n in ds)),
        ("J", min(J_min, 2)),
        ("Jtop", J_min == J - 1),
        ("lam", "int" if float(lam).is_integer() else "frac", lam > 2, lam < 2),
        ("L", L % 2, L <= 4, L >= 10),
        ("pow", abs(lam**J - L) < 1e-9),
        ("Ls<=s", Ls <= abs(s)),
    )


def random_config(rng, Lmin=2, Lmax=14, samplings=SAMPLINGS, spins=(0, 0, 0, 0, 1, -1, 2, -2, 1, -1, 2, -2, 3, -3, 4, -5),
                  lams=LAMS, p_real=0.4, multires=(True,), Nmax=6, max_scales=None):
    while True:
        L = rng.randint(Lmin, Lmax)
        lam = rng.choice(lams)
        J = ref.j_max(L, lam)
        if J < 1:
            continue
        r = rng.random()
        if r < 0.3:
            J_min = 0
        elif r < 0.5:
            J_min = min(1, J - 1)
        elif r < 0.65:
            J_min = J - 1
        else:
            J_min = rng.randrange(0, J)
        if max_scales and J - J_min + 1 > max_scales:
            J_min = J + 1 - max_scales
        r = rng.random()
        if r < 0.1 and L <= 8:
            N = L
        elif r < 0.1 and L <= 14:
            N = rng.randint(min(7, L), min(L, 10))      # many orientations
        else:
            N = rng.randint(1, min(L, Nmax))
        s = rng.choice(spins)
        if abs(s) >= L:
            continue
        re = s == 0 and rng.random() < p_real
        smp = rng.choice(samplings)
        if smp == "dh":
            N = min(N, 7)       # s2fft's recursion loses digits near the poles for high orders
        return dict(L=L, N=N, J_min=J_min, lam=lam, spin=s, sampling=smp,
                    reality=re, multires=rng.choice(multires))


class Cover:
    """Greedy choice of configurations that cover most pairs/triples of factor levels."""

    def __init__(self):
        self.pairs = set()
        self.trip = set()

    def score(self, c):
        f = features(c)
        p = sum(x not in self.pairs for x in itertools.combinations(f, 2))
        t = sum(x not in self.trip for x in itertools.combinations(f, 3))
        return p + 0.15 * t

    def add(self, c):
        f = features(c)
        self.pairs.update(itertools.combinations(f, 2))
        self.trip.update(itertools.combinations(f, 3))


def _over(c):
    return any(n < c["N"] for _, n in dims(c)[0])


# Combinations every set of configurations starts with, as far as its factors allow them.
STRATA = (
    lambda c: c["N"] == 1 and c["reality"],
    lambda c: _over(c) and not c["reality"],
    lambda c: c["N"] == 1 and not c["reality"],
    lambda c: _over(c) and c["reality"],
    lambda c: c["spin"] != 0 and dims(c)[1] <= abs(c["spin"]),
    lambda c: any(n > l for l, n in dims(c)[0]),
    lambda c: c["N"] % 2 == 0 and c["reality"] and c["J_min"] > 0,
    lambda c: c["spin"] != 0 and c["J_min"] > 0 and dims(c)[1] > abs(c["spin"]),
)


def configs(rng, n, tries=25, strata=STRATA, **kw):
    cov, out = Cover(), []
    for i in range(n):
        cand = []
        if i < len(strata):
            for _ in range(1500):
                c = random_config(rng, **kw)
                if strata[i](c):
                    cand.append(c)
                    if len(cand) == tries:
                        break
        cand = cand or [random_config(rng, **kw) for _ in range(tries)]
        best = max(cand, key=cov.score)
        cov.add(best)
        out.append(best)
    return out


KINDS = ("dense", "dense", "dense", "single", "low", "top")
SCALES = (1.0, 1.0, 1.0, 1.0, 1e-9, 1e-14, 1e7)


def signal_spec(rng):
    return dict(kind=rng.choice(KINDS), scale=rng.choice(SCALES), seed=rng.randrange(10**6))


# ------------------------------------------------------------------ shrinking
def shrink_config(c):
    """Simpler valid configurations, most aggressive first."""
    def ok(d):
        J = ref.j_max(d["L"], d["lam"])
        return (J >= 1 and 0 <= d["J_min"] < J and 1 <= d["N"] <= d["L"]
                and abs(d.get("spin", 0)) < d["L"])

    cand = []
    for L in (2, 3, 4, c["L"] // 2, c["L"] - 1):
        if 2 <= L < c["L"]:
            cand.append(dict(c, L=L, N=min(c["N"], L)))
    for N in (1, 2, c["N"] - 1):
        if 1 <= N < c["N"]:
            cand.append(dict(c, N=N))
    if c["J_min"] > 0:
        cand.append(dict(c, J_min=0))
        cand.append(dict(c, J_min=c["J_min"] - 1))
    if c["lam"] != 2.0:
        cand.append(dict(c, lam=2.0))
    if c.get("spin", 0) != 0:
        cand.append(dict(c, spin=0))
        if abs(c["spin"]) > 1:
            cand.append(dict(c, spin=c["spin"] // abs(c["spin"])))
    if c["sampling"] not in ("mw", "healpix"):
        cand.append(dict(c, sampling="mw"))
    if c["reality"]:
        cand.append(dict(c, reality=False))
    if c.get("multires", True) is False:
        cand.append(dict(c, multires=True))
    for d in cand:
        if ok(d):
            yield d


def shrink_simple(case, key="cfg"):
    """Shrinker for cases holding one config, one list of backends and one signal spec."""
    if len(case.get("backends", [])) > 1:
        for b in case["backends"]:
            yield dict(case, backends=[b])
    for d in shrink_config(case[key]):
        yield dict(case, **{key: d})
    sig = case.get("sig")
    if sig:
        if sig["kind"] != "single":
            yield dict(case, sig=dict(sig, kind="single"))
        if sig["scale"] != 1.0:
            yield dict(case, sig=dict(sig, scale=1.0))
