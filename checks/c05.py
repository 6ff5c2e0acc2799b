"""C05: round trip of the accelerated transforms (JAX, C, JAX precompute, torch precompute)."""
import gen

ID = "C05"
RULE = ("configurations chosen greedily for pair/triple coverage; one random band-limited signal each through the "
        "analysis then synthesis of the named backends, filters either passed explicitly (independent or from the "
        "package) or left to the transform.  Non-trivial: at least two wavelet scales carry energy.")


def generate(rng, tier):
    q = tier == "quick"
    cases = []

    def add(n, backends, **kw):
        out = []
        for c in gen.configs(rng, n, **kw):
            out.append(dict(cfg=c, sig=gen.signal_spec(rng), backends=backends,
                            filt=rng.choice(["ref", "pkg", "none"])))
        cases.append(out)

    add(20 if q else 300, ["jax"], Lmax=9, max_scales=4)
    add(24 if q else 300, ["pre", "torch"], Lmax=10, max_scales=5)
    add(90 if q else 1500, ["c"], Lmax=14)
    add(12 if q else 300, ["torch"], Lmax=16, lams=(2.0, 3.0, 1.5, 2.5))
    add(2 if q else 40, ["jax"], Lmin=33, Lmax=66, lams=(2.0, 3.0, 4.0), Nmax=2, max_scales=6)
    add(2 if q else 40, ["torch"], Lmin=33, Lmax=66, lams=(3.0, 4.0), Nmax=2, max_scales=4)
    add(2 if q else 20, ["c"], Lmin=90, Lmax=132, lams=(2.0, 3.0, 1.7), Nmax=4)
    add(10 if q else 200, ["c"], Lmin=31, Lmax=72, lams=(2.0, 3.0, 4.0, 1.7), Nmax=8)
    # most expensive first, interleaved
    return [x for i in (4, 5, 6, 0, 1, 3, 7, 2) for x in cases[i]]


def filters(kind, c):
    import tx

    return {"ref": tx.ref_filters, "pkg": tx.pkg_filters, "none": lambda c: None}[kind](c)


def run(case):
    import backends as B
    import sig
    import tx
    from core import repo_call

    c = case["cfg"]
    flm, f = tx.signal(c, case["sig"])
    psi, _ = tx.ref_filters(c)
    n = 0
    for b in case["backends"]:
        d = f"{b} round trip, {tx.describe(c)}, filters {case['filt']}"
        filt = filters(case["filt"], c)
        with repo_call(d + ": analysis"):
            w, s = B.analysis(b, f.copy(), c, filt)
        with repo_call(d + ": synthesis"):
            g = B.synthesis(b, [x.copy() for x in w], s.copy(), c, filt)
        sig.close(g, f, tx.TOL, d)
        n += 1
    return dict(evals=n, nontrivial=tx.nontrivial(flm, psi, c),
                tags=tx.tags(c, "filters:" + case["filt"], *("backend:" + b for b in case["backends"])))


def shrink(case):
    if case["filt"] != "ref":
        yield dict(case, filt="ref")
    yield from gen.shrink_simple(case)
