"""C04: round trip of the numpy reference transforms."""
import gen

ID = "C04"
RULE = ("configurations chosen greedily for pair/triple coverage of sampling, reality, spin, N, J_min, lam, L, "
        "resolution mode; one random band-limited signal each, run through analysis and synthesis of both numpy "
        "implementations.  Non-trivial: at least two wavelet scales carry energy.")


def generate(rng, tier):
    n = 260 if tier == "quick" else 3000
    cs = gen.configs(rng, n, Lmax=14, multires=(True, True, False))
    big = gen.configs(rng, 8 if tier == "quick" else 60, Lmin=20, Lmax=33, lams=(2.0, 3.0, 2.5, 5.0), multires=(True, False))
    big += gen.configs(rng, 3 if tier == "quick" else 40, Lmin=40, Lmax=66, lams=(2.0, 3.0, 4.0), multires=(True, True, False), Nmax=2)
    if tier != "quick":
        big += gen.configs(rng, 6, Lmin=120, Lmax=132, lams=(2.0, 3.0), multires=(True,), Nmax=2)
    cases = [dict(cfg=c, sig=gen.signal_spec(rng), backends=["base", "looped"]) for c in cs]
    cases[:0] = [dict(cfg=c, sig=gen.signal_spec(rng), backends=["base"]) for c in big]
    return cases


def run(case):
    import backends as B
    import sig
    import tx
    from core import repo_call

    c = case["cfg"]
    flm, f = tx.signal(c, case["sig"])
    psi, _ = tx.exact_filters(c)
    n = 0
    for b in case["backends"]:
        d = f"{b} round trip, {tx.describe(c)}"
        with repo_call(d + ": analysis"):
            w, s = B.analysis(b, f.copy(), c)
        with repo_call(d + ": synthesis"):
            g = B.synthesis(b, [x.copy() for x in w], s.copy(), c)
        sig.close(g, f, tx.TOL, d)
        n += 1
    return dict(evals=n, nontrivial=tx.nontrivial(flm, psi, c), tags=tx.tags(c, *case["backends"]))


def shrink(case):
    return gen.shrink_simple(case)


