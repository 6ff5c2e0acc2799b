"""C06: analysis coefficients are the samples of the continuous wavelet transform."""
import gen

ID = "C06"
RULE = ("configurations chosen greedily for pair/triple coverage of sampling, reality, spin, N, J_min, lam, L, "
        "resolution mode; a random signal per configuration; coefficients of the named implementation compared with "
        "a direct summation of the defining series on the published sample positions (and, for HEALPix, of the "
        "equal-weight pixel sum).  Each signal is also analysed at another magnitude.  Non-trivial: at least two wavelet scales carry energy.")
HP = [(4, 1, 1, 2.0), (8, 2, 2, 2.0), (6, 2, 2, 2.0), (5, 2, 2, 2.0), (9, 2, 2, 2.0), (6, 1, 1, 3.0), (4, 1, 1, 2.0)]


def generate(rng, tier):
    q = tier == "quick"
    k = 1 if q else 12

    def mk(n, backends, **kw):
        out = []
        for c in gen.configs(rng, n, **kw):
            case = dict(cfg=c, sig=gen.signal_spec(rng), backends=backends)
            if backends[0] == "base":
                c["spin0"] = rng.choice([0, 0, 0, 1, -1, 2]) if c["L"] > 3 else 0
                case["scattering"] = rng.random() < 0.4
            out.append(case)
        return out

    jx = mk(24 * k, ["jax"], Lmax=9, max_scales=4)
    pr = mk(18 * k, ["pre", "torch"], Lmax=10, max_scales=5)
    cc = mk(50 * k, ["c"], Lmax=14)
    bs = mk(90 * k, ["base", "looped"], Lmax=12, multires=(True, True, False))
    big = mk(6 * k, ["base", "c"], Lmin=18, Lmax=30, lams=(2.0, 3.0, 5.0))
    large = mk(6 * k, ["c"], Lmin=31, Lmax=64, lams=(2.0, 3.0, 4.0, 1.7), Nmax=8)
    hp = []
    for i in range(12 * k):
        L, ns, J, lam = rng.choice(HP)
        mr = rng.random() < 0.6
        c = dict(L=L, N=rng.randint(1, 3), J_min=J if mr else rng.randint(0, 1), lam=lam, spin=0,
                 sampling="healpix", nside=ns, reality=rng.random() < 0.5, multires=mr)
        hp.append(dict(cfg=c, sig=gen.signal_spec(rng),
                       backends=["base", "looped"] + (["torch"] if mr else [])))
    for i in range(2 * k):
        c = dict(L=8, N=1, J_min=2, lam=2.0, spin=0, sampling="healpix", nside=2,
                 reality=bool(i % 2), multires=True)
        hp.append(dict(cfg=c, sig=gen.signal_spec(rng), backends=["pre", "jax"][i % 2:][:1]))
    return jx + pr + hp + big + large + cc + bs


def run(case):
    import numpy as np
    import backends as B
    import ref
    import sig
    import tx
    from core import repo_call

    c = case["cfg"]
    flm, f = tx.signal(c, case["sig"])
    if c["sampling"] == "healpix":
        flm = ref.hp_forward(f, c["L"], c.get("spin", 0), c["nside"])
    ds, Ls = gen.dims(c)
    ex = tx.exact_filters(c)
    n = 0
    for b in case["backends"]:
        d = f"{b} analysis, {tx.describe(c)}" + (f" spin0={c['spin0']}" if c.get("spin0") else "")
        filt = tx.pkg_filters(c) if b in B.SELF_FILTER else tx.ref_filters(c)
        wr, sr = ref.analyse(flm, filt[0], filt[1], c, ds, Ls)
        with repo_call(d):
            w, s = B.analysis(b, f.copy(), c, None if b in B.SELF_FILTER else filt)
        floor = float(np.max(np.abs(flm)))
        sig.close_list(w, wr, tx.TOL, d + ": wavelet coefficients", max(floor, max(np.max(np.abs(x)) for x in wr)))
        sig.close(s, sr, tx.TOL, d + ": scaling coefficients", floor)
        n += 1
        if b != "looped":
            # a signal of another magnitude gives the same coefficients at that magnitude
            a = [1e-14, 1e8, 1e-200, -1e-12][case["sig"]["seed"] % 4]
            with repo_call(d + f" of the signal times {a}"):
                wa, sa = B.analysis(b, a * f, c, None if b in B.SELF_FILTER else filt)
            big = abs(a) * max([floor] + [np.max(np.abs(x)) for x in wr])
            sig.close_list(wa, [a * np.asarray(x) for x in w], tx.TOL, d + f" of the signal times {a}", big)
            sig.close(sa, a * np.asarray(s), tx.TOL, d + f" of the signal times {a}: scaling coefficients", big)
            n += 1
        if b in B.SELF_FILTER:
            # and, to quadrature accuracy, with filters from the exact integral
            we, se = ref.analyse(flm, ex[0], ex[1], c, ds, Ls)
            big = max([floor] + [np.max(np.abs(x)) for x in we] + [np.max(np.abs(se))])
            sig.close_list(w, we, tx.LOOSE, d + ": wavelet coefficients (exact tiling)", big)
            sig.close(s, se, tx.LOOSE, d + ": scaling coefficients (exact tiling)", big)
        if b == "base" and case.get("scattering"):
            from s2wav.transforms import base

            with repo_call(d + " scattering"):
                w2, s2 = base.analysis(f.copy(), c["L"], c["N"], c["J_min"], c["lam"], c["spin"], c.get("spin0", 0),
                                       c["sampling"], c.get("nside"), c["reality"], c.get("multires", True), True)
            sig.close_list([B.to_np(x) for x in w2], [np.abs(x) for x in wr], tx.TOL,
                           d + ": scattering moduli", floor)
            sig.close(s2, sr, tx.TOL, d + ": scattering scaling", floor)
            n += 1
    return dict(evals=n, nontrivial=tx.nontrivial(flm, ex[0], c),
                tags=tx.tags(c, *("backend:" + b for b in case["backends"])))


def shrink(case):
    if case.get("scattering"):
        yield dict(case, scattering=False)
    if case["cfg"].get("spin0"):
        yield dict(case, cfg=dict(case["cfg"], spin0=0))
    if case["cfg"]["sampling"] == "healpix":
        if len(case["backends"]) > 1:
            for b in case["backends"]:
                yield dict(case, backends=[b])
        return
    yield from gen.shrink_simple(case)
