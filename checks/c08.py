"""C08: analysis started from harmonic coefficients, whole or truncated at a highest scale."""
import gen
import ref

ID = "C08"
RULE = ("random configurations with a random (or omitted) highest scale; harmonic coefficients of a random signal; the "
        "wavelet coefficients of the named backends compared, scale by scale, with the directly summed series, filters "
        "passed or omitted.  Non-trivial: at least two scales carry energy, or the truncation removes a scale.")


HP = [(4, 1, 1, 2.0), (8, 2, 2, 2.0), (6, 2, 2, 2.0), (5, 2, 2, 2.0), (9, 2, 2, 2.0), (6, 1, 1, 3.0)]


def generate(rng, tier):
    k = 1 if tier == "quick" else 12
    out = []

    def add(n, backends, **kw):
        for c in gen.configs(rng, n, **kw):
            J = ref.j_max(c["L"], c["lam"])
            jm = rng.choice([None, J, rng.randint(c["J_min"], J), rng.randint(c["J_min"], J)])
            out.append(dict(cfg=c, sig=gen.signal_spec(rng), J_max=jm, backends=backends,
                            filt=rng.choice(["ref", "pkg", "none"]), shift=rng.random() < 0.75))

    # the extremes of truncation: the lowest scale only, including scale zero
    for b, n in (("jax", 3), ("pre", 3), ("torch", 3), ("c", 8)):
        for i in range(n * k):
            c = gen.random_config(rng, Lmax=7, max_scales=5)
            c["J_min"] = 0 if i % 3 == 0 else c["J_min"]
            out.append(dict(cfg=c, sig=gen.signal_spec(rng), J_max=c["J_min"], backends=[b],
                            filt=rng.choice(["ref", "pkg", "none"]), shift=rng.random() < 0.75))
    for i in range(8 * k):          # HEALPix: synthesis on the pixels is still the defining sum
        L, ns, J, lam = HP[i % len(HP)]
        c = dict(L=L, N=1 if i % 4 == 3 else rng.randint(1, 3), J_min=J, lam=lam, spin=0, sampling="healpix", nside=ns,
                 reality=rng.random() < 0.5, multires=True)
        out.append(dict(cfg=c, sig=gen.signal_spec(rng), J_max=rng.choice([None, J, J]), filt=rng.choice(["ref", "none"]),
                        backends=["pre"] if i % 4 == 3 else ["torch"], shift=True))
    add(30 * k, ["jax"], Lmax=9, max_scales=4)
    add(30 * k, ["pre", "torch"], Lmax=10, max_scales=5)
    add(8 * k, ["torch"], Lmax=16, lams=(2.0, 3.0, 1.5, 2.5))
    add(6 * k, ["c"], Lmin=31, Lmax=64, lams=(2.0, 3.0, 4.0, 1.7), Nmax=8)
    add(150 * k, ["c"], Lmax=16)
    return out


def run(case):
    import numpy as np
    import backends as B
    import sig
    import tx
    from core import repo_call

    c, jm = case["cfg"], case["J_max"]
    J = ref.j_max(c["L"], c["lam"])
    flm = sig.random_flm(c["L"], c["spin"], c["reality"], case["sig"])
    ds, _ = gen.dims(c)
    rf = tx.ref_filters(c)
    n = 0
    for b in case["backends"]:
        d = f"{b} flm_to_analysis, {tx.describe(c)}, J_max={jm}, filters {case['filt']}"
        kind = case["filt"]
        if kind == "none" and c["spin"] != 0:
            kind = "ref"           # omitted filters are those of scalar signals
        filt = {"ref": lambda: rf, "pkg": lambda: tx.pkg_filters(c), "none": lambda: tx.pkg_filters(c)}[kind]()
        top = (J if jm is None else jm) - c["J_min"] + 1
        want = [ref.so3_synth(ref.wav_flmn(flm, filt[0][c["J_min"] + i], c["L"], Lj, Nj), Lj, Nj, c["sampling"],
                             c.get("nside"))
                for i, (Lj, Nj) in enumerate(ds[:top])]
        kw = {}
        with repo_call(d):
            if b == "pre" and not case["shift"]:
                p = B.full_pre(c, False)
                kw = dict(precomps=(p[0], p[1], list(p[2]) + [p[2][-1]]), shift=False)
            w = B.flm_to_analysis(b, flm.copy(), c, None if kind == "none" else filt[0], jm, **kw)
        sig.close_list(w, want, tx.TOL, d, max([float(np.max(np.abs(flm)))] + [np.max(np.abs(x)) for x in want]))
        n += 1
    return dict(evals=n, nontrivial=tx.nontrivial(flm, rf[0], c) or jm not in (None, J),
                tags=tx.tags(c, "truncated" if jm not in (None, J) else "whole", "filters:" + case["filt"],
                             *("backend:" + b for b in case["backends"])))


def shrink(case):
    if case["filt"] != "ref":
        yield dict(case, filt="ref")
    if not case["shift"]:
        yield dict(case, shift=True)
    if case["J_max"] is not None:
        yield dict(case, J_max=None)
    if case["cfg"]["sampling"] == "healpix":
        return
    for d in gen.shrink_simple(case):
        J = ref.j_max(d["cfg"]["L"], d["cfg"]["lam"])
        if d["J_max"] is None or d["cfg"]["J_min"] <= d["J_max"] <= J:
            yield d
