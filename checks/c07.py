"""C07: synthesis of arbitrary coefficients is the defining sum."""
import gen

ID = "C07"
RULE = ("configurations as for C06; instead of coefficients of a signal, arbitrary random band-limited functions on "
        "SO(3) per scale and on the sphere for the scaling part (including orders, degrees and parities the filters "
        "ignore), sampled directly; the synthesised signal is compared with the directly summed defining series.  "
        "Non-trivial: at least two wavelet scales contribute to the signal.")
HP = [(4, 1, 1, 2.0), (8, 2, 2, 2.0), (6, 2, 2, 2.0), (5, 2, 2, 2.0), (9, 2, 2, 2.0), (6, 1, 1, 3.0)]


def generate(rng, tier):
    q = tier == "quick"
    k = 1 if q else 12

    def mk(n, backends, **kw):
        out = []
        for c in gen.configs(rng, n, **kw):
            if backends[0] == "base":
                c["spin0"] = rng.choice([0, 0, 0, 1, -1, 2]) if c["L"] > 3 else 0
            out.append(dict(cfg=c, backends=backends, seed=rng.randrange(10**6), scale=rng.choice([1.0, 1.0, 1.0, 1e-9, 1e-14, 1e7]),
                            only=rng.choice(["all", "all", "all", "wav", "scal"])))
        return out

    jx = mk(24 * k, ["jax"], Lmax=9, max_scales=4)
    pr = mk(20 * k, ["pre", "torch"], Lmax=10, max_scales=5)
    cc = mk(50 * k, ["c"], Lmax=14)
    bs = mk(90 * k, ["base", "looped"], Lmax=12, multires=(True, True, False))
    big = mk(6 * k, ["base", "c"], Lmin=18, Lmax=30, lams=(2.0, 3.0, 5.0))
    large = mk(6 * k, ["c"], Lmin=31, Lmax=56, lams=(2.0, 3.0, 4.0, 1.7), Nmax=8)
    hp = []
    for i in range(12 * k):
        L, ns, J, lam = rng.choice(HP)
        mr = rng.random() < 0.6
        c = dict(L=L, N=rng.randint(1, 3), J_min=J if mr else rng.randint(0, 1), lam=lam, spin=0,
                 sampling="healpix", nside=ns, reality=rng.random() < 0.5, multires=mr)
        hp.append(dict(cfg=c, seed=rng.randrange(10**6), scale=1.0, only="all",
                       backends=["base", "looped"] + (["torch"] if mr else [])))
    for i in range(2 * k):
        c = dict(L=8, N=1, J_min=2, lam=2.0, spin=0, sampling="healpix", nside=2,
                 reality=bool(i % 2), multires=True)
        hp.append(dict(cfg=c, seed=rng.randrange(10**6), scale=1.0, only="all", backends=["pre", "jax"][i % 2:][:1]))
    return jx + pr + hp + big + large + cc + bs


def coefficients(case, ds, Ls):
    import numpy as np
    import ref
    import sig

    c = case["cfg"]
    rng = np.random.default_rng(case["seed"])
    re, smp, ns = c["reality"], c["sampling"], c.get("nside")
    kw = 0.0 if case["only"] == "scal" else case["scale"]
    ks = 0.0 if case["only"] == "wav" else case["scale"]
    flmns = [sig.random_flmn(Lj, Nj, re, rng, kw) for Lj, Nj in ds]
    fs = sig.random_flm(Ls, c.get("spin", 0), re, dict(kind="dense", scale=ks, seed=case["seed"])) \
        if Ls > abs(c.get("spin", 0)) else np.zeros((Ls, 2 * Ls - 1), complex)
    w = [ref.so3_synth(x, Lj, Nj, smp, ns) for x, (Lj, Nj) in zip(flmns, ds)]
    s = ref.s2_synth(fs, Ls, c.get("spin", 0), smp, ns)
    if re:
        w, s = [x.real.copy() for x in w], s.real.copy()
    if smp == "healpix":
        flmns = [ref.hp_forward_so3(x, Lj, Nj, ns) for x, (Lj, Nj) in zip(w, ds)]
        fs = ref.hp_forward(s, Ls, 0, ns)
    return flmns, fs, w, s


def run(case):
    import numpy as np
    import backends as B
    import ref
    import sig
    import tx
    from core import repo_call

    c = case["cfg"]
    ds, Ls = gen.dims(c)
    flmns, fs, w, s = coefficients(case, ds, Ls)
    ex = tx.exact_filters(c)
    n = 0
    for b in case["backends"]:
        d = f"{b} synthesis, {tx.describe(c)}" + (f" spin0={c['spin0']}" if c.get("spin0") else "")
        filt = tx.pkg_filters(c) if b in B.SELF_FILTER else tx.ref_filters(c)

        def expect(filt):
            flm = ref.synth_flm(flmns, fs, filt[0], filt[1], c["L"], ds, Ls, c["J_min"])
            return ref.s2_synth(flm, c["L"], c.get("spin", 0), c["sampling"], c.get("nside"))

        g = expect(filt)
        with repo_call(d):
            f = B.synthesis(b, [x.copy() for x in w], s.copy(), c, None if b in B.SELF_FILTER else filt)
        floor = max([float(np.max(np.abs(x))) for x in flmns] + [float(np.max(np.abs(fs)))]) * 0.1
        sig.close(f, g, tx.TOL, d, floor)
        n += 1
        if b != "looped":
            # coefficients of another magnitude give the same signal at that magnitude
            a = [1e-14, 1e8, 1e-200, -1e-12][case["seed"] % 4]
            with repo_call(d + f" of coefficients times {a}"):
                fa = B.synthesis(b, [a * x for x in w], a * s, c, None if b in B.SELF_FILTER else filt)
            sig.close(fa, a * np.asarray(f), tx.TOL, d + f" of coefficients times {a}", abs(a) * floor)
            n += 1
        if b in B.SELF_FILTER:
            sig.close(f, expect(ex), tx.LOOSE, d + " (exact tiling)", floor)
    used = [i for i, (Lj, Nj) in enumerate(ds) if np.any(ex[0][c["J_min"] + i])]
    return dict(evals=n, nontrivial=case["only"] != "scal" and len(used) >= min(2, c["L"] - 1),
                tags=tx.tags(c, *("backend:" + b for b in case["backends"])))


def shrink(case):
    for o in ("scal", "wav"):
        if case["only"] == "all":
            yield dict(case, only=o)
    if case["scale"] != 1.0:
        yield dict(case, scale=1.0)
    if case["cfg"].get("spin0"):
        yield dict(case, cfg=dict(case["cfg"], spin0=0))
    if case["cfg"]["sampling"] == "healpix":
        if len(case["backends"]) > 1:
            for b in case["backends"]:
                yield dict(case, backends=[b])
        return
    yield from gen.shrink_simple(case)
