"""C09: for real signals the real-signal path gives the results of the general path, and real ones."""
import gen
import ref

ID = "C09"
RULE = ("random scalar configurations; a random real signal (and real coefficients) is put through analysis, synthesis "
        "and harmonic-space analysis twice, with the reality flag on and off; all outputs must agree and be real.  "
        "Non-trivial: the signal varies in azimuth and at least two scales carry energy.")


def generate(rng, tier):
    k = 1 if tier == "quick" else 12
    out = []

    def add(n, b, only=None, **kw):
        for c in gen.configs(rng, n, spins=(0,), p_real=1.0, **kw):
            what = only or ["analysis", "synthesis"] + ([] if b in ("base", "looped") else ["flm"])
            out.append(dict(cfg=c, backends=[b], sig=gen.signal_spec(rng), what=what))

    for only in ("analysis", "synthesis", "flm"):
        add(6 * k, "jax", [only], Lmax=8, max_scales=3)
        add(7 * k, "pre", [only], Lmax=8, max_scales=3)
    add(16 * k, "torch", Lmax=9, max_scales=5)
    add(10 * k, "base", Lmin=16, Lmax=28, lams=(2.0, 3.0))
    add(6 * k, "c", Lmin=31, Lmax=56, lams=(2.0, 3.0, 4.0, 1.7), Nmax=8)
    add(60 * k, "c", Lmax=14)
    add(110 * k, "base", Lmax=14, multires=(True, True, False))
    add(40 * k, "looped", Lmax=9, multires=(True, True, False))
    return out


def run(case):
    import numpy as np
    import backends as B
    import sig
    import tx
    from core import repo_call, Violation

    c, b = case["cfg"], case["backends"][0]
    flm, f = tx.signal(c, case["sig"])
    ds, Ls = gen.dims(c)
    psi, phi = tx.ref_filters(c)
    filt = None if b in B.SELF_FILTER else (psi, phi)
    cc = dict(c, reality=False)
    d = f"{b}, {tx.describe(c)}"
    n = 0

    def both(what, real, gen_, floor):
        if len(real) != len(gen_):
            raise Violation(f"{d} {what}: {len(real)} arrays with the reality flag, {len(gen_)} without")
        for i, (x, y) in enumerate(zip(real, gen_)):
            sig.close(x, y, tx.TOL, f"{d} {what}, output {i}, reality flag on against off", floor)
            for z, which in ((x, "on"), (y, "off")):
                if np.max(np.abs(np.imag(z)), initial=0.0) > tx.TOL * floor:
                    raise Violation(f"{d} {what}, output {i}: not real with the reality flag {which}")

    if "analysis" in case["what"]:
        with repo_call(d + " analysis"):
            w, s = B.analysis(b, f.copy(), c, filt)
            w2, s2 = B.analysis(b, f.astype(complex), cc, filt)
        both("analysis", list(w) + [s], list(w2) + [s2], float(np.max(np.abs(flm))))
        n += 1
    if "synthesis" in case["what"]:
        rng = np.random.default_rng(case["sig"]["seed"])
        w = [ref.so3_synth(sig.random_flmn(Lj, Nj, True, rng), Lj, Nj, c["sampling"]).real for Lj, Nj in ds]
        s = ref.s2_synth(sig.random_flm(Ls, 0, True, case["sig"]), Ls, 0, c["sampling"]).real
        with repo_call(d + " synthesis"):
            g = B.synthesis(b, [x.copy() for x in w], s.copy(), c, filt)
            g2 = B.synthesis(b, [x.astype(complex) for x in w], s.astype(complex), cc, filt)
        both("synthesis", [g], [g2], max([float(np.max(np.abs(x))) for x in w] + [float(np.max(np.abs(s)))]))
        n += 1
    if "flm" in case["what"]:
        with repo_call(d + " flm_to_analysis"):
            w = B.flm_to_analysis(b, flm.copy(), c, psi)
            w2 = B.flm_to_analysis(b, flm.copy(), cc, psi)
        both("flm_to_analysis", w, w2, float(np.max(np.abs(flm))))
        n += 1
    L = c["L"]
    az = np.any(np.abs(flm[:, L:]) > 0)
    return dict(evals=n, nontrivial=bool(az) and tx.nontrivial(flm, psi, c),
                tags=tx.tags(c, "backend:" + b, *case["what"]))


def shrink(case):
    for w in case["what"]:
        if len(case["what"]) > 1:
            yield dict(case, what=[w])
    for d in gen.shrink_simple(case):
        if d["cfg"]["reality"]:
            yield d
