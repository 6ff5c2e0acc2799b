"""C14: the transform is a tight frame, equivariant under rotations, and steerable."""
import gen
import ref

ID = "C14"
RULE = ("random configurations and signals; (a) energy of all coefficients, integrated with exact quadrature, equals the "
        "energy of the signal; (b) rotating the signal in azimuth by a random angle rotates every coefficient map by it; "
        "(c) rotating it by a random rotation leaves the energy of every scale unchanged; (d) the orientation spectrum "
        "of every scale holds only orders below N of the parity of N-1.  Non-trivial: at least two wavelet scales carry energy.")


def generate(rng, tier):
    k = 1 if tier == "quick" else 12
    out = []

    def add(n, b, **kw):
        for i, c in enumerate(gen.configs(rng, n, **kw)):
            rel = rng.choice([["energy"], ["azimuth"], ["rotation"]]) if b in ("jax", "pre") else \
                ["energy", "azimuth", "rotation"]
            out.append(dict(cfg=c, backends=[b], sig=gen.signal_spec(rng), rel=rel,
                            angles=[round(rng.uniform(0.1, 6.1), 3), round(rng.uniform(0.1, 3.0), 3),
                                    round(rng.uniform(0.1, 6.1), 3)]))

    add(15 * k, "jax", Lmax=8, max_scales=3)
    add(15 * k, "pre", Lmax=9, max_scales=4)
    add(18 * k, "torch", Lmax=9, max_scales=5)
    add(8 * k, "base", Lmin=16, Lmax=28, lams=(2.0, 3.0, 4.0), samplings=("gl", "dh", "mw"))
    add(6 * k, "c", Lmin=24, Lmax=40, lams=(2.0, 3.0, 4.0), samplings=("gl", "dh", "mwss"))
    add(60 * k, "c", Lmax=14, samplings=("mw", "mwss", "dh", "gl", "dh", "gl"))
    add(100 * k, "base", Lmax=12, multires=(True, True, False), samplings=("mw", "mwss", "dh", "gl", "dh", "gl"))
    add(30 * k, "looped", Lmax=8, multires=(True, True, False), samplings=("mw", "mwss", "dh", "gl", "dh", "gl"))
    return out


def energies(w, s, ds, Ls, smp, spin):
    """Exact integrals of |coefficients|^2 per scale (by quadrature, on MW grids by Parseval)."""
    import numpy as np

    out = []
    if smp in ("mw", "mwss"):
        for x, (Lj, Nj) in zip(w, ds):
            e = np.sum(np.abs(ref.so3_coeffs(x, Lj, Nj, smp)) ** 2, axis=(0, 2))
            out.append(float(np.sum(e * (2 * np.arange(Lj) + 1) / (8 * np.pi**2))))
        out.append(float(np.sum(np.abs(ref.s2_coeffs(s, Ls, spin, smp)) ** 2)))
        return np.array(out)
    for x, (Lj, Nj) in zip(w, ds):
        t = ref.theta_weights(Lj, smp)
        out.append(float(np.einsum("gtp,t->", np.abs(x) ** 2, t) * 2 * np.pi / x.shape[0] * 2 * np.pi / x.shape[2]))
    t = ref.theta_weights(Ls, smp)
    out.append(float(np.einsum("tp,t->", np.abs(s) ** 2, t) * 2 * np.pi / s.shape[1]))
    return np.array(out)


def rotate_azimuth(x, a, lim):
    """Rotate band-limited samples by the angle a along the last axis."""
    import numpy as np

    n = x.shape[-1]
    m = np.fft.fftfreq(n, 1.0 / n)
    ph = np.where(np.abs(m) < lim, np.exp(-1j * m * a), 0)
    return np.fft.ifft(np.fft.fft(x, axis=-1) * ph, axis=-1)


def rotate_flm(flm, angles):
    import numpy as np

    L = flm.shape[0]
    al, be, ga = angles
    out = np.zeros_like(flm)
    for l in range(L):
        m = np.arange(-l, l + 1)
        D = np.exp(-1j * al * m)[:, None] * ref.wigner_d(l, be) * np.exp(-1j * ga * m)[None]
        out[l, L - 1 - l:L + l] = D @ flm[l, L - 1 - l:L + l]
    return out


def run(case):
    import numpy as np
    import backends as B
    import tx
    from core import Violation, repo_call

    c, b = case["cfg"], case["backends"][0]
    smp, L = c["sampling"], c["L"]
    flm, f = tx.signal(c, case["sig"])
    psi, phi = tx.ref_filters(c)
    filt = None if b in B.SELF_FILTER else (psi, phi)
    ds, Ls = gen.dims(c)
    d = f"{b}, {tx.describe(c)}"
    pre = "default"
    if b in ("pre", "torch"):
        with repo_call(d + " precomputes"):
            pre = B.full_pre(c, False, b == "torch")

    def go(x):
        with repo_call(d + " analysis"):
            w, s = B.analysis(b, x, c, filt, pre)
        if len(w) != len(ds) or any(y.shape != ref.so3_shape(Lj, Nj, smp) for y, (Lj, Nj) in zip(w, ds)) \
                or s.shape != ref.s2_shape(Ls, smp):
            raise Violation(f"{d} analysis: coefficients of the wrong shape")
        return w, s

    def samples(flm):
        g = ref.s2_synth(flm, L, c["spin"], smp)
        return g.real.copy() if c["reality"] else g

    w, s = go(f.copy())
    floor = float(np.max(np.abs(flm)))
    n = 0
    # (d) orientation spectrum
    for i, (x, (Lj, Nj)) in enumerate(zip(w, ds)):
        F = np.fft.fft(x, axis=0) / x.shape[0]
        nn = np.rint(np.fft.fftfreq(x.shape[0], 1.0 / x.shape[0])).astype(int)
        bad = (np.abs(nn) >= c["N"]) | ((nn + c["N"]) % 2 == 0)
        if np.any(bad) and np.max(np.abs(F[bad])) > tx.TOL * floor:
            raise Violation(f"{d}: scale {c['J_min'] + i} is not steerable with N={c['N']}")
        n += 1
    if "energy" in case["rel"]:
        e = energies(w, s, ds, Ls, smp, c["spin"])
        lim = np.sum(np.abs(flm) ** 2)
        if not abs(e.sum() - lim) <= 1e-6 * lim:
            raise Violation(f"{d}: coefficients hold energy {e.sum()!r}, signal {lim!r}")
        n += 1
    if "azimuth" in case["rel"]:
        a = case["angles"][0]
        m = np.arange(-L + 1, L)
        w2, s2 = go(samples(flm * np.exp(-1j * m * a)[None]))
        for i, (x, y) in enumerate(zip(list(w) + [s], list(w2) + [s2])):
            lim = ds[i][0] if i < len(ds) else Ls
            if not np.max(np.abs(rotate_azimuth(x, a, lim) - y)) <= tx.TOL * floor:
                raise Violation(f"{d}: rotation by {a} in azimuth is not carried to coefficient map {i}")
        n += 1
    if "rotation" in case["rel"]:
        w2, s2 = go(samples(rotate_flm(flm, case["angles"])))
        e, e2 = energies(w, s, ds, Ls, smp, c["spin"]), energies(w2, s2, ds, Ls, smp, c["spin"])
        if not np.max(np.abs(e - e2)) <= 1e-8 * np.sum(np.abs(flm) ** 2):
            raise Violation(f"{d}: rotation {case['angles']} changes the energy of a scale: {e} to {e2}")
        n += 1
    return dict(evals=n, nontrivial=tx.nontrivial(flm, psi, c), tags=tx.tags(c, "backend:" + b, *case["rel"]))


def shrink(case):
    for r in case["rel"]:
        if len(case["rel"]) > 1:
            yield dict(case, rel=[r])
    yield from gen.shrink_simple(case)
