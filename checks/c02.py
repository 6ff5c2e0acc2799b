"""C02: every filter implementation realises the published definition, and all of them agree."""
import filt

ID = "C02"
RULE = ("random (L, N, J_min, lam, spin, spin0) as for C01; all implementations compared with the tiling and "
        "directionality functions evaluated from their integral / binomial definitions, plus compact support, "
        "azimuthal band-limit, parity and positivity.  Non-trivial: at least two scales are non-zero.")
QUAD = 5e-5     # squared tiling functions: documented 300-step trapezium against the exact integral
AGREE = 1e-6    # implementations among each other (square roots amplify rounding near the support edges)


def generate(rng, tier):
    q = tier == "quick"
    out = filt.cases(rng, 900 if q else 20000, 60 if q else 1500, 110 if q else 1500, 20 if q else 300)
    for i in range(60 if q else 1500):
        c = filt.random_case(rng, 24)
        out.append(dict(cfg=c, impls=[], parts=True, jaxparts=i % 2 == 0))
    return out


def tiling(kap, kap0, c, d):
    """Check one pair of tiling functions; returns number of non-zero scales."""
    import numpy as np
    import ref
    from core import Violation

    L, lam = c["L"], c["lam"]
    J = kap.shape[0] - 1
    ek, e0 = ref.kappas(L, c["J_min"], lam, J)
    if not (np.all(np.isfinite(kap)) and np.all(np.isfinite(kap0))):
        raise Violation(f"{d}: not finite")
    if np.any(kap < 0) or np.any(kap0 < 0):
        raise Violation(f"{d}: negative tiling function")
    dev = np.abs(kap**2 - ek**2)
    if np.max(dev) > QUAD:
        j, l = np.unravel_index(np.argmax(dev), dev.shape)
        raise Violation(f"{d}: tiling of scale {j} at degree {l} is {kap[j, l]!r}, definition {ek[j, l]!r}")
    dev = np.abs(kap0**2 - e0**2)
    if np.max(dev) > QUAD:
        l = int(np.argmax(dev))
        raise Violation(f"{d}: scaling tiling at degree {l} is {kap0[l]!r}, definition {e0[l]!r}")
    el = np.arange(L)
    for j in range(c["J_min"], J + 1):
        out = (el <= lam ** (j - 1) * (1 - 1e-12)) | (el >= lam ** (j + 1) * (1 + 1e-12))
        if np.any(kap[j][out] != 0):
            raise Violation(f"{d}: scale {j} leaks outside its support")
    if np.any(kap0[el >= lam ** c["J_min"] * (1 + 1e-12)] != 0):
        raise Violation(f"{d}: scaling function leaks outside its support")
    return int(np.sum(np.any(kap > 0, axis=1)))


def run(case):
    import numpy as np
    import ref
    from core import Violation, repo_call

    c = case["cfg"]
    L, N, lam = c["L"], c["N"], c["lam"]
    if case.get("parts"):
        return parts(case)
    el = np.arange(L)
    lmin = max(abs(c["spin"]), abs(c["spin0"]))
    fac = np.array([ref.spin_factor(l, c["spin0"]) if l >= lmin else 0.0 for l in range(L)])
    s = ref.directionality(L, N)
    tr, tr0 = None, None
    scales, n = 0, 0
    for impl in case["impls"]:
        d = f"{impl} filters, {filt.describe(c)}"
        with repo_call(d):
            psi, phi = filt.get(impl, c)
        with repo_call(d.replace("directional", "axisym")):
            kap, kap0 = filt.get_axisym(impl, c)
        J = psi.shape[0] - 1
        if psi.shape != (J + 1, L, 2 * L - 1) or phi.shape != (L,) or kap.shape != (J + 1, L) or kap0.shape != (L,):
            raise Violation(f"{d}: shapes {psi.shape}, {phi.shape}, {kap.shape}, {kap0.shape}")
        if np.any(np.imag(phi) != 0) or np.any(np.imag(kap) != 0):
            raise Violation(f"{d}: scaling or axisymmetric filter not real")
        phi, kap, kap0 = np.real(phi), np.real(kap), np.real(kap0)
        scales = max(scales, tiling(kap, kap0, c, d.replace("directional", "axisym")))
        if tr is None:
            with repo_call(f"filters_axisym, {filt.describe(c)}"):
                tr, tr0 = filt.get_axisym("directional", c)
        if tr.shape != kap.shape or np.max(np.abs(kap - tr)) > AGREE or np.max(np.abs(kap0 - tr0)) > AGREE:
            raise Violation(f"{d}: axisymmetric filters differ from those of the reference implementation")
        want = np.sqrt((2 * el + 1) / (8 * np.pi**2))[None, :, None] * tr[:, :, None] * s[None] * fac[None, :, None]
        big = np.sqrt((2 * el + 1) / (8 * np.pi**2)) * np.maximum(np.abs(fac), 1e-30)
        dev = np.abs(psi - want) / big[None, :, None]
        if not np.max(dev) <= AGREE:
            j, l, m = np.unravel_index(np.argmax(np.nan_to_num(dev, nan=np.inf)), dev.shape)
            raise Violation(f"{d}: wavelet scale {j} degree {l} order {m - L + 1} is {psi[j, l, m]!r}, "
                            f"definition {want[j, l, m]!r}")
        # squares are not subject to that amplification: agreement to rounding, double precision
        if np.max(np.abs(kap**2 - tr**2)) > 1e-10 or np.max(np.abs(kap0**2 - tr0**2)) > 1e-10:
            raise Violation(f"{d}: squared axisymmetric filters differ from those of the reference implementation")
        if np.max(np.abs(np.abs(psi / big[None, :, None]) ** 2 - np.abs(want / big[None, :, None]) ** 2)) > 1e-9:
            raise Violation(f"{d}: squared filters are off by more than rounding")
        wphi = np.sqrt((2 * el + 1) / (4 * np.pi)) * tr0 * fac
        dev = np.abs(phi - wphi) / big
        if not np.max(dev) <= AGREE * 4:
            l = int(np.argmax(np.nan_to_num(dev, nan=np.inf)))
            raise Violation(f"{d}: scaling filter degree {l} is {phi[l]!r}, definition {wphi[l]!r}")
        if np.max(np.abs((phi / big) ** 2 - (wphi / big) ** 2)) > 1e-9:
            raise Violation(f"{d}: squared scaling filter is off by more than rounding")
        m = np.arange(-L + 1, L)
        bad = (np.abs(m)[None] >= N) | ((m[None] + N) % 2 == 0) | (np.abs(m)[None] > el[:, None])
        if np.any(psi[:, np.broadcast_to(bad, (L, 2 * L - 1))] != 0):
            raise Violation(f"{d}: energy outside the azimuthal band-limit, parity or order range")
        if np.any(psi[:c["J_min"]] != 0) or np.any(psi[:, :lmin] != 0) or np.any(phi[:lmin] != 0):
            raise Violation(f"{d}: energy below J_min or below the spin")
        n += 2
    return dict(evals=n, nontrivial=scales >= 2, tags=filt.tags(case))


def parts(case):
    """The public building blocks: generating function, directionality, binomials."""
    import numpy as np
    import ref
    from math import comb
    from s2wav import filters, samples
    from core import Violation, repo_call

    c = case["cfg"]
    L, N, lam = c["L"], c["N"], c["lam"]
    d = filt.describe(c)
    n = 0
    names = ["", "_jax"] if case["jaxparts"] else [""]
    for sfx in names:
        with repo_call(f"k_lam{sfx}, {d}"):
            k = np.array(getattr(filters, "k_lam" + sfx)(L, lam))
        want = np.array([[ref.k_exact(l / lam**j, lam) for l in range(L)] for j in range(k.shape[0])])
        if k.shape[1:] != (L,) or not np.max(np.abs(k - want)) <= QUAD:
            raise Violation(f"k_lam{sfx}, {d}: generating function off by {np.max(np.abs(k - want)):.3g}")
        if k.shape[0] != ref.j_max(L, lam) + 2 and abs(k.shape[0] - ref.j_max(L, lam) - 2) > 1:
            raise Violation(f"k_lam{sfx}, {d}: {k.shape[0]} rows")
        if np.min(k) < 0 or np.max(k) > 1 + 1e-6:
            raise Violation(f"k_lam{sfx}, {d}: outside [0, 1]")
        with repo_call(f"tiling_direction{sfx}, {d}"):
            s = np.array(getattr(filters, "tiling_direction" + sfx)(L, N))
        w = ref.directionality(L, N)
        if s.shape != w.shape or not np.max(np.abs(s - w)) <= 1e-9:
            raise Violation(f"tiling_direction{sfx}, L={L} N={N}: off the definition")
        if not np.allclose(np.sum(np.abs(s[1:]) ** 2, axis=1), 1, atol=1e-9, rtol=0):
            raise Violation(f"tiling_direction{sfx}, L={L} N={N}: degrees not normalised")
        with repo_call(f"binomial_coefficient{sfx}"):
            b = [[float(getattr(samples, "binomial_coefficient" + sfx)(a, i)) for i in range(a + 1)]
                 for a in ([min(N, 30), min(L, 30)] if sfx else range(0, min(L, 30) + 1))]
        for row in b:
            a = len(row) - 1
            for i, x in enumerate(row):
                if abs(x - comb(a, i)) > 1e-9 * comb(a, i):
                    raise Violation(f"binomial_coefficient{sfx}({a}, {i}) = {x}")
        n += 3
    # integrand: smooth bump on (1/lam, 1), nothing outside; its integral by the documented rule
    with repo_call(f"tiling_integrand, lam={lam}"):
        rng = np.random.default_rng(L * 1000 + N)
        for t in np.concatenate([rng.uniform(1 / lam, 1, 12), rng.uniform(0.01, 1 / lam, 3), rng.uniform(1, 3, 3)]):
            x = (t - 1 / lam) * 2 * lam / (lam - 1) - 1
            w = np.exp(-2 / (1 - x * x)) / t if abs(x) < 1 else 0.0
            got = float(filters.tiling_integrand(float(t), lam))
            if not abs(got - w) <= 1e-10:
                raise Violation(f"tiling_integrand({t!r}, {lam}) is {got!r}, definition {w!r}")
        tot = float(filters.part_scaling_fn(1.0 / lam, 1.0, 400, lam))
        for a in rng.uniform(1 / lam, 1, 3):
            got = float(filters.part_scaling_fn(float(a), 1.0, 400, lam)) / tot
            if not abs(got - ref.k_exact(a, lam)) <= QUAD:
                raise Violation(f"part_scaling_fn({a!r}, 1, 400, {lam}) is {got!r} of the whole, "
                                f"definition {ref.k_exact(a, lam)!r}")
    # the exact-quadrature default may be overridden: more steps only move the result by quadrature error
    q = 150 + 53 * (L % 7)
    with repo_call(f"k_lam quad_iters={q}, {d}"):
        k = np.array(filters.k_lam(L, lam, q))
    want = np.array([[ref.k_exact(l / lam**j, lam) for l in range(L)] for j in range(k.shape[0])])
    if not np.max(np.abs(k - want)) <= 20 * QUAD:
        raise Violation(f"k_lam quad_iters={q}, {d}: off by {np.max(np.abs(k - want)):.3g}")
    return dict(evals=n + 1, nontrivial=k.shape[0] > 3, tags=["building blocks"])


def shrink(case):
    if case.get("parts"):
        if case["jaxparts"]:
            yield dict(case, jaxparts=False)
    yield from filt.shrink(case)
