"""C01: the filters partition unity (admissibility), for every implementation and parameter."""
import filt

ID = "C01"
RULE = ("random (L, N, J_min, lam, spin, spin0), lam from integers, simple fractions, roots and arbitrary floats, L "
        "biased to powers of lam and their neighbours; every implementation's filters are generated and their energy "
        "summed per degree.  Non-trivial: some degree receives energy from two different scales.")
TOL = 1e-7


def generate(rng, tier):
    return filt.cases(rng, 1800, 120, 120, 30) if tier == "quick" else filt.cases(rng, 30000, 1500, 2000, 500)


def run(case):
    import numpy as np
    import ref
    from core import Violation, repo_call

    c = case["cfg"]
    L = c["L"]
    el = np.arange(L)
    lmin = max(abs(c["spin"]), abs(c["spin0"]))
    want = np.array([ref.spin_factor(l, c["spin0"]) ** 2 if l >= lmin else 0.0 for l in range(L)])
    two = False
    n = 0
    for impl in case["impls"]:
        d = f"{impl} filters, {filt.describe(c)}"
        with repo_call(d):
            psi, phi = filt.get(impl, c)
        if psi.ndim != 3 or psi.shape[1:] != (L, 2 * L - 1) or phi.shape != (L,):
            raise Violation(f"{d}: shapes {psi.shape}, {phi.shape}")
        wav = 8 * np.pi**2 / (2 * el + 1) * np.sum(np.abs(psi) ** 2, axis=2)
        tot = np.sum(wav, axis=0) + 4 * np.pi / (2 * el + 1) * np.abs(phi) ** 2
        dev = np.abs(tot - want) / np.maximum(want, 1.0)
        if not np.all(dev <= TOL):
            l = int(np.argmax(np.where(np.isfinite(dev), dev, np.inf)))
            raise Violation(f"{d}: energy of degree {l} is {tot[l]!r}, expected {want[l]!r}")
        two |= bool(np.any(np.sum(wav > 1e-12, axis=0) >= 2))
        if ":" not in impl:
            d = d.replace("directional", "axisym")
            with repo_call(d):
                kap, kap0 = filt.get_axisym(impl, c)
            if kap.ndim != 2 or kap.shape[1] != L or kap0.shape != (L,):
                raise Violation(f"{d}: shapes {kap.shape}, {kap0.shape}")
            dev = np.abs(np.sum(kap**2, axis=0) + kap0**2 - 1)
            if not np.all(dev <= TOL):
                raise Violation(f"{d}: axisymmetric tiling sums to 1 + {dev.max():.3g}")
            n += 1
        n += 1
    return dict(evals=n, nontrivial=two, tags=filt.tags(case))


shrink = filt.shrink
