"""C03: scales, band-limits and array shapes follow the published rule and cover the filters' support."""
import math

import filt
import ref

ID = "C03"
RULE = ("random (L, N, J_min, lam, sampling, nside, resolution mode), L biased to powers of lam and neighbours; every "
        "size function compared with the rule (either answer accepted when lam^j is an integer only up to rounding), "
        "constructed arrays compared with the sizes, supports of generated filters compared with the band-limits, and "
        "the coefficient shape check driven with correct and with singly perturbed coefficient sets.  Non-trivial: at "
        "least two scales, and band-limits differ between scales or resolution is full.")
SMP = ("mw", "mwss", "dh", "gl", "healpix")


def generate(rng, tier):
    q = tier == "quick"
    out = []
    for i in range(6000 if q else 60000):
        big = i % 3 == 0
        if big:
            lam = rng.choice([2, 3, 5, 2.0, 3.0, 5.0, 6.0, 7.0, 10.0, 4.0, round(1.2 + rng.random() * 4, rng.choice([1, 3, 12]))])
            if rng.random() < 0.5 and float(lam).is_integer():
                L = int(lam) ** rng.randint(1, int(math.log(4096) / math.log(lam))) + rng.choice([-1, 0, 1])
            else:
                L = rng.randint(2, 4096)
            if L < 2:
                continue
            J = ref.j_max(L, lam)
            if J < 1:
                continue
            c = dict(L=L, N=min(L, rng.choice([1, 2, 3, 4, 5, rng.randint(1, L)])), J_min=rng.randrange(J), lam=lam,
                     spin=0, spin0=0)
        else:
            c = filt.random_case(rng, 24)
        c["sampling"] = rng.choice(SMP)
        c["nside"] = rng.choice([1, 2, 4, 8]) if c["sampling"] == "healpix" else None
        c["multires"] = rng.random() < 0.75
        case = dict(cfg=c, arrays=not big, torch=i % 40 == 1, jax=i % 100 == 1, filters=not big and i % 6 == 1, pert=rng.randrange(10**6))
        out.append(case)
    return out


def pow_ceils(lam, j):
    x = lam**j
    return {math.ceil(x * (1 - 1e-9)), math.ceil(x * (1 + 1e-9))} if not float(x).is_integer() else {int(x)}


def s2shape(L, smp, ns):
    if smp == "healpix":
        return (12 * ns * ns,)
    nt = {"mw": L, "mwss": L + 1, "dh": 2 * L, "gl": L}[smp]
    return nt, (2 * L if smp == "mwss" else 2 * L - 1)


def run(case):
    import random
    import numpy as np
    from s2wav import samples, filters
    from core import Violation, repo_call

    c = case["cfg"]
    L, N, J_min, lam, smp, ns, mr = (c[k] for k in ("L", "N", "J_min", "lam", "sampling", "nside", "multires"))
    d = f"L={L} N={N} J_min={J_min} lam={lam!r} {smp} nside={ns} " + ("multiresolution" if mr else "full resolution")

    def eq(what, got, want):
        if isinstance(want, set):
            ok = got in want
        else:
            ok = got == want
        if not ok:
            raise Violation(f"{what}, {d}: {got}, expected {want}")

    with repo_call("j_max, " + d):
        J = int(samples.j_max(L, lam))
    if not (lam**J >= L * (1 - 1e-9) and (J == 0 or lam ** (J - 1) < L * (1 + 1e-9))):
        raise Violation(f"j_max, {d}: {J} is not the least J with lam^J >= L")
    exact = not (float(lam) ** (J - 1)).is_integer()
    if J > 0 and not exact and lam ** (J - 1) >= L:
        raise Violation(f"j_max, {d}: {J} although lam^{J - 1} >= L")
    if J_min > J:
        return dict(evals=1, nontrivial=False, tags=[])
    with repo_call("n_wav_scales, " + d):
        eq("n_wav_scales", samples.n_wav_scales(L, N, J_min, lam), J - J_min + 1)
    with repo_call("scal_bandlimit, " + d):
        Ls = samples.scal_bandlimit(L, J_min, lam, mr)
        eq("scal_bandlimit", Ls, {min(x, L) for x in pow_ceils(lam, J_min)} if mr else L)
        eq("f_scal", tuple(samples.f_scal(L, J_min, lam, smp, ns, mr)), s2shape(Ls, smp, ns))
    wshapes, dims = [], []
    for j in range(J_min, J + 1):
        with repo_call(f"sizes of scale {j}, {d}"):
            Lj, Nj, L0 = samples.LN_j(L, j, N, lam, mr)
            lim = samples.wav_j_bandlimit(L, j, lam, mr)
            low = samples.L0_j(j, lam)
            shp = tuple(samples.f_wav_j(L, j, N, lam, smp, ns, mr))
            hshp = tuple(samples.flmn_wav_j(L, j, N, lam, mr))
        jj = max(j, 1)
        eq(f"band-limit of scale {j}", Lj, {min(x, L) for x in pow_ceils(lam, jj + 1)} if mr else L)
        eq(f"wav_j_bandlimit of scale {j}", lim, Lj)
        eq(f"L0_j of scale {j}", low, 0 if j == 0 else pow_ceils(lam, j - 1))
        want = min(N, Lj) if mr else N
        eq(f"orientations of scale {j}", Nj, want + (want + N) % 2)
        if not 0 <= L0 < Lj or (mr and j > 0 and L0 > lam ** (j - 1) * (1 + 1e-9) + 1):
            raise Violation(f"lower band-limit of scale {j}, {d}: {L0} (upper {Lj})")
        eq(f"f_wav_j of scale {j}", shp, (2 * Nj - 1,) + s2shape(Lj, smp, ns))
        eq(f"flmn_wav_j of scale {j}", hshp, (2 * Nj - 1, Lj, 2 * Lj - 1))
        wshapes.append(shp)
        dims.append((Lj, Nj, L0, hshp))
    n = 4 + 5 * len(dims)
    if case["arrays"]:
        with repo_call("constructors, " + d):
            f = samples.construct_f(L, N, J_min, lam, smp, ns, mr)
            fl = samples.construct_flm(L, J_min, lam, mr)
            fm = samples.construct_flmn(L, N, J_min, lam, mr)
            sf = samples.construct_f(L, N, J_min, lam, smp, ns, mr, True)
            sm = samples.construct_flmn(L, N, J_min, lam, mr, True)
            ref_sf = tuple(samples.f_wav_j(L, J - 1, N, lam, smp, ns, mr)) if J >= 1 else None
            ref_sm = tuple(samples.flmn_wav_j(L, J - 1, N, lam, mr)) if J >= 1 else None
        arrs = [("construct_f", f, wshapes), ("construct_flmn", fm, [x[3] for x in dims]),
                ("construct_flm", [fl], [(Ls, 2 * Ls - 1)]), ("construct_f(scattering)", [sf], [ref_sf]),
                ("construct_flmn(scattering)", [sm], [ref_sm])]
        Jx = J_min + case["pert"] % (J - J_min + 1)
        if case["jax"] and sum(np.prod(x[3]) for x in dims) < 2e4:
            with repo_call("jax constructors, " + d):
                a = samples.construct_flmn_jax(L, N, J_min, None, lam, mr)
                b = samples.construct_flmn_jax(L, N, J_min, Jx, lam, mr)
                e = samples.construct_flm_jax(L, J_min, lam, mr)
                eq("construct_f_jax", len(samples.construct_f_jax(L, J_min, None, lam)), len(dims))
                eq("construct_f_jax with J_max", len(samples.construct_f_jax(L, J_min, Jx, lam)), Jx - J_min + 1)
            arrs += [("construct_flmn_jax", a, [x[3] for x in dims]),
                     ("construct_flmn_jax with J_max", b, [x[3] for x in dims[:Jx - J_min + 1]]),
                     ("construct_flm_jax", [e], [(Ls, 2 * Ls - 1)])]
        if case["torch"]:
            with repo_call("torch constructors, " + d):
                a = samples.construct_flmn_torch(L, N, J_min, None, lam, mr)
                b = samples.construct_flmn_torch(L, N, J_min, Jx, lam, mr)
                eq("construct_f_torch", len(samples.construct_f_torch(L, J_min, None, lam)), len(dims))
                eq("construct_f_torch with J_max", len(samples.construct_f_torch(L, J_min, Jx, lam)), Jx - J_min + 1)
            arrs += [("construct_flmn_torch", [x.numpy() for x in a], [x[3] for x in dims]),
                     ("construct_flmn_torch with J_max", [x.numpy() for x in b], [x[3] for x in dims[:Jx - J_min + 1]])]
        for what, got, want in arrs:
            eq(what + " shapes", [tuple(x.shape) for x in got], want)
            for x in got:
                if np.any(np.asarray(x) != 0) or np.asarray(x).dtype != np.complex128:
                    raise Violation(f"{what}, {d}: not complex zeros")
        # the shape check accepts exactly the right coefficient sets
        sshape = s2shape(Ls, smp, ns)
        ok_w, ok_s = [np.empty(x, np.int8) for x in wshapes], np.empty(sshape, np.int8)
        with repo_call("wavelet_shape_check on correct shapes, " + d):
            samples.wavelet_shape_check(ok_w, ok_s, L, N, J_min, lam, smp, ns, mr)
        rng = random.Random(case["pert"])
        for _ in range(4):
            w, s, what = list(ok_w), ok_s, ""
            k = rng.randrange(6)
            if k == 4:
                s = rng.choice([s[None], s[..., None], s.reshape(1, -1)[:, None], s[..., 0]])
                what = f"scaling coefficients of shape {s.shape}"
            elif k == 5:
                i = rng.randrange(len(w))
                w[i] = rng.choice([w[i][None], w[i][..., None], w[i][0], w[i].reshape(-1)])
                what = f"scale {J_min + i} of shape {w[i].shape}"
            elif k == 0:
                i = rng.randrange(len(w))
                ax = rng.randrange(w[i].ndim)
                shp = list(w[i].shape)
                shp[ax] += rng.choice([1, 2] if shp[ax] < 2 else [-1, 1, 2])
                w[i] = np.empty(shp, np.int8)
                what = f"scale {J_min + i} of shape {tuple(shp)}"
            elif k == 1:
                shp = list(s.shape)
                ax = rng.randrange(s.ndim)
                shp[ax] += 1
                s = np.empty(shp, np.int8)
                what = f"scaling coefficients of shape {tuple(shp)}"
            elif k == 2:
                i = rng.randrange(len(w))
                del w[i]
                what = f"scale {J_min + i} missing"
            else:
                w.append(w[-1])
                what = "one scale too many"
            try:
                samples.wavelet_shape_check(w, s, L, N, J_min, lam, smp, ns, mr)
            except Exception:  # noqa: BLE001
                continue
            raise Violation(f"wavelet_shape_check accepts {what}, {d}")
        n += len(arrs) + 4
    if case["filters"] and smp != "healpix" and J_min < J:
        with repo_call("filters, " + d):
            psi, phi = filters.filters_directional_vectorised(L, N, J_min, lam)
        eq("number of filter scales", psi.shape[0], J + 1)
        if np.any(phi[Ls:] != 0):
            raise Violation(f"scaling filter exceeds the scaling band-limit {Ls}, {d}")
        for j, (Lj, Nj, L0, _) in zip(range(J_min, J + 1), dims):
            l, m = np.nonzero(np.abs(psi[j]) > 1e-12)
            if len(l) and (l.min() < L0 or l.max() >= Lj or np.max(np.abs(m - L + 1)) >= Nj):
                raise Violation(f"filter of scale {j} has degrees {l.min()}..{l.max()}, orders to "
                                f"{np.max(np.abs(m - L + 1))}, outside [{L0}, {Lj}) x {Nj}, {d}")
        n += 1
    return dict(evals=n, nontrivial=len(dims) >= 2 and (not mr or len(set(dims)) > 1),
                tags=["sampling:" + smp, "multires" if mr else "full", "L:" + ("<32" if L < 32 else "32-4096")]
                + ["filters"] * case["filters"] + ["jax"] * case["jax"] + ["torch"] * case["torch"])


def shrink(case):
    c = case["cfg"]
    for k in ("filters", "jax", "torch", "arrays"):
        if case[k]:
            yield dict(case, **{k: False})
    if c["sampling"] != "mw":
        yield dict(case, cfg=dict(c, sampling="mw", nside=None))
    for d in filt.shrink(dict(cfg=c, impls=[])):
        yield dict(case, cfg=d["cfg"])
