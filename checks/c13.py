"""C13: requests the package documents as invalid are refused, valid neighbours are not."""
import filt
import gen
import ref

ID = "C13"
RULE = ("random invalid requests of the documented kinds (lowest scale out of range; coefficient sets whose number of "
        "scales or any array shape is wrong; missing kernels for the precompute transforms; HEALPix for the C-backed "
        "transforms) next to the valid request they were derived from; each must raise the documented exception, the "
        "valid one must not.  Every case is non-trivial: it pairs an invalid request with its valid neighbour.")


def generate(rng, tier):
    k = 1 if tier == "quick" else 15
    out = []
    for i in range(500 * k):
        c = filt.random_case(rng, 16)
        J = ref.j_max(c["L"], c["lam"])
        impl = ["axisym", "axisym_vectorised", "directional", "directional_vectorised"][i % 4]
        if i % 25 == 0:
            impl = rng.choice(["axisym_jax", "directional_jax"])
            if c["L"] > 9:
                continue
        if not float(c["lam"]).is_integer() and abs(c["lam"] ** J - c["L"]) < 1e-9 * c["L"]:
            J += 1      # L is a power of lam only up to rounding: either number of scales is right
        out.append(dict(kind="J_min", cfg=c, impl=impl,
                        bad=rng.choice([-1, -2, -J, J, J, J + 1, J + 2, J + rng.randint(3, 9), -rng.randint(1, 9)])))

    # a band-limit of one has no scale to put below the highest one
    for impl in ["axisym", "axisym_vectorised", "axisym_jax", "directional", "directional_vectorised", "directional_jax"]:
        for _ in range(3 * k):
            c = dict(filt.random_case(rng, 8), N=1, J_min=0, spin=0, spin0=0)
            out.append(dict(kind="J_min", cfg=c, impl=impl, bad=rng.choice([0, 0, 1, -1]), L_bad=1))

    def shape_cases(n, b, **kw):
        for c in gen.configs(rng, n, **kw):
            out.append(dict(kind="shape", cfg=c, impl=b, seed=rng.randrange(10**6)))

    shape_cases(24 * k, "pre", Lmax=7, max_scales=3)
    shape_cases(24 * k, "torch", Lmax=8, max_scales=3)
    shape_cases(40 * k, "looped", Lmax=6, max_scales=4, multires=(True, True, False))
    shape_cases(90 * k, "base", Lmax=8, multires=(True, True, False))
    for c in gen.configs(rng, 40 * k, Lmax=8):
        out.append(dict(kind="kernels", cfg=c, impl=rng.choice(["pre", "torch"]),
                        what=rng.choice(["analysis", "synthesis", "flm"])))
    for c in gen.configs(rng, 40 * k, Lmax=8):
        out.append(dict(kind="healpix", cfg=c, impl="c", what=rng.choice(["analysis", "synthesis"]),
                        name=rng.choice(["healpix", "healpix", "HEALPix", "HEALPIX"])))
    for c in gen.configs(rng, 30 * k, Lmax=8, multires=(True, False)):
        J = ref.j_max(c["L"], c["lam"])
        out.append(dict(kind="transform J_min", cfg=c, impl=rng.choice(["base", "looped"]),
                        bad=rng.choice([-1, J, J + 1])))
    return out


def refused(what, exc, fn):
    from core import Violation

    try:
        fn()
    except exc:
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: raised {type(e).__name__} instead of {exc}") from e
    raise Violation(f"{what}: accepted")


def perturbed(rng, w, s):
    """One random wrong coefficient set (shapes only)."""
    import numpy as np

    w = list(w)
    for _ in range(50):
        k = rng.randrange(8)
        if k >= 6:
            # the right numbers in an array with one axis more or less
            x = s if k == 6 else w[i := rng.randrange(len(w))]
            y, how = rng.choice([(x[None], "an extra first axis"), (x[..., None], "an extra last axis"),
                                 (x[:, None], "an extra second axis"), (x.reshape(-1), "all axes merged"),
                                 (x.reshape((-1,) + x.shape[2:]), "two axes merged"), (x[0], "no first axis")])
            y = np.ascontiguousarray(y)
            if k == 6:
                return w, y, f"scaling coefficients with {how}: {y.shape}"
            w[i] = y
            return w, s, f"scale {i} with {how}: {y.shape}"
        if k == 0:
            i = rng.randrange(len(w))
            shp = list(w[i].shape)
            ax = rng.randrange(len(shp))
            shp[ax] = max(1, shp[ax] + rng.choice([-2, -1, 1, 2, 3]))
            if tuple(shp) == w[i].shape:
                continue
            w[i] = np.zeros(shp, w[i].dtype)
            return w, s, f"scale {i} of shape {tuple(shp)}"
        if k == 1:
            shp = list(s.shape)
            ax = rng.randrange(len(shp))
            shp[ax] = max(1, shp[ax] + rng.choice([-1, 1, 2]))
            if tuple(shp) == s.shape:
                continue
            return w, np.zeros(shp, s.dtype), f"scaling coefficients of shape {tuple(shp)}"
        if k == 2:
            i = rng.randrange(len(w))
            del w[i]
            return w, s, f"scale {i} missing"
        if k == 3:
            i = rng.randrange(len(w) + 1)
            w.insert(i, w[min(i, len(w) - 1)])
            return w, s, f"extra scale at {i}"
        if k == 4:
            i, j = rng.randrange(len(w)), rng.randrange(len(w))
            if w[i].shape == w[j].shape:
                continue
            w[i], w[j] = w[j], w[i]
            return w, s, f"scales {i} and {j} swapped"
        i = rng.randrange(len(w))
        if w[i].shape[1] == w[i].shape[2]:
            continue
        w[i] = np.ascontiguousarray(np.swapaxes(w[i], 1, 2))
        return w, s, f"scale {i} transposed"
    return w[:-1], s, "last scale missing"


def run(case):
    import random
    import numpy as np
    import backends as B
    import tx
    from s2wav import filters
    from core import repo_call

    c, impl, kind = case["cfg"], case["impl"], case["kind"]
    n = 1
    if kind == "J_min":
        fn = getattr(filters, "filters_" + impl)

        def call(j, L=c["L"]):
            if impl.startswith("axisym"):
                return fn(L, j, c["lam"])
            return fn(L, c["N"], j, c["lam"], c["spin"], c["spin0"])

        Lb = case.get("L_bad", c["L"])

        d = f"filters_{impl}, {filt.describe(c)}"
        with repo_call(d):
            call(c["J_min"])
        refused(f"{d}, L={Lb}, J_min={case['bad']} (allowed 0..{ref.j_max(Lb, c['lam']) - 1})", ValueError,
                lambda: call(case["bad"], Lb))
        return dict(evals=2, nontrivial=True, tags=["J_min", "impl:" + impl])
    d = f"{impl}, {tx.describe(c)}"
    ds, Ls = gen.dims(c)
    dt = float if c["reality"] else complex
    f = np.zeros(ref.s2_shape(c["L"], c["sampling"]), dt)
    w = [np.zeros(ref.so3_shape(Lj, Nj, c["sampling"]), dt) for Lj, Nj in ds]
    s = np.zeros(ref.s2_shape(Ls, c["sampling"]), dt)
    flm = np.zeros((c["L"], 2 * c["L"] - 1), complex)
    filt_ = None if impl in B.SELF_FILTER else tx.ref_filters(c)
    if kind == "shape":
        p = "default"
        if impl in ("pre", "torch"):
            with repo_call(d + " precomputes"):
                p = B.full_pre(c, True, impl == "torch")
        with repo_call(d + " synthesis of well-shaped coefficients"):
            B.synthesis(impl, w, s, c, filt_, p)
        rng = random.Random(case["seed"])
        for _ in range(case.get("n", 6)):
            w2, s2, what = perturbed(rng, w, s)
            refused(f"{d} synthesis with {what}", AssertionError, lambda: B.synthesis(impl, w2, s2, c, filt_, p))
            n += 1
    elif kind == "kernels":
        go = {"analysis": lambda: B.analysis(impl, f, c, filt_, None),
              "synthesis": lambda: B.synthesis(impl, w, s, c, filt_, None),
              "flm": lambda: B.flm_to_analysis(impl, flm, c, filt_[0], None, None)}[case["what"]]
        refused(f"{d} {case['what']} without kernels", ValueError, go)
    elif kind == "healpix":
        cc = dict(c, sampling=case["name"])
        go = {"analysis": lambda: B.analysis("c", f, cc, filt_),
              "synthesis": lambda: B.synthesis("c", w, s, cc, filt_)}[case["what"]]
        refused(f"{d} {case['what']} with sampling {case['name']}", ValueError, go)
    else:
        with repo_call(d + " analysis"):
            B.analysis(impl, f, c, None)
        refused(f"{d} analysis with J_min={case['bad']}", Exception,
                lambda: B.analysis(impl, f, dict(c, J_min=case["bad"]), None))
        n += 1
    return dict(evals=n, nontrivial=True, tags=[kind, "impl:" + impl])


def shrink(case):
    c = case["cfg"]
    if case["kind"] == "J_min":
        for d in filt.shrink(dict(cfg=c, impls=[])):
            J = ref.j_max(d["cfg"]["L"], d["cfg"]["lam"])
            for bad in (-1, J) if "L_bad" not in case else (case["bad"],):
                yield dict(case, cfg=d["cfg"], bad=bad)
        return
    for d in gen.shrink_config(c):
        if case["kind"] == "transform J_min":
            for bad in (-1, ref.j_max(d["L"], d["lam"])):
                yield dict(case, cfg=d, bad=bad)
        else:
            yield dict(case, cfg=d)
