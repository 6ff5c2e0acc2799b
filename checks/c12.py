"""C12: how a transform is called never changes what it computes."""
import gen
import ref

ID = "C12"
RULE = ("random configurations; one canonical call (all arguments positional, filters and kernels explicit) against a "
        "random equivalent call: filters or recursion coefficients omitted or produced by another generator, kernels "
        "generated for the other frontend or without the spherical part, keyword arguments, documented defaults left out, "
        "integer or float dilation, NumPy or JAX arrays, top-level alias, or analysis and synthesis by two different "
        "backends.  Non-trivial: at least two scales carry energy.")
TOL = 1e-9

KW = dict(
    jax=["filters none", "precomps", "keywords", "jnp", "other filters", "lam type", "alias", "defaults", "jit filters",
         "layout", "real array", "complex array", "outer jit", "vmap", "numpy scalars", "tuple",
         "number type"],
    pre=["filters none", "keywords", "jnp", "other filters", "lam type", "alias", "torch kernels", "defaults",
         "layout", "real array", "complex array", "outer jit", "vmap", "numpy scalars", "tuple",
         "number type"],
    torch=["filters none", "keywords", "other filters", "lam type", "alias", "jax kernels", "defaults",
           "layout", "real array", "complex array", "numpy scalars", "tuple"],
    c=["filters none", "keywords", "jnp", "other filters", "lam type", "alias", "defaults",
       "layout", "real array", "numpy scalars", "tuple"],
    base=["keywords", "lam type", "alias", "defaults", "looped",
          "layout", "real array", "complex array", "numpy scalars", "tuple", "number type"],
    looped=["keywords", "lam type", "defaults", "layout", "real array", "complex array", "numpy scalars", "tuple", "number type"],
)


def generate(rng, tier):
    k = 1 if tier == "quick" else 12
    out = []

    def add(n, b, **kw):
        whats = ["analysis", "synthesis"] if b in ("base", "looped") else ["analysis", "synthesis", "flm"]
        combos = []
        for v in KW[b]:
            if b in ("jax", "pre") and v not in ("filters none", "precomps"):
                combos.append((v, rng.choice(whats)))       # expensive: one of the functions each
            else:
                combos += [(v, w) for w in whats]
        for i, c in enumerate(gen.configs(rng, n, **kw)):
            v, what = combos[i % len(combos)]
            if v == "alias" and what == "flm" and b in ("pre", "torch"):
                what = "analysis"
            if v == "lam type":
                c["lam"] = float(rng.choice([2, 3])) if c["L"] > 3 else 2.0
                c["J_min"] = min(c["J_min"], max(0, ref.j_max(c["L"], c["lam"]) - 1))
            if v == "defaults":
                c.update(N=1, J_min=0, lam=2.0, spin=0, sampling="mw", reality=False, multires=True)
            if what == "flm" and v == "filters none":
                c["spin"] = 0
            if v in ("real array", "complex array"):
                c.update(spin=0, reality=v == "complex array")
            if v == "number type" and b in ("jax", "pre"):       # (single precision would lower the precision of its results)
                c.update(spin=0, reality=True)
            if v == "tuple":
                what = "synthesis"
            out.append(dict(cfg=c, backend=b, what=what, variant=v, sig=gen.signal_spec(rng)))

    add(24 * k, "jax", Lmax=7, max_scales=3)
    add(26 * k, "pre", Lmax=8, max_scales=4)
    add(36 * k, "torch", Lmax=8, max_scales=4)
    pairs = [("base", "c"), ("c", "base"), ("c", "torch"), ("torch", "base"), ("looped", "c"), ("base", "looped"),
             ("torch", "c"), ("c", "looped"), ("pre", "c"), ("c", "pre"), ("jax", "torch"), ("base", "jax"), ("pre", "jax")]
    for i, c in enumerate(gen.configs(rng, 52 * k, Lmax=9, max_scales=4)):
        a, b = pairs[i % len(pairs)] if i % 52 < 26 else pairs[i % 8]
        out.append(dict(cfg=c, backend=a, other=b, what="both", variant="mixed backends", sig=gen.signal_spec(rng)))
    many = gen.configs(rng, 10 * k, strata=(), Lmin=9, Lmax=20, Nmax=4, lams=(2.0, 2.0, 1.7, 2.5, 3.0))
    for i, c in enumerate(many):     # many scales
        c.update(J_min=rng.choice([0, 0, 1]))
        if i % 2 == 0:
            c.update(reality=True, spin=0)
    for c in gen.configs(rng, 26 * k, Lmax=7, max_scales=4) + many:
        out.append(dict(cfg=c, backend="kernels", what="kernels", variant="kernels", sig=gen.signal_spec(rng)))
    add(80 * k, "c", Lmax=12)
    add(60 * k, "base", Lmax=10, multires=(True, True, False))
    add(28 * k, "looped", Lmax=7, multires=(True, True, False))
    for c in gen.configs(rng, 60 * k, Lmax=14):
        out.append(dict(cfg=c, backend="functions", what="functions", variant="functions", sig=gen.signal_spec(rng)))
    return out


def run(case):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import torch
    import s2wav
    import backends as B
    import sig
    import tx
    from s2wav import filters as F, samples
    from s2wav.transforms import base, construct, wavelet, wavelet_c, wavelet_precompute, wavelet_precompute_torch
    from core import Violation, repo_call

    c, b, what, v = case["cfg"], case["backend"], case["what"], case["variant"]
    L, N, J, lam, s, smp, re = (c[x] for x in ("L", "N", "J_min", "lam", "spin", "sampling", "reality"))
    mr = c.get("multires", True)
    flm, f = tx.signal(c, case["sig"])
    psi, phi = tx.ref_filters(c)
    ds, Ls = gen.dims(c)
    d = f"{b} {what}, {v}, {tx.describe(c)}"
    done = dict(evals=1, nontrivial=tx.nontrivial(flm, psi, c),
                tags=tx.tags(c, "backend:" + b, what, "variant:" + v))

    if what == "kernels":
        kernels(c, d, case["sig"]["seed"])
        return done
    if what == "functions":
        functions(c, d)
        return done
    with repo_call(d + ": filters"):
        p, q = F.filters_directional_vectorised(L, N, J, lam, s)
    p, q = np.array(p), np.array(q)
    if what == "both":
        d = f"analysis by {b}, synthesis by {case['other']}, {tx.describe(c)}"
        with repo_call(d):
            w, sc = B.analysis(b, f.copy(), c, (p, q))
            g = B.synthesis(case["other"], w, sc, c, (p, q))
        sig.close(g, f, 1e-6, d)        # the two sides may use filters differing by rounding at support edges
        return done

    w, sc = ref.analyse(flm, psi, phi, c, ds, Ls)
    if re:
        w, sc = [x.real.copy() for x in w], sc.real.copy()
    fwd = what == "synthesis"
    mod = dict(jax=wavelet, c=wavelet_c, pre=wavelet_precompute, torch=wavelet_precompute_torch, base=base, looped=base)[b]
    name = {"analysis": "analysis", "synthesis": "synthesis", "flm": "flm_to_analysis"}[what]
    if b == "looped":
        name += "_looped"
    fn = getattr(mod, name)
    conv = B.tt if b == "torch" else (jnp.asarray if b == "c" and fwd else np.array)
    x0 = [f] if what == "analysis" else [flm] if what == "flm" else [w, sc]
    mk = lambda cv: [[cv(y) for y in x] if isinstance(x, list) else cv(x) for x in x0]  # noqa: E731
    fl = p if what == "flm" else (p, q)
    cvf = lambda z: None if z is None else B.tt(z) if b == "torch" else z               # noqa: E731
    tofl = lambda z: cvf(z) if not isinstance(z, tuple) else tuple(cvf(y) for y in z)   # noqa: E731
    pre = None
    with repo_call(d + ": kernels"):
        if b in ("pre", "torch"):
            pre = B.full_pre(c, fwd, b == "torch")

    if v in ("real array", "complex array"):
        x0 = [[y.real.copy() for y in x] if isinstance(x, list) else x.real.copy() for x in x0]
        if what == "flm" and re:
            x0 = [sig.make_real_flm(x0[0].astype(complex)).real.copy()]
        xr, x0 = x0, [[y.astype(complex) for y in x] if isinstance(x, list) else x.astype(complex) for x in x0]
        if re and what != "flm":
            xr, x0 = x0, xr
    if v == "number type":
        whole = lambda y: np.round(y * (50 / max(np.max(np.abs(y)), 1e-300))) + 0.0   # noqa: E731
        x0 = [[whole(y) for y in x] if isinstance(x, list) else whole(x) for x in x0]
    names = ["L", "N", "J_min"] + (["J_max"] if what == "flm" else []) + ["lam"]
    vals = [L, N, J] + ([None] if what == "flm" else []) + [lam]
    if what != "flm":
        names.append("spin")
        vals.append(s)
    if b in ("base", "looped"):
        names.append("spin0")
        vals.append(0)
    names.append("sampling")
    vals.append(smp)
    if b != "c":
        names.append("nside")
        vals.append(None)
    names.append("reality")
    vals.append(re)
    if b in ("base", "looped"):
        names.append("multiresolution")
        vals.append(mr)
    else:
        names.append("filters")
        vals.append(tofl(fl))
    if b in ("pre", "torch"):
        names.append("precomps")
        vals.append(pre)
    kw = dict(zip(names, vals))
    inputs = dict(analysis=["f"], synthesis=["f_wav", "f_scal"], flm=["flm"])[what]

    def flat(r):
        if what == "analysis":
            return [B.to_np(y) for y in r[0]] + [B.to_np(r[1])]
        return [B.to_np(y) for y in r] if what == "flm" else [B.to_np(r)]

    with repo_call(d + ": canonical call"):
        want = flat(fn(*mk(conv), *vals))
    tol = TOL
    with repo_call(d):
        if v == "filters none":
            got = fn(*mk(conv), **dict(kw, filters=None))
        elif v == "precomps":
            pc = construct.generate_wigner_precomputes(L, N, J, lam, smp, None, fwd, re)
            got = fn(*mk(conv), **dict(kw, precomps=pc))
        elif v == "keywords":
            order = list(kw)[::-1]
            got = fn(**dict(zip(inputs, mk(conv))), **{o: kw[o] for o in order})
        elif v == "jnp":
            got = fn(*mk(np.array if b == "c" and fwd else jnp.asarray), **kw)
        elif v in ("other filters", "jit filters"):
            g = F.filters_directional if v == "other filters" else F.filters_directional_jax
            a, e = (np.array(y) for y in g(L, N, J, lam, s))
            got = fn(*mk(conv), **dict(kw, filters=tofl(a if what == "flm" else (a, e))))
            tol = 1e-6
        elif v == "lam type":
            got = fn(*mk(conv), **dict(kw, lam=int(lam)))
        elif v == "alias":
            sfx = dict(jax="", c="_c", pre="_precomp_jax", torch="_precomp_torch", base="_base")[b]
            got = getattr(s2wav, name + sfx)(*mk(conv), *vals)
        elif v == "torch kernels":
            k2 = B.full_pre(c, fwd, True)
            k2 = (k2[0].numpy(), k2[1].numpy(), [y.numpy() for y in k2[2]])
            got = fn(*mk(conv), **dict(kw, precomps=k2))
        elif v == "jax kernels":
            k2 = B.full_pre(c, fwd, False)
            k2 = (B.tt(np.array(k2[0])), B.tt(np.array(k2[1])), [B.tt(np.array(y)) for y in k2[2]])
            got = fn(*mk(conv), **dict(kw, precomps=k2))
        elif v == "layout":
            got = fn(*mk(layout(b, case["sig"]["seed"])), *vals)
        elif v in ("real array", "complex array"):
            x0 = xr
            got = fn(*mk(conv), *vals)
        elif v == "number type":
            to = number(3 if b in ("jax", "pre") else case["sig"]["seed"])
            got = fn(*mk(to), *vals)
        elif v == "tuple":
            got = fn(*(tuple(x) if isinstance(x, list) else x for x in mk(conv)), *vals)
        elif v == "numpy scalars":
            ty = dict(L=np.int64, N=np.int32, J_min=np.int64, lam=np.float64)       # (s2fft itself needs a Python integer for the spin)
            got = fn(*mk(conv), **{x: ty[x](y) if x in ty else y for x, y in kw.items()})
        elif v == "outer jit":
            got = jax.jit(lambda *x: fn(*x, **kw))(*mk(jnp.asarray))
        elif v == "vmap":
            got = jax.vmap(lambda *x: fn(*x, **kw))(*mk(lambda y: jnp.stack([jnp.asarray(y) * 3, jnp.asarray(y)])))
            got = jax.tree_util.tree_map(lambda y: y[1], got)
        elif v == "looped":
            got = getattr(mod, name + "_looped")(*mk(conv), *vals)
            tol = 1e-6
        elif v == "defaults":
            keep = {y: kw[y] for y in kw if y == "precomps"}
            if b == "looped" and fwd:
                keep["N"] = 1
            got = fn(*mk(conv), L, **keep)
        else:
            raise KeyError(v)
        got = flat(got)
    floor = max(float(np.max(np.abs(y))) for y in want + (x0[0] if what == "synthesis" else [x0[0]]) + x0[1:])
    sig.close_list(got, want, tol, d, max(floor, 1e-300))
    return done


def layout(b, seed):
    """Converters to arrays that are not contiguous, not writeable or in Fortran order."""
    import numpy as np
    import torch
    import backends as B

    def strided(y):
        z = np.full(tuple(2 * n + 1 for n in y.shape), 7.0, dtype=y.dtype)
        z[tuple(slice(1, None, 2) for _ in y.shape)] = y
        return z[tuple(slice(1, None, 2) for _ in y.shape)]

    def readonly(y):
        z = np.array(y)
        z.flags.writeable = False
        return z

    def tor(y):
        return torch.from_numpy(np.ascontiguousarray(y.T)).permute(*range(y.ndim - 1, -1, -1))

    if b == "c":        # ssht itself needs contiguous arrays
        return readonly
    return tor if b == "torch" else [strided, readonly, lambda y: np.array(y, order="F")][seed % 3]


def number(seed):
    """Converters to single precision, and of real numbers to integers, of values both can hold."""
    import numpy as np

    def to(y):
        if np.isrealobj(y) and seed % 2:
            return y.astype(np.int32 if seed % 4 == 1 else np.int64)
        return y.astype(np.float32 if np.isrealobj(y) else np.complex64)

    return to


def kernels(c, d, seed):
    """Generated kernels do not depend on the frontend or on what else is generated."""
    import numpy as np
    import backends as B
    import sig
    from s2wav.transforms import construct
    from core import Violation, repo_call

    fwd = bool(seed % 2)
    a = (c["L"], c["N"], c["J_min"], c["lam"], c["sampling"], None, fwd, c["reality"])
    with repo_call(d):
        k = construct.generate_full_precomputes(*a, False, False, c["spin"])
        t = construct.generate_full_precomputes(*a, False, True, c["spin"])
        n = construct.generate_full_precomputes(*a, True, False)
        kw = construct.generate_full_precomputes(
            reality=c["reality"], forward=fwd, sampling=c["sampling"], lam=c["lam"], J_min=c["J_min"], N=c["N"],
            L=c["L"], spin=c["spin"])
        r = construct.generate_wigner_precomputes(*a)
        rt = construct.generate_wigner_precomputes(*a, using_torch=True)
        rk = construct.generate_wigner_precomputes(
            reality=c["reality"], forward=fwd, sampling=c["sampling"], lam=c["lam"], J_min=c["J_min"], N=c["N"], L=c["L"])
    import torch

    if not all(isinstance(y, torch.Tensor) for x in rt for y in x):
        raise Violation(f"{d}: recursion coefficients for torch are not tensors")
    rn = [[np.array(y) for y in x] for x in r]
    for other, what in ((rt, "torch recursion coefficients"), (rk, "recursion coefficients by keyword")):
        if len(other) != len(rn):
            raise Violation(f"{d}: {what}: {len(other)} scales, expected {len(rn)}")
        for x, y in zip(other, rn):
            sig.close_list([B.to_np(z) for z in x], y, 1e-12, d + ": " + what)
    kn = [np.array(k[0]), np.array(k[1])] + [np.array(x) for x in k[2]]
    J = ref.j_max(c["L"], c["lam"])
    if len(k[2]) < J - c["J_min"]:
        raise Violation(f"{d}: {len(k[2])} Wigner kernels")
    sig.close_list([B.to_np(t[0]), B.to_np(t[1])] + [B.to_np(x) for x in t[2]], kn, 1e-12, d + ": torch kernels")
    sig.close_list([np.array(x) for x in n[2]], kn[2:], 1e-12, d + ": Wigner-only kernels")
    sig.close_list([np.array(kw[0]), np.array(kw[1])] + [np.array(x) for x in kw[2]], kn, 1e-12, d + ": by keyword")


def functions(c, d):
    """Filter and sampling functions: keywords, defaults, number types."""
    import numpy as np
    import sig
    from s2wav import filters as F, samples as S
    from core import Violation, repo_call

    L, N, J, lam, s, smp = (c[x] for x in ("L", "N", "J_min", "lam", "spin", "sampling"))
    with repo_call(d):
        for g in (F.filters_directional, F.filters_directional_vectorised):
            p, q = g(L, N, J, lam, s, 0)
            p2, q2 = g(spin=s, lam=lam, J_min=J, N=N, L=L)
            sig.close_list([p2, q2], [p, q], 1e-13, d + f": {g.__name__} by keyword")
            if float(lam).is_integer():
                p2, q2 = g(L, N, J, int(lam), s)
                sig.close_list([p2, q2], [p, q], 1e-9, d + f": {g.__name__} with integer dilation")
            p2, q2 = g(L)
            p, q = g(L, 1, 0, 2.0, 0, 0, False)
            sig.close_list([p2, q2], [p, q], 1e-13, d + f": {g.__name__} defaults")
        for g in (F.filters_axisym, F.filters_axisym_vectorised):
            sig.close_list(list(g(lam=lam, J_min=J, L=L)), list(g(L, J, lam)), 1e-13, d + f": {g.__name__} by keyword")
            sig.close_list(list(g(L)), list(g(L, 0, 2.0)), 1e-13, d + f": {g.__name__} defaults")
        sig.close(F.k_lam(L), F.k_lam(L, 2.0, 300), 1e-13, d + ": k_lam defaults")
        sig.close(F.tiling_direction(L), F.tiling_direction(L, 1), 1e-13, d + ": tiling_direction defaults")
        pairs = [
            (S.f_scal(L), S.f_scal(L, 0, 2.0, "mw", None, False)),
            (S.n_wav_scales(L), S.n_wav_scales(L, 1, 0, 2.0)),
            (S.LN_j(L), S.LN_j(L, 0, 1, 2.0, False)),
            (S.f_wav_j(L), S.f_wav_j(L, 0, 1, 2.0, "mw", None, False)),
            (S.j_max(L), S.j_max(L, 2.0)),
            (S.scal_bandlimit(L), L),
            (S.wav_j_bandlimit(L, 1), L),
            (S.L0_j(3), S.L0_j(3, 2.0)),
            (S.flmn_wav_j(L, 1), S.flmn_wav_j(L, 1, 1, 2.0, False)),
            ([x.shape for x in S.construct_f(L)], [x.shape for x in S.construct_f(L, 1, 0, 2.0, "mw", None, False, False)]),
            ([x.shape for x in S.construct_flmn(L)], [x.shape for x in S.construct_flmn(L, 1, 0, 2.0, False, False)]),
            (S.construct_flm(L).shape, (L, 2 * L - 1)),
            (S.f_scal(multiresolution=True, sampling=smp, lam=lam, J_min=J, L=L), S.f_scal(L, J, lam, smp, None, True)),
            (S.LN_j(multiresolution=True, lam=lam, N=N, j=J, L=L), S.LN_j(L, J, N, lam, True)),
            (S.f_wav_j(multiresolution=True, sampling=smp, lam=lam, N=N, j=J, L=L), S.f_wav_j(L, J, N, lam, smp, None, True)),
            (S.scal_bandlimit(multiresolution=True, lam=lam, J_min=J, L=L), S.scal_bandlimit(L, J, lam, True)),
        ]
    for i, (a, b) in enumerate(pairs):
        if a != b:
            raise Violation(f"{d}: sampling function, pair {i}: {a} against {b}")


def shrink(case):
    def ok(d):
        return not (case["variant"] == "defaults" and (d["cfg"]["N"], d["cfg"]["J_min"], d["cfg"]["lam"],
                    d["cfg"]["sampling"]) != (1, 0, 2.0, "mw"))

    for d in gen.shrink_simple(case):
        if ok(d):
            yield d
