"""C10: gradients of the differentiable transforms are exact."""
import gen
import ref

ID = "C10"
RULE = ("random configurations; loss = squared distance of the transform's outputs from random targets, whose central "
        "difference along a random direction is exact; reverse-mode derivative along the same direction must equal it.  "
        "Transforms: analysis, synthesis, harmonic-space analysis; directions: arbitrary pixel perturbations or "
        "band-limited ones.  Non-trivial: the directional derivative is not zero and at least two scales contribute.")
ASSUMPTIONS = ["gradients of the C-backed transforms with the reality flag are excluded: known finding"]
TOL = 1e-8


def generate(rng, tier):
    k = 1 if tier == "quick" else 12
    out = []

    def add(b, sizes, **kw):
        for what, n in zip(("analysis", "synthesis", "flm"), sizes):
            modes = []
            for c in gen.configs(rng, n * k, **kw):
                if not modes:
                    modes = [(x, y) for x in ("pixel", "bandlimited") for y in (None, True, None, "omitted")]
                    rng.shuffle(modes)
                x, y = modes.pop()
                out.append(dict(cfg=c, backend=b, what=what, seed=rng.randrange(10**6), direction=x, filters=y))

    add("jax", (7, 7, 6), Lmax=7, max_scales=3)
    add("pre", (7, 7, 6), Lmax=7, max_scales=3)
    add("torch", (10, 10, 9), Lmax=9, max_scales=4)
    add("c", (24, 24, 16), Lmax=9, p_real=0.0)
    return out


def run(case):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import torch
    import backends as B
    import sig
    import tx
    from core import Violation, repo_call
    from s2wav.transforms import wavelet, wavelet_c, wavelet_precompute, wavelet_precompute_torch

    c, b, what = case["cfg"], case["backend"], case["what"]
    L, N, J, lam, s, smp, re = (c[x] for x in ("L", "N", "J_min", "lam", "spin", "sampling", "reality"))
    rng = np.random.default_rng(case["seed"])
    psi, phi = tx.ref_filters(c)
    ds, Ls = gen.dims(c)
    wrt = case.get("filters") is True
    if case.get("filters") == "omitted" and what == "flm" and s != 0:
        case = dict(case, filters=None)          # omitted filters are those of scalar signals
    d = f"{b} {what} gradient, {tx.describe(c)}, {case['direction']} direction" + (
        " and filters" if wrt else ", filters omitted" if case.get("filters") else "")

    def noise(x):
        return rng.normal(size=x.shape) + (0 if re else 1j * rng.normal(size=x.shape))

    def spec(i):
        return dict(kind="dense", scale=1.0, seed=case["seed"] * 7 + i)

    flm, f = tx.signal(c, spec(0))
    w, sc = ref.analyse(flm, psi, phi, c, ds, Ls)
    if re:
        w, sc = [x.real for x in w], sc.real
    if what == "synthesis":
        def coeffs(i):
            r = np.random.default_rng(case["seed"] * 11 + i)
            ww = [ref.so3_synth(sig.random_flmn(Lj, Nj, re, r), Lj, Nj, smp) for Lj, Nj in ds]
            ss = (ref.s2_synth(sig.random_flm(Ls, s, re, spec(i)), Ls, s, smp) if Ls > abs(s) else sc * 0)
            return [x.real.copy() if re else x for x in ww] + [ss.real.copy() if re else ss]

        x0, dx = coeffs(1), coeffs(2)
        out0 = [f]
    elif what == "analysis":
        x0, dx, out0 = [f], [tx.signal(c, spec(2))[1]], list(w) + [sc]
    else:
        x0, dx = [flm], [sig.random_flm(L, s, re, spec(2))]
        out0 = list(w)
    if case["direction"] == "pixel" and what != "flm":
        dx = [noise(x) for x in dx]
    tgt = [noise(x) for x in out0]

    nx = len(x0)
    dirs = [("", dx)]
    if wrt:         # and by the filters, along a direction of their own (the transforms are linear in them too)
        fl = [psi] if what == "flm" else [psi, phi]
        x0 = list(x0) + fl
        df = [(rng.normal(size=x.shape) + (1j * rng.normal(size=x.shape) if np.iscomplexobj(x) else 0)) * (np.abs(x) > 0)
              for x in fl]
        dirs = [("", list(dx) + [np.zeros_like(x) for x in fl]),
                (" by the filters", [np.zeros_like(x) for x in dx] + df)]
    tor = b == "torch"
    if b in ("pre", "torch"):
        with repo_call(d + ": precomputes"):
            p = B.full_pre(c, what == "synthesis", tor)
    mod = dict(jax=wavelet, c=wavelet_c, pre=wavelet_precompute, torch=wavelet_precompute_torch)[b]
    pos = (smp, re) if b == "c" else (smp, None, re)
    extra = dict(precomps=p) if b in ("pre", "torch") else {}
    own = None if case.get("filters") == "omitted" else (B.tt(psi), B.tt(phi)) if tor else (psi, phi)

    def outputs(xs):
        xs, fl = xs[:nx], (xs[nx:] or own)
        if what == "synthesis":
            return [mod.synthesis(list(xs[:-1]), xs[-1], L, N, J, lam, s, *pos, filters=fl and tuple(fl), **extra)]
        if what == "analysis":
            ww, ss = mod.analysis(xs[0], L, N, J, lam, s, *pos, filters=fl and tuple(fl), **extra)
            return list(ww) + [ss]
        return list(mod.flm_to_analysis(xs[0], L, N, J, None, lam, *pos, filters=fl and fl[0], **extra))

    xp, conv = (torch, B.tt) if tor else (jnp, jnp.asarray)
    tg = [conv(t) for t in tgt]

    def loss(xs):
        o = outputs(xs)
        return sum(xp.sum(xp.abs(a - t) ** 2) for a, t in zip(o, tg))

    with repo_call(d):
        if tor:
            xs = [conv(x.copy()).requires_grad_() for x in x0]
            g = torch.autograd.grad(loss(xs), xs, allow_unused=True)
            g = [np.zeros_like(x) if y is None else np.conj(B.to_np(y)) for x, y in zip(x0, g)]
        else:
            g = [np.array(y) for y in jax.grad(loss)([conv(x) for x in x0])]
    for x, y in zip(x0, g):
        if x.shape != y.shape:
            raise Violation(f"{d}: gradient of shape {y.shape} for input of shape {x.shape}")
    for which, dv in dirs:
        with repo_call(d):
            up = float(loss([conv(x + y) for x, y in zip(x0, dv)]))
            dn = float(loss([conv(x - y) for x, y in zip(x0, dv)]))
        want = (up - dn) / 2
        got = float(sum(np.real(np.sum(x * y)) for x, y in zip(g, dv)))
        size = max(abs(up), abs(dn), abs(want), 1e-30)
        if not abs(got - want) <= TOL * size:
            raise Violation(f"{d}: derivative{which} {got!r}, exact {want!r}")
    return dict(evals=len(dirs), nontrivial=abs(want) > 1e-6 * size and tx.nontrivial(flm, psi, c),
                tags=tx.tags(c, "backend:" + b, what, case["direction"]))


def shrink(case):
    if case["direction"] == "pixel":
        yield dict(case, direction="bandlimited")
    if case.get("filters"):
        yield dict(case, filters=None)
    yield from gen.shrink_simple(case)
