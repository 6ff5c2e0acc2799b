"""C11: calls are pure: no input is changed, no state leaks between calls, callers or threads; transforms are linear."""
import gen
import ref

ID = "C11"
FRESH = True      # every shrinking candidate runs in a new interpreter
RULE = ("random histories of 6-14 calls over two or three related configurations (sharing L, or differing in one "
        "parameter): filter and kernel generation, analysis, synthesis, harmonic analysis by several backends, repeated "
        "calls, calls made concurrently from four threads, linear combinations of arbitrary pixel data, and a caller "
        "overwriting arrays it was given earlier.  Every result is compared with the independent model, repeated calls "
        "with their first result, and every array passed in with its copy.  In addition, lists of independent calls with "
        "neighbouring parameters are made in one order and in its reverse, each in a new interpreter, and the results of "
        "every call compared.  Non-trivial: the history has at least two "
        "configurations and five calls.")


def related(rng, kw):
    """A configuration and one or two neighbours differing in a single parameter."""
    a = gen.random_config(rng, **kw)
    out = [a]
    for _ in range(rng.choice([1, 1, 2])):
        for _ in range(60):
            b = dict(a)
            f = rng.choice(["sampling", "N", "J_min", "lam", "spin", "reality", "L"])
            alt = gen.random_config(rng, **kw)
            b[f] = alt[f]
            if f == "lam" and rng.random() < 0.6:
                # a dilation that differs little: caches keyed on rounded parameters would confuse the two
                b[f] = float(a["lam"]) + rng.choice([-1, 1]) * rng.choice([3e-4, 4e-3, 0.03, 0.2])
            J = ref.j_max(b["L"], b["lam"])
            if b[f] == a[f] or not (0 <= b["J_min"] < J and 1 <= b["N"] <= b["L"] and abs(b["spin"]) < b["L"]):
                continue
            if b["reality"] and b["spin"]:
                continue
            out.append(b)
            break
    return out


def neighbour(rng, a, kw):
    """A valid configuration differing from `a` in one parameter, often only slightly."""
    for _ in range(200):
        b = dict(a)
        f = rng.choice(["L", "N", "J_min", "lam", "lam", "lam", "spin", "sampling", "reality", "multires"])
        if f == "lam":
            b[f] = float(a["lam"]) + rng.choice([-1, 1]) * rng.choice([1e-6, 3e-4, 3e-4, 4e-3, 0.03, 0.2])
        elif f in ("L", "N", "J_min", "spin") and rng.random() < 0.6:
            b[f] = a[f] + rng.choice([-1, 1])
        else:
            b[f] = gen.random_config(rng, **kw)[f]
        if b["lam"] < 1.05 or b["L"] < 2:
            continue
        J = ref.j_max(b["L"], b["lam"])
        if b != a and 0 <= b["J_min"] < J and 1 <= b["N"] <= b["L"] and abs(b["spin"]) < b["L"] and not (
                b["reality"] and b["spin"]):
            return b
    return dict(a)


def order_case(rng, i):
    """Independent calls to be made in two different orders, each in a new interpreter."""
    kw = dict(Lmax=10, max_scales=4, multires=(True, True, False))
    calls = []
    pure = ["k_lam", "k_lam", "integral", "filters_axisym", "filters_axisym_vectorised", "filters_directional",
            "filters_directional_vectorised", "filters_directional_vectorised", "tiling_direction", "sizes", "arrays"]
    for _ in range(5):
        a = gen.random_config(rng, **kw)
        if rng.random() < 0.3:
            a["lam"] = round(1.2 + 3 * rng.random(), 3)
            a["J_min"] = 0
        for g in [a, neighbour(rng, a, kw), neighbour(rng, a, kw)]:
            for fn in rng.sample(pure, 3):
                s0 = rng.choice([0, 0, 1, -1, 2])
                calls.append(dict(fn=fn, cfg=g, spin0=s0 if abs(s0) < g["L"] else 0))
            if i % 2 == 0 or g is not a:
                b = rng.choice(["base", "c", "c", "looped"])
                g = dict(g, multires=g["multires"] if b != "c" else True)
                fn = rng.choice(["analysis", "synthesis", "flm"] if b == "c" else ["analysis", "synthesis"])
                J = ref.j_max(g["L"], g["lam"])
                calls.append(dict(fn=fn, b=b, cfg=g, seed=rng.randrange(3), filt=rng.random() < 0.5 and fn != "flm",
                                  J_max=rng.choice([None, rng.randint(g["J_min"], J)])))
    a = gen.random_config(rng, Lmax=5, max_scales=3)
    for g in [a, neighbour(rng, a, dict(Lmax=5, max_scales=3))]:
        g = dict(g, multires=True)
        b = ["torch", "jax", "pre", "filters"][i % 4]
        if b == "filters":
            calls.append(dict(fn="filters_directional_jax", cfg=g, spin0=0))
        else:
            calls.append(dict(fn=["analysis", "synthesis"][i // 4 % 2], b=b, cfg=g, seed=1, filt=False, J_max=None))
    order = list(range(len(calls)))
    rng.shuffle(order)
    return dict(kind="order", calls=calls, order=order)


def generate(rng, tier):
    k = 1 if tier == "quick" else 12
    out = [order_case(rng, i) for i in range(16 * k)]
    plans = [
        (10 * k, ["jax", "base", "c"], dict(Lmax=6, max_scales=3), (4, 6)),
        (12 * k, ["pre", "torch", "c"], dict(Lmax=7, max_scales=3), (5, 7)),
        (14 * k, ["torch", "c", "base"], dict(Lmax=8, max_scales=4), (6, 12)),
        (34 * k, ["base", "looped", "c"], dict(Lmax=8), (6, 14)),
        (34 * k, ["base", "c"], dict(Lmax=12), (6, 12)),
    ]
    for n, backs, kw, (lo, hi) in plans:
        for _ in range(n):
            cfgs = related(rng, kw)
            ops = []
            for _ in range(rng.randint(lo, hi)):
                i = rng.randrange(len(cfgs))
                r = rng.random()
                b = rng.choice(backs)
                if ops and r < 0.15:
                    ops.append(dict(rng.choice([o for o in ops if o["op"] != "scribble"] or [dict(op="filters", cfg=i, kind="vec")])))
                elif r < 0.3:
                    ops.append(dict(op="filters", cfg=i, kind=rng.choice(["vec", "looped", "axisym", "axisym_vec", "parts"])))
                elif r < 0.42:
                    ops.append(dict(op="scribble"))
                elif r < 0.52:
                    ops.append(dict(op="linear", cfg=i, b=b, what=rng.choice(["analysis", "synthesis"]), seed=rng.randrange(1000)))
                elif r < 0.60 and ("base" in backs or "torch" in backs):
                    tb = [x for x in ("base", "looped", "c", "torch") if x in backs]
                    ops.append(dict(op="threads", cfg=i, seed=rng.randrange(1000), b=rng.choice(tb), same=rng.random() < 0.5))
                else:
                    what = rng.choice(["analysis", "synthesis", "analysis", "synthesis", "flm"])
                    if what == "flm" and b in ("base", "looped"):
                        what = "analysis"
                    ops.append(dict(op="call", cfg=i, b=b, what=what, seed=rng.randrange(4), filt=rng.choice(["own", "shared", "none"])))
            out.append(dict(cfgs=cfgs, ops=ops))
    return out


def in_new_interpreter(calls, order):
    import json
    import os
    import pickle
    import subprocess
    import sys
    import tempfile

    import core

    with tempfile.TemporaryDirectory() as t:
        job, res = os.path.join(t, "job.json"), os.path.join(t, "out.pkl")
        json.dump(dict(calls=calls, order=order), open(job, "w"))
        p = subprocess.run([sys.executable, os.path.join(core.HERE, "order.py"), job, res], capture_output=True,
                           text=True, timeout=240)
        if p.returncode != 0 or not os.path.exists(res):
            raise RuntimeError("order.py: " + p.stderr[-2000:])
        return pickle.load(open(res, "rb"))


def run_order(case):
    """Each call gives the same result whichever calls were made before it."""
    import subprocess

    import numpy as np
    from core import Violation

    try:
        a = in_new_interpreter(case["calls"], case["order"])
        b = in_new_interpreter(case["calls"], case["order"][::-1])
    except subprocess.TimeoutExpired:
        return dict(evals=0, nontrivial=False, tags=["order: no answer in time"])
    for i in case["order"]:
        c = case["calls"][i]
        d = f"{c['fn']} {c.get('b', '')} {c['cfg']}: result depends on the calls made before it"
        if isinstance(a[i], str) or isinstance(b[i], str):
            if type(a[i]) is not type(b[i]):
                raise Violation(f"{d}: {a[i] if isinstance(a[i], str) else b[i]} in one order only")
            continue
        if len(a[i]) != len(b[i]) or any(x.shape != y.shape for x, y in zip(a[i], b[i])):
            raise Violation(f"{d}: different shapes")
        for x, y in zip(a[i], b[i]):
            big = max(float(np.max(np.abs(x), initial=0.0)), float(np.max(np.abs(y), initial=0.0)), 1e-300)
            if not np.array_equal(x, y, equal_nan=True) and not np.max(np.abs(x - y)) <= 1e-11 * big:
                raise Violation(f"{d}: results differ by {np.max(np.abs(x - y)):.3g} (relative to {big:.3g})")
    return dict(evals=2 * len(a), nontrivial=len(a) >= 5, tags=["order"])


def run(case):
    if case.get("kind") == "order":
        return run_order(case)
    import concurrent.futures as cf
    import numpy as np
    import backends as B
    import sig
    import tx
    from s2wav import filters as F, samples
    from core import Violation, repo_call

    cfgs = case["cfgs"]
    seen, given, n = {}, [], 0
    B.LISTS = []
    shared, kern = {}, {}

    def snap(x):
        if isinstance(x, (list, tuple)):
            return [snap(y) for y in x]
        return np.array(B.to_np(x), copy=True)

    def same(x, y):
        if isinstance(x, (list, tuple)):
            return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
        x, y = B.to_np(x), B.to_np(y)
        return x.shape == y.shape and np.array_equal(x, y, equal_nan=True)

    def untouched(before, now, what):
        if not same(before, now):
            raise Violation(f"{what}: an array passed in was changed")

    def first(key, res, what, tol=1e-11):
        """A repeated call gives its first result."""
        res = [snap(x) for x in res]
        if key in seen:
            sig.close_list(res, seen[key], tol, what + ": repeated call")
        else:
            seen[key] = res

    def filt_for(i, kind):
        if kind == "none":
            return None
        if kind == "own":
            return tx.ref_filters(cfgs[i])
        if i not in shared:
            c = cfgs[i]
            with repo_call("filters_directional_vectorised, " + tx.describe(c)):
                shared[i] = F.filters_directional_vectorised(c["L"], c["N"], c["J_min"], c["lam"], c["spin"])
        return shared[i]

    def kernels(i, fwd, torch):
        key = (i, fwd, torch)
        if key not in kern:
            with repo_call("kernels, " + tx.describe(cfgs[i])):
                kern[key] = B.full_pre(cfgs[i], fwd, torch)
        return kern[key]

    def invoke(b, what, c, i, x, filt):
        pre = "default"
        if b in ("pre", "torch"):
            pre = kernels(i, what == "synthesis", b == "torch")
        kb = snap(pre) if pre != "default" else None
        xb, fb = snap(x), snap(filt) if filt is not None else None
        d = f"{b} {what}, {tx.describe(c)}"
        with repo_call(d):
            if what == "analysis":
                w, s = B.analysis(b, x, c, filt, pre)
                res = list(w) + [s]
            elif what == "synthesis":
                res = [B.synthesis(b, x[:-1], x[-1], c, filt, pre)]
            else:
                res = list(B.flm_to_analysis(b, x, c, None if filt is None else filt[0], None, pre))
        untouched(xb, x, d)
        for z in list(x if isinstance(x, list) else [x]) + list(filt if filt is not None else []):
            if isinstance(z, np.ndarray) and any(isinstance(r, np.ndarray) and np.may_share_memory(r, z) for r in res):
                raise Violation(f"{d}: a result shares memory with an array passed in")
        if fb is not None:
            untouched(fb, filt, d + " (filters)")
        if kb is not None:
            untouched(kb, pre, d + " (kernels)")
        return res, d

    def inputs(c, what, seed):
        flm, f = tx.signal(c, dict(kind="dense", scale=1.0, seed=seed + 17))
        ds, Ls = gen.dims(c)
        if what == "analysis":
            return flm, f
        if what == "flm":
            return flm, flm.copy()
        rng = np.random.default_rng(seed)
        fl = [sig.random_flmn(Lj, Nj, c["reality"], rng) for Lj, Nj in ds]
        fs = (sig.random_flm(Ls, c["spin"], c["reality"], dict(kind="dense", scale=1.0, seed=seed + 3))
              if Ls > abs(c["spin"]) else np.zeros((Ls, 2 * Ls - 1), complex))
        x = [ref.so3_synth(y, Lj, Nj, c["sampling"]) for y, (Lj, Nj) in zip(fl, ds)]
        x.append(ref.s2_synth(fs, Ls, c["spin"], c["sampling"]))
        return (fl, fs), [y.real.copy() if c["reality"] else y for y in x]

    def expect(c, what, har, filt):
        ds, Ls = gen.dims(c)
        if what == "synthesis":
            flm = ref.synth_flm(har[0], har[1], filt[0], filt[1], c["L"], ds, Ls, c["J_min"])
            return [ref.s2_synth(flm, c["L"], c["spin"], c["sampling"])]
        w, s = ref.analyse(har, filt[0], filt[1], c, ds, Ls)
        return list(w) if what == "flm" else list(w) + [s]

    def model(c, i, b, what, har, kind, res, d):
        """Compare with the model; internal filters are only known to quadrature accuracy."""
        inner = b in B.SELF_FILTER or kind == "none"
        if inner:
            want, tol = expect(c, what, har, tx.exact_filters(c)), tx.LOOSE
        else:
            f = model_filters[i] if kind == "shared" else tx.ref_filters(c)
            want, tol = expect(c, what, har, f), tx.TOL
        big = max(float(np.max(np.abs(y))) for y in want)
        big = max(big, float(max(np.max(np.abs(y)) for y in (har if isinstance(har, tuple) and what != "synthesis" else [har] if not isinstance(har, tuple) else list(har[0]) + [har[1]]))) * 0.1)
        sig.close_list(res, want, tol, d, big)

    model_filters = {}
    for o in case["ops"]:
        op = o["op"]
        if op == "scribble":
            # the caller overwrites everything it was handed so far
            for x in given:
                a = x.numpy() if hasattr(x, "detach") and not x.requires_grad else x
                if isinstance(a, np.ndarray) and a.flags.writeable:
                    a[...] = 7.5
            # and replaces the elements of every list it was handed
            for x in B.LISTS + [y for k in kern.values() for y in (k, k[2]) if isinstance(y, list)]:
                for j in range(len(x)):
                    if hasattr(x[j], "shape"):
                        x[j] = x[j] * 0 + 7.5
                if len(x) > 1:
                    x.reverse()
            B.LISTS.clear()
            given.clear()
            shared.clear()
            model_filters.clear()
            kern.clear()
            n += 1
            continue
        i = min(o["cfg"], len(cfgs) - 1)
        c = cfgs[i]
        L, N, J, lam, s = c["L"], c["N"], c["J_min"], c["lam"], c["spin"]
        if op == "filters":
            d = f"filters {o['kind']}, {tx.describe(c)}"
            with repo_call(d):
                if o["kind"] == "vec":
                    res = F.filters_directional_vectorised(L, N, J, lam, s)
                elif o["kind"] == "looped":
                    res = F.filters_directional(L, N, J, lam, s)
                elif o["kind"] == "axisym":
                    res = F.filters_axisym(L, J, lam)
                elif o["kind"] == "axisym_vec":
                    res = F.filters_axisym_vectorised(L, J, lam)
                else:
                    parts = [samples.construct_f(L, N, J, lam, c["sampling"], None, True),
                             samples.construct_flmn(L, N, J, lam, True)]
                    res = [F.k_lam(L, lam), F.tiling_direction(L, N), samples.construct_flm(L, J, lam, True)] + list(
                        parts[0]) + list(parts[1])
                    B.LISTS += [z for z in parts if isinstance(z, list)]
                    for z in res[2:]:
                        if np.any(z != 0):
                            raise Violation(f"{d}: a constructed array is not zero")
            if o["kind"] in ("vec", "looped"):
                e = tx.exact_filters(c)
                for g, h in zip(res, e):
                    sig.close(np.abs(g) ** 2, np.abs(h) ** 2, 1e-3, d, 1.0)
            first(("filters", o["kind"], i), list(res), d)
            given.extend(res)
        elif op == "call":
            filt = filt_for(i, o["filt"]) if o["b"] not in B.SELF_FILTER else None
            if o["what"] == "flm" and o["filt"] == "none" and s != 0:
                filt = filt_for(i, "own")
                o = dict(o, filt="own")
            if o["filt"] == "shared" and filt is not None and i not in model_filters:
                model_filters[i] = snap(filt)
            har, x = inputs(c, o["what"], o["seed"])
            res, d = invoke(o["b"], o["what"], c, i, x, filt)
            model(c, i, o["b"], o["what"], har, o["filt"], res, d)
            first(("call", i, o["b"], o["what"], o["seed"], o["filt"]), res, d)
            given.extend(res)
            if o["filt"] == "shared" and filt is not None:
                given.extend(filt)
            given.extend(x if isinstance(x, list) else [x])
        elif op == "linear":
            filt = None if o["b"] in B.SELF_FILTER else tx.ref_filters(c)
            rng = np.random.default_rng(o["seed"])
            re = c["reality"]
            ds, Ls = gen.dims(c)
            shp = ([ref.s2_shape(L, c["sampling"])] if o["what"] == "analysis" else
                   [ref.so3_shape(Lj, Nj, c["sampling"]) for Lj, Nj in ds] + [ref.s2_shape(Ls, c["sampling"])])
            noise = lambda: [rng.normal(size=z) + (0 if re else 1j * rng.normal(size=z)) for z in shp]  # noqa: E731
            x, y = noise(), noise()
            a, e = (complex(*rng.normal(size=2)) for _ in range(2))
            if re:
                a, e = a.real, e.real
            z = [a * p + e * q for p, q in zip(x, y)]
            pack = (lambda v: v[0]) if o["what"] == "analysis" else (lambda v: v)
            rx, d = invoke(o["b"], o["what"], c, i, pack(x), filt)
            ry, _ = invoke(o["b"], o["what"], c, i, pack(y), filt)
            rz, _ = invoke(o["b"], o["what"], c, i, pack(z), filt)
            want = [a * p + e * q for p, q in zip(rx, ry)]
            sig.close_list(rz, want, 1e-9, d + ": linearity", max(float(np.max(np.abs(v))) for v in list(rx) + list(ry) + want))
        elif op == "threads":
            jobs = []
            for t in range(6):
                ti = i if o.get("same") else (i + t // 2) % len(cfgs)
                what = ["analysis", "synthesis"][t % 2]
                jobs.append((ti, what) + inputs(cfgs[ti], what, o["seed"] + t))
            filts = [None if o["b"] in B.SELF_FILTER else tx.ref_filters(cfgs[j[0]]) for j in jobs]
            if o["b"] == "torch":       # kernels are made beforehand: generating them is slow
                for j in jobs:
                    kernels(j[0], j[1] == "synthesis", True)
            reps = 1 if o["b"] == "torch" else 3
            with cf.ThreadPoolExecutor(6) as ex:
                futs = [[ex.submit(invoke, o["b"], j[1], cfgs[j[0]], j[0], j[3], g) for j, g in zip(jobs, filts)]
                        for _ in range(reps)]
                outs = [(j, u.result()) for row in futs for j, u in zip(jobs, row)]
            for j, (res, d) in outs:
                model(cfgs[j[0]], j[0], o["b"], j[1], j[2], "own", res, d + " (concurrent)")
        n += 1
    calls = sum(o["op"] != "scribble" for o in case["ops"])
    return dict(evals=n, nontrivial=len(cfgs) >= 2 and calls >= 5,
                tags=sorted({o["op"] for o in case["ops"]} | {"backend:" + o["b"] for o in case["ops"] if "b" in o}))


def shrink(case):
    if case.get("kind") == "order":
        o = case["order"]
        size = len(o) // 2
        while size >= 1:
            for i in range(0, len(o), size):
                if o[:i] + o[i + size:]:
                    yield dict(case, order=o[:i] + o[i + size:])
            size //= 2
        return
    ops = case["ops"]
    size = len(ops) // 2
    while size >= 1:
        for i in range(0, len(ops), size):
            cut = ops[:i] + ops[i + size:]
            if cut:
                yield dict(case, ops=cut)
        size //= 2
    used = sorted({o["cfg"] for o in ops if "cfg" in o})
    if len(used) < len(case["cfgs"]):
        yield dict(cfgs=[case["cfgs"][min(u, len(case["cfgs"]) - 1)] for u in used],
                   ops=[dict(o, cfg=used.index(o["cfg"])) if "cfg" in o else o for o in ops])
    for i, o in enumerate(ops):
        if o.get("filt") in ("shared", "none"):
            yield dict(case, ops=ops[:i] + [dict(o, filt="own")] + ops[i + 1:])
    for i, c in enumerate(case["cfgs"]):
        for d in gen.shrink_config(c):
            yield dict(case, cfgs=case["cfgs"][:i] + [d] + case["cfgs"][i + 1:])
