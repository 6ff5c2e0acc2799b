"""Runs a list of independent calls, in the given order, in this (new) interpreter.

usage: order.py JOB.json OUT.pkl      JOB: {"calls": [...], "order": [indices]}
OUT: {index: [arrays] or "raised ..."}; the caller compares the outcomes of two orders.
"""
import json
import pickle
import sys


def call(c):
    import numpy as np
    import backends as B
    from s2wav import filters as F, samples as S

    g = c["cfg"]
    L, N, J, lam, s = g["L"], g["N"], g["J_min"], g["lam"], g["spin"]
    mr, smp = g.get("multires", True), g["sampling"]
    f = c["fn"]
    if f == "k_lam":
        return [F.k_lam(L, lam)]
    if f == "integral":
        return [np.array([F.part_scaling_fn(1 / lam + (1 - 1 / lam) * t, 1.0, n, lam) for t in (0.1, 0.5, 0.9)
                          for n in (100, 300)])]
    if f in ("filters_axisym", "filters_axisym_vectorised", "filters_axisym_jax"):
        return list(getattr(F, f)(L, J, lam))
    if f in ("filters_directional", "filters_directional_vectorised", "filters_directional_jax"):
        return list(getattr(F, f)(L, N, J, lam, s, c["spin0"]))
    if f == "tiling_direction":
        return [F.tiling_direction(L, N)]
    if f == "sizes":
        return [np.array([S.j_max(L, lam), S.n_wav_scales(L, N, J, lam), S.scal_bandlimit(L, J, lam, mr)]
                         + [x for j in range(J, S.j_max(L, lam) + 1) for x in S.LN_j(L, j, N, lam, mr)]
                         + list(S.f_scal(L, J, lam, smp, None, mr)))]
    if f == "arrays":
        return list(S.construct_f(L, N, J, lam, smp, None, mr)) + list(S.construct_flmn(L, N, J, lam, mr)) + [
            S.construct_flm(L, J, lam, mr)]
    rng = np.random.default_rng(c["seed"])
    re = g["reality"]

    def rnd(shape):
        x = rng.normal(size=shape)
        return x if re else x + 1j * rng.normal(size=shape)

    import gen
    import ref

    b, what = c["b"], f
    filt = None if b in B.SELF_FILTER or c["filt"] else F.filters_directional_vectorised(L, N, J, lam, s)
    if what == "analysis":
        w, sc = B.analysis(b, rnd(ref.s2_shape(L, smp)), g, filt)
        return list(w) + [sc]
    if what == "synthesis":
        ds, Ls = gen.dims(g)
        w = [rnd(ref.so3_shape(Lj, Nj, smp)) for Lj, Nj in ds]
        return [B.synthesis(b, w, rnd(ref.s2_shape(Ls, smp)), g, filt)]
    if what == "flm":
        flm = np.zeros((L, 2 * L - 1), complex)
        for l in range(abs(s), L):
            flm[l, L - 1 - l:L + l] = rng.normal(size=2 * l + 1) + 1j * rng.normal(size=2 * l + 1)
            if re:
                for m in range(0, l + 1):
                    flm[l, L - 1 - m] = (-1) ** m * np.conj(flm[l, L - 1 + m])
                flm[l, L - 1] = flm[l, L - 1].real
        return list(B.flm_to_analysis(b, flm, g, None if filt is None else filt[0], c["J_max"]))
    raise KeyError(f)


def main():
    import core

    core._setup_worker()
    sys.path.insert(0, core.HERE)
    import numpy as np

    job = json.load(open(sys.argv[1]))
    out = {}
    for i in job["order"]:
        try:
            out[i] = [np.array(x, copy=True) for x in call(job["calls"][i])]
        except KeyError:
            raise
        except Exception as e:  # noqa: BLE001
            out[i] = f"raised {type(e).__name__}: {str(e)[:100]}"
    pickle.dump(out, open(sys.argv[2], "wb"))


if __name__ == "__main__":
    main()
