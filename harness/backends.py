"""Uniform access to every public transform of s2wav (numpy in, numpy out)."""
import numpy as np
import torch
import jax.numpy as jnp
from s2wav import filters as sfilters
from s2wav.transforms import (
    base, wavelet, wavelet_c, wavelet_precompute, wavelet_precompute_torch, construct,
)

CHEAP = ["base", "looped", "c", "torch"]
JAXY = ["jax", "pre"]
ALL = CHEAP + JAXY
LISTS = None      # a list here collects the lists of coefficients the package hands out
SELF_FILTER = ("base", "looped")  # compute their filters internally


def arrays(w):
    """Results as NumPy arrays, remembering the list they were handed out in."""
    if LISTS is not None and isinstance(w, list):
        LISTS.append(w)
    return [to_np(x) for x in w]


def to_np(x):
    if isinstance(x, torch.Tensor):
        return x.detach().resolve_conj().resolve_neg().numpy()
    return x if isinstance(x, np.ndarray) else np.array(x)


def tt(x):
    return torch.from_numpy(np.ascontiguousarray(x))


def repo_filters(c, using_torch=False):
    return sfilters.filters_directional_vectorised(
        c["L"], c["N"], c["J_min"], c["lam"], c.get("spin", 0), c.get("spin0", 0), using_torch
    )


def full_pre(c, forward, using_torch=False):
    return construct.generate_full_precomputes(
        c["L"], c["N"], c["J_min"], c["lam"], c["sampling"], c.get("nside"),
        forward, c["reality"], False, using_torch, c.get("spin", 0),
    )


def analysis(b, f, c, filt=None, precomps="default"):
    L, N, J, lam, s = c["L"], c["N"], c["J_min"], c["lam"], c.get("spin", 0)
    smp, ns, re = c["sampling"], c.get("nside"), c["reality"]
    if b in ("base", "looped"):
        fn = base.analysis if b == "base" else base.analysis_looped
        w, sc = fn(f, L, N, J, lam, s, c.get("spin0", 0), smp, ns, re, c.get("multires", True))
    elif b == "jax":
        kw = {} if precomps == "default" else {"precomps": precomps}
        w, sc = wavelet.analysis(f, L, N, J, lam, s, smp, ns, re, filters=filt, **kw)
    elif b == "c":
        w, sc = wavelet_c.analysis(f, L, N, J, lam, s, smp, re, filters=filt)
    elif b == "pre":
        p = full_pre(c, False) if precomps == "default" else precomps
        w, sc = wavelet_precompute.analysis(
            f, L, N, J, lam, s, smp, ns, re, filters=filt, precomps=p
        )
    elif b == "torch":
        p = full_pre(c, False, True) if precomps == "default" else precomps
        w, sc = wavelet_precompute_torch.analysis(
            tt(f), L, N, J, lam, s, smp, ns, re,
            filters=None if filt is None else tuple(tt(x) for x in filt), precomps=p,
        )
    else:
        raise KeyError(b)
    return arrays(w), to_np(sc)


def synthesis(b, w, sc, c, filt=None, precomps="default"):
    L, N, J, lam, s = c["L"], c["N"], c["J_min"], c["lam"], c.get("spin", 0)
    smp, ns, re = c["sampling"], c.get("nside"), c["reality"]
    if b in ("base", "looped"):
        fn = base.synthesis if b == "base" else base.synthesis_looped
        f = fn(w, sc, L, N, J, lam, s, c.get("spin0", 0), smp, ns, re, c.get("multires", True))
    elif b == "jax":
        kw = {} if precomps == "default" else {"precomps": precomps}
        f = wavelet.synthesis(w, sc, L, N, J, lam, s, smp, ns, re, filters=filt, **kw)
    elif b == "c":
        f = wavelet_c.synthesis(
            [jnp.asarray(x) for x in w], jnp.asarray(sc), L, N, J, lam, s, smp, re, filters=filt
        )
    elif b == "pre":
        p = full_pre(c, True) if precomps == "default" else precomps
        f = wavelet_precompute.synthesis(
            w, sc, L, N, J, lam, s, smp, ns, re, filters=filt, precomps=p
        )
    elif b == "torch":
        p = full_pre(c, True, True) if precomps == "default" else precomps
        f = wavelet_precompute_torch.synthesis(
            [tt(x) for x in w], tt(sc), L, N, J, lam, s, smp, ns, re,
            filters=None if filt is None else tuple(tt(x) for x in filt), precomps=p,
        )
    else:
        raise KeyError(b)
    return to_np(f)


def flm_to_analysis(b, flm, c, filt, J_max=None, precomps="default", shift=None):
    L, N, J, lam = c["L"], c["N"], c["J_min"], c["lam"]
    smp, ns, re = c["sampling"], c.get("nside"), c["reality"]
    if b == "jax":
        kw = {} if precomps == "default" else {"precomps": precomps}
        w = wavelet.flm_to_analysis(flm, L, N, J, J_max, lam, smp, ns, re, filters=filt, **kw)
    elif b == "c":
        w = wavelet_c.flm_to_analysis(flm, L, N, J, J_max, lam, smp, re, filters=filt)
    elif b == "pre":
        p = full_pre(c, False) if precomps == "default" else precomps
        kw = {} if shift is None else {"_precomp_shift": shift}
        w = wavelet_precompute.flm_to_analysis(
            flm, L, N, J, J_max, lam, smp, ns, re, filters=filt, precomps=p, **kw
        )
    elif b == "torch":
        p = full_pre(c, False, True) if precomps == "default" else precomps
        w = wavelet_precompute_torch.flm_to_analysis(
            tt(flm), L, N, J, J_max, lam, smp, ns, re, filters=None if filt is None else tt(filt), precomps=p
        )
    else:
        raise KeyError(b)
    return arrays(w)
