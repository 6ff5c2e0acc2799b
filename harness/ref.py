"""Independent reference model of the scale-discretised wavelet transform.

Nothing in this module imports s2wav, s2fft or pys2let.  Every quantity is
computed from its mathematical definition:

* Wigner small-d matrices by exponentiating the angular-momentum matrix J_y
  (eigen-decomposition), not by any of the recursions used by s2fft / ssht;
* the harmonic / Wigner series are summed directly on the sample points, so the
  reference never needs a quadrature rule or a sampling theorem;
* the tiling functions from their integral definition (adaptive / Gauss-Legendre
  quadrature), not by the trapezium rule the package uses.

Array conventions are those documented by the package:
  flm[el, L-1+m], flmn[N-1+n, el, L-1+m], wav[j, el, L-1+n], scal[el],
  f[theta, phi], f_wav[j][gamma, theta, phi].
"""
from functools import lru_cache
from math import comb, sqrt, pi
import numpy as np


# --------------------------------------------------------------------------
# Wigner functions
# --------------------------------------------------------------------------
@lru_cache(maxsize=None)
def _jy_eig(el):
    m = np.arange(-el, el + 1)
    if el == 0:
        return np.zeros(1), np.ones((1, 1), complex)
    cp = np.sqrt(el * (el + 1) - m[:-1] * (m[:-1] + 1.0))  # <m+1|J+|m>
    jp = np.zeros((2 * el + 1, 2 * el + 1))
    jp[np.arange(1, 2 * el + 1), np.arange(2 * el)] = cp
    jy = (jp - jp.T) / 2j
    _, v = np.linalg.eigh(jy)
    return m.astype(float), v  # eigenvalues of J_y are exactly -el..el


@lru_cache(maxsize=4096)
def _wigner_d_cached(el, beta_key):
    w, v = _jy_eig(el)
    return np.real((v * np.exp(-1j * beta_key * w)) @ v.conj().T)


def wigner_d(el, beta):
    """d^el_{m n}(beta), index [m+el, n+el]."""
    return _wigner_d_cached(int(el), float(beta))


@lru_cache(maxsize=256)
def d_table(L, thetas, spins):
    """d^el_{m,n}(theta) -> array [len(spins), ntheta, L, 2L-1] (n over spins)."""
    out = np.zeros((len(spins), len(thetas), L, 2 * L - 1))
    for t, th in enumerate(thetas):
        for el in range(L):
            d = wigner_d(el, th)
            for i, n in enumerate(spins):
                if abs(n) <= el:
                    out[i, t, el, L - 1 - el : L + el] = d[:, el + n]
    return out


# --------------------------------------------------------------------------
# Sampling grids (published definitions of each scheme)
# --------------------------------------------------------------------------
@lru_cache(maxsize=None)
def grid(L, sampling):
    """Return (thetas, phis) as tuples for an equiangular-type scheme."""
    if sampling == "mw":
        th = (2 * np.arange(L) + 1) * pi / (2 * L - 1)
        ph = 2 * np.arange(2 * L - 1) * pi / (2 * L - 1)
    elif sampling == "mwss":
        th = 2 * np.arange(L + 1) * pi / (2 * L)
        ph = 2 * np.arange(2 * L) * pi / (2 * L)
    elif sampling == "dh":
        th = (2 * np.arange(2 * L) + 1) * pi / (4 * L)
        ph = 2 * np.arange(2 * L - 1) * pi / (2 * L - 1)
    elif sampling == "gl":
        x, _ = np.polynomial.legendre.leggauss(L)
        th = np.arccos(x)[::-1]
        th = np.sort(th)
        ph = 2 * np.arange(2 * L - 1) * pi / (2 * L - 1)
    else:
        raise ValueError(sampling)
    return tuple(th.tolist()), tuple(ph.tolist())


def s2_shape(L, sampling):
    th, ph = grid(L, sampling)
    return len(th), len(ph)


def so3_shape(L, N, sampling):
    return (2 * N - 1,) + s2_shape(L, sampling)


@lru_cache(maxsize=None)
def healpix_points(nside):
    """(theta, phi) of every pixel, ring ordering."""
    th, ph = [], []
    for t in range(4 * nside - 1):
        r = t + 1
        if r < nside:  # north cap
            z = 1 - r * r / (3.0 * nside**2)
            n, shift = 4 * r, 0.5
        elif r <= 3 * nside:
            z = 4.0 / 3 - 2.0 * r / (3.0 * nside)
            n = 4 * nside
            shift = 0.5 * ((r - nside + 1) % 2)
        else:
            rr = 4 * nside - r
            z = -1 + rr * rr / (3.0 * nside**2)
            n, shift = 4 * rr, 0.5
        for p in range(n):
            th.append(float(np.arccos(z)))
            ph.append(2 * pi * (p + shift) / n)
    return tuple(th), tuple(ph)


# --------------------------------------------------------------------------
# Series evaluation
# --------------------------------------------------------------------------
def s2_synth(flm, L, spin, sampling, nside=None):
    """sum_lm flm sYlm on the grid, sYlm=(-1)^s sqrt((2l+1)/4pi) d^l_{m,-s} e^{im phi}."""
    scale = np.sqrt((2 * np.arange(L) + 1) / (4 * pi))
    m = np.arange(-L + 1, L)
    if sampling == "healpix":
        th, ph = healpix_points(nside)
        uth = tuple(sorted(set(th)))
        idx = np.array([uth.index(t) for t in th])
        d = d_table(L, uth, (-spin,))[0]
        ftm = (-1) ** spin * np.einsum("tlm,lm,l->tm", d, flm, scale)
        return np.sum(ftm[idx] * np.exp(1j * np.outer(ph, m)), axis=1)
    th, ph = grid(L, sampling)
    d = d_table(L, th, (-spin,))[0]
    ftm = (-1) ** spin * np.einsum("tlm,lm,l->tm", d, flm, scale)
    return ftm @ np.exp(1j * np.outer(m, ph))


def so3_synth(flmn, L, N, sampling, nside=None):
    """sum_lmn (2l+1)/(8pi^2) flmn conj(D^l_mn(alpha,beta,gamma)); axes [gamma,beta,alpha]."""
    scale = (2 * np.arange(L) + 1) / (8 * pi**2)
    n = np.arange(-N + 1, N)
    m = np.arange(-L + 1, L)
    gam = 2 * pi * np.arange(2 * N - 1) / (2 * N - 1)
    eg = np.exp(1j * np.outer(gam, n))
    if sampling == "healpix":
        th, ph = healpix_points(nside)
        uth = tuple(sorted(set(th)))
        idx = np.array([uth.index(t) for t in th])
        d = d_table(L, uth, tuple(n.tolist()))
        ftmn = np.einsum("ntlm,nlm,l->ntm", d, flmn, scale)
        fp = np.einsum("npm,pm->np", ftmn[:, idx], np.exp(1j * np.outer(ph, m)))
        return eg @ fp
    th, ph = grid(L, sampling)
    d = d_table(L, th, tuple(n.tolist()))
    ftmn = np.einsum("ntlm,nlm,l->ntm", d, flmn, scale)
    fa = ftmn @ np.exp(1j * np.outer(m, ph))
    return np.einsum("gn,nta->gta", eg, fa)


# --------------------------------------------------------------------------
# Scales, band-limits (exact arithmetic on floats, definition based)
# --------------------------------------------------------------------------
def j_max(L, lam):
    """Smallest J with lam^J >= L (relative slack 1e-9 for representability)."""
    J = 0
    while lam**J < L * (1 - 1e-9):
        J += 1
    return J


# --------------------------------------------------------------------------
# Tiling functions
# --------------------------------------------------------------------------
def _s2_over_t(t, lam):
    x = (t - 1.0 / lam) * (2.0 * lam / (lam - 1.0)) - 1.0
    out = np.zeros_like(t)
    ok = np.abs(x) < 1 - 1e-13
    out[ok] = np.exp(-2.0 / (1.0 - x[ok] ** 2)) / t[ok]
    return out


_GLX, _GLW = np.polynomial.legendre.leggauss(64)


def _integral(a, b, lam, pieces=16):
    edges = np.linspace(a, b, pieces + 1)
    lo, hi = edges[:-1, None], edges[1:, None]
    t = (hi - lo) / 2 * _GLX[None] + (hi + lo) / 2
    return float(np.sum((hi - lo) / 2 * _GLW[None] * _s2_over_t(t, lam)))


@lru_cache(maxsize=None)
def _norm(lam):
    return _integral(1.0 / lam, 1.0, lam)


@lru_cache(maxsize=200000)
def k_exact(t, lam):
    if t <= 1.0 / lam:
        return 1.0
    if t >= 1.0:
        return 0.0
    return _integral(t, 1.0, lam) / _norm(lam)


def kappas(L, J_min, lam, J=None):
    """(kappa[j, l], kappa0[l]) from the integral definition; rows < J_min zero."""
    J = j_max(L, lam) if J is None else J
    kap = np.zeros((J + 1, L))
    for j in range(J_min, J + 1):
        for l in range(L):
            kap[j, l] = np.sqrt(
                max(k_exact(l / lam ** (j + 1), lam) - k_exact(l / lam**j, lam), 0.0)
            )
    k0 = np.sqrt(np.array([k_exact(l / lam**J_min, lam) for l in range(L)]))
    return kap, k0


def directionality(L, N):
    """s_{l n} of McEwen et al 2015 (eq. for the directionality component)."""
    s = np.zeros((L, 2 * L - 1), complex)
    nu = 1.0 if N % 2 else 1j
    for l in range(1, L):
        g = min(N - 1, l) if (N + l) % 2 else min(N - 1, l - 1)
        for m in range(-l, l + 1):
            if abs(m) < N and (N + m) % 2 and abs(m) <= g:
                s[l, L - 1 + m] = nu * sqrt(comb(g, (g - m) // 2) / 2.0**g)
    return s


def spin_factor(l, spin0):
    """(-1)^s0 * sqrt((l+s0)!/(l-s0)!) for l >= |s0|."""
    if spin0 == 0:
        return 1.0
    a = abs(spin0)
    f = 1.0
    for i in range(-a + 1, a + 1):
        f *= l + i
    f = sqrt(f)
    return (-1) ** spin0 * (f if spin0 > 0 else 1.0 / f)


def directional_filters(L, N, J_min, lam, spin=0, spin0=0, J=None):
    kap, k0 = kappas(L, J_min, lam, J)
    s = directionality(L, N)
    lmin = max(abs(spin), abs(spin0))
    psi = np.zeros((kap.shape[0], L, 2 * L - 1), complex)
    phi = np.zeros(L)
    for l in range(lmin, L):
        sf = spin_factor(l, spin0)
        phi[l] = sqrt((2 * l + 1) / (4 * pi)) * k0[l] * sf
        psi[:, l, :] = (
            sqrt((2 * l + 1) / (8 * pi**2)) * kap[:, l, None] * s[l][None] * sf
        )
    return psi, phi


# --------------------------------------------------------------------------
# Wavelet transform in harmonic space (continuous definition)
# --------------------------------------------------------------------------
def wav_flmn(flm, psi_j, L, Lj, Nj):
    """Wigner coefficients of scale j, restricted to el<Lj, |n|<Nj."""
    out = np.zeros((2 * Nj - 1, Lj, 2 * Lj - 1), complex)
    for n in range(-Nj + 1, Nj):
        if abs(n) > L - 1:
            continue
        c = 8 * pi**2 / (2 * np.arange(Lj) + 1) * np.conj(psi_j[:Lj, L - 1 + n])
        out[Nj - 1 + n] = flm[:Lj, L - Lj : L - 1 + Lj] * c[:, None]
    return out


def scal_flm(flm, phi, L, Ls):
    c = np.sqrt(4 * pi / (2 * np.arange(Ls) + 1)) * phi[:Ls]
    return flm[:Ls, L - Ls : L - 1 + Ls] * c[:, None]


def synth_flm(flmns, fslm, psi, phi, L, dims, Ls, J_min):
    """flm of the synthesised signal; dims = [(Lj, Nj), ...] for j = J_min.. """
    flm = np.zeros((L, 2 * L - 1), complex)
    for i, (Lj, Nj) in enumerate(dims):
        for n in range(-Nj + 1, Nj):
            if abs(n) > L - 1:
                continue
            flm[:Lj, L - Lj : L - 1 + Lj] += (
                flmns[i][Nj - 1 + n] * psi[J_min + i][:Lj, L - 1 + n][:, None]
            )
    c = np.sqrt(4 * pi / (2 * np.arange(Ls) + 1)) * phi[:Ls]
    flm[:Ls, L - Ls : L - 1 + Ls] += fslm * c[:, None]
    return flm


# --------------------------------------------------------------------------
# Tiling functions evaluated with the documented trapezium rule (300 steps)
# --------------------------------------------------------------------------
def _trap(a, lam, n):
    if a >= 1.0:
        return 0.0
    t = a + (1.0 - a) * np.arange(n + 1) / n
    y = _s2_over_t(t, lam)
    return float(np.sum(y[:-1] + y[1:]) * (1.0 - a) / n / 2)


@lru_cache(maxsize=None)
def _trap_norm(lam, n):
    return _trap(1.0 / lam, lam, n)


@lru_cache(maxsize=200000)
def k_trap(t, lam, n=300):
    if t <= 1.0 / lam:
        return 1.0
    if t >= 1.0:
        return 0.0
    return _trap(t, lam, n) / _trap_norm(lam, n)


def kappas_trap(L, J_min, lam, J=None):
    J = j_max(L, lam) if J is None else J
    k = np.array([[k_trap(l / lam**j, lam) for l in range(L)] for j in range(J + 2)])
    kap = np.sqrt(np.maximum(k[1:] - k[:-1], 0))
    kap[:J_min] = 0
    return kap, np.sqrt(k[J_min])


@lru_cache(maxsize=64)
def trap_filters(L, N, J_min, lam, spin=0, spin0=0, J=None):
    kap, k0 = kappas_trap(L, J_min, lam, J)
    return _assemble(kap, k0, L, N, spin, spin0)


def _assemble(kap, k0, L, N, spin, spin0):
    s = directionality(L, N)
    lmin = max(abs(spin), abs(spin0))
    psi = np.zeros((kap.shape[0], L, 2 * L - 1), complex)
    phi = np.zeros(L)
    for l in range(lmin, L):
        sf = spin_factor(l, spin0)
        phi[l] = sqrt((2 * l + 1) / (4 * pi)) * k0[l] * sf
        psi[:, l, :] = (
            sqrt((2 * l + 1) / (8 * pi**2)) * kap[:, l, None] * s[l][None] * sf
        )
    return psi, phi


# --------------------------------------------------------------------------
# HEALPix analysis: equal-weight sum over the pixels (what the scheme defines;
# not exact, unlike the sampling-theorem schemes)
# --------------------------------------------------------------------------
def hp_forward(f, L, spin, nside):
    th, ph = healpix_points(nside)
    uth = tuple(sorted(set(th)))
    idx = np.array([uth.index(t) for t in th])
    d = d_table(L, uth, (-spin,))[0]
    m = np.arange(-L + 1, L)
    g = (f[:, None] * np.exp(-1j * np.outer(ph, m)))  # [p, m]
    out = np.einsum("plm,pm->lm", d[idx], g)
    scale = np.sqrt((2 * np.arange(L) + 1) / (4 * pi))
    return 4 * pi / len(th) * (-1) ** spin * out * scale[:, None]


def hp_forward_so3(f, L, N, nside):
    th, ph = healpix_points(nside)
    uth = tuple(sorted(set(th)))
    idx = np.array([uth.index(t) for t in th])
    n = np.arange(-N + 1, N)
    m = np.arange(-L + 1, L)
    gam = 2 * pi * np.arange(2 * N - 1) / (2 * N - 1)
    fn = np.exp(-1j * np.outer(n, gam)) @ f * 2 * pi / (2 * N - 1)
    d = d_table(L, uth, tuple(n.tolist()))
    e = np.exp(-1j * np.outer(ph, m))
    return 4 * pi / len(th) * np.einsum("np,nplm,pm->nlm", fn, d[:, idx], e, optimize=True)


# --------------------------------------------------------------------------
# Whole transforms
# --------------------------------------------------------------------------
def analyse(flm, psi, phi, c, ds, Ls):
    """Wavelet and scaling coefficients of the signal with harmonics flm."""
    L, J, smp, ns = c["L"], c["J_min"], c["sampling"], c.get("nside")
    w = [
        so3_synth(wav_flmn(flm, psi[J + i], L, Lj, Nj), Lj, Nj, smp, ns)
        for i, (Lj, Nj) in enumerate(ds)
    ]
    s = s2_synth(scal_flm(flm, phi, L, Ls), Ls, c.get("spin", 0), smp, ns)
    return w, s


# --------------------------------------------------------------------------
# Exact quadrature (Gauss-Legendre / Driscoll-Healy grids)
# --------------------------------------------------------------------------
def theta_weights(L, sampling):
    """w with sum_t w_t g(theta_t) = int g sin(theta) dtheta for deg g <= 2L-2."""
    th = np.array(grid(L, sampling)[0])
    if sampling == "gl":
        x, w = np.polynomial.legendre.leggauss(L)
        return w[::-1][np.argsort(np.arccos(x)[::-1])]
    if sampling == "dh":
        k = np.arange(L)
        return np.array([
            2.0 / L * np.sin(t) * np.sum(np.sin((2 * k + 1) * t) / (2 * k + 1)) for t in th
        ])
    raise ValueError(sampling)


# --------------------------------------------------------------------------
# Coefficients from samples, any exact scheme: Fourier in the two angles that are sampled
# uniformly, least squares in colatitude (uniquely solvable for band-limited functions)
# --------------------------------------------------------------------------
def so3_coeffs(f, L, N, sampling):
    """flmn of the function whose samples so3_synth gives; band-limits L and N."""
    th, ph = grid(L, sampling)
    n = np.arange(-N + 1, N)
    m = np.arange(-L + 1, L)
    gam = 2 * pi * np.arange(2 * N - 1) / (2 * N - 1)
    fn = np.einsum("ng,gta->nta", np.exp(-1j * np.outer(n, gam)), f) / (2 * N - 1)
    fnm = np.einsum("nta,am->ntm", fn, np.exp(-1j * np.outer(ph, m))) / len(ph)
    d = d_table(L, th, tuple(n.tolist()))
    out = np.zeros((2 * N - 1, L, 2 * L - 1), complex)
    scale = (2 * np.arange(L) + 1) / (8 * pi**2)
    for i, nn in enumerate(n):
        for k, mm in enumerate(m):
            l0 = max(abs(nn), abs(mm))
            if l0 < L:
                out[i, l0:, k] = np.linalg.lstsq(d[i, :, l0:, k] * scale[l0:], fnm[i, :, k], rcond=None)[0]
    return out


def s2_coeffs(f, L, spin, sampling):
    """flm of the spin signal whose samples s2_synth gives."""
    th, ph = grid(L, sampling)
    m = np.arange(-L + 1, L)
    fm = f @ np.exp(-1j * np.outer(ph, m)) / len(ph)
    d = d_table(L, th, (-spin,))[0]
    scale = (-1) ** spin * np.sqrt((2 * np.arange(L) + 1) / (4 * pi))
    out = np.zeros((L, 2 * L - 1), complex)
    for k, mm in enumerate(m):
        l0 = max(abs(spin), abs(mm))
        if l0 < L:
            out[l0:, k] = np.linalg.lstsq(d[:, l0:, k] * scale[l0:], fm[:, k], rcond=None)[0]
    return out
