"""Random band-limited signals, coefficients and comparisons (numpy only)."""
import numpy as np

from core import Violation


def rand_c(rng, shape):
    return rng.normal(size=shape) + 1j * rng.normal(size=shape)


def random_flm(L, spin, reality, spec):
    """Harmonic coefficients of a spin signal band-limited at L."""
    rng = np.random.default_rng(spec["seed"])
    flm = rand_c(rng, (L, 2 * L - 1))
    s = abs(spin)
    ell = np.arange(L)[:, None]
    m = np.arange(-L + 1, L)[None]
    keep = (np.abs(m) <= ell) & (ell >= s)
    kind = spec["kind"]
    if kind == "single":
        l0 = int(rng.integers(s, L))
        m0 = int(rng.integers(-l0, l0 + 1))
        keep &= (ell == l0) & ((m == m0) | ((m == -m0) if reality else False))
    elif kind == "low":
        keep &= ell <= max(s, (L - 1) // 2)
    elif kind == "top":
        keep &= ell == L - 1
    flm = np.where(keep, flm, 0) * spec["scale"]
    return make_real_flm(flm) if reality else flm


def make_real_flm(flm):
    L = flm.shape[0]
    out = flm.copy()
    out[:, L - 1] = out[:, L - 1].real
    for m in range(1, L):
        out[:, L - 1 - m] = (-1) ** m * np.conj(out[:, L - 1 + m])
    return out


def random_flmn(L, N, reality, rng, scale=1.0):
    """Wigner coefficients of an arbitrary function on SO(3), band-limits L and N."""
    f = rand_c(rng, (2 * N - 1, L, 2 * L - 1)) * scale
    ell = np.arange(L)[None, :, None]
    m = np.abs(np.arange(-L + 1, L))[None, None]
    n = np.abs(np.arange(-N + 1, N))[:, None, None]
    f = np.where((m <= ell) & (n <= ell), f, 0)
    if reality:
        sgn = (-1.0) ** (np.arange(-N + 1, N)[:, None, None] + np.arange(-L + 1, L)[None, None])
        f = (f + sgn * np.conj(f[::-1, :, ::-1])) / 2
    return f


def close(got, want, tol, what, floor=0.0):
    """Same shape and max deviation <= tol * max(max|want|, floor)."""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation(f"{what}: shape {got.shape}, expected {want.shape}")
    if got.size == 0:
        return 0.0
    if not np.all(np.isfinite(got)):
        raise Violation(f"{what}: not finite")
    ref = max(float(np.max(np.abs(want))), floor)
    err = float(np.max(np.abs(got - want)))
    if not err <= tol * ref + 1e-300:
        raise Violation(f"{what}: off by {err:.3g} at magnitude {ref:.3g} (tolerance {tol:g} relative)")
    return err / ref if ref else 0.0


def close_list(got, want, tol, what, floor=None):
    """Compare lists of coefficient arrays against a common magnitude."""
    if len(got) != len(want):
        raise Violation(f"{what}: {len(got)} scales, expected {len(want)}")
    if floor is None:
        floor = max([float(np.max(np.abs(w))) for w in want if w.size] + [0.0])
    for i, (g, w) in enumerate(zip(got, want)):
        close(g, w, tol, f"{what}, scale {i}", floor)
