"""Helpers shared by the transform checks (worker side)."""
import numpy as np

import backends as B
import gen
import ref
import sig
from core import Violation, repo_call

TOL = 1e-8      # same filters on both sides: rounding only (observed <= 1e-11)
LOOSE = 2e-2    # filters from the exact integral: quadrature error of the package


def signal(c, spec):
    """(flm, samples) of a random signal for the configuration."""
    flm = sig.random_flm(c["L"], c.get("spin", 0), c["reality"], spec)
    f = ref.s2_synth(flm, c["L"], c.get("spin", 0), c["sampling"], c.get("nside"))
    return flm, (f.real.copy() if c["reality"] else f)


def ref_filters(c):
    """Independent filters (documented trapezium quadrature), fresh arrays."""
    p, q = ref.trap_filters(c["L"], c["N"], c["J_min"], c["lam"], c.get("spin", 0), c.get("spin0", 0))
    return p.copy(), q.copy()


def exact_filters(c):
    return ref.directional_filters(c["L"], c["N"], c["J_min"], c["lam"], c.get("spin", 0), c.get("spin0", 0))


def pkg_filters(c):
    with repo_call("filters_directional_vectorised"):
        p, q = B.repo_filters(c)
    p, q = np.array(p), np.array(q)
    J = ref.j_max(c["L"], c["lam"])
    if p.shape != (J + 1, c["L"], 2 * c["L"] - 1) or q.shape != (c["L"],):
        raise Violation(f"filters have shapes {p.shape} and {q.shape} for {J + 1} scales")
    return p, q


def describe(c):
    return "L={L} N={N} J_min={J_min} lam={lam} {sampling}".format(**c) + (
        f" spin={c['spin']}" if c.get("spin") else ""
    ) + (" real" if c["reality"] else "") + ("" if c.get("multires", True) else " full-res") + (
        f" nside={c['nside']}" if c.get("nside") else "")


def tags(c, *more):
    s = c.get("spin", 0)
    ds, Ls = gen.dims(c)
    t = ["sampling:" + c["sampling"], f"J_min:{min(c['J_min'], 3)}",
         "lam:" + ("2" if c["lam"] == 2 else "int" if float(c["lam"]).is_integer() else "frac"),
         "N:" + (str(c["N"]) if c["N"] < 4 else "4+"),
         "spin:" + ("0" if s == 0 else "+" if s > 0 else "-"),
         "real" if c["reality"] else "complex", "L:" + ("<8" if c["L"] < 8 else "8-15" if c["L"] < 16 else "16+")]
    if not c.get("multires", True):
        t.append("full-resolution")
    if any(n > l for l, n in ds):
        t.append("orientations exceed band-limit of a scale")
    if Ls <= abs(s):
        t.append("scaling band-limit <= |spin|")
    return t + list(more)


def nontrivial(flm, psi, c):
    """At least two scales carry energy of the signal."""
    e = [np.max(np.abs(flm[:, :] * np.max(np.abs(psi[j]), axis=1)[:, None]))
         for j in range(c["J_min"], psi.shape[0])]
    return sum(x > 0 for x in e) >= 2 or (len(e) > 0 and max(e) > 0 and c["L"] <= 3)
