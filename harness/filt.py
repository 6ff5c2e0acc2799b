"""Shared generation / access for the filter checks."""
import math

import ref

ROUND = (2, 2.0, 3, 3.0, 1.5, 2.5, 4.0, 5.0, 1.3, 1.1, 6, 7.0, 10.0)
ROOTS = (2**0.5, 2 ** (1 / 3), 3**0.5, 10**0.5)
NUMPY = ["directional", "directional_vectorised"]


def random_case(rng, Lmax=40, big=False, Lmin=2):
    while True:
        r = rng.random()
        if r < 0.5:
            lam = rng.choice(ROUND)
        elif r < 0.6:
            lam = rng.choice(ROOTS)
        elif r < 0.65:
            lam = float(rng.choice([20, 50, 100]))
        else:
            lam = round(1.05 + rng.random() ** 2 * 7, rng.choice([1, 2, 4, 12]))
        if lam <= 1.04:
            continue
        r = rng.random()
        if r < 0.25 and float(lam).is_integer():
            L = int(lam) ** rng.randint(1, 6)          # exact powers
            L += rng.choice([-1, 0, 0, 1])
        elif r < 0.5:
            L = rng.randint(2, 8)
        else:
            L = rng.randint(2, Lmax)
        if not Lmin <= L <= (128 if big and Lmin == 2 else Lmax):
            continue
        J = ref.j_max(L, lam)
        if J < 1 or (abs(lam ** round(math.log(L) / math.log(lam)) - L) < 1e-9 * L and not float(lam).is_integer()
                     and lam not in (1.5, 2.5)):
            # L is a power of lam only up to rounding: the number of scales is decided by C03
            if J < 1:
                continue
            J -= 1
            if J < 1:
                continue
        J_min = rng.choice([0, 0, 1, J - 1, rng.randrange(J)])
        J_min = max(0, min(J_min, J - 1))
        N = rng.choice([1, 2, 3, 4, 5, L, rng.randint(1, L)])
        N = min(N, L)
        spin = rng.choice([0, 0, 0, 0, 1, -1, 2, -2, 3, -5, rng.randint(-8, 8)])
        spin0 = rng.choice([0, 0, 0, 0, 0, 1, -1, 2, -2, 3, -3, rng.randint(-6, 6)])
        if abs(spin) >= L or abs(spin0) >= L:
            continue
        return dict(L=L, N=N, J_min=J_min, lam=lam, spin=spin, spin0=spin0)


def cases(rng, n, ntorch, njax, big):
    out = [dict(cfg=random_case(rng, 48, True, 11), impls=["directional_jax"]) for _ in range(njax // 4)]
    out += [dict(cfg=random_case(rng, 10, False), impls=["directional_jax"]) for _ in range(njax)]
    out += [dict(cfg=random_case(rng, 48, True), impls=list(NUMPY)) for _ in range(big)]
    out += [dict(cfg=random_case(rng), impls=["directional:torch", "directional_vectorised:torch"])
            for _ in range(ntorch)]
    out += [dict(cfg=random_case(rng), impls=list(NUMPY)) for _ in range(n)]
    return out


def get(impl, c):
    """(psi, phi) of one implementation as numpy arrays."""
    import backends as B
    from s2wav import filters

    name, _, torch = impl.partition(":")
    args = [c["L"], c["N"], c["J_min"], c["lam"], c["spin"], c["spin0"]]
    if torch:
        args.append(True)
    p, q = getattr(filters, "filters_" + name)(*args)
    return B.to_np(p), B.to_np(q)


def get_axisym(impl, c):
    import backends as B
    from s2wav import filters

    name = impl.partition(":")[0].replace("directional", "axisym")
    p, q = getattr(filters, "filters_" + name)(c["L"], c["J_min"], c["lam"])
    return B.to_np(p), B.to_np(q)


def describe(c):
    return "L={L} N={N} J_min={J_min} lam={lam!r} spin={spin} spin0={spin0}".format(**c)


def tags(case):
    c = case["cfg"]
    return ["impl:" + i for i in case["impls"]] + [
        "lam:" + ("int" if float(c["lam"]).is_integer() else "frac"),
        "spin" if c["spin"] else "scalar", "spin0" if c["spin0"] else "no spin0",
        f"J_min:{min(c['J_min'], 3)}", "N:" + (str(c["N"]) if c["N"] < 4 else "4+"),
        "L:" + ("<8" if c["L"] < 8 else "8-31" if c["L"] < 32 else "32+")]


def shrink(case):
    c = case["cfg"]
    if len(case["impls"]) > 1:
        for i in case["impls"]:
            yield dict(case, impls=[i])

    def ok(d):
        J = ref.j_max(d["L"], d["lam"])
        return d["L"] >= 2 and 0 <= d["J_min"] < J and 1 <= d["N"] <= d["L"] and \
            max(abs(d["spin"]), abs(d["spin0"])) < d["L"]

    cand = [dict(c, L=L, N=min(c["N"], L)) for L in (2, 3, 4, c["L"] // 2, c["L"] - 1) if L < c["L"]]
    cand += [dict(c, N=N) for N in (1, 2, c["N"] - 1) if N < c["N"]]
    cand += [dict(c, spin=0)] * (c["spin"] != 0) + [dict(c, spin0=0)] * (c["spin0"] != 0)
    cand += [dict(c, J_min=j) for j in (0, c["J_min"] - 1) if 0 <= j < c["J_min"]]
    cand += [dict(c, lam=x) for x in (2.0, 3.0, round(c["lam"], 1)) if x != c["lam"] and x > 1.04 and c["lam"] != 2.0]
    for d in cand:
        if ok(d):
            yield dict(case, cfg=d)
