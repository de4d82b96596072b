"""Executes coefficient tree scenarios in the real code. """
from math import inf

import numpy as np
from eoxmagmod.magnetic_model.coefficients import (
    ComposedSHCoefficients, CombinedSHCoefficients,
    SparseSHCoefficientsConstant, SparseSHCoefficientsTimeDependent,
    SparseSHCoefficientsTimeDependentDecimalYear,
)
from eoxmagmod.magnetic_model.model import SphericalHarmomicGeomagneticModel

PINF, NINF = 1000000, -1000000
NAN, OFF, ERR = 999999999, 888888888, 777777777
T0, STEP = 366.0 + 4*45.625, 45.625       # 2001-07-02T12:00
Y0, YSTEP = 2001.5, 0.125
TERMS = ((1, 0), (1, 1), (1, -1), (2, 0))
PROBES = np.array([(90.0, 0.0, 6371.2), (0.0, 0.0, 6371.2), (0.0, 90.0, 6371.2)])


def mjd(k):
    return inf if k >= PINF else -inf if k <= NINF else T0 + k*STEP


def year(k):
    return inf if k >= PINF else -inf if k <= NINF else Y0 + k*YSTEP


def grid(t):
    t = float(t)
    if t == inf:
        return PINF
    if t == -inf:
        return NINF
    k = (t - T0) / STEP
    return int(round(k)) if abs(k - round(k)) < 1e-9 else OFF


def code(x):
    x = float(x)
    if x != x:
        return NAN
    if abs(x) > 5e8:
        return OFF
    r = round(x)
    return int(r) if abs(x - r) < 1e-5 else OFF


def codes(a):
    return [code(x) for x in a]


def build(tree, mjd=mjd):
    if tree["op"] == "composed":
        return ComposedSHCoefficients(*[build(x) for x in tree["parts"]])
    if tree["op"] == "combined":
        return CombinedSHCoefficients(*[build(x) for x in tree["parts"]])
    kind = tree["kind"]
    terms = np.array(tree["terms"])
    vals = np.array(tree["vals"], dtype="float64")
    opts = {"is_internal": tree["internal"]}
    if kind == "const":
        if tree["lo"] > NINF:
            opts["validity_start"] = mjd(tree["lo"])
        if tree["hi"] < PINF:
            opts["validity_end"] = mjd(tree["hi"])
        return SparseSHCoefficientsConstant(terms, vals[:, 0], **opts)
    order = 1 if kind.endswith("0") else 2
    perm = tree.get("perm") or list(range(len(tree["nodes"])))
    vals = vals[:, perm]
    nodes = [tree["nodes"][i] for i in perm]
    if kind.startswith("c"):
        return SparseSHCoefficientsTimeDependent(
            terms, vals, np.array([mjd(k) for k in nodes]),
            spline_order=order, validity_start=mjd(tree["lo"]),
            validity_end=mjd(tree["hi"]), **opts)
    return SparseSHCoefficientsTimeDependentDecimalYear(
        terms, vals, np.array([year(k) for k in nodes]),
        spline_order=order, validity_start=year(tree["lo"]),
        validity_end=year(tree["hi"]), **opts)


def pick(coeff, degree):
    """ coefficients of TERMS from the dense array """
    out = []
    for n, m in TERMS:
        idx = abs(m) + n*(n + 1)//2
        out.append(code(coeff[idx, 1 if m < 0 else 0])
                   if idx < coeff.shape[0] else 0)
    return out


def options(lim):
    opts = {}
    if lim[0] != -1:
        opts["min_degree"] = lim[0]
    if lim[1] != -1:
        opts["max_degree"] = lim[1]
    return opts


def guarded(function, fallback):
    try:
        return function()
    except Exception:  # pylint: disable=broad-except
        return fallback


def pieces(parts, times, mjds, opts):
    """ the decomposition: validity and coefficients at the contained times """
    return [[
        grid(start), grid(end),
        [[k, guarded(lambda t=t: pick(*part(t, **opts)), [ERR]*4)]
         for k, t in zip(times, mjds) if start <= t <= end],
    ] for (start, end), part in parts]


def execute(item):
    tree, lim, times = item["tree"], item["lim"], item["times"]
    try:
        coeff = build(tree)
    except Exception:  # pylint: disable=broad-except
        return {"built": 0}
    obs = {"built": 1}
    model = guarded(lambda: SphericalHarmomicGeomagneticModel(coeff), None)
    mjds = np.array([mjd(k) for k in times])
    nt = len(times)
    opts = options(lim)
    obs["validity"] = guarded(lambda: [grid(x) for x in coeff.validity], [OFF, OFF])
    obs["mvalidity"] = guarded(lambda: [grid(x) for x in model.validity], [OFF, OFF])
    obs["degrees"] = guarded(
        lambda: [int(model.min_degree), int(model.degree)]
        if (coeff.min_degree, coeff.degree) == (model.min_degree, model.degree)
        else [OFF, OFF], [ERR, ERR])
    obs["valid"] = [guarded(lambda t=t: int(bool(coeff.is_valid(t))), ERR) for t in mjds]
    obs["validarr"] = guarded(lambda: [int(x) for x in coeff.is_valid(mjds)], [ERR]*nt)
    obs["coef"] = [guarded(lambda t=t: pick(*coeff(t, **opts)), [ERR]*4) for t in mjds]

    def coef_array():
        values, degree = coeff(mjds, **opts)
        return [pick(values[i], degree) for i in range(nt)]
    obs["coefarr"] = guarded(coef_array, [[ERR]*4]*nt)

    def field(t):
        return codes(-1.0 * -model.eval(t, PROBES, **opts)[..., 2])
    obs["field"] = [guarded(lambda t=t: field(t), [ERR]*3) for t in mjds]

    def field_array():
        order = item.get("order") or list(range(nt))
        tt = mjds[order]
        if item.get("layout", 0) == 1:      # times x points
            loc = np.broadcast_to(PROBES, (nt, 3, 3)).copy()
            res = model.eval(tt, loc, **opts)
        elif item.get("layout", 0) == 2:    # points x times
            loc = np.broadcast_to(PROBES[:, None, :], (3, nt, 3)).copy()
            res = model.eval(np.broadcast_to(tt, (3, nt)).copy(), loc, **opts)
            res = res.transpose(1, 0, 2)
        else:                               # flat list of times and points
            loc = np.tile(PROBES, (nt, 1))
            res = model.eval(np.repeat(tt, 3), loc, **opts).reshape(nt, 3, 3)
        out = [None]*nt
        for i, k in enumerate(order):
            out[k] = codes(res[i, :, 2])
        return out
    obs["fieldarr"] = guarded(field_array, [[ERR]*3]*nt)
    obs["pieces"] = guarded(
        lambda: pieces(coeff.decompose(), times, mjds, opts), [[OFF, OFF, []]])
    return obs
