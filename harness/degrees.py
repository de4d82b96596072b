"""Selections of spherical harmonic terms in all kinds of models. """
from math import sqrt

import numpy as np
from eoxmagmod import ComposedGeomagneticModel, sheval
from eoxmagmod import GEOCENTRIC_SPHERICAL, GRADIENT
from eoxmagmod.magnetic_model.coefficients import (
    ComposedSHCoefficients, CombinedSHCoefficients,
    SparseSHCoefficientsConstant, SparseSHCoefficientsTimeDependent,
    SparseSHCoefficientsTimeDependentDecimalYear,
)
from eoxmagmod.magnetic_model.model import (
    SphericalHarmomicGeomagneticModel, DipoleSphericalHarmomicGeomagneticModel,
)
from eoxmagmod.magnetic_model.coefficients_mio import SparseSHCoefficientsMIO
from eoxmagmod.magnetic_model.model_mio import (
    MIOPrimaryGeomagneticModel, DipoleMIOGeomagneticModel,
)
from coeffs import code, codes, guarded, ERR, T0, STEP, Y0, YSTEP

A = 6371.2
POLE = (80.0, -72.0)
TIME = T0 + 2*STEP
DIPOLES = ("dipole", "mio_int", "mio_ext", "primary_below", "primary_above")


def unit(n, m):
    """ coefficient giving integer fields in the probes """
    return 1.0/sqrt(n*(n + 1)/2) if abs(m) == 1 else 1.0


def scaled(item, cls=None):
    values = [v*unit(n, m) for (n, m), v in zip(item["terms"], item["vals"])]
    if (cls or item["cls"]) == "primary_above":   # evaluated in 2*A
        values = [v * 2.0**(n + 2) for (n, _), v in zip(item["terms"], values)]
    return np.array(values)


def sparse(kind, terms, values, lo=None, hi=None):
    opts = {} if lo is None else {"validity_start": lo, "validity_end": hi}
    if kind == "const":
        return SparseSHCoefficientsConstant(terms, values, **opts)
    nodes = np.arange(5.0)
    # exactly the given values in the middle node (time TIME)
    series = values[:, None] + np.array([-64.0, 32.0, 0.0, 128.0, 8.0])[None, :]
    if kind == "c1":
        return SparseSHCoefficientsTimeDependent(terms, series, T0 + nodes*STEP, **opts)
    return SparseSHCoefficientsTimeDependentDecimalYear(
        terms, series, Y0 + nodes*YSTEP)


def mio_coeff(terms, values, internal, extent):
    pmin, pmax, smin, smax = extent
    coeff = np.zeros((len(terms), smax - smin + 1, pmax - pmin + 1, 2))
    coeff[:, -smin, -pmin, 0] = values
    return SparseSHCoefficientsMIO(
        terms, coeff, ps_extent=extent, is_internal=internal)


def make(item):
    cls = item["cls"]
    terms = np.array(item["terms"])
    values = scaled(item)
    if cls in ("const", "c1", "dy1"):
        return sparse(cls, terms, values)
    if cls == "ext":
        return SparseSHCoefficientsConstant(terms, values, is_internal=False)
    if cls == "composed":
        other = sparse("const", np.array(item["other"]),
                       999.0 + np.arange(len(item["other"])), 0.0, T0)
        return ComposedSHCoefficients(
            other, sparse("const", terms, values, T0, T0 + 400),
            sparse("c1", terms, 5 + values, T0 + 400, T0 + 800))
    if cls == "combined":
        groups = np.array(item["groups"])
        parts = []
        for k in sorted(set(item["groups"])):
            kind = ("const", "c1", "const")[k % 3]
            parts.append(sparse(kind, terms[groups == k], values[groups == k]))
        return CombinedSHCoefficients(*parts)
    raise KeyError(cls)


def mio_model(item):
    cls = item["cls"]
    terms, values = np.array(item["terms"]), scaled(item)
    extent = tuple(item["extent"])
    other = np.array(item["other"])
    filler = 7.0 + np.arange(len(other))
    internal = cls in ("mio_int", "primary_above")
    this = DipoleMIOGeomagneticModel(
        mio_coeff(terms, values, internal, extent), POLE)
    if cls.startswith("mio"):
        return this
    that = DipoleMIOGeomagneticModel(
        mio_coeff(other, filler, not internal, extent), POLE)
    return (MIOPrimaryGeomagneticModel(that, this) if internal
            else MIOPrimaryGeomagneticModel(this, that))


def options(lim):
    opts = {}
    if lim[0] != -1:
        opts["min_degree"] = lim[0]
    if lim[1] != -1:
        opts["max_degree"] = lim[1]
    return opts


def dense_items(item, coeff, lim):
    args = (TIME, 5.0) if isinstance(coeff, SparseSHCoefficientsMIO) else (TIME,)
    values, degree = coeff(*args, **options(lim))
    rows = []
    for i, j in zip(*np.nonzero(values)):
        n = 0
        while (n + 1)*(n + 2)//2 <= i:
            n += 1
        m = i - n*(n + 1)//2
        value = values[i, j] / unit(n, m)
        if item["cls"] == "primary_above":
            value /= 2.0**(n + 2)
        rows.append([int(i), int(j), code(value)])
    return {"rows": int(values.shape[0]), "degree": int(degree), "items": rows}


def dense_full(item):
    """ dense coefficient array from the definition of sheval """
    nmax = max(n for n, _ in item["terms"])
    out = np.zeros(((nmax + 1)*(nmax + 2)//2, 2))
    for (n, m), v in zip(item["terms"], scaled(item)):
        out[n*(n + 1)//2 + abs(m), int(m < 0)] = v
    return out


def evaluator(item):
    cls = item["cls"]
    if cls in ("sheval", "sheval_rep"):
        full = dense_full(item)

        def evaluate(loc, lim):
            coeff = full
            if cls == "sheval_rep":       # coefficients for each location
                coeff = np.broadcast_to(full, (*np.shape(loc)[:-1], *full.shape))
            return -sheval(
                loc, coeff, mode=GRADIENT, degree=lim[1],
                coord_type_in=GEOCENTRIC_SPHERICAL,
                coord_type_out=GEOCENTRIC_SPHERICAL)
        return None, evaluate
    if cls in DIPOLES and cls != "dipole":
        model = mio_model(item)
        coeff = getattr(model, "coefficients", None)
    else:
        if cls == "dipole":
            coeff = sparse(item["inner"], np.array(item["terms"]), scaled(item))
            model = DipoleSphericalHarmomicGeomagneticModel(coeff, POLE)
        elif cls == "cgm":
            coeff = make({**item, "cls": item["inner"]})
            model = ComposedGeomagneticModel()
            model.push(SphericalHarmomicGeomagneticModel(coeff))
        else:
            coeff = make(item)
            model = SphericalHarmomicGeomagneticModel(coeff)
    array = item["array"]

    def evaluate(loc, lim):
        loc = np.asarray(loc)
        time = TIME
        if array:
            time = np.full(loc.shape[:-1], TIME)
        return model.eval(time, loc, **options(lim))
    return coeff, evaluate


def execute(item):
    cls = item["cls"]
    coeff, evaluate = evaluator(item)
    dense, field, parts = [], [], []
    radius = 2*A if cls == "primary_above" else A
    if cls in DIPOLES:
        probes = np.array([(*POLE, radius)])
    else:
        probes = np.array([(90.0, 0.0, radius), (90.0, 90.0, radius)])
    for lim in item["lims"]:
        if coeff is not None:
            dense.append(guarded(lambda lim=lim: dense_items(item, coeff, lim),
                                 {"rows": -1, "degree": -1, "items": []}))

        def probe(lim=lim):
            res = evaluate(probes, lim)
            if cls in DIPOLES:
                return [code(res[0, 2]), code(res[0, 0]**2 + res[0, 1]**2)]
            ok = abs(res[0, 2] - res[1, 2]) < 1e-6
            return codes([res[0, 2] if ok else np.nan, res[0, 0], res[1, 0]])
        field.append(guarded(probe, [ERR]*3))
    rng = np.random.RandomState(item["seed"])
    loc = np.stack([
        rng.uniform(-89, 89, 3), rng.uniform(-180, 180, 3),
        rng.uniform(6200, 6480, 3) if cls != "primary_above"
        else rng.uniform(6482, 8000, 3)], -1)
    for (lo, hi), cuts in item["partitions"]:
        def residual(lo=lo, hi=hi, cuts=cuts):
            whole = evaluate(loc, (lo, hi))
            total = np.zeros_like(whole)
            size = np.abs(whole).max()
            start = lo
            for cut in [*cuts, hi]:
                part = evaluate(loc, (start, cut))
                size += np.abs(part).max()
                total += part
                start = cut + 1
            dev = np.abs(total - whole).max() / (1e-9*size + 1e-9)
            return int(round(min(dev, 1e6))) if dev == dev else ERR
        if not cls.startswith("sheval"):
            parts.append(guarded(residual, ERR))
    return {"dense": dense, "field": field, "parts": parts}
