"""Evaluates models of all classes at and around their validity ends. """
import numpy as np
from eoxmagmod import ComposedGeomagneticModel
from eoxmagmod.magnetic_model.model import (
    SphericalHarmomicGeomagneticModel, DipoleSphericalHarmomicGeomagneticModel,
)
from eoxmagmod.magnetic_model.coefficients_mio import SparseSHCoefficientsMIO
from eoxmagmod.magnetic_model.model_mio import (
    MIOPrimaryGeomagneticModel, DipoleMIOGeomagneticModel,
)
from coeffs import build, mjd, grid, guarded, NINF, PINF, OFF, ERR

LOC = np.array([40.0, 30.0, 6700.0])


def mio_coeff(tree, internal):
    opts = {"is_internal": internal}
    if tree["lo"] > NINF:
        opts["validity_start"] = mjd(tree["lo"])
    if tree["hi"] < PINF:
        opts["validity_end"] = mjd(tree["hi"])
    nm_ = np.array([(1, 0), (1, 1), (1, -1), (2, 0)])
    coeff = np.arange(1.0, 1 + 4*3*5*2).reshape(4, 3, 5, 2)
    return SparseSHCoefficientsMIO(nm_, coeff, ps_extent=(-2, 2, -1, 1), **opts)


def make(model):
    cls, trees = model["cls"], model["trees"]
    if cls == "sh":
        return SphericalHarmomicGeomagneticModel(build(trees[0]))
    if cls == "dipole":
        return DipoleSphericalHarmomicGeomagneticModel(build(trees[0]), (80.0, -72.0))
    if cls == "cgm":
        result = ComposedGeomagneticModel()
        for tree in trees:
            result.push(SphericalHarmomicGeomagneticModel(build(tree)))
        return result
    pole = (80.0, -72.0)
    if cls == "mio":
        return DipoleMIOGeomagneticModel(mio_coeff(trees[0], True), pole)
    return MIOPrimaryGeomagneticModel(
        DipoleMIOGeomagneticModel(mio_coeff(trees[0], False), pole),
        DipoleMIOGeomagneticModel(mio_coeff(trees[1], True), pole))


def state(vec):
    vec = np.asarray(vec)
    nans = np.isnan(vec)
    if nans.all():
        return 1
    return 0 if np.isfinite(vec).all() else 2


def states(res):
    return [state(v) for v in res]


def execute(item):
    model = make(item["model"])
    opts = item["opts"]
    times = np.array([
        np.nan if e == 9 else
        mjd(k) if e == 0 else np.nextafter(mjd(k), np.inf*e)
        for k, e in item["times"]])
    nt = len(times)
    loc = LOC.copy()
    loc[2] = item["radius"]
    locs = np.tile(loc, (nt, 1))
    locs[:, 0] += np.arange(nt)
    arr = []

    def add(name, function):
        arr.append({"name": name, "got": guarded(function, [3]*nt)})

    ev = lambda t, x: model.eval(t, x, **opts)
    add("scalar", lambda: [state(ev(float(t), loc)) for t in times])
    add("scalar_loc1", lambda: [
        state(ev(t, locs[:3])) for t in times])
    add("array", lambda: states(ev(times, locs)))
    add("array_loc0", lambda: states(ev(times, loc)))

    def matrix():
        res = ev(times, np.repeat(locs[:, None, :], 3, axis=1))
        return [state(res[i]) for i in range(nt)]
    add("matrix", matrix)
    add("reversed", lambda: states(ev(times[::-1], locs[::-1]))[::-1])

    def repeated():
        res = ev(np.repeat(times, 2), np.repeat(locs, 2, axis=0))
        return [state(res[2*i:2*i + 2]) for i in range(nt)]
    add("repeated", repeated)

    def ends():
        out = []
        for end in model.validity:
            out.append([
                state(ev(t, loc)) for t in
                (np.nextafter(end, -np.inf), end, np.nextafter(end, np.inf))])
        return out
    return {
        "validity": guarded(lambda: [grid(x) for x in model.validity], [OFF, ERR]),
        "arr": arr, "ends": guarded(ends, [[3, 3, 3], [3, 3, 3]]),
    }
