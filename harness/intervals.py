"""Executes aggregations of validity intervals in the real code. """
import numpy as np
from eoxmagmod import ComposedGeomagneticModel
from eoxmagmod.magnetic_model.coefficients import (
    ComposedSHCoefficients, CombinedSHCoefficients, SparseSHCoefficientsConstant,
)
from eoxmagmod.magnetic_model.model import SphericalHarmomicGeomagneticModel
from eoxmagmod.magnetic_model.model_mio import MIOPrimaryGeomagneticModel
import eoxmagmod.magnetic_model.util as util
from coeffs import mjd, grid, guarded, NINF, PINF, OFF, ERR


def leaf(iv):
    opts = {}
    if iv[0] > NINF:
        opts["validity_start"] = mjd(iv[0])
    if iv[1] < PINF:
        opts["validity_end"] = mjd(iv[1])
    return SparseSHCoefficientsConstant(
        np.array([(1, 0)]), np.array([1.0]), **opts)


def interval(get):
    return guarded(lambda: [grid(x) for x in get()], [OFF, ERR])


def tagged(ivs):
    return [((mjd(lo), mjd(hi)), k) for k, (lo, hi) in enumerate(ivs, 1)]


def merged(first, second):
    """ intersections of two ascending lists """
    pieces = util.aggregate_intersected_intervals(tagged(first))
    pieces = util.aggregate_intersected_intervals(tagged(second), pieces)
    return [[grid(start), grid(end), list(ids)] for (start, end), ids in pieces]


def execute(item):
    """ item: {"ev": ..., "ivs": [...], "times": [...]}; yields sub-events """
    ivs, times = item["ivs"], item["times"]
    mjds = np.array([mjd(k) for k in times])
    if item["ev"] == "history":
        model = ComposedGeomagneticModel()
        out = [{"ev": "reset", "validity": interval(lambda: model.validity)}]
        for iv in ivs:
            model.push(SphericalHarmomicGeomagneticModel(leaf(iv)), scale=0.5)

            def values():
                loc = np.full((len(times), 3), 30.0)
                loc[:, 2] = 7000
                res = model.eval(mjds, loc)
                return [2 if np.isnan(r).any() != np.isnan(r).all()
                        else int(not np.isnan(r).any()) for r in res]
            out.append({
                "ev": "push", "iv": iv, "times": times,
                "validity": interval(lambda: model.validity),
                "inside": guarded(values, [ERR]*len(times)),
            })
        return {"events": out}
    obs = {"ev": item["ev"], "ivs": ivs, "times": times}
    if item["ev"] == "resolve":
        if not hasattr(util, "get_nonoverlapping_intervals"):
            return {"events": []}
        obs["pieces"] = guarded(lambda: [
            [grid(start), grid(end), idx] for (start, end), idx in
            util.get_nonoverlapping_intervals(tagged(ivs))], [[OFF, ERR, 1]])
        return {"events": [obs]}
    if item["ev"] == "merge":
        if not hasattr(util, "aggregate_intersected_intervals"):
            return {"events": []}
        obs["pieces"] = guarded(lambda: merged(*ivs), [[OFF, ERR, [1, 1]]])
        return {"events": [obs]}
    parts = [leaf(iv) for iv in ivs]
    if item["ev"] == "primary":
        model = MIOPrimaryGeomagneticModel(
            *(SphericalHarmomicGeomagneticModel(x) for x in parts))
        obs["validity"] = interval(lambda: model.validity)
        return {"events": [obs]}
    cls = ComposedSHCoefficients if item["ev"] == "compose" else CombinedSHCoefficients
    coeff = guarded(lambda: cls(*parts), None)
    obs["built"] = int(coeff is not None)
    obs["validity"] = interval(lambda: coeff.validity)
    obs["inside"] = guarded(lambda: [int(x) for x in coeff.is_valid(mjds)],
                            [ERR]*len(times))
    return {"events": [obs]}
