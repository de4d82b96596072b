"""Node lookups and interpolations in the real code. """
import numpy as np
from eoxmagmod._pymm import (
    bisect, BISECT_SIDE_LEFT, BISECT_SIDE_RIGHT,
    interp, INTERP_C0, INTERP_C1, INTERP_C1D1, shevaltemp,
)
from coeffs import (
    build, guarded, code, codes, pick, mjd, PROBES, PINF, NINF, ERR,
)

KIND = {"C0": INTERP_C0, "C1": INTERP_C1, "C1D1": INTERP_C1D1}


def real(t, base=float):
    k, e = t
    if e == 9:
        return np.nan
    x = np.inf if k >= PINF else -np.inf if k <= NINF else base(k)
    return x if e == 0 else float(np.nextafter(x, np.inf*e))


def execute(item):
    obs = dict(item)
    nt = len(item["times"])
    order = obs.pop("order", list(range(nt)))
    ev = item["ev"]
    base = mjd if ev == "leaf" else float
    if item.get("fine"):        # exact grid of short steps
        origin, step = item["fine"][0], 2.0**item["fine"][1]

        def base(k):
            return (np.inf if k >= PINF else -np.inf if k <= NINF
                    else origin + k*step)
    times = np.array([real(t, base) for t in item["times"]])

    def reorder(values):
        out = [None]*nt
        for i, k in enumerate(order):
            out[k] = values[i]
        return out

    if ev == "bisect":
        nodes = np.array([base(k) for k in item["nodes"]])
        for name, side in (("left", BISECT_SIDE_LEFT), ("right", BISECT_SIDE_RIGHT)):
            obs[name] = [guarded(lambda t=t: int(bisect(nodes, t, side)), ERR) for t in times]
            obs[name + "arr"] = guarded(
                lambda: reorder([int(x) for x in bisect(nodes, times[order], side)]),
                [ERR]*nt)
    elif ev == "interp":
        nodes = np.array([base(k) for k in item["nodes"]])
        vals = np.array(item["vals"], dtype="float64")
        opts = {"kind": KIND[item["kind"]], "extrapolate": item["extrap"]}
        err = [ERR]*len(vals)
        obs["one"] = [guarded(lambda t=t: codes(interp(t, nodes, vals, **opts)), err)
                      for t in times]
        obs["arr"] = guarded(
            lambda: reorder([codes(x) for x in interp(times[order], nodes, vals, **opts)]),
            [err]*nt)
    elif ev == "sheval":
        sets = [(
            np.array([base(k) for k in s["nodes"]]), np.array(s["vals"], dtype="float64"),
            np.array(s["terms"], dtype="int32"), s["order"]
        ) for s in item["sets"]]
        opts = {"coord_type_in": 1, "coord_type_out": 1, "scale_gradient": -1.0}
        obs["one"] = [guarded(
            lambda t=t: codes(shevaltemp(t, PROBES, sets, **opts)[:, 2]), [ERR]*3)
                      for t in times]

        def array():
            tt = times[order]
            if item["layout"] == 0:     # points change faster
                res = shevaltemp(np.repeat(tt, 3), np.tile(PROBES, (nt, 1)), sets, **opts)
                return [codes(x) for x in res.reshape(nt, 3, 3)[..., 2]]
            if item["layout"] == 1:     # times change faster
                res = shevaltemp(np.tile(tt, 3), np.repeat(PROBES, nt, axis=0), sets, **opts)
                return [codes(x) for x in res.reshape(3, nt, 3)[..., 2].T]
            res = shevaltemp(tt, np.tile(PROBES, (nt, 1, 1)), sets, **opts)
            return [codes(x) for x in res[..., 2]]
        obs["arr"] = guarded(lambda: reorder(array()), [[ERR]*3]*nt)
    elif ev == "leaf":
        coeff = build(item["tree"], base)
        obs["one"] = [guarded(lambda t=t: pick(*coeff(t)), [ERR]*4) for t in times]

        def leaf_array():
            values, degree = coeff(times[order])
            return reorder([pick(v, degree) for v in values])
        obs["arr"] = guarded(leaf_array, [[ERR]*4]*nt)
    return obs


_ = code
