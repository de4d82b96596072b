"""Sessions of calls of living objects with varying options and frames. """
import numpy as np
from buffers import Buffers
from eoxmagmod import sheval, sheval_dipole, ComposedGeomagneticModel
from eoxmagmod._pymm import sheval2dfs, shevaltemp
from eoxmagmod.magnetic_model.model import (
    SphericalHarmomicGeomagneticModel, DipoleSphericalHarmomicGeomagneticModel,
)
from eoxmagmod.magnetic_model.model_mio import (
    MIOPrimaryGeomagneticModel, DipoleMIOGeomagneticModel,
)
import evals

TIMES = [4000.25, 4700.5]
SEASON, HOUR = [0.13, 0.71], [5.5, 17.25]
PLACES = [np.array([[x[i] for x in evals.COORDS[frame]] for i in (0, 1, 3)]) for frame in range(3)]
DEGREE = 3
POLES = [evals.POLE, (79.0, 140.0)]


def geomagnetic(kind, number):
    """ new geomagnetic model """
    pole = POLES[number]
    if kind.startswith("model"):
        return SphericalHarmomicGeomagneticModel(evals.sh_coeff(kind[6:], DEGREE, number))
    if kind.startswith("dipole"):
        return DipoleSphericalHarmomicGeomagneticModel(evals.sh_coeff(kind[7:], DEGREE, number), pole)
    if kind == "mio":
        return DipoleMIOGeomagneticModel(evals.mio_coeff(DEGREE, True, seed=number), pole)
    if kind == "primary":
        return MIOPrimaryGeomagneticModel(
            DipoleMIOGeomagneticModel(evals.mio_coeff(DEGREE, False, seed=number), pole),
            DipoleMIOGeomagneticModel(evals.mio_coeff(DEGREE, True, seed=number), pole))
    out = ComposedGeomagneticModel()
    out.push(geomagnetic("model_mixed", number), scale=2.0)
    out.push(geomagnetic("mio", number), max_degree=2)
    out.push(geomagnetic("dipole_linear", 1 - number))
    return out


def maker(kind):
    """ function creating the object: f(number)(options, frames, time index, places) """
    def kernel(number):
        if kind == "sheval":
            coef = evals.dense(DEGREE, number)
            return lambda o, i, j, t, x: sheval(x, coef, i, j, **o)
        if kind == "sheval_dipole":
            coef = evals.dense(DEGREE, number)
            return lambda o, i, j, t, x: sheval_dipole(x, coef, *POLES[number], i, j, **o)
        if kind == "shevaltemp":
            (nodes, values, terms, order), = evals.time_sets("linear", DEGREE)
            sets = [(nodes, values*(1 + number), terms, order)]
            return lambda o, i, j, t, x: shevaltemp(TIMES[t], x, sets, i, j, **o)
        coeff = evals.mio_coeff(DEGREE, True, seed=number).get_f2fs_coeff_set()
        return lambda o, i, j, t, x: sheval2dfs(SEASON[t], HOUR[t], x, coeff, i, j, **o)

    def model(number):
        obj = geomagnetic(kind, number)
        return lambda o, i, j, t, x: obj.eval(TIMES[t], x, i, j, **o)

    def query(number):
        if kind == "query_mio":
            obj = evals.mio_coeff(DEGREE, True, seed=number)
            return lambda o, i, j, t, x: np.stack([obj(TIMES[t], HOUR[t], **o)[0].sum(0)[[0, 1, 1]]]*(len(x) if x.ndim > 1 else 1))
        obj = evals.sh_coeff(kind[6:], DEGREE, number)

        def call(o, i, j, t, x):
            coeff, _ = obj(TIMES[t] if x.ndim == 1 else np.full(len(x), TIMES[t]), **o)
            full = np.zeros((*coeff.shape[:-2], 10, 2))
            full[..., :coeff.shape[-2], :] = coeff
            mix = np.stack([full[..., 0].sum(-1), full[..., 1].sum(-1), full[..., 1:5, :].sum((-1, -2))], -1)
            return mix
        return call
    if kind.startswith("query"):
        return query
    return model if kind.split("_")[0] in ("model", "dipole", "mio", "primary", "cgm") else kernel


def rows_of(result, many):
    if isinstance(result, tuple):
        parts = [rows_of(r, many) for r in result]
        return [sum((p[k] for p in parts), []) for k in range(len(parts[0]))]
    arr = np.asarray(result, dtype="float64")
    arr = arr.reshape(3 if many else 1, -1)
    return arr.tolist()


def execute(item):
    make = maker(item["kind"])
    options, frames = item["options"], item["frames"]
    records = []
    buffers = Buffers()
    for session in item["sessions"]:
        objects = [make(k) for k in range(2)]
        for obj, opt, frame, time, place, form in session:
            i, j = frames[frame]
            many = form == "many"
            idx = [place, 2, 1 - place] if many else [place]
            x = PLACES[i][idx] if many else PLACES[i][place]
            if len(records) % 3:
                x = buffers.put("x", x)
            try:
                rows = rows_of(objects[obj](options[opt], i, j, time, x), many)
            except Exception:  # pylint: disable=broad-except
                rows = [None]*len(idx)
            records.append({
                "form": form, "shape": int(rows[0] is None or len(rows) == len(idx)),
                "keys": [[obj, opt, frame, time, k] for k in idx], "values": rows, "nans": [0]*len(idx)})
        del objects
    return {"records": records}
