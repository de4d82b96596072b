"""Field lines of level models and of real models. """
import copy
import math
import numpy as np
from eoxmagmod import (
    trace_field_line, load_model_shc, data, ComposedGeomagneticModel,
)
from eoxmagmod.magnetic_model.model import (
    SphericalHarmomicGeomagneticModel, DipoleSphericalHarmomicGeomagneticModel,
)
from eoxmagmod.magnetic_model.coefficients import (
    SparseSHCoefficientsConstant, SparseSHCoefficientsTimeDependent,
)
from eoxmagmod.magnetic_model.model_mio import DipoleMIOGeomagneticModel
import evals
from frames import position, axes, in_frame, limited, SPHERICAL, CARTESIAN

RADIUS = 6371.2
BASE = 9000.0


class Levels:
    """ radial field with the sign given by the level of the radius """
    def __init__(self, sign, depth):
        self.sign, self.depth = sign, depth

    def _eval(self, x, cin, cout):
        pos = position(x, cin)
        radius = np.linalg.norm(pos)
        level = round(math.log(radius/BASE)/math.log(1.1))
        sign = self.sign[level + self.depth] if abs(level) <= self.depth else 0
        field = sign*(2.5e4 + 1e3*level)*pos/radius
        if cout == CARTESIAN:
            return field
        lat = np.degrees(np.arctan2(pos[2], np.hypot(pos[0], pos[1])))
        return axes(lat if cout == SPHERICAL else in_frame(x, 0)[0],
                    np.degrees(np.arctan2(pos[1], pos[0]))) @ field

    def eval(self, time, location, input_coordinate_system=SPHERICAL,
             output_coordinate_system=SPHERICAL, **options):
        x = np.asarray(location, dtype="float64")
        rows = [self._eval(row, input_coordinate_system, output_coordinate_system)
                for row in x.reshape(-1, 3)]
        return np.array(rows).reshape(x.shape)


def levels(item):
    model = Levels(item["sign"], item["depth"])
    start = np.array(item["dir"])/np.linalg.norm(item["dir"])*BASE
    options = {"step": 0.1*RADIUS, "max_steps": item["steps"],
               "min_radius": BASE*1.1**item["low"]*1.03, "max_radius": BASE*1.1**item["high"]*0.97}
    if item["exact"]:
        # limits equal to the radii of points at the axis
        start = np.array([0.0, 0.0, 0.0])
        start[item["exact"] % 3] = BASE if item["exact"] % 2 else -BASE
        options.update(min_radius=0.5, max_radius=1e9)
        probe = trace_field_line(model, item["time"], start, CARTESIAN, CARTESIAN, options)[0]
        reached = sorted(float(np.abs(p).max()) for p in probe)
        # or next to them
        options.update(min_radius=max([r for r in reached if r <= BASE*1.05**item["low"]] or [0.5])*(1 + item["nudge"][0]),
                       max_radius=min([r for r in reached if r >= BASE*1.05**item["high"]] or [1e9])*(1 + item["nudge"][1]))
    coords, fields = trace_field_line(model, item["time"], start, CARTESIAN, CARTESIAN, options)
    result, signs = [], []
    for pos, field in zip(coords, fields):
        radius = np.linalg.norm(pos)
        level = round(math.log(radius/BASE)/math.log(1.1))
        radial = (field @ pos)/radius/(2.5e4 + 1e3*level)
        near = np.linalg.norm(pos/radius - start/BASE) < 1e-9
        result.append(level if near else 99)
        signs.append(round(radial) if abs(radial - round(radial)) < 1e-6 else 99)
    radii = [float(np.abs(p).max()) for p in coords]
    return {"levels": result, "fields": signs if len(fields) == len(coords) else [],
            "limit": [int(r <= options["min_radius"] or r >= options["max_radius"]) for r in radii]}


def dipolar(degree, seed, shape=(), other=0.03):
    terms, values = evals.coeff_values(degree, shape, seed)
    values = values*other*10
    values[0] += 1000.0
    values[1] += -29000.0
    values[2] += -2000.0
    return terms, values


_MODELS = {}


def make(what):
    if what not in _MODELS:
        _MODELS[what] = build(what)
    return _MODELS[what]


def build(what):
    name, degree = what[:-1], int(what[-1])
    if name == "static":
        return SphericalHarmomicGeomagneticModel(SparseSHCoefficientsConstant(*dipolar(degree, 1)))
    if name == "time":
        terms, values = dipolar(degree, 2, (5,))
        return SphericalHarmomicGeomagneticModel(
            SparseSHCoefficientsTimeDependent(terms, values, evals.NODES))
    if name == "dipole":
        return DipoleSphericalHarmomicGeomagneticModel(
            SparseSHCoefficientsConstant(*dipolar(degree, 3)), evals.POLE)
    if name == "composed":
        model = ComposedGeomagneticModel()
        model.push(make("static%d" % degree))
        model.push(make("time2"), scale=-0.25)
        model.push(DipoleMIOGeomagneticModel(evals.mio_coeff(2, True), evals.POLE), scale=10.0)
        return model
    if name == "mio":
        return DipoleMIOGeomagneticModel(evals.mio_coeff(degree, True), evals.POLE)
    if name == "external":
        return SphericalHarmomicGeomagneticModel(
            SparseSHCoefficientsConstant(*evals.coeff_values(degree, (), 4), is_internal=False))
    if name == "igrf":
        return load_model_shc(data.IGRF13)
    raise KeyError(what)


def field_at(model, time, pos, options):
    return np.asarray(model.eval(time, pos, CARTESIAN, CARTESIAN, **options))


def line(item):
    model = make(item["what"])
    fin, fout = item["cin"], item["cout"]
    start = in_frame(item["x"], fin)
    pos0 = position(start, fin)
    if item["form"] == "list":
        start = list(start)
    elif item["form"] == "tuple":
        start = tuple(start)
    elif item["form"] == "int":     # Cartesian
        start = np.round(start).astype("int64")
        pos0 = start.astype("float64")
    elif item["form"] == "float32":
        start = start.astype("float32")
        pos0 = position(start.astype("float64"), fin)
    options = dict(item["options"])
    model_options = dict(item["model_options"])
    call = {"trace_options": options, "model_options": model_options}
    if not options and item["none"]:
        call["trace_options"] = None
    if not model_options and item["none"]:
        call.pop("model_options")
    if item["frames"] == 0:
        coords, fields = trace_field_line(model, item["time"], start, fin, fout, **call)
    else:
        coords, fields = trace_field_line(
            model, item["time"], start, input_coordinate_system=fin,
            output_coordinate_system=fout, **call)
    full = {"step": 100.0, "max_steps": 500, "min_radius": 0.9977*RADIUS, "max_radius": 1e6*RADIUS,
            **(call["trace_options"] or {})}
    same = options == item["options"] and model_options == item["model_options"]
    coords, fields = np.asarray(coords), np.asarray(fields)
    pos = np.array([position(p, fout) for p in coords])
    norm = np.linalg.norm(pos, axis=1)
    model_field = np.array([field_at(model, item["time"], p, item["model_options"]) for p in pos])
    direction = model_field/np.linalg.norm(model_field, axis=1)[:, None]
    if fout == CARTESIAN:
        cart = fields
    else:
        cart = np.array([f @ axes(p[0], p[1]) for f, p in zip(fields, coords)])
    size = np.abs(model_field).max(axis=1)[:, None]
    moves = pos[1:] - pos[:-1]
    unit = full["step"]/RADIUS
    limit = [int(r <= full["min_radius"] or r >= full["max_radius"]) for r in norm]
    return {
        "start": [i + 1 for i, p in enumerate(pos) if np.linalg.norm(p - pos0) <= 1e-6*unit*norm[i] + 2e-9*norm[i]],
        "limit": limit,
        "fore": [limited(m/unit/r*1e6) for m, r in zip(moves, norm[:-1])],
        "back": [limited(m/unit/r*1e6) for m, r in zip(moves, norm[1:])],
        "dir": [limited(d*1e6) for d in direction],
        "field": [limited(f/s*1e5) for f, s in zip(cart, size)],
        "model": [limited(f/s*1e5) for f, s in zip(model_field, size)],
        "options": int(same and coords.shape == fields.shape),
    }


def execute(item):
    return levels(copy.deepcopy(item)) if item["ev"] == "levels" else line(item)
