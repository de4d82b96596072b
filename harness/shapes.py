"""Calls functions with arrays of inputs of all shapes. """
import itertools
import os
import numpy as np
import eoxmagmod as em
from eoxmagmod import (
    sheval, sheval_dipole, ComposedGeomagneticModel, convert, vrot_sph2geod,
    vrot_sph2cart, vrot_cart2sph, vrotate, vnorm, vincdecnorm,
    GEODETIC_ABOVE_WGS84, GEOCENTRIC_SPHERICAL, GEOCENTRIC_CARTESIAN,
)
from eoxmagmod._pymm import (
    sheval2dfs, shevaltemp, fourier2d, interp, legendre, loncossin, relradpow,
    spharpot, sphargrd,
)
from eoxmagmod.magnetic_time import mjd2000_to_magnetic_universal_time
from eoxmagmod.dipole_coords import convert_to_dipole, vrot_from_dipole
from eoxmagmod.magnetic_model.model import (
    SphericalHarmomicGeomagneticModel, DipoleSphericalHarmomicGeomagneticModel,
)
from eoxmagmod.magnetic_model.model_mio import (
    MIOPrimaryGeomagneticModel, DipoleMIOGeomagneticModel,
)
import evals
from evals import POLE, NODES, dense, mio_coeff, sh_coeff

GEOD, SPH, CART = GEODETIC_ABOVE_WGS84, GEOCENTRIC_SPHERICAL, GEOCENTRIC_CARTESIAN
FRAMES = (GEOD, SPH, CART)
DEG = 3
APEX = os.path.join(os.path.dirname(em.__file__), "data", "apexsh_1980-2025.txt")

TIMES = [4000.25, 4310.5, 4700.75, 3900.125]
PLACES = {
    SPH: [[12.5, 33.0, 6700.0], [-48.25, -121.5, 6390.0], [71.0, 155.0, 6450.0], [-5.0, 8.0, 7000.0]],
    GEOD: [[12.5, 33.0, 400.0], [-48.25, -121.5, 25.0], [71.0, 155.0, 90.0], [-5.0, 8.0, 700.0]],
    CART: [[3000., -2500., 6000.], [-4500., 3500., -3800.], [100., 6300., 700.], [5000., 2000., -4000.]],
}
VECTORS = [[1000., -200., 30.], [-4., 500., 3000.], [77., 8., -900.], [-12., -345., -67.]]
LATS = [10.0, -35.5, 61.25, 88.0]
LONS = [20.0, -100.0, 179.5, 3.0]
F107 = [70.0, 133.0, 201.0, 99.0]
RADII = [6400.0, 6800.0, 7500.0, 6371.2]


def times_of(cls):
    return {"season": [0.125, 0.75, 0.375, 0.5625], "hour": [3.25, 11.5, 19.75, 7.0]}[cls]


def blocks(kind):
    """ building blocks of the SH series for 4 places """
    size = (DEG + 1)*(DEG + 2)//2
    rng = np.random.RandomState(5)
    return {
        "coef": rng.uniform(-9, 9, (4, size, 2)), "lp": rng.uniform(-2, 2, (4, size)),
        "ldp": rng.uniform(-2, 2, (4, size)), "rrp": rng.uniform(.1, 2, (4, DEG + 1)),
        "lcs": rng.uniform(-1, 1, (4, DEG + 1, 2)),
    }[kind]


def model_of(name):
    if name == "static":
        return SphericalHarmomicGeomagneticModel(sh_coeff("static", DEG))
    if name in ("linear", "composed", "mixed"):
        return SphericalHarmomicGeomagneticModel(sh_coeff(name, DEG))
    if name == "dipole":
        return DipoleSphericalHarmomicGeomagneticModel(sh_coeff("linear", DEG), POLE)
    if name == "dipole_static":
        return DipoleSphericalHarmomicGeomagneticModel(sh_coeff("static", DEG), POLE)
    if name == "empty":
        return ComposedGeomagneticModel()
    if name == "cgm":
        model = ComposedGeomagneticModel()
        model.push(model_of("composed"))
        model.push(model_of("dipole"), scale=-2.0)
        return model
    if name == "mio":
        return DipoleMIOGeomagneticModel(mio_coeff(DEG, True), POLE)
    if name == "primary":
        return MIOPrimaryGeomagneticModel(
            DipoleMIOGeomagneticModel(mio_coeff(DEG, False), POLE),
            DipoleMIOGeomagneticModel(mio_coeff(DEG, True), POLE))
    if name == "cgm_mio":
        model = ComposedGeomagneticModel()
        model.push(model_of("primary"), scale=3.0)
        model.push(model_of("linear"))
        return model
    raise KeyError(name)


def functions():
    """ {name: (rule, palettes, function)} """
    out = {}

    def add(name, rule, palettes, function):
        out[name] = (rule, [np.array(p, dtype="float64") for p in palettes], function)

    for i, name in enumerate(("static", "linear", "composed", "mixed", "dipole",
                              "dipole_static", "cgm", "empty")):
        model = model_of(name)
        for cin, cout in ((FRAMES[i % 3], FRAMES[(i + i//3) % 3]),
                          (FRAMES[(i + 1) % 3], FRAMES[(i + 2) % 3])):
            add("%s_%d%d" % (name, cin, cout), "longest", [TIMES, PLACES[cin]],
                lambda t, x, model=model, cin=cin, cout=cout: model.eval(t, x, cin, cout))
    for i, name in enumerate(("mio", "primary", "cgm_mio")):
        model = model_of(name)
        cin, cout = FRAMES[i], FRAMES[(i + 1) % 3]
        opt = {"input_coordinate_system": cin, "output_coordinate_system": cout}
        add(name, "longest", [TIMES, PLACES[cin]],
            lambda t, x, model=model, opt=opt: model.eval(t, x, **opt))
        add(name + "_f", "options", [TIMES, PLACES[cin], F107],
            lambda t, x, f, model=model, opt=opt: model.eval(t, x, f107=f, **opt))
        add(name + "_fs", "options", [TIMES, PLACES[cin], F107, LATS, LONS],
            lambda t, x, f, a, b, model=model, opt=opt: model.eval(
                t, x, f107=f, lat_sol=a, lon_sol=b, **opt))
        add(name + "_s", "options", [TIMES, PLACES[cin], LATS, LONS],
            lambda t, x, a, b, model=model, opt=opt: model.eval(
                t, x, lat_sol=a, lon_sol=b, **opt))
    table = np.stack([dense(DEG, k) for k in range(4)])
    set_ = mio_coeff(DEG, True).get_f2fs_coeff_set()
    sets = evals.time_sets("sets", DEG)
    for mode in (1, 2, 3):
        frames = {"coord_type_in": FRAMES[mode - 1], "coord_type_out": FRAMES[mode % 3]}
        places = PLACES[FRAMES[mode - 1]]
        add("sheval_%d" % mode, "longest", [table, places],
            lambda c, x, frames=frames, mode=mode: sheval(x, c, mode=mode, **frames))
        add("sheval_dipole_%d" % mode, "equal", [places],
            lambda x, frames=frames, mode=mode: sheval_dipole(x, table[0], *POLE, mode=mode, **frames))
        add("shevaltemp_%d" % mode, "longest", [TIMES, places],
            lambda t, x, frames=frames, mode=mode: shevaltemp(t, x, sets, mode=mode, **frames))
        add("sheval2dfs_%d" % mode, "longest", [times_of("season"), times_of("hour"), places],
            lambda a, b, x, frames=frames, mode=mode: sheval2dfs(
                a, b, x, set_, mode=mode, **frames))
    f2d = mio_coeff(DEG, True).get_f2fs_coeff_set()
    add("fourier2d", "equal", [times_of("season"), times_of("hour")],
        lambda a, b: fourier2d(a, b, f2d[0], f2d[2], f2d[3], f2d[4], f2d[5]))
    c0 = np.random.RandomState(1).uniform(-9, 9, (4, 5))
    for kind in (0, 1, 17):
        add("interp_%d" % kind, "outer", [TIMES, c0],
            lambda t, c, kind=kind: interp(t, NODES, c, kind=kind))
    add("spharpot", "longest", [RADII, blocks("coef"), blocks("lp"), blocks("rrp"), blocks("lcs")],
        spharpot)
    add("spharpot3", "longest", [RADII, blocks("coef"), blocks("lp")],
        lambda r, c, p: spharpot(r, c, p, blocks("rrp")[0], blocks("lcs")[0]))
    add("sphargrd", "longest", [LATS, blocks("coef"), blocks("lp"), blocks("ldp")],
        lambda lat, c, p, d: sphargrd(lat, c, p, d, blocks("rrp")[1], blocks("lcs")[1]))
    add("sphargrd_l", "longest", [blocks("rrp"), LATS, blocks("lcs")],
        lambda r, lat, cs: sphargrd(lat, blocks("coef")[0], blocks("lp")[0], blocks("ldp")[0], r, cs))
    add("legendre", "equal", [LATS], lambda lat: legendre(lat, DEG))
    add("loncossin", "equal", [LONS], lambda lon: loncossin(lon, DEG))
    add("relradpow", "equal", [RADII], lambda rad: relradpow(rad, DEG))
    for cin in FRAMES:
        for cout in FRAMES:
            add("convert_%d%d" % (cin, cout), "equal", [PLACES[cin]],
                lambda x, cin=cin, cout=cout: convert(x, cin, cout))
        add("convert_to_dipole_%d" % cin, "equal", [PLACES[cin]],
            lambda x, cin=cin: convert_to_dipole(x, *POLE, cin))
    add("vrot_sph2geod", "refer", [VECTORS, LATS], vrot_sph2geod)
    add("vrot_sph2cart", "refer", [VECTORS, LATS, LONS], vrot_sph2cart)
    add("vrot_cart2sph", "refer", [VECTORS, LATS, LONS], vrot_cart2sph)
    add("vrotate_sc", "refer", [VECTORS, PLACES[SPH]],
        lambda v, x: vrotate(v, x, None, SPH, CART))
    add("vrotate_gc", "refer", [VECTORS, PLACES[GEOD]],
        lambda v, x: vrotate(v, x, None, GEOD, CART))
    add("vrotate_cs", "refer", [VECTORS, PLACES[SPH]],
        lambda v, x: vrotate(v, None, x, CART, SPH))
    add("vrotate_cg", "refer", [VECTORS, PLACES[GEOD]],
        lambda v, x: vrotate(v, None, x, CART, GEOD))
    add("vrotate_sg", "refer", [VECTORS, PLACES[SPH]],
        lambda v, x: vrotate(v, x, convert(x, SPH, GEOD), SPH, GEOD))
    add("vrotate_gs", "refer", [VECTORS, PLACES[GEOD]],
        lambda v, x: vrotate(v, x, convert(x, GEOD, SPH), GEOD, SPH))
    add("vrot_from_dipole_s", "refer", [VECTORS, LATS, LONS],
        lambda v, lat, lon: vrot_from_dipole(v, *POLE, lat, lon, -15.0, 30.0, SPH))
    add("vrot_from_dipole_c", "refer", [VECTORS, LATS, LONS],
        lambda v, lat, lon: vrot_from_dipole(v, *POLE, lat, lon))
    add("vnorm", "equal", [VECTORS], vnorm)
    add("vincdecnorm", "equal", [VECTORS], vincdecnorm)
    dtts = [0.0, 67.0, -4000.0, 20000.0]
    add("sunpos", "mutual", [TIMES, LATS, LONS], em.sunpos)
    add("sunpos_r", "mutual", [TIMES, RADII, dtts],
        lambda t, r, d: em.sunpos(t, 12.0, 55.0, r, d))
    add("sunpos_l", "mutual", [LATS, TIMES, dtts],
        lambda lat, t, d: em.sunpos(t, lat, 55.0, 6500.0, d))
    add("sunpos_original", "mutual", [TIMES, LATS, LONS], em.sunpos_original)
    add("sunpos_original_o", "mutual", [[5.0, 4.0, 2.0, 0.5], [0.0, 15.0, 30.0, -20.0], TIMES],
        lambda p, q, t: em.sunpos_original(t, 41.0, 55.0, 6371.2, 0.0, p, q))
    add("sunpos_original_r", "mutual", [RADII, LONS, dtts],
        lambda r, lon, d: em.sunpos_original(TIMES[0], 41.0, lon, r, d))
    years = [2009.5, 2012.25, 1999.75, 2018.0]
    # the epochs of the quasi-dipole coordinates are shared within a day
    add("qdlatlon", "flat", [LATS, LONS, RADII], lambda a, b, r: em.eval_qdlatlon(a, b, r, np.full(np.shape(a), 2012.25)))
    add("qdlatlon_t", "flat", [years, LONS], lambda t, b: em.eval_qdlatlon(
        np.full(np.shape(t), 40.0), b, np.full(np.shape(t), 6500.0), t))
    add("qdlatlon_v", "flat", [LATS, LONS, RADII], lambda a, b, r: em.eval_qdlatlon_with_base_vectors(
        a, b, r, np.full(np.shape(b), 2012.25)))
    add("qdlatlon_u", "flat", [LATS, years], lambda a, t: em.eval_qdlatlon_with_base_vectors(
        a, np.full(np.shape(a), 8.0), np.full(np.shape(a), 6800.0), t))
    add("mlt", "flat", [LONS, TIMES], em.eval_mlt)
    add("subsol", "flat", [TIMES], em.eval_subsol)
    add("mut", "equal", [TIMES], lambda t: mjd2000_to_magnetic_universal_time(t, *POLE))
    add("mut_s", "numpy", [LATS, LONS], lambda a, b: mjd2000_to_magnetic_universal_time(
        TIMES[0], *POLE, a, b))
    add("mut_p", "numpy", [TIMES, LATS, LONS],
        lambda t, a, b: mjd2000_to_magnetic_universal_time(t, a, b))
    from eoxmagmod import time_util
    for name in ("mjd2000_to_decimal_year", "mjd2000_to_year_fraction",
                 "mjd2000_to_decimal_year_simple", "mjd2000_to_year_fraction_simple"):
        add(name, "equal", [TIMES], getattr(time_util, name))
    for name in ("decimal_year_to_mjd2000", "decimal_year_to_mjd2000_simple"):
        add(name, "equal", [years], getattr(time_util, name))
    return out


FUNCTIONS = {}
SINGLES = {}


def parts_of(result):
    if isinstance(result, tuple):
        return [np.asarray(r, dtype="float64") for r in result]
    return [np.asarray(result, dtype="float64")]


def singles(name, base):
    """ results of all the combinations of single values """
    if (name, base) not in SINGLES:
        _, palettes, function = FUNCTIONS[name]
        table, shapes = [], None
        for combo in itertools.product(range(base), repeat=len(palettes)):
            parts = parts_of(function(*(p[i] for p, i in zip(palettes, combo[::-1]))))
            shapes = [p.shape for p in parts]
            table.append(np.concatenate([p.ravel() for p in parts]))
        table = np.stack(table)
        SINGLES[name, base] = (
            table, shapes, [int(np.argmax(same(table, row))) for row in table])
    return SINGLES[name, base]


def same(table, row):
    scale = np.abs(table).max(axis=1) + 1e-30
    return ((np.abs(table - row) <= 1e-9*scale[:, None]) | (np.isnan(table) & np.isnan(row))).all(axis=1)


def codes_of(parts, table, shapes):
    """ shape of the result and the combinations of the elements """
    outer = []
    for part, shape in zip(parts, shapes):
        cut = part.ndim - len(shape)
        if cut < 0 or part.shape[cut:] != shape:
            return [-1], []
        outer.append(part.shape[:cut])
    if len(parts) != len(shapes) or len(set(outer)) != 1:
        return [-1], []
    count = int(np.prod(outer[0], dtype=int))
    rows = np.concatenate([p.reshape(count, int(np.prod(s, dtype=int)))
                           for p, s in zip(parts, shapes)], axis=1)
    codes = []
    for row in rows:
        found = same(table, row)
        codes.append(int(np.argmax(found)) if found.any() else -1)
    return list(outer[0]), codes


def execute(item):
    if not FUNCTIONS:
        FUNCTIONS.update(functions())
    name, base = item["func"], item["base"]
    _, palettes, function = FUNCTIONS[name]
    try:
        table, shapes, canon = singles(name, base)
    except Exception as error:  # pylint: disable=broad-except
        return {"crash": "single evaluation of %s: %r" % (name, error)}
    args = [
        palette[np.array(pal, dtype=int)].reshape((*shape, *palette.shape[1:]))
        for palette, pal, shape in zip(palettes, item["pal"], item["shapes"])]
    try:
        result = function(*args)
    except Exception as error:  # pylint: disable=broad-except
        return {"refused": 1, "shape": [], "codes": [], "canon": canon,
                "error": repr(error)[:100]}
    shape, codes = codes_of(parts_of(result), table, shapes)
    return {"refused": 0, "shape": shape, "codes": codes, "canon": canon}


def describe():
    return {k: (rule, len(palettes)) for k, (rule, palettes, _) in functions().items()}
