"""Loads rendered model files. """
import io
import os
import random
import tempfile
import numpy as np
from eoxmagmod import (
    decimal_year_to_mjd2000, mjd2000_to_decimal_year, sheval, GRADIENT,
    load_model_shc, load_model_shc_combined, load_model_wmm, load_model_igrf, load_model_emm,
    load_model_swarm_mio_internal, load_model_swarm_mio_external,
)
from eoxmagmod.time_util import decimal_year_to_mjd2000_simple, mjd2000_to_decimal_year_simple
from eoxmagmod.magnetic_model.loader_shc import (
    load_coeff_shc, load_coeff_shc_combined, load_coeff_shc_composed,
)
from eoxmagmod.magnetic_model.parser_shc import parse_shc_header
from eoxmagmod.magnetic_model.loader_wmm import load_coeff_wmm
from eoxmagmod.magnetic_model.loader_igrf import load_coeff_igrf
from eoxmagmod.magnetic_model.loader_emm import load_coeff_emm
from eoxmagmod.magnetic_model.loader_mio import (
    load_coeff_swarm_mio_internal, load_coeff_swarm_mio_external,
)

INFTY = 2000000000
QUARTERS = (0, 91.5, 183.0, 274.5)      # of the leap year 2000
POINTS = np.array([[35.0, -70.0, 6800.0], [-62.0, 120.0, 7100.0]])


def number(rnd, value, integer, exact=False):
    if integer:
        text = str(value)
        form = rnd.randrange(6)
        if form == 0 and value >= 0:
            return "+" + text
        if form == 1:
            return text[0]*(value < 0) + "0" + text[value < 0:]
        return text
    text = repr(float(value))
    form = rnd.randrange(6)
    if form == 0:
        return text + "00"
    if form == 1:
        return "%.15e" % value
    if form == 2 and 0 < abs(value) < 1:
        return text.replace("0.", ".", 1)
    if form == 3 and text.endswith(".0"):
        return text[:-1]
    if form == 4 and value >= 0:
        return "+" + text
    return text


def token(rnd, tok, unit):
    kind, value = tok
    if kind == "i":
        return number(rnd, value, True)
    if kind == "r":
        return number(rnd, value/unit, False)
    if kind == "#":
        return "#" + rnd.choice(("", " ", " 1 2", "# x", " 2000.0 2001.0", "text"))
    if kind == "n":
        return "9"*value
    if kind == "-":
        return "-"*value
    if kind == "e":
        return "Epoch:"
    if kind in "gh":
        return kind
    return rnd.choice(("IGRF", "x", "WMM-2020", "09/18/2018", "g/h", "2005-10", "1,5", "a.b", "--2", "G", "1.2.3"))


def render(rnd, file, unit):
    """ text of the tokens """
    lines = []
    for line in file:
        text = rnd.choice(("", "", " ", "\t", "    "))
        for idx, tok in enumerate(line):
            glued = tok[0] == "#" and rnd.random() < 0.3
            text += ("" if idx == 0 or glued else rnd.choice((" ", " ", "  ", "\t", "     "))) + token(rnd, tok, unit)
            if tok[0] == "#":
                break       # the rest is hidden
        lines.append(text + rnd.choice(("", "", " ", "\t")))
    newline = rnd.choice(("\n", "\n", "\r\n"))
    text = newline.join(lines)
    return text + (newline if lines and (not lines[-1].strip() or rnd.random() < 0.8) else "")


def write(path, text):
    with open(path, "w", newline="", encoding="ascii") as file_:
        file_.write(text)
    return path


def whole(value, scale):
    value = float(value)*scale
    if np.isinf(value):
        return INFTY if value > 0 else -INFTY
    if not abs(value) < 1.9e9 or abs(value - round(value)) > 2e-3:
        return 777777777
    return int(round(value))


def nonzero(coeff, scale):
    out = []
    coeff = np.asarray(coeff)
    size = coeff.shape[-2]
    n = 0
    while (n + 1)*(n + 2)//2 <= size:
        for m in range(n + 1):
            g, h = coeff[n*(n + 1)//2 + m]
            for order, value in ((m, whole(g, scale)), (-m, whole(h, scale))):
                if value:
                    out.append([n, order, value])
        n += 1
    return out


CALENDAR = (decimal_year_to_mjd2000, mjd2000_to_decimal_year)
SIMPLE = (decimal_year_to_mjd2000_simple, mjd2000_to_decimal_year_simple)


def years(value, unit, clock=CALENDAR):
    """ decimal year of the validity """
    return whole(clock[1](value), unit) if np.isfinite(value) else whole(value, 1)


def agree(model, coeff, time, **options):
    """ the model evaluates the coefficients """
    if not coeff.validity[0] <= time <= coeff.validity[1]:
        return int(np.isnan(model.eval(time, POINTS, **options)).all())
    matrix, degree = coeff(time, **options)
    expected = sheval(POINTS, matrix, 1, 1, mode=GRADIENT, is_internal=coeff.is_internal, degree=degree)
    expected = -np.asarray(expected)*[1, 1, 1]
    result = model.eval(time, POINTS, **options)
    size = np.abs(expected).max() + 1e-300
    return int(min(np.abs(result - s*expected).max() for s in (1, -1)) <= 1e-9*size)


def sample(at, unit, decimal, clock):
    a, b = at
    if decimal:
        return clock[0]((a + b)/2/unit)
    return 0.5*(clock[0](a/unit) + clock[0](b/unit))


def load(item, folder):
    unit, fmt = item["u"], item["format"]
    rnd = random.Random(item["seed"])
    if "path" in item:
        paths = [item["path"]]
    elif fmt == "emm":
        file = item["file"]
        mark = [["next", 0]]
        cut = file.index(mark) if mark in file else len(file)
        paths = [write(os.path.join(folder, "a"), render(rnd, file[:cut], unit)),
                 write(os.path.join(folder, "b"), render(rnd, file[cut + 1:], unit))]
    else:
        text = render(rnd, item["file"], unit)
        paths = [write(os.path.join(folder, "a"), text)]
    options = {}
    decimal = True
    clock = CALENDAR
    if fmt == "shc":
        decimal = bool(item["decimal"])
        options = {"interpolate_in_decimal_years": decimal}
        if item["order"]:
            options["spline_order"] = item["order"]
        for key, name in (("start", "validity_start"), ("end", "validity_end")):
            if item[key]:
                options[name] = item[key][0]/unit
        if not decimal and rnd.random() < 0.5:
            del options["interpolate_in_decimal_years"]
        if item.get("simple"):
            clock = SIMPLE
            options["to_mjd2000"] = clock[0]
            if decimal:
                options["to_decimal_year"] = clock[1]
        if item.get("outer"):
            options["is_internal"] = False
    load_coeff, load_model = {
        "shc": (load_coeff_shc, load_model_shc), "wmm": (load_coeff_wmm, load_model_wmm),
        "igrf": (load_coeff_igrf, load_model_igrf), "emm": (load_coeff_emm, load_model_emm)}[fmt]
    try:
        if fmt == "shc" and item["stream"] and "path" not in item:
            coeff = load_coeff(io.StringIO(text, newline=None), **options)
        else:
            coeff = load_coeff(*paths, **options)
    except Exception as error:  # pylint: disable=broad-except
        try:
            load_model(*paths, **options)
        except Exception:   # pylint: disable=broad-except
            return {"ok": 0, "error": repr(error)[:80]}
        return {"ok": 1, "degree": -1, "low": -1, "valid": [0, 0], "agree": 0, "probes": []}
    model = load_model(*paths, **options)
    probes = []
    for at in item["probes"]:
        time = sample(at, unit, decimal, clock)
        probes.append({"at": at, "v": nonzero(coeff(time)[0], 2*unit)})
    start, end = coeff.validity
    inside = [t for t in (start, end, 0.3*start + 0.7*end, 800.0, 0.0) if np.isfinite(t)]
    same = all(agree(model, coeff, float(t)) for t in inside)
    return {"ok": 1, "degree": int(coeff.degree), "low": int(coeff.min_degree),
            "valid": [years(start, unit, clock), years(end, unit, clock)],
            "agree": int(same and coeff.is_internal == (not item.get("outer")) and list(map(float, model.validity)) == [float(start), float(end)]
                         and model.degree == coeff.degree and model.min_degree == coeff.min_degree),
            "probes": probes}


def info(item, folder):
    unit = item["u"]
    text = render(random.Random(item["seed"]), item["file"], unit)
    try:
        head = parse_shc_header(io.StringIO(text, newline=None))
    except Exception as error:  # pylint: disable=broad-except
        return {"ok": 0, "error": repr(error)[:80]}
    return {"ok": 1, "head": [int(head[k]) for k in ("degree_min", "degree_max", "ntime", "spline_order", "nstep")],
            "times": [whole(t, unit) for t in head["t"]],
            "valid": [whole(head["validity_start"], 1 if np.isinf(head["validity_start"]) else unit),
                      whole(head["validity_end"], 1 if np.isinf(head["validity_end"]) else unit)]}


def mio(item, folder):
    unit = item["u"]
    path = write(os.path.join(folder, "a"), render(random.Random(item["seed"]), item["file"], unit))
    internal = item["part"] == "gh"
    try:
        if internal:
            coeff, data = load_coeff_swarm_mio_internal(path)
            model = load_model_swarm_mio_internal(path)
        else:
            coeff, data = load_coeff_swarm_mio_external(path, above_ionosphere=False)
            model = load_model_swarm_mio_external(path, above_ionosphere=False)
    except Exception as error:  # pylint: disable=broad-except
        return {"ok": 0, "error": repr(error)[:80]}
    probes = [{"q": [a, b], "v": [x for x in nonzero(coeff(QUARTERS[a], mut=6.0*b)[0], unit)]}
              for a, b in item["q"]]
    aux = [model.north_pole[0], model.north_pole[1], data["height"], model.wolf_ratio]
    primary = load_model_swarm_mio_external(path)
    good = coeff.is_internal == internal and primary.height == data["height"] \
        and model.degree == coeff.degree == primary.degree and model.min_degree == coeff.min_degree
    return {"ok": 1, "degree": int(coeff.degree) if good else -1, "low": int(coeff.min_degree),
            "aux": [whole(x, unit) for x in aux], "probes": probes}


def several(item, folder):
    unit = item["u"]
    rnd = random.Random(item["seed"])
    sources, paths = [], []
    for idx, file in enumerate(item["files"]):
        path = write(os.path.join(folder, "f%d" % idx), render(rnd, file, unit))
        path = paths[item["again"][str(idx)]] if str(idx) in item["again"] else path
        paths.append(path)
        sources.append(path)
    options = {"interpolate_in_decimal_years": True} if item["decimal"] else {}
    load_coeff, load_model = [(load_coeff_shc_composed, load_model_shc),
                              (load_coeff_shc_combined, load_model_shc_combined)][item["mode"]]
    try:
        for idx in item["objects"]:
            if idx < len(sources):
                sources[idx] = load_coeff_shc(paths[idx], **options)
        for k, idx in item["again"].items():
            sources[int(k)] = sources[idx]
        coeff = load_coeff(*sources, **options)
    except Exception as error:  # pylint: disable=broad-except
        return {"ok": 0, "error": repr(error)[:80]}
    model = load_model(*sources, **options)
    probes = [{"at": [t, t], "v": nonzero(coeff(decimal_year_to_mjd2000(t/unit))[0], 2*unit)}
              for t in item["probes"]]
    same = all(agree(model, coeff, float(decimal_year_to_mjd2000(t/unit))) for t in item["probes"][::3])
    return {"ok": 1, "degree": int(coeff.degree), "low": int(coeff.min_degree),
            "valid": [years(t, unit) for t in coeff.validity],
            "agree": int(same and tuple(model.validity) == tuple(coeff.validity)), "probes": probes}


def execute(item):
    with tempfile.TemporaryDirectory() as folder:
        return {"load": load, "info": info, "mio": mio, "several": several}[item["ev"]](item, folder)
