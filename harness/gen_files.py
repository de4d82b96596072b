"""Random token files of all formats (see specs/FileGrammar.tla). """
import re

U = 8


def I(x):
    return ["i", x]


def R(x):
    return ["r", x]


W = ["w", 0]
C = ["#", 0]


def value(rnd):
    kind = rnd.random()
    if kind < 0.12:
        return I(0)
    if kind < 0.5:
        return I(rnd.randint(-60, 60))
    return R(rnd.randint(-500, 500))


def year(rnd):
    return rnd.choice((I(rnd.randint(1990, 2020)), R(4*rnd.randint(2*1990, 2*2020))))


def units(tok, unit=U):
    return tok[1]*unit if tok[0] == "i" else tok[1]


def terms(rnd, top=4, signs=True):
    low = rnd.randint(1, top) if rnd.random() < 0.4 else 1
    high = rnd.randint(low, top)
    out = [(n, m) for n in range(low, high + 1) for m in range(-n if signs else 0, n + 1)]
    if rnd.random() < 0.4:
        rnd.shuffle(out)
    if rnd.random() < 0.4:
        out = out[:rnd.randint(1, len(out))]
    if rnd.random() < 0.05:
        out.append((0, 0))
    return out


def comment(rnd):
    return rnd.choice(([], [C], [C, I(1)], [C, W]))


def noise(rnd, lines, chance=0.5):
    """ comments and blank lines """
    out = [list(x) for x in lines]
    while rnd.random() < chance:
        out.insert(rnd.randint(0, len(out)), comment(rnd))
    if out and rnd.random() < chance/3:
        out[rnd.randrange(len(out))].append(C)
    return out


def blanks(rnd, lines, first):
    out = [list(x) for x in lines]
    while rnd.random() < 0.15:
        out.insert(rnd.randint(first, len(out)), [])
    return out


def break_file(rnd, file):
    """ one mutation """
    file = [list(x) for x in file]
    full = [i for i, x in enumerate(file) if x]
    if not full:
        return file
    i = rnd.choice(full)
    j = rnd.randrange(len(file[i]))
    kind = rnd.randrange(9)
    if kind == 0:
        del file[i][j]
    elif kind == 1:
        file[i].insert(j, list(file[i][j]))
    elif kind == 2:
        file[i][j] = list(W)
    elif kind == 3:
        del file[i]
    elif kind == 4:
        file.insert(rnd.randrange(len(file)), list(file[i]))
    elif kind == 5:
        k = rnd.choice(full)
        file[i], file[k] = file[k], file[i]
    elif kind == 6:
        file = file[:i] + [file[i][:j]]
    elif kind == 7:
        file = file[:i + 1]
    elif file[i][j][0] in "ir":
        step = rnd.choice((-1, 1, 2))
        file[i][j][1] += step
    return file


def shc(rnd, constant=False):
    count = rnd.choice((1, 1, 2, 2, 3, 4, 6))
    times = [year(rnd) for _ in range(count)]
    if rnd.random() < 0.8:
        times.sort(key=units)
    nms = terms(rnd)
    head = [I(min(n for n, _ in nms)), I(max(n for n, _ in nms)), I(count),
            I(rnd.choice((1, 2, 2, 4, 6))), I(rnd.choice((0, 1, 5)))]
    if constant or rnd.random() < 0.35:
        head += [year(rnd), year(rnd)]
        head[5:] = sorted(head[5:], key=units)
        if rnd.random() < 0.1:
            head.append(W)
    rows = []
    for n, m in nms:
        vals = [value(rnd)]*count if constant else [value(rnd) for _ in range(count)]
        rows.append([I(n), I(m), *vals])
    return noise(rnd, [head, times, *rows]), sorted({units(t) for t in times})


def long_shc(rnd):
    """ many nodes, i.e., long lines """
    count = rnd.randint(200, 900)
    first = U*rnd.randint(1850, 1950)
    times = [R(first + k) for k in range(count)]
    nms = [(1, 0), (1, -1), (2, 2)][:rnd.randint(1, 3)]
    head = [I(1), I(max(n for n, _ in nms)), I(count), I(2), I(1)]
    rows = [[I(n), I(m), *(R(rnd.randint(-99999, 99999)) for _ in times)] for n, m in nms]
    picked = sorted(rnd.sample(range(count), 6) + [0, count - 1])
    scen = scenario(rnd, "shc", noise(rnd, [head, times, *rows]), [])
    scen["probes"] = [[first + k, first + k] for k in picked] + [
        [first + k, first + k + 1] for k in picked if k + 1 < count]
    return scen


def wmm(rnd):
    epoch = year(rnd)
    rows = [[I(n), I(m), value(rnd), value(rnd) if m else I(0), value(rnd), value(rnd) if m else I(0)]
            for n, m in terms(rnd, signs=False)]
    out = [[epoch, W, W] + [W]*(rnd.random() < 0.1), *rows]
    for _ in range(rnd.choice((0, 1, 2))):
        out.append([["n", rnd.choice((1, 12, 48))]])
        if rnd.random() < 0.2:
            out.append(rnd.choice(([I(1), I(0), I(5), I(0), I(1), I(0)], [W, W], [])))
    start = units(epoch)
    return blanks(rnd, out, 1), [start, start + 5*U]


def igrf(rnd):
    first = rnd.randint(1900, 2015)
    count = rnd.choice((1, 2, 3, 5))
    times = [rnd.choice((I(first + 5*k), R(U*(first + 5*k)))) for k in range(count)]
    rows = [[["g" if m >= 0 else "h", 0], I(n), I(abs(m)), *[value(rnd) for _ in range(count + 1)]]
            for n, m in terms(rnd)]
    out = noise(rnd, [[W]*rnd.randint(1, 5), [W, W, W, *times, W], *rows])
    nodes = [units(t) for t in times]
    return out, nodes + [nodes[-1] + 5*U]


def emm_part(rnd, epoch, rows):
    head = [[W]*rnd.randint(1, 4) for _ in range(rnd.randint(0, 3))]
    head.insert(rnd.randint(0, len(head)), [["e", 0], epoch])
    if rnd.random() < 0.3:
        head.insert(rnd.randint(0, len(head)), [])
    return head + [[["-", rnd.choice((1, 32))]]] + rows


def emm(rnd):
    epoch = year(rnd)
    nms = terms(rnd, signs=False)
    size = rnd.randint(1, max(1, len(nms) - 1))
    rows = [[I(n), I(m), value(rnd), value(rnd) if m else I(0)] for n, m in nms]
    change = [[I(n), I(m), value(rnd), value(rnd) if m else I(0)] for n, m in nms[:size]]
    other = epoch if rnd.random() < 0.95 else year(rnd)
    file = emm_part(rnd, epoch, rows) + [[["next", 0]]] + emm_part(rnd, other, change)
    start = units(epoch)
    return file, [start, start + 5*U]


def mio(rnd):
    pmin, smin = rnd.randint(-2, 2), rnd.randint(-2, 2)
    pmax, smax = pmin + rnd.randint(0, 3), smin + rnd.randint(0, 3)
    nms = terms(rnd, 3)
    size = (pmax - pmin + 1)*(smax - smin + 1)*2
    head = [I(max(n for n, _ in nms)), I(3), I(pmin), I(pmax), I(smin), I(smax),
            R(rnd.randint(0, 1440)), R(rnd.randint(-360*8, 540*8)), R(rnd.randint(400, 1600)), R(rnd.randint(-3, 9))]
    head += [W]*(rnd.random() < 0.1)
    rows = [[I(n), I(m), *[value(rnd) for _ in range(size)]] for n, m in nms*2]
    if rnd.random() < 0.05:
        rows.pop(rnd.randrange(len(rows)))
    return noise(rnd, [head, *rows]), []


MAKERS = {"shc": shc, "wmm": wmm, "igrf": igrf, "emm": emm, "mio": mio}


def probes(nodes):
    nodes = sorted(set(nodes))
    return [[t, t] for t in nodes] + [[a, b] for a, b in zip(nodes, nodes[1:])]


def scenario(rnd, fmt, file, nodes):
    scen = {"ev": "load", "format": fmt, "file": file, "u": U, "order": 0, "start": [], "end": [],
            "decimal": rnd.randint(0, 1), "stream": rnd.randint(0, 1), "probes": probes(nodes),
            "seed": rnd.randrange(10**6)}
    if fmt == "shc":
        scen.update(simple=int(rnd.random() < 0.25), outer=int(rnd.random() < 0.2))
    if fmt == "mio":
        scen.update(ev="mio", part=rnd.choice(("gh", "qs")),
                    q=[[rnd.randint(0, 3), rnd.randint(0, 3)] for _ in range(3)])
    return scen


def clear(file):
    """ numbers of nines have one meaning """
    for line in file:
        if len(line) > 1 and any(t[0] == "n" for t in line):
            return False
        if len(line) == 1 and line[0][0] == "i" and set(str(line[0][1])) == {"9"}:
            return False
    return True


def generate(rnd, fmt, size):
    out = []
    for _ in range(size):
        file, nodes = MAKERS[fmt](rnd)
        if rnd.random() < 0.4:
            file = break_file(rnd, file)
            if fmt == "shc":
                file = break_file(rnd, file) if rnd.random() < 0.2 else file
        if not clear(file):
            continue
        scen = scenario(rnd, fmt, file, nodes)
        if fmt == "shc":
            if rnd.random() < 0.2 and len(nodes) > 1:
                scen["order"] = rnd.choice((1, 2))
            if rnd.random() < 0.2:
                scen["start"] = [rnd.randint(8*1980, 8*2000)]
            if rnd.random() < 0.2:
                scen["end"] = [rnd.randint(8*2000, 8*2030)]
            if rnd.random() < 0.25:
                scen["ev"] = "info"
        out.append(scen)
    return out


def tokens(path, unit, labels=False):
    """ tokens of a bundled file """
    lines = []
    for text in open(path, encoding="ascii"):
        line = []
        for word in text.split():
            if word.startswith("#"):
                line.append(C)
                break
            if re.fullmatch(r"[-+]?\d+", word) and len(word) < 10:
                line.append(I(int(word)))
            elif re.fullmatch(r"9+", word):
                line.append(["n", len(word)])
            elif re.fullmatch(r"[-+]?\d*\.\d*([eE][-+]?\d+)?", word):
                line.append(R(round(float(word)*unit)))
            elif re.fullmatch(r"-+", word):
                line.append(["-", len(word)])
            elif word == "Epoch:":
                line.append(["e", 0])
            elif labels and word in ("g", "h"):
                line.append([word, 0])
            else:
                line.append(W)
        lines.append(line)
    return lines


def bundled(rnd, fmt, path, unit):
    file = tokens(path, unit, fmt == "igrf")
    scen = scenario(rnd, fmt, file, [])
    scen.update(u=unit, path=path, stream=0)
    body = [x for x in file if x and x[0] != C]
    if fmt == "shc":
        nodes = [units(t, unit) for t in body[1]]
    elif fmt == "igrf":
        nodes = [units(t, unit) for t in body[1][3:-1]]
        nodes.append(nodes[-1] + 5*unit)
    else:
        nodes = [units(body[0][0], unit)]
        nodes.append(nodes[0] + 5*unit)
    scen["probes"] = [[t, t] for t in sorted(set(nodes))]
    return scen
