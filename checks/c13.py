"""C13: reading a lens prescription gives the right lens or an error."""
import math
from sim.world import instrument_package
from .common import *
from sim.sched import Stepper

ID = "C13"
RUNS = {"quick": 9000, "thorough": 600000}
RULE = ("seeded runs: 1-3 prescription files (singlets to cemented quadruplets, 6 glasses, air surfaces before and after, any order "
        "of lines, units, wavelengths lists) in 6 encodings, 3 line endings and byte deliveries from 1 byte per read on; 1-3 readers "
        "each asked for surfaces, prescription, lens, wavelengths in any order and repeatedly, answers altered by the user in between, "
        "two tasks asking one reader at the same time (seeded interleaving at interpreter steps); read errors, memory errors, "
        "interruptions and the file replaced by another one at any system call of the reading; oracle: the generated lens with an "
        "independent table of indices; non-trivial: a fault fired, bytes came in pieces, or something was asked twice")
REAL = ["raytracing.zemax, materials, matrixgroup and all elements", "text decoding and buffered I/O of Python"]
STUB = ["raw files", "scheduler of tasks", "interruptions"]
ASSUMPTIONS = ["the lens is one cemented group (what the reader documents)", "a file cut short by its author is another file",
               "encodings without a byte order mark other than UTF-8 may be refused"]

GLASS = {  # n^2 = 1 + sum of B x^2 / (x^2 - C), from the data sheets: B1 C1 B2 C2 B3 C3
    "N-BK7": (1.03961212, 0.00600069867, 0.231792344, 0.0200179144, 1.01046945, 103.560653),
    "N-SF2": (1.47343127, 0.0109019098, 0.163681849, 0.0585683687, 1.36920899, 127.404933),
    "N-SF8": (1.55075812, 0.0114338344, 0.209816918, 0.0582725652, 1.46205491, 133.24165),
    "SF2": (1.40301821, 0.0105795466, 0.231767504, 0.0493226978, 0.939056586, 112.405955),
    "SF5": (1.46141885, 0.0111826126, 0.247713019, 0.0508594669, 0.949995832, 112.041888),
    "N-SF5": (1.52481889, 0.011254756, 0.187085527, 0.0588995392, 1.42729015, 129.141675),
    "N-SF6": (1.77931763, 0.0133714182, 0.338149866, 0.0617533621, 2.08734474, 174.01759),
    "N-SF6HT": (1.77931763, 0.0133714182, 0.338149866, 0.0617533621, 2.08734474, 174.01759),
    "N-SF10": (1.62153902, 0.0122241457, 0.256287842, 0.0595736775, 1.64447552, 147.468793),
    "N-SF11": (1.73759695, 0.013188707, 0.313747346, 0.0623068142, 1.89878101, 155.23629),
    "N-SF57": (1.87543831, 0.0141749518, 0.37375749, 0.0640509927, 2.30001797, 177.389795),
    "N-BAF10": (1.5851495, 0.00926681282, 0.143559385, 0.0424489805, 1.08521269, 105.613573),
    "N-BAK1": (1.12365662, 0.00644742752, 0.309276848, 0.0222284402, 0.881511957, 107.297751),
    "N-BAK4": (1.28834642, 0.00779980626, 0.132817724, 0.0315631177, 0.945395373, 105.965875),
    "FK51A": (0.971247817, 0.00472301995, 0.216901417, 0.0153575612, 0.904651666, 168.68133),
    "LAFN7": (1.66842615, 0.0103159999, 0.298512803, 0.0469216348, 1.0774376, 82.5078509),
    "N-LASF9": (2.00029547, 0.0121426017, 0.298926886, 0.0538736236, 1.80691843, 156.530829),
    "N-LAK22": (1.14229781, 0.00585778594, 0.535138441, 0.0198546147, 1.04088385, 100.834017),
    "N-SSK5": (1.59222659, 0.00920284626, 0.103520774, 0.0423530072, 1.05174016, 106.927374),
    "FusedSilica": (0.6961663, 0.0684043 ** 2, 0.4079426, 0.1162414 ** 2, 0.8974794, 9.896161 ** 2),
    "N-SK16": (1.34317774, 0.00704687339, 0.241144399, 0.0229005, 0.994317969, 92.7508526),
    "N-LAK10": (1.72878017, 0.00886014635, 0.169257825, 0.0363416509, 1.19386956, 82.9009069),
    "S-BAH11": (1.5713886, 0.00910807936, 0.147869313, 0.0402401684, 1.28092846, 130.399367),
    "S-TIH6": (1.77227611, 0.0131182633, 0.34569125, 0.0614479619, 2.40788501, 200.753254),
    "N-SK2": (1.28189012, 0.0072719164, 0.257738258, 0.0242823527, 0.96818604, 110.377773),
    "S-PHM52": (1.0996655, 0.0132718559, 0.478125422, -0.000601649685, 1.13214074, 130.595472),
    "S-NPH2": (2.0386951, 0.0170796224, 0.437269641, 0.0749254813, 2.96711461, 174.155354),
    "N-PK52A": (1.029607, 0.00516800155, 0.1880506, 0.0166658798, 0.736488165, 138.964129),
    "H-LAF3B": (1.66486969, 0.00895646712, 0.30162248, 0.0350299695, 1.1973888, 123.334438),
    "H-ZF52GT": (0.409982615, 0.0621421199, 2.37517176, 185.055134, 1.83913582, 0.0136093459),
    "H-ZF13": (1.73521591, 0.0131087904, 0.316277446, 0.0621421663, 2.16384634, 178.845558),
    "H-ZK50": (0.434311306, -0.00192252587, 1.10560033, 0.0147271072, 0.988776159, 110.41165),
    "H-F4": (0.131898794, 0.05793195, 1.42441827, 0.0106270032, 1.21746316, 117.376535),
}
POLY = {  # n^2 = A0 + A1 x^2 + A2 x^-2 + A3 x^-4 + A4 x^-6 + A5 x^-8
    "E-BAF11": (2.71954649, -0.0100472501, 0.0200301385, 0.000465868302, -7.51633336e-06, 1.77544989e-06),
    "E-FD10": (2.881518, -0.013228312, 0.03145559, 0.0026851666, -0.00022577544, 2.4693268e-05),
}
# what the package takes for N-SF6 (the glass SF1): known finding
SF1 = (1.55912923, 0.0121481001, 0.284246288, 0.0534549042, 0.968842926, 112.174809)
UNITS = {"MM": 1, "IN": 25.4, "CM": 10, "METER": 1000, None: 1}
ENC = ["ascii", "utf-8", "utf-8-sig", "utf-16-le+bom", "utf-16-be+bom", "cp1252"]


def index(glass, wl, sf6=False):
    if glass is None:
        return 1.0
    if glass in POLY:
        return math.sqrt(sum(a * wl ** p for a, p in zip(POLY[glass], (0, 2, -2, -4, -6, -8))))
    if glass not in GLASS:
        return math.nan
    b1, c1, b2, c2, b3, c3 = SF1 if sf6 and glass == "N-SF6" else GLASS[glass]
    x = wl * wl
    return math.sqrt(1 + b1 * x / (x - c1) + b2 * x / (x - c2) + b3 * x / (x - c3))


def setup():
    instrument_package({"zemax.py", "materials.py", "matrixgroup.py"})


def g_num(rng, x):
    """a way to write a number"""
    k = rng.randrange(4)
    return [repr(x), "%.15E" % x, ("+" if x > 0 else "") + repr(x), "%.17e" % x][k]


def g_lens(rng, i):
    n = rng.choice([1, 1, 2, 2, 2, 3, 4])
    glasses = [g for g in GLASS if g != "N-SF6"] + list(POLY)
    surfs = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        surfs.append({"g": None, "c": 0.0, "d": rng.choice([float(i + 1), 10.0, None]), "r": rng.choice([None, 0.0, 5.0])})
    for k in range(n):
        g = rng.choice([x for x in glasses if not surfs or surfs[-1]["g"] != x])
        surfs.append({"g": g, "c": rng.choice([0.0, 1 / 62.75, -1 / 45.71, 0.02, -0.05, round(rng.uniform(-0.1, 0.1), 6)]),
                      "d": rng.choice([4.0, 2.5, round(rng.uniform(0.2, 12), 3), round(rng.uniform(0.2, 12), 3), 0.0]), "r": rng.choice([12.7, 12.7, 6.35, 25.0, None])})
    surfs.append({"g": None, "c": rng.choice([0.0, -0.0078, 0.03]), "d": 97.09 + i, "r": rng.choice([12.7, 6.0, None])})
    surfs.append({"g": None, "c": 0.0, "d": 0.0, "r": 1.0})
    wl = rng.choice([[0.5876], [0.4861, 0.5876, 0.6563], [0.7, 0.9, 1.05], [0.4861, 0.6563], [1.064], [0.55, 0.6, 0.633], [0.55],
                     [0.6563, 0.4861, 0.5876], [0.5876, 0.4861, 0.6563], [1.064, 0.633], [0.633, 0.9, 0.5, 0.7]])
    lens = {"s": surfs, "wl": wl, "pad": rng.choice([0, 0, 3, 21]) if len(wl) > 1 or wl == [0.55] else 0, "unit": rng.choice(["MM", "MM", "MM", "IN", "CM", "METER", None, "mm"]),
            "enc": rng.choice(ENC), "nl": rng.choice(["\n", "\r\n", "\r"]), "seed": rng.getrandbits(30), "end": rng.random() < 0.7,
            "name": "LENS%d%s" % (i, rng.choice(["", " \u00b5", " \u00e9\u00b0"])), "long": rng.choice([0, 0, 0, 300])}
    if rng.random() < 0.06:     # a glass that the package does not know
        s = rng.choice([s for s in surfs if s["g"]])
        s["g"], s["unknown"] = rng.choice(["N-BK77", "BK7", "SF", "N-KZFS8X", "X-Y9", "N"]), True
    if lens["enc"] == "ascii":
        lens["name"] = "LENS%d" % i
    return lens


def unknown(lens):
    return any(s.get("unknown") for s in lens["s"])


REFUSED = "refused"         # the answer when the glass is not known
GLASSY = ("surfaces", "lens", "group", "prescription")


def unit_key(u):
    return None if u is None else u.upper()


def text(lens):
    rng = real.Random(lens["seed"])
    L = ["VERS 120928 0 30221", "MODE SEQ", "NAME " + lens["name"], "NOTE 0 FOR INFORMATION ONLY, NOT FOR MANUFACTURING.", "ENPD 2.286E+1",
         "GCAT SCHOTT INFRARED MISC"]
    L += ["NOTE %d %s" % (k, "x" * 60) for k in range(lens["long"])]
    if lens["unit"]:
        L.append("UNIT %s X W X CM MR CPMM" % lens["unit"])
    rng.shuffle(L)
    L += ["WAVM %d %s 1" % (k + 1, g_num(rng, x)) for k, x in enumerate(lens["wl"] + [0.55] * lens["pad"])]
    if rng.random() < 0.7:
        L.append("PWAV 1")
    for i, s in enumerate(lens["s"]):
        L.append("SURF %d" % i)
        b = ["TYPE STANDARD", "CURV %s 0 0 0 0 \"\"" % g_num(rng, s["c"]), "DISZ %s" % ("INFINITY" if s["d"] is None else g_num(rng, s["d"]))]
        if s["g"]:
            b.append("GLAS %s 0 0 0 0" % s["g"])
        if s["r"] is not None:
            b.append("DIAM %s 1 0 0 1 \"\"" % g_num(rng, s["r"]))
        for x in ("HIDE 0 0 0 0", "MIRR 2 0", "STOP", "COMM some %s" % lens["name"], "", "POPS 0 0 0 1", "COAT EO_VIS0_673"):
            if rng.random() < 0.4:
                b.append(x)
        rng.shuffle(b)
        pad = rng.choice(["  ", "", "\t"])
        L += [pad + x + rng.choice(["", "", " "]) for x in b]
    if rng.random() < 0.5:
        L += ["TOL TOFF 0 0 0 0", "MNUM 1 1", "MOFF 0 1"]
    return lens["nl"].join(L) + (lens["nl"] if lens["end"] else "")


def data(lens):
    t = text(lens)
    e = lens["enc"]
    if e.startswith("utf-16"):
        b = ("\ufeff" + t).encode(e[:9])
    else:
        b = t.encode(e)
    return b


def expected(lens, sf6=False):
    """(surfaces, lens surfaces, elements, wavelength) of the generated lens"""
    f = UNITS[unit_key(lens["unit"])]
    wl = lens["wl"][len(lens["wl"]) // 2]
    rows = []
    for i, s in enumerate(lens["s"]):
        rows.append((i, INF if s["c"] == 0 else 1 / s["c"] * f, INF if s["r"] is None else 2 * s["r"] * f, s["g"],
                     INF if s["d"] is None else s["d"] * f))
    first = next(i for i, r in enumerate(rows) if r[3])
    last = next(i for i, r in enumerate(rows) if i > first and not r[3])
    group = []
    n1 = 1.0
    for r in rows[first:last + 1]:
        n2 = index(r[3], wl, sf6)
        group.append(("i", r[1], n1, n2, r[2]))
        if r[3]:
            group.append(("s", r[4], n2))
        n1 = n2
    return rows, rows[first:last + 1], group, wl


KINDS = ["surfaces", "lens", "group", "prescription", "wavelength", "waves", "raw", "value"]


def g_op(rng, nf):
    k = rng.choices(["open", "ask", "spoil", "both", "replace"], [3, 9, 1.5, 1, 0.8])[0]
    o = {"op": k, "r": rng.randrange(3)}
    if k == "open":
        o["f"] = rng.randrange(nf)
        if rng.random() < 0.5:
            r = rng.random()
            o["fault"] = {"n": rng.choice([1, 2, 3, 4, 5, 6, 7, 8, rng.randint(1, 40), rng.randint(1, 300)]),
                          "kind": rng.choice(["EIO", "EACCES", "ESTALE", "EMFILE", "ENOENT"]) if r < 0.4 else rng.choice(
                              ["interrupt", "nomem", "short", "stall", "hook", "hook"])}
            if rng.random() < 0.4:
                o["fault"]["on"] = rng.choice(["read", "open", "close"])
                o["fault"]["n"] = rng.choice([1, 2, 3])
            if rng.random() < 0.2 and o["fault"]["kind"] in ("EIO", "short"):
                o["fault"]["sticky"] = True
            o["g"] = rng.randrange(nf)
    if k == "ask":
        o["k"] = rng.choice(KINDS)
    if k == "spoil":
        o["k"] = rng.choice(["group", "lens", "surfaces", "waves"])
    if k == "both":
        o["ks"] = [rng.choice(KINDS[:6]) for _ in range(2)]
        o["sched"] = {"seed": rng.getrandbits(31), "gap": rng.choice([3, 10, 40, 200])}
    if k == "replace":
        o["f"], o["g"] = rng.randrange(nf), rng.randrange(nf)
    return o


def generate(rng, tier):
    nf = rng.choice([1, 2, 3])
    files = [g_lens(rng, i) for i in range(nf)]
    for f in files:
        if not unknown(f) and rng.random() < 0.04:
            f["s"][[i for i, s in enumerate(f["s"]) if s["g"]][0]]["g"] = "N-SF6"
    ops = [{"op": "open", "r": 0, "f": 0}] + [g_op(rng, nf) for _ in range(rng.choice([2, 4, 8, 12]))]
    scn = {"files": files, "ops": ops, "buf": rng.choice([16, 512, 8192, 8192]), "cap": rng.choice([None, None, 1, 2, 3, 7, 100])}
    if any(f["long"] or f["pad"] > 5 for f in files) and (scn["cap"] or 99) < 7:
        scn["cap"] = 7
    return scn


# the known finding, always shown: N-SF6 has the indices of another glass
PINNED = [{"files": [{"s": [{"g": None, "c": 0.0, "d": None, "r": 0.0}, {"g": "N-SF6", "c": 0.02, "d": 4.0, "r": 12.7},
                            {"g": None, "c": 0.0, "d": 97.0, "r": 12.7}, {"g": None, "c": 0.0, "d": 0.0, "r": 1.0}],
                      "wl": [0.5876], "pad": 0, "unit": "MM", "enc": "ascii", "nl": "\n", "seed": 1, "end": True, "name": "LENS0", "long": 0}],
           "ops": [{"op": "open", "r": 0, "f": 0}, {"op": "ask", "r": 0, "k": "group"}], "buf": 8192, "cap": None}]


def same(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def execute(scn):
    res = Result()
    w = World(3)
    readers = {}
    asked = [0]
    sched = [None]

    class Bad(Exception):
        pass

    def bad(cls, msg, key=None):
        res.bad(cls, msg, key)
        raise Bad()

    def surf(s):
        n = str(s.mat)
        return (s.number, float(s.R), float(s.diameter), None if n == "Air" else n.replace("_", "").replace("-", "").upper(), float(s.spacing))

    def ask(rd, k):
        if k == "surfaces":
            return [surf(s) for s in rd.surfaces()]
        if k == "lens":
            return [surf(s) for s in rd.lensSurfaces()]
        if k == "group":
            return [elem(e) for e in rd.matrixGroup().elements]
        if k == "prescription":
            return [l.split() for l in rd.prescription().strip().splitlines()]
        if k == "wavelength":
            return float(rd.designWavelength)
        if k == "waves":
            return [float(x) for x in rd.designWavelengths()]
        if k == "raw":
            r = rd.rawSurfaceInfo(1)
            return (r["SURF"], [str(x) for x in r["CURV"]], [str(x) for x in r["DISZ"]])
        if k == "value":
            u = rd.value("UNIT")
            return u if isinstance(u, str) else None

    def try_ask(rd, k, lenses):
        try:
            return ask(rd, k)
        except ValueError:
            if k in GLASSY and any(unknown(scn["files"][l]) for l in lenses):
                return REFUSED
            raise

    def elem(e):
        if type(e).__name__ == "Space":
            return ("s", float(e.L), float(e.frontIndex), float(e.apertureDiameter))
        return ("i", float(e.R), float(e.n1), float(e.n2), float(e.apertureDiameter), float(e.C), float(e.D))

    def rows_equal(got, exp):
        return len(got) == len(exp) and all(a[0] == b[0] and same(a[1], b[1]) and same(a[2], b[2]) and a[3] == (
            None if b[3] is None else b[3].replace("-", "").upper()) and same(a[4], b[4]) for a, b in zip(got, exp))

    def group_equal(got, exp):
        if len(got) != len(exp):
            return False
        for a, b in zip(got, exp):
            if a[0] != b[0] or not all(same(x, y) for x, y in zip(a[1:], b[1:])):
                return False
            if a[0] == "i":
                P = 0.0 if b[1] == INF else -(b[3] - b[2]) / b[3] / b[1]
                if abs(a[5] - P) > 1e-9 or abs(a[6] - b[2] / b[3]) > 1e-9:
                    return False
            elif a[3] != INF:
                return False
        return True

    def right(lens, k, got, sf6=False):
        rows, part, group, wl = expected(lens, sf6)
        if k in GLASSY and (unknown(lens) or got == REFUSED):
            return unknown(lens) and got == REFUSED
        if k == "surfaces":
            return rows_equal(got, rows)
        if k == "lens":
            return rows_equal(got, part)
        if k == "group":
            return group_equal(got, group)
        if k == "prescription":
            if len(got) != len(part) + 1:
                return False
            for g, e in zip(got[1:], part):
                nums = [e[1], e[4], e[2]]
                if len(g) != 4 or any(abs(float(x) - y) > 0.006 + 1e-9 * abs(y) and not float(x) == y for x, y in zip((g[0], g[2], g[3]), nums)):
                    return False
                if (g[1] == "Air") != (e[3] is None):
                    return False
            return True
        if k == "wavelength":
            return same(got, wl)
        if k == "waves":
            return len(got) == len(lens["wl"]) and all(same(a, b) for a, b in zip(got, lens["wl"]))
        if k == "raw":
            s = lens["s"][1]
            return got[0] == 1 and same(float(got[1][0]), s["c"]) and same(float(got[2][0]), INF if s["d"] is None else s["d"])
        if k == "value":
            return got == lens["unit"]

    def check(r, k, msg):
        """the answer must be that of one of the lenses the file had while it was read"""
        rd, lenses = readers[r]
        out = call(w, lambda: ask(rd, k), name="ask %s" % k, limit=30)
        if not out.ok and not (k in GLASSY and isinstance(out.err, ValueError) and any(unknown(scn["files"][l]) for l in lenses)):
            bad("failed", msg + "asking for %s: %r" % (k, out))
        settle(r, k, out.value if out.ok else REFUSED, msg)

    def settle(r, k, got, msg):
        rd, lenses = readers[r]
        asked[0] += 1
        ok = [l for l in lenses if right(scn["files"][l], k, got)]
        if not ok:
            if any(any(s["g"] == "N-SF6" for s in scn["files"][l]["s"]) and right(scn["files"][l], k, got, True) for l in lenses):
                # the rest of the answer is right
                res.bad("glass", msg + "N-SF6 has the index of another glass: %r" % (got,), "glass-N-SF6")
                return
            bad("wrong-lens", msg + "asked for %s, got %r\nexpected %s" % (k, got, [expected(scn["files"][l]) for l in lenses]))
        readers[r] = (rd, ok)

    def name(f):
        return "/simfs/cwd/lens%d.zmx" % f

    def put(f, g):
        w.fs.drop(name(f))
        w.fs.put(name(f), data(scn["files"][g]))

    with w:
        w.buffer_size, w.read_cap = scn["buf"], scn["cap"]
        rt = w.load()
        now = {}
        for f in range(len(scn["files"])):
            put(f, f)
            now[f] = f
        try:
            for no, o in enumerate(scn["ops"]):
                k, r = o["op"], o["r"]
                msg = "op %d %s: " % (no, {a: b for a, b in o.items() if a != "sched"})
                res.probes[k] += 1
                if k == "open":
                    f = o["f"] % len(scn["files"])
                    fault = dict(o["fault"]) if o.get("fault") else None
                    lenses = [now[f]]
                    if fault and fault["kind"] == "hook":
                        g = o["g"] % len(scn["files"])

                        def other(f=f, g=g):
                            w.fired["replaced"] += 1
                            put(f, g)
                            now[f] = g
                            lenses.append(g)
                        fault["do"] = other
                    n0 = sum(w.fired.values())
                    out = call(w, lambda: rt.ZMXReader(name(f)), fault=fault, limit=2000, name="open")
                    hit = sum(w.fired.values()) > n0
                    if out.kind == "hang":
                        bad("never-ends", msg + repr(out))
                    if not out.ok:
                        if not hit and scn["files"][now[f]]["enc"] != "cp1252":
                            bad("refused", msg + "a healthy file could not be read: %r" % out)
                        readers.pop(r, None)
                        continue
                    readers[r] = (out.value, lenses)
                    for q in ("wavelength",) if no % 2 else ():
                        check(r, q, msg)
                    continue
                if k == "replace":
                    f, g = o["f"] % len(scn["files"]), o["g"] % len(scn["files"])
                    put(f, g)
                    now[f] = g
                    continue
                if r not in readers:
                    continue
                if k == "ask":
                    check(r, o["k"], msg)
                elif k == "spoil":
                    rd = readers[r][0]
                    res.probes["spoil " + o["k"]] += 1

                    def spoil():
                        if o["k"] == "group":
                            g = rd.matrixGroup()
                            g.append(rt.Space(d=77))
                            g.elements[0].apertureDiameter = 0.5
                            g.elements[1].L = 123.0
                            g.elements.pop(0)
                        elif o["k"] == "waves":
                            rd.designWavelengths().append(0.3)
                        else:
                            l = rd.surfaces() if o["k"] == "surfaces" else rd.lensSurfaces()
                            l.pop()
                            l.reverse()
                    out = call(w, spoil, name="spoil")
                    if not out.ok and not any(unknown(scn["files"][l]) for l in readers[r][1]):
                        bad("failed", msg + repr(out))
                elif k == "both":
                    rd = readers[r][0]
                    got = []
                    s = sched_of(o, w, max_steps=400000)
                    sched[0] = s
                    for q in o["ks"]:
                        s.spawn(lambda q=q: got.append((q, try_ask(rd, q, readers[r][1]))), q, w.proc)
                    try:
                        s.run()
                    except (Deadlock, StepLimit) as e:
                        bad("stuck", msg + str(e))
                    for t in s.tasks:
                        if t.error is not None:
                            bad("failed", msg + "at the same time: %r" % t.error)
                    for q, v in got:
                        settle(r, q, v, msg)
            for r in sorted(readers):
                for q in ("group", "surfaces", "wavelength", "lens", "prescription", "group"):
                    check(r, q, "at the end, reader %d: " % r)
        except Bad:
            pass
        for e in w.escapes:
            res.bad("escape", "reached outside the simulation: %s" % e)
    res.nontrivial = bool(w.fired) or scn["cap"] is not None or asked[0] > 8
    res.take(w, sched[0])
    return res


def shrink(scn):
    for l in without(scn["ops"]):
        yield replace(scn, ops=l)
    for i, o in enumerate(scn["ops"]):
        if "fault" in o:
            yield replace(scn, ops=scn["ops"][:i] + [{a: b for a, b in o.items() if a != "fault"}] + scn["ops"][i + 1:])
    if len(scn["files"]) > 1:
        yield replace(scn, files=scn["files"][:-1])
    for i, f in enumerate(scn["files"]):
        for k, v in (("enc", "ascii"), ("nl", "\n"), ("unit", "MM"), ("pad", 0), ("long", 0), ("end", True), ("wl", [0.5876])):
            if f[k] != v and not (k == "enc" and not f["name"].isascii()):
                yield replace(scn, files=scn["files"][:i] + [dict(f, **{k: v})] + scn["files"][i + 1:])
        if not f["name"].isascii():
            yield replace(scn, files=scn["files"][:i] + [dict(f, name="LENS")] + scn["files"][i + 1:])
    if scn["cap"]:
        yield replace(scn, cap=None)
    if scn["buf"] != 8192:
        yield replace(scn, buf=8192)
