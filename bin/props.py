"""What each property's check runs.

suites: (suite of the harness, quick scale, thorough scale, scope of Trace.tla)
models: (module, cfg, environment for quick, environment for thorough,
         scope under which its behaviours are replayed or None)
proofs: modules whose theorems tlapm checks, in the thorough tier
ea:     also against a build that sizes Enhanced Allocation entries by content
"""


def group(caps="", ecaps="", long="", q=9, t=30):
    s = []
    if caps:
        s += [("caps:" + caps, q, t, "data"), ("trunc:" + caps, 6, 60, "data")]
    if ecaps:
        s += [("ecaps:" + ecaps, q, t, "data"), ("etrunc:" + ecaps, 4, 30, "data")]
    if long:
        s += [("elong:" + long, 3, 30, "data")]
    return s


def walk(kind, slots, deep, clones):
    return dict(KIND=kind, SLOTS=str(slots), DEEP=str(deep), CLONES=str(clones))


LAWS = ("Laws", "Laws.cfg", {}, {}, None)
CAP = ("WalkMC", "WalkMC.cfg", walk("cap", 3, 0, 0), walk("cap", 3, 1, 0), "walk")
ECAP = ("WalkMC", "WalkMC.cfg", walk("ecap", 3, 0, 0), walk("ecap", 3, 1, 0), "walk")
CAP_LIVE = ("WalkMC", "WalkLive.cfg", walk("cap", 2, 0, 0), walk("cap", 2, 1, 1), None)
ECAP_LIVE = ("WalkMC", "WalkLive.cfg", walk("ecap", 2, 0, 0), walk("ecap", 2, 1, 1), None)
CAP_CLONE = ("WalkMC", "WalkMC.cfg", walk("cap", 2, 0, 1), walk("cap", 2, 1, 1), "walk")
ECAP_CLONE = ("WalkMC", "WalkMC.cfg", walk("ecap", 2, 0, 1), walk("ecap", 2, 1, 1), "walk")

def content(quick, deep, scope):
    return ("IterMC", "IterMC.cfg", dict(MOST=str(quick)), dict(MOST=str(deep)), scope)


ITER_LIVE = ("IterMC", "IterLive.cfg", dict(MOST="2"), dict(MOST="3"), None)


def eq(m):
    return m[:4] + ("eq",)


def bar(layout):
    return ("BarMC", "BarMC.cfg", dict(LAYOUT=str(layout), DEEP="0"), dict(LAYOUT=str(layout), DEEP="1"), "bars")


def form(what, scope="data"):
    return ("FormMC", "FormMC.cfg", dict(WHAT=what, DEEP="0"), dict(WHAT=what, DEEP="1"), scope)


PROPS = {
    "C01": dict(suites=[("soup", 16, 120, "total"), ("allcaps", 4, 20, "total"), ("allecaps", 3, 14, "total"),
                        ("trunc", 4, 30, "total"), ("etrunc", 3, 16, "total"), ("header", 2, 20, "total"),
                        ("caplinks", 2, 20, "total"), ("ecaplinks", 2, 20, "total"), ("conv", 1, 4, "total"),
                        ("elong:2,5,8,9,11,13,23,35", 4, 30, "total"), ("iters", 4, 40, "total"),
                        ("scripts", 2, 20, "total"), ("clones", 2, 20, "total"), ("oversize", 4, 40, "total")],
                models=[]),
    "C02": dict(suites=[("caplinks", 20, 150, "walk"), ("soup", 4, 30, "walk"), ("allcaps", 4, 10, "walk")], models=[CAP], proofs=["WalkProof"]),
    "C03": dict(suites=[("ecaplinks", 16, 120, "walk"), ("soup", 4, 30, "walk"), ("allecaps", 2, 6, "walk")], models=[ECAP], proofs=["WalkProof"]),
    "C04": dict(suites=[("caplinks", 12, 100, "walk"), ("ecaplinks", 8, 80, "walk")],
                models=[CAP, ECAP, CAP_LIVE, ECAP_LIVE], proofs=["WalkProof"]),
    "C05": dict(suites=[("locality", 40, 250, "data"), ("places", 1, 12, "data"), ("pairs", 1, 10, "data")], models=[]),
    "C06": dict(suites=[("trunc", 24, 150, "errors"), ("etrunc", 12, 70, "errors"), ("soup", 3, 30, "errors")], models=[form("all", "errors")]),
    "C07": dict(suites=[("clones", 14, 120, "walk"), ("allecaps", 3, 8, "iter"), ("allcaps", 3, 8, "iter"), ("bars", 2, 8, "iter"),
                        ("elong:2,5,8,9,13,21,25,26", 2, 16, "iter"), ("iters", 4, 40, "iter"), ("scripts", 6, 80, "iter"), ("together", 6, 60, "walk"), ("apart", 6, 60, "all")],
                models=[CAP_CLONE, ECAP_CLONE, content(3, 4, "walk"), ITER_LIVE]),
    "C08": dict(suites=[("ids", 2, 2, "walk"), ("ids", 2, 2, "data"), ("pairs", 1, 6, "data"), ("pairs", 1, 6, "walk")], models=[]),
    "C09": dict(suites=[("header", 30, 250, "header")], models=[LAWS]),
    "C10": dict(suites=[("bars", 16, 150, "bars"), ("header", 4, 30, "bars"), ("ecaps:16", 9, 40, "bars"), ("iters:bar", 10, 60, "all")],
                models=[bar(0), bar(1), bar(2)]),
    "C11": dict(suites=[("windows", 16, 150, "windows"), ("header", 4, 30, "windows")], models=[LAWS]),
    "C12": dict(suites=[("class", 1, 1, "all"), ("conv", 1, 1, "all")], models=[]),
    "C13": dict(suites=group("1,2,3,4,10,13,18,19", q=700, t=6000), models=[form("basic")]),
    "C14": dict(suites=group("5,17", q=2500, t=20000), models=[form("msi")]),
    "C15": dict(suites=group("16", q=500, t=4000), models=[form("pcie")]),
    "C16": dict(suites=group("8", q=3000, t=25000), models=[form("ht")]),
    "C17": dict(suites=group("7,21", q=1000, t=8000), models=[form("bridge")]),
    "C18": dict(suites=group("20", q=24, t=80) + [("iters:ea", 8, 80, "all")],
                models=[("EaMC", "EaMC.cfg", dict(DEEP="0"), dict(DEEP="1"), "data")], ea=True),
    "C19": dict(suites=group("9", "11,35", "11,35", q=250, t=2000) + [("ecaps:35", 500, 4000, "data")], models=[form("vendor")]),
    "C20": dict(suites=group("", "1,13,29", "13", q=10) + [("iters:ecv", 4, 40, "all")], models=[form("error")]),
    "C21": dict(suites=group("", "2,8,9", "2,8,9", q=9) + [("iters:vat,pat,fat,evc", 4, 40, "all")],
                models=[("VcMC", "VcMC.cfg", dict(DEEP="0"), dict(DEEP="1"), "data")]),
    "C22": dict(suites=group("", "3,4,6,7,10,12,14,15,19,24,27,28,30,31,32,33,34", q=160, t=1500), models=[form("simple")]),
    "C23": dict(suites=group("", "16,18,21,36", "21,36", q=9) + [("iters:rebar", 4, 40, "all")], models=[form("resources")]),
    "C24": dict(suites=group("", "5,22,23,25,26", "5,22,23,25,26", q=9) + [("iters:le,pmux,lanes", 4, 40, "all")], models=[form("lists")]),
    "C25": dict(suites=[("conv", 4, 4, "all"), ("header", 6, 40, "raw"), ("bars", 4, 40, "raw"), ("windows", 4, 30, "raw"),
                        ("caps:8", 9, 30, "raw"), ("ecaps:5,8,16,24,26,30", 9, 20, "raw")], models=[LAWS]),
    "C26": dict(suites=[("caps:1,5,7,8,16,18", 9, 40, "derived"), ("ecaps:2,4,21,24,29,30,34,36", 9, 24, "derived"),
                        ("conv", 1, 4, "all")], models=[]),
    "C27": dict(suites=[("context", 40, 300, "data"), ("context", 10, 60, "walk")], models=[], ea=True),
    "C29": dict(suites=[("sizes", 1, 1, "all"), ("conv", 1, 1, "derived")], models=[LAWS]),
    "C30": dict(suites=[("alone", 90, 600, "data")], models=[LAWS], ea=True),
    "C31": dict(suites=[("order", 1, 1, "all")], models=[LAWS]),
    "C28": dict(suites=[("equality", 12, 120, "all"), ("clones", 4, 40, "eq"), ("scripts", 6, 60, "eq")],
                models=[eq(CAP_CLONE), eq(ECAP_CLONE), content(2, 4, "eq")], ea=True),
}
