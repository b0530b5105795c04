"""Which spec modules / rule modules decide which property, and which kinds of report count for it."""
# kinds that speak about storage/lifetime only; everything else is a semantic deviation
LIFE = {"leak", "uaf", "life", "bounds", "free", "null", "alloc", "uninit"}
ONLY = {}          # property -> set of kinds (None: semantic default)
for p in ("L01", "L02", "L03", "L04", "L05"):
    ONLY[p] = LIFE
ONLY["A04"] = {"reloc"}
ONLY["A05"] = {"align"}
ONLY["K01"] = {"const"}
SPECIAL = {"leak", "reloc", "align", "const"}
WITH_LEAKS = {"I01", "S01", "S02", "T01", "D02", "P01", "P02", "P03", "P04", "K02"}   # lifetime is part of the statement of these


def counts(prop, kind):
    if prop in ONLY:
        return kind in ONLY[prop]
    return kind not in SPECIAL or (kind == "leak" and prop in WITH_LEAKS)


# property -> (engine spec modules, rule modules)
ND = ["arraynd", "fixed"]
PROPS = {
    "A01": (["array1d", "fixed"], []),
    "A02": (["array1d", "fixed"], []),
    "A03": (["array1d"], []),
    "C01": (["array1d", "fixed"], []),
    "C02": (["array1d"], []),
    "L01": (["array1d", "fixed"], []),
    "V01": (["array1d", "fixed"], []),
    "A05": (["array1d", "arraynd"], []),
    "A06": (ND, []),
    "C03": (ND, []),
    "C04": (["arraynd"], []),
    "M01": (ND, []),
    "V02": (ND, []),
    "L02": (ND, []),
    "N01": ([], ["safearith"]),
    "B01": (["blas", "smallalg"], []),
    "B02": (["solve"], []),
    "B03": (["smallalg"], []),
    "G01": (["algo"], []),
    "H01": (["hashmap"], []),
    "H02": (["hashmap"], []),
    "H03": (["hashmap"], []),
    "H04": (["hashmap"], []),
    "D01": (["deque"], []),
    "L03": (["hashmap", "deque"], []),
    "X01": (["ilstring"], []),
    "X02": (["ilstr2"], []),
    "X03": (["ilstring"], []),
    "X04": (["ilstr2"], []),
    "H05": (["ilstr2"], []),
    "L04": (["ilstring", "ilstr2"], []),
    "U01": ([], ["headers"]),
    "U02": ([], ["expects"]),
    "R01": ([], ["typestate"]),
    "R02": ([], ["typestate"]),
    "R03": (["info"], []),
    "I01": (["info"], []),
    "S01": (["structured"], []),
    "S02": (["structured"], []),
    "T01": (["tree"], []),
    "N02": (["mathfn"], []),
    "D02": (["dyn"], []),
    "P01": (["pack"], []),
    "P02": (["toml"], []),
    "P03": (["toml"], []),
    "P04": (["binfile"], []),
    "K02": (["rci"], []),
}
