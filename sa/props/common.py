"""shapes shared by the properties"""
from ..run import Ob
from ..scene import *

PAT = {
    0: ["S", "N"],
    1: ["SS", "SN", "NS"],
    2: ["SSS", "SSN", "SNS", "NSS", "NSN"],
    3: ["SSSS", "SSSN", "SSNS", "SNSS", "NSSS", "NSNS", "SNSN", "NSSN"],
}

# domain kind and closed side combinations other than plain left-closed numbers
VARIANTS = [("num", "right"), ("int", "left"), ("ts", "left"), ("ts", "right"), ("tz", "left"), ("td", "left"), ("td", "right"), ("tz", "right"),
            ("int", "right")]


def unary_shapes(maxn=2, minn=0):
    """(pattern, points)"""
    for n in range(minn, maxn + 1):
        for p in PAT[n]:
            yield p, tuple(range(n))


def subsets(axis):
    out = [()]
    for a in axis:
        out += [s + (a,) for s in out]
    return sorted(out, key=lambda s: (len(s), s))


def binary_shapes(axis=(0, 1)):
    for sf in subsets(axis):
        for sg in subsets(axis):
            u = sorted(set(sf) | set(sg))
            if u != list(range(len(u))):
                continue        # same order type as a smaller one
            for pf in PAT[len(sf)]:
                for pg in PAT[len(sg)]:
                    yield (pf, sf), (pg, sg)


def forms(pat, n):
    if n == 0:
        return ["C"]
    if "N" in pat:
        return ["V", "VB", "M"]
    return ["V", "VB", "L", "LB", "S"]


def form1(shape):
    """one form with both internal columns reachable"""
    return forms(shape[0], len(shape[1]))[0]


def sid(shape):
    p, pts = shape
    return p + ("@" + "".join(map(str, pts)) if pts else "")


def vid(v):
    return f"{v[0]}-{v[1]}"


# representative shapes for cross products with many options
REP1 = [("SS", (0,)), ("SSS", (0, 1)), ("SNS", (0, 1)), ("NSN", (0, 1)), ("S", ()), ("N", ())]
REP2 = [
    (("SSS", (0, 1)), ("SS", (1,))),
    (("SS", (0,)), ("SSS", (0, 1))),
    (("SSN", (0, 1)), ("NSS", (0, 1))),
    (("SNS", (0, 1)), ("SS", (0,))),
    (("NSS", (0, 1)), ("SN", (1,))),
    (("SS", (0,)), ("S", ())),
    (("S", ()), ("SNS", (0, 1))),
    (("SN", (0,)), ("S", ())),
    (("N", ()), ("SS", (0,))),
    (("S", ()), ("S", ())),
]
