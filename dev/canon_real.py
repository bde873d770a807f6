"""development aid: run programs with the real library (never used by a check)"""
import json, sys, math, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, "/repo")
import numpy as np, pandas as pd, staircase as sc
from staircase.core.arrays.extension import StairsArray

H = 3600 * 10**9

def helpers(kind):
    if kind == "num": T = lambda k: k; D = lambda k: k
    elif kind == "ts": T = lambda k: pd.Timestamp(int(k * H)); D = lambda k: pd.Timedelta(int(k * H))
    elif kind == "tz": T = lambda k: pd.Timestamp(int(k * H), tz="Asia/Tokyo"); D = lambda k: pd.Timedelta(int(k * H))
    else: T = lambda k: pd.Timedelta(int(k * H)); D = lambda k: pd.Timedelta(int(k * H))
    return T, D

def num(v):
    v = float(v)
    if v != v: return "nan"
    if math.isinf(v): return "inf" if v > 0 else "-inf"
    return round(v, 7) + 0.0

def c(v):
    if v is pd.NaT: return "nan"
    if v is None: return None
    if isinstance(v, (bool, np.bool_, int, float, np.number)) and not isinstance(v, np.timedelta64): return num(v)
    if isinstance(v, str): return v
    if isinstance(v, pd.Timestamp): return ["ts", round(v.value / H, 7), None if v.tz is None else str(v.tz)]
    if isinstance(v, pd.Timedelta): return ["td", round(v.value / H, 7)]
    if isinstance(v, np.datetime64): return c(pd.Timestamp(v))
    if isinstance(v, np.timedelta64): return c(pd.Timedelta(v))
    if isinstance(v, pd.Interval): return ["iv", c(v.left), c(v.right), v.closed]
    if isinstance(v, sc.Stairs):
        return ["stairs", c(v.to_frame()), v.closed, v.number_of_steps]
    if type(v).__name__ in ("Inf", "NegInf"): return "inf" if type(v).__name__ == "Inf" else "-inf"
    if isinstance(v, pd.Series): return ["ser", [c(x) for x in v.index], [c(x) for x in v]]
    if isinstance(v, pd.Index): return ["idx", [c(x) for x in v]]
    if isinstance(v, StairsArray): return ["arr", [c(x) for x in v]]
    if isinstance(v, np.ndarray) and v.ndim == 0: return num(v)
    if isinstance(v, np.ndarray): return ["arr", [c(x) for x in v]]
    if isinstance(v, pd.DataFrame): return ["df", [c(x) for x in v.index], [[str(k) if not isinstance(k, (pd.Timestamp, pd.Timedelta)) else c(k), [c(x) for x in v[k]]] for k in v.columns]]
    if isinstance(v, (list, tuple)): return [c(x) for x in v]
    if isinstance(v, dict): return [[c(k), c(x)] for k, x in v.items()]
    return "?" + type(v).__name__

def run(prog):
    T, D = helpers(prog["kind"])
    env = {"pd": pd, "np": np, "sc": sc, "Stairs": sc.Stairs, "T": T, "D": D, "nan": np.nan, "inf": np.inf}
    out = []
    for s in prog["stmts"]:
        try:
            exec(s, env); out.append(None)
        except Exception as e:
            out.append(["EXC", type(e).__name__])
    for s in prog["exprs"]:
        try:
            out.append(c(eval(s, env)))
        except Exception as e:
            out.append(["EXC", type(e).__name__])
    return out

if __name__ == "__main__":
    progs = json.load(open(sys.argv[1]))
    json.dump([run(p) for p in progs], open(sys.argv[2], "w"))
