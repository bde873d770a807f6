"""development aid: run the same programs through the abstract interpreter with constants"""
import json, sys, math, ast, os
sys.path.insert(0, "/verif")
from fractions import Fraction
from sa import interp, ctx, values, models, vec
from sa.values import *
from sa.vec import *
from sa.terms import num as mk
H_ = 3600 * 10**9

def num(v):
    if isinstance(v, Num):
        v = ctx.cur().norm(v)
        if v.is_const(): v = v.const()
        else:
            return ev_fn(v)
    v = float(v)
    if v != v: return "nan"
    if math.isinf(v): return "inf" if v > 0 else "-inf"
    return round(v, 7) + 0.0

def ev_fn(v):
    # sqrt atoms
    s = repr(v)
    if "sqrt[" in s:
        import re
        def pe(p):
            t = 0.0
            for m, c in p.t.items():
                x = float(c)
                for a, e in m:
                    if a in values.SQRT:
                        x *= float(values.SQRT[a].const()) ** (.5*e)
                    else: return None
                t += x
            return t
        try:
            return num(pe(v.n) / pe(v.d))
        except Exception as e:
            return "?" + s
    return "?" + s

def c(I, v):
    if v is None: return None
    if isinstance(v, (Unknown, TopH)): return "??" + repr(v)
    if is_number(v): return num(v)
    if isinstance(v, str): return v
    if isinstance(v, Lab):
        x = num(I.scalar_binop("/", Num(v.x.n, v.x.d, "py"), H_))
        return ["ts", x, v.tz] if v.kind == "ts" else ["td", x]
    if isinstance(v, Iv): return ["iv", c(I, v.left), c(I, v.right), v.closed]
    if isinstance(v, Inst):
        if v.cls.name == "Inf": return "inf"
        if v.cls.name == "NegInf": return "-inf"
        if v.cls.name == "StairsArray": return ["arr", [c(I, x) for x in I.iterate(v)]]
        if v.cls.has("to_frame"):
            return ["stairs", c(I, I.call(I.getattr(v, "to_frame"), [], {})), I.getattr(v, "closed"), c(I, I.getattr(v, "number_of_steps"))]
    if isinstance(v, Ser): return ["ser", [c(I, x) for x in v.idx.vals], [c(I, x) for x in (I.iterate(v) )]]
    if isinstance(v, Idx): return ["idx", [c(I, x) for x in v.vals]]
    if isinstance(v, Arr): return ["arr", [c(I, x) for x in v.vals]]
    if isinstance(v, Arr2): return ["arr", [["arr", [c(I, x.v) for x in r]] for r in v.rows]]
    if isinstance(v, DF):
        from sa.pdm import cn_out
        return ["df", [c(I, x) for x in v.idx.vals], [[(lambda q: ('[%g, %g)' % (q[1],q[2]) if q[3]=='left' else '(%g, %g]'%(q[1],q[2])) if isinstance(q, list) and q[0]=='iv' else q if isinstance(q, list) else str(int(q) if isinstance(q, float) and q == int(q) else q))(c(I, cn_out(k))), [c(I, x.v) for x in v.cols[k][0]]] for k in v.cols]]
    if isinstance(v, (PyList,)): return [c(I, x) for x in v.v]
    if isinstance(v, tuple): return [c(I, x) for x in v]
    if isinstance(v, PyDict): return [[c(I, k), c(I, x)] for k, x in v.d.values()]
    return "?" + type(v).__name__

def run(prog, U=None):
    cx = ctx.Ctx(); ctx.set_ctx(cx); cx.max_steps = 10**8
    if U is None or U.dirty:
        U = interp.Universe(); U.start()
    kind = prog["kind"]
    def hx(k): return U.scalar_binop("*", k, H_)
    def fT(I, k):
        if kind == "num": return k
        x = to_num(hx(k))
        return Lab("td", x) if kind == "td" else Lab("ts", x, "Asia/Tokyo" if kind == "tz" else None)
    def fD(I, k):
        return k if kind == "num" else Lab("td", to_num(hx(k)))
    m = Module("prog")
    st = U.modules["staircase"]
    m.d.update({"sc": st, "Stairs": st.d["Stairs"], "T": ExtFunc("T", fT), "D": ExtFunc("D", fD), "nan": NAN, "inf": INF, "__name__": "prog"})
    fr = interp.Frame(None, m); fr.vars = m.d
    U.frames = [fr]
    U.exec_block(ast.parse("import pandas as pd\nimport numpy as np").body, fr)
    out = []
    undec = False
    for s in prog["stmts"]:
        U.frames = [fr]; U.depth = 0
        try:
            U.exec_block(ast.parse(s).body, fr); out.append(None)
        except PyRaise as e:
            ex = e.exc
            out.append(["EXC", ex.name if isinstance(ex, Exc) else ex.cls.name])
        except (ctx.Undecided, ctx.HoleDecision) as e:
            out.append(["UNDEC", repr(e)])
    for s in prog["exprs"]:
        U.frames = [fr]; U.depth = 0
        try:
            out.append(c(U, U.ev(ast.parse(s, mode="eval").body, fr)))
        except PyRaise as e:
            ex = e.exc
            out.append(["EXC", ex.name if isinstance(ex, Exc) else ex.cls.name])
        except (ctx.Undecided, ctx.HoleDecision) as e:
            out.append(["UNDEC", repr(e)])
    return out, U

if __name__ == "__main__":
    from concurrent.futures import ProcessPoolExecutor
    progs = json.load(open(sys.argv[1]))
    def chunk(ps):
        U = None; res = []
        for p in ps:
            try:
                o, U = run(p, U)
            except Exception as e:
                import traceback
                o = ["CRASH", traceback.format_exc()[-900:]]; U = None
            res.append(o)
        return res
    import multiprocessing as mp
    n = 8
    with mp.get_context("fork").Pool(n) as pool:
        rs = pool.map(chunk, [progs[i::n] for i in range(n)])
    out = [None] * len(progs)
    for i in range(n):
        for j, r in enumerate(rs[i]): out[i + j * n] = r
    json.dump(out, open(sys.argv[2], "w"))
