"""Command line: python3 -m sa.run C01 [--tier quick|thorough] [--only PREFIX] [-v]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import ctx as C
from . import interp, scene
from .ctx import Undecided, HoleDecision, Infeasible
from .scene import Refuted, Scene, Skip
from .values import PyRaise, Exc, is_nan

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")


class Ob:
    """one obligation: body(scene) returns normally when it holds on the path"""
    __slots__ = ("oid", "body", "kind", "closed", "max_paths", "rule", "expect")

    def __init__(self, oid, body, kind="num", closed="left", max_paths=600, rule=""):
        self.oid, self.body, self.kind, self.closed, self.max_paths, self.rule = oid, body, kind, closed, max_paths, rule


_U = None


def universe():
    global _U
    if _U is None or _U.dirty:
        c = C.Ctx()
        c.max_steps = 10 ** 9
        C.set_ctx(c)
        _U = interp.Universe()
        _U.start()
    _U.frames = []
    _U.depth = 0
    _U.stubs = {}
    return _U


class Out(Exception):
    def __init__(self, kind, data):
        self.kind, self.data = kind, data


def exc_name(e):
    ex = e.exc
    return ex.name if isinstance(ex, Exc) else ex.cls.name


def run_body(ob, cx, check_operands=False):
    U = universe()
    C.set_ctx(cx)
    U.covered = {}
    s = Scene(U, cx, ob.kind, ob.closed)
    s.check_operands = check_operands
    try:
        ob.body(s)
        return "holds", None, U.covered
    except Refuted as r:
        return "refuted", dict(rule=r.rule, msg=r.msg, **r.info), U.covered
    except PyRaise as e:
        return "refuted", dict(rule="raises", msg=f"raises {exc_name(e)}: {getattr(e.exc, 'args', None) or (e.exc.d.get('args') if hasattr(e.exc, 'd') else '')!r}",
                               site=getattr(e, "site", None) or []), U.covered
    except Skip as k:
        return "skip", str(k), U.covered
    finally:
        if U.dirty:
            global _U
            _U = None


def fmt_env(env):
    return {k: str(v) for k, v in sorted(env.items())}


def run_ob(ob, deadline):
    """explore every member of the partition; -> summary dict"""
    res = dict(oid=ob.oid, holds=0, refuted=[], undecided={}, infeasible=0, skipped=0, paths=0, unconfirmed=0, lines={})
    for cx, (kind, val) in C.explore(lambda c: run_body(ob, c), ob.max_paths):
        if kind == "infeasible":
            res["infeasible"] += 1
            continue
        if kind == "budget":
            res["undecided"]["partition budget: " + val] = res["undecided"].get("partition budget: " + val, 0) + 1
            break
        res["paths"] += 1
        if kind == "undecided":
            res["undecided"][val[:160]] = res["undecided"].get(val[:160], 0) + 1
        else:
            verdict, info, cov = val
            for q, ls in cov.items():
                res["lines"].setdefault(q, set()).update(ls)
            if verdict == "holds":
                res["holds"] += 1
            elif verdict == "skip":
                res["skipped"] += 1
            elif len(res["refuted"]) < 3:
                env = cx.witness()
                if env is None:
                    res["unconfirmed"] += 1
                else:
                    # was the operand itself what the scenario intended?
                    prefix = [c for _, c in cx.trace]
                    c2 = C.Ctx(prefix)
                    C.set_ctx(c2)
                    try:
                        v2, i2, _ = run_body(ob, c2, True)
                    except (Undecided, HoleDecision, Infeasible):
                        v2 = "refuted"
                    if v2 == "skip":
                        res["skipped"] += 1
                        continue
                    res["refuted"].append(dict(info, oid=ob.oid, partition=[f"{d}: {o}" for d, o in cx.decided], witness=fmt_env(env),
                                               functions=sorted(cov), lines={q: sorted(l) for q, l in cov.items()}))
            else:
                env = None
        if time.time() > deadline:
            res["undecided"]["time budget"] = 1
            break
    return res


_OBS = None


_LIMIT = 60


def _work(args):
    i, deadline = args
    ob = _OBS[i]
    t = time.time()
    try:
        r = run_ob(ob, min(deadline, time.time() + _LIMIT))
    except RecursionError:
        r = dict(oid=ob.oid, holds=0, refuted=[], undecided={"analysis recursion": 1}, infeasible=0, skipped=0, paths=1, unconfirmed=0, lines={})
        global _U
        _U = None
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
        r = dict(oid=ob.oid, holds=0, refuted=[], undecided={"analysis gap: %s %s" % (type(e).__name__, str(e)[:120]): 1}, infeasible=0, skipped=0, paths=1,
                 unconfirmed=0, lines={})
        _U = None
    r["t"] = time.time() - t
    return i, r


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: "):
                d = dict(kv.split("=", 1) for kv in line[7:].split(" :: ")[0].split() if "=" in kv)
                d["text"] = line.split(" :: ", 1)[1] if " :: " in line else ""
                if d.get("property") == prop:
                    out.append(d)
    return out


def matches(k, r):
    return r["oid"].startswith(k.get("obligation", "\0")) and (k.get("rule") is None or k["rule"] == r["rule"])


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("-j", type=int, default=int(os.environ.get("SA_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--budget", type=float, default=None)
    a = ap.parse_args(argv)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    budget = a.budget or (240 if a.tier == "quick" else 800)
    mod = importlib.import_module(f"sa.props.{a.prop}")
    wide = importlib.import_module("sa.props.wide")
    derived = importlib.import_module("sa.props.derived")
    global _OBS, _LIMIT
    _LIMIT = 60 if a.tier == "quick" else 300
    _OBS = list(mod.obligations(a.tier)) + list(wide.of(a.prop, a.tier)) + list(derived.of(a.prop, a.tier))
    ids = set()
    for o in _OBS:
        if o.oid in ids:
            o.oid = None
            continue
        ids.add(o.oid)
    _OBS = [o for o in _OBS if o.oid is not None]
    if a.only:
        _OBS = [o for o in _OBS if o.oid.startswith(a.only)]
    # the package must load in the abstract domain at all
    load_error = None
    try:
        universe()
    except (PyRaise, Undecided, HoleDecision, SyntaxError) as e:
        load_error = f"{type(e).__name__}: {getattr(e, 'exc', None) or e}"
    results = []
    if load_error is None:
        deadline = t0 + budget
        order = sorted(range(len(_OBS)), key=lambda i: (hash_(_OBS[i].oid)))
        with mp.get_context("fork").Pool(a.j) as pool:
            for i, r in pool.imap_unordered(_work, [(i, deadline) for i in order], chunksize=max(1, min(8, len(order) // (a.j * 8) or 1))):
                results.append(r)
    finish(a, mod, results, load_error, t0)


def path_of(q):
    return q.split(":")[0].replace(".", "/") + ".py"


def suspects(results, fresh, n=3):
    """statements ranked by how much of the refuted and how little of the discharged obligations pass through them"""
    bad, good = {}, {}
    for x in fresh:
        for q, ls in x["lines"].items():
            for l in ls:
                bad[q, l] = bad.get((q, l), 0) + 1
    for r in results:
        if not r["refuted"] and r["holds"]:
            for q, ls in r["lines"].items():
                for l in ls:
                    good[q, l] = good.get((q, l), 0) + 1
    score = {k: b / (len(fresh) * (b + good.get(k, 0))) ** 0.5 for k, b in bad.items()}
    by = {}
    for (q, l), v in score.items():
        if v > by.get(q, (0, None))[0]:
            by[q] = (v, [l])
        elif v == by.get(q, (0, None))[0]:
            by[q][1].append(l)
    for q, (v, ls) in sorted(by.items(), key=lambda kv: -kv[1][0])[:n]:
        ls.sort()
        k = q, ls[0]
        yield (f"{path_of(q)}:{','.join(map(str, ls[:4]))} in {q.split(':')[1]}",
               f"on the path of {bad[k]} refuted and {good.get(k, 0)} discharged obligations' members")


def hash_(s):
    import zlib
    return zlib.crc32(s.encode())


def finish(a, mod, results, load_error, t0):
    prop = a.prop
    results.sort(key=lambda r: r["oid"])
    refuted = [x for r in results for x in r["refuted"]]
    known = known_findings(prop)
    fresh, seen_known = [], {}
    for x in refuted:
        k = next((k for k in known if matches(k, x)), None)
        if k is None:
            fresh.append(x)
        else:
            seen_known.setdefault(k["text"], []).append(x)
    lines = {}
    und = {}
    for r in results:
        for q, l in r["lines"].items():
            lines.setdefault(q, set()).update(l)
        for k, n in r["undecided"].items():
            und[k] = und.get(k, 0) + n
    tot = dict(obligations=len(results), partition_members=sum(r["paths"] for r in results), discharged_members=sum(r["holds"] for r in results),
               empty_members=sum(r["infeasible"] for r in results), skipped_members=sum(r["skipped"] for r in results),
               unconfirmed_members=sum(r["unconfirmed"] for r in results), undecided_members=sum(und.values()),
               obligations_fully_discharged=sum(1 for r in results if r["holds"] and not r["refuted"] and not r["undecided"] and not r["unconfirmed"] and not r["skipped"]),
               obligations_with_undecided=sum(1 for r in results if r["undecided"]),
               obligations_refuted=sum(1 for r in results if r["refuted"]),
               functions_analysed=len([q for q in lines if not q.split(":")[1].startswith("_decor")]), statements_analysed=sum(len(v) for v in lines.values()))
    os.makedirs(EVID, exist_ok=True)
    if a.v:
        for r in results:
            st = "REFUTED" if r["refuted"] else "UNDEC" if r["undecided"] else "ok" if r["holds"] else "none"
            print(f"{st:8} {r['oid']} holds={r['holds']} paths={r['paths']} inf={r['infeasible']} skip={r['skipped']} unconf={r['unconfirmed']} t={r['t']:.2f} {dict(list(r['undecided'].items())[:2]) or ''}")
    fams = {}
    for r in results:
        f = r["oid"].split("/")[0] + "/" + (r["oid"].split("/")[1] if "/" in r["oid"] else "")
        e = fams.setdefault(f, dict(obligations=0, discharged_members=0, undecided=0, refuted=0))
        e["obligations"] += 1
        e["discharged_members"] += r["holds"]
        e["undecided"] += sum(r["undecided"].values())
        e["refuted"] += len(r["refuted"])
    ev = dict(property=prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other",
              coverage=dict(explanation=mod.EXPLAIN, rule=getattr(mod, "RULE", ""), **tot, families=fams,
                            undecided_reasons=dict(sorted(und.items(), key=lambda kv: -kv[1])[:25]),
                            functions={q: len(l) for q, l in sorted(lines.items())},
                            known_findings=list(seen_known), violations=len(fresh)),
              wall_s=round(time.time() - t0, 2))
    if not a.only:
        with open(os.path.join(EVID, prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, sort_keys=True)
            fh.write("\n")
    print(f"{prop}: {tot['obligations']} obligations, {tot['partition_members']} partition members: {tot['discharged_members']} discharged, "
          f"{tot['undecided_members']} undecided, {tot['unconfirmed_members']} unconfirmed, {tot['skipped_members']} skipped, {len(refuted)} refuted; "
          f"{tot['functions_analysed']} functions, {tot['statements_analysed']} statements; {time.time() - t0:.1f}s")
    for text in seen_known:
        print(f"KNOWN-FINDING: property={prop} {text}")
    if load_error:
        print(f"the package cannot be analysed: {load_error}")
        sys.exit(2)
    if fresh:
        for where, why in suspects(results, fresh):
            print(f"  suspect construct: {where} ({why})")
        groups = {}
        for x in fresh:
            groups.setdefault((x["oid"].split("/")[0:2][-1], x["rule"]), x)
        for n, ((fam, rule), x) in enumerate(list(groups.items())[:8]):
            path = os.path.join(EVID, f"replay-{prop}-{n}.json")
            with open(path, "w") as fh:
                json.dump(x, fh, indent=1, sort_keys=True, default=str)
                fh.write("\n")
            print(f"  [{x['oid']}] {x['rule']}: {x['msg']}")
            if x.get("site"):
                print("     at " + " <- ".join(reversed(x["site"])))
            print("     through " + ", ".join(f"{path_of(q)}:{min(l)}-{max(l)} {q.split(':')[1]}" for q, l in list(x["lines"].items())[:12]))
            print("     partition: " + "; ".join(x["partition"][:12]))
            print("     witness: " + ", ".join(f"{k}={v}" for k, v in x["witness"].items()))
            print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    if not results or tot["discharged_members"] == 0:
        print("nothing could be decided")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
