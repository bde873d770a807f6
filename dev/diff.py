import json, sys, collections
P = json.load(open(sys.argv[1])); A = json.load(open(sys.argv[2])); R = json.load(open(sys.argv[3]))
show = int(sys.argv[4]) if len(sys.argv) > 4 else 6
def close(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))
    return a == b
n = bad = und = crash = 0
cnt = collections.Counter()
for p, a, r in zip(P, A, R):
    if a and a[0] == "CRASH":
        crash += 1
        if crash <= show: print("CRASH", p, a[1])
        continue
    src = p["stmts"] + p["exprs"]
    for i, (x, y) in enumerate(zip(a, r)):
        n += 1
        if close(x, y): continue
        js = json.dumps(x)
        if "UNDEC" in js or '"??' in js or '"?' in js:
            und += 1
            if isinstance(x, list) and x and x[0] == "UNDEC": cnt[x[1][:70]] += 1
            else: cnt["top " + js[:60]] += 1
            if len(sys.argv) > 5: print("UND", json.dumps(x)[:200], src[i], p["kind"])
            break
        bad += 1
        if bad <= show:
            print("MISMATCH", p["kind"]); print("   ", *src[:i + 1], sep="\n    "); print("  abs ", x); print("  real", y)
        break
print("n", n, "bad", bad, "undecided", und, "crash", crash)
for k, v in cnt.most_common(15): print("  ", v, k)
