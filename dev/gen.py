import random, json, sys
def leaf(r, kind, name, ):
    """statements building a leaf"""
    k = r.random()
    pts = sorted(r.sample(range(0, 12), r.randint(1, 5)))
    vals = [r.choice([0, 1, 2, -1, 3, 0.5, "nan"]) for _ in pts]
    init = r.choice([0, 0, 0, 1, -2, "nan"])
    closed = r.choice(["left", "left", "left", "right"]) if False else CL
    if k < 0.12:
        return [f"{name} = Stairs(initial_value={init}, closed='{closed}')"]
    if k < 0.35:
        return [f"{name} = Stairs.from_values({init}, pd.Series([{', '.join(map(str, vals))}], index=[{', '.join(f'T({p})' for p in pts)}]), closed='{closed}')"]
    if k < 0.7:
        s = [f"{name} = Stairs(initial_value={init}, closed='{closed}')"]
        for _ in range(r.randint(1, 3)):
            a, b = r.randint(0, 8), r.randint(3, 12)
            v = r.choice([1, 2, -1, 0.5])
            aa = r.choice([f"T({a})"] * 5 + ["None"]); bb = r.choice([f"T({b})"] * 5 + ["None"])
            s.append(f"{name}.layer({aa}, {bb}, {v})")
        return s
    a = [r.randint(0, 8) for _ in range(r.randint(1, 4))]; b = [x + r.randint(1, 5) for x in a]
    v = [r.choice([1, 2, -1]) for _ in a]
    s = [f"{name} = Stairs(start=[{', '.join(f'T({x})' for x in a)}], end=[{', '.join(f'T({x})' for x in b)}], value={v}, closed='{closed}')"]
    if r.random() < .5:
        s.append(f"{name} = {name}.clip(T({r.randint(0,5)}), T({r.randint(6,11)}))")
    return s
UN = ["-{f}", "~{f}", "{f}.make_boolean()", "{f}.isna()", "{f}.notna()", "{f}.copy()", "{f}.fillna(7)", "{f}.fillna('ffill')", "{f}.fillna('bfill')",
      "{f}.clip(T({a}), T({b}))", "{f}.clip(None, T({b}))", "{f}.clip(T({a}))", "{f}.mask((T({a}), T({b})))", "{f}.where((T({a}), T({b})))", "{f}.where((None, T({b})))", "{f}.shift(D({d}))", "{f}.diff(D({d}))",
      "{f} + 2", "3 - {f}", "{f} * 0", "{f} / 2", "2 / {f}", "{f} / 0", "{f} > 1", "1 <= {f}", "{f} == 0", "{f} != 1", "{f} & 1", "0 | {f}", "{f} ^ 1", "{f} * -1.5"]
BIN = ["{f} + {g}", "{f} - {g}", "{f} * {g}", "{f} / {g}", "{f} < {g}", "{f} <= {g}", "{f} > {g}", "{f} >= {g}", "{f} == {g}", "{f} != {g}",
       "{f} & {g}", "{f} | {g}", "{f} ^ {g}", "{f}.mask({g})", "{f}.where({g})", "{f}.fillna({g})", "sc.sum([{f}, {g}])", "sc.mean([{f}, {g}])", "sc.min([{f}, {g}])", "sc.max([{f}, {g}, {f}])", "sc.median([{f}, {g}])", "sc.logical_and([{f}, {g}])", "sc.logical_or([{f}, {g}])"]
Q = ["{f}.integral()", "{f}.mean()", "{f}.var()", "{f}.std()", "{f}.median()", "{f}.mode()", "{f}.max()", "{f}.min()", "{f}.value_sums()", "{f}.percentile({p})", "{f}.fractile({q})",
     "{f}.hist()", "{f}.hist(bins=[-1, 0, 1, 2.5], closed='right', stat='probability')", "{f}.hist(bins=[-1, 0, 1, 2.5], stat='density')", "{f}.hist(bins=[-1, 0, 1, 2.5], stat='frequency')", "{f}.quantiles(4)", "{f}.ecdf(1)", "{f}.ecdf.limit([0, 1, 2], 'left')", "{f}.limit(T({a}), 'left')", "{f}.limit([T({a}), T({b})], 'right')",
     "{f}(T({a}))", "{f}([T({a}), T({b})], include_index=True)", "{f}.values_in_range((T({a}), T({b})), closed='{c}')", "{f}.min((T({a}), T({b})), '{c}')", "{f}.max((T({a}), T({b})), '{c}')", "{f}.agg(['min', 'max', 'mean', 'integral'], (T({a}), T({b})), '{c}')", "{f}.mean((T({a}), T({b})))", "{f}.describe()", "{f}.describe((T({a}), T({b})))",
     "{f}.step_points", "{f}.step_values", "{f}.step_changes", "{f}.initial_value", "bool({f})", "{f}.identical({g})", "{f}.identical(1)", "{f}.cov({g})", "{f}.corr({g})", "{f}.cov({g}, (T(0), T(11)))", "{f}.corr({g}, (T(0), T(11)))", "{f}.cov({g}, (T(0), T(11)), lag=D(1))", "{f}.corr({g}, (T(0), T(11)), lag=D(2), clip='post')", "{f}.rolling_mean((D(-1), D(2)))", "{f}.rolling_mean((D(-1), D(2)), where=(T(0), T(9)))",
     "sc.sample([{f}, {g}], [T({a}), T({b})])", "sc.limit({{'a': {f}, 'b': {g}}}, [T({a}), T({b})], 'left')", "sc.sample([{f}, {g}], T({a}))", "sc.cov([{f}, {g}], (T(0), T(11)))", "sc.corr([{f}, {g}])",
     "{f}.slice([T({a}), T({b})]).mean()", "{f}.slice([T(0), T({a}), T(9)]).max()", "{f}.slice([T(0), T({a}), T(9)]).integral()", "{f}.slice([T(0), T(4), T(9)]).resample('mean')", "{f}.slice([T(0), T(4), T(9)]).agg(['min', 'mean'])", "{f}.slice([T(0), T(4), T(9)]).hist([-1, 0, 1, 2])", "{f}.slice(pd.IntervalIndex.from_breaks([T(0), T(4), T(9)], closed='left')).median()", "{f}.slice(pd.IntervalIndex.from_tuples([(T(0), T(4)), (T(2), T(9))])).mode()", "{f}.slice([T(0), T(4), T(9)]).apply(lambda s: s.mean())",
     "sc.StairsArray([{f}, {g}]) + {f}", "pd.Series([{f}, {g}], dtype='Stairs').sc.sample(T({a}))", "pd.Series([{f}, {g}]).astype('Stairs') > {g}", "sc.StairsArray([{f}, {g}]) * 2", "-sc.StairsArray([{f}, {g}])"]
def fmt(r, t, f, g):
    a = r.randint(0, 9)
    return t.format(f=f, g=g, a=a, b=r.randint(a + 1, 12), d=r.choice([-2, 1, 3]), p=r.choice([0, 25, 40, 50, 100]), q=r.choice([0, .3, 1]), c=r.choice(["left", "right", "both", "neither"]))
def prog(r):
    global CL
    CL = r.choice(["left", "left", "right"])
    kind = r.choice(["num", "num", "ts", "tz", "td"])
    st = leaf(r, kind, "f") + leaf(r, kind, "g")
    names = ["f", "g"]
    ex = []
    for i in range(r.randint(1, 3)):
        t = r.choice(UN + BIN * 2)
        n = f"h{i}"
        st.append(f"{n} = " + fmt(r, t, r.choice(names), r.choice(names)))
        names.append(n); ex.append(n)
    for _ in range(r.randint(1, 4)):
        ex.append(fmt(r, r.choice(Q), r.choice(names), r.choice(names)))
    ex += ["f", "g"]
    return {"kind": kind, "stmts": st, "exprs": ex}
if __name__ == "__main__":
    r = random.Random(int(sys.argv[1]))
    json.dump([prog(r) for _ in range(int(sys.argv[2]))], open(sys.argv[3], "w"))
