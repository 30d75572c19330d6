PROPS = {}
RUNS = {}
def prop(pid, level="model_checking", **kw):
    PROPS[pid] = dict(level=level, **kw); RUNS[pid] = []
def run(pid, src, name=None, quick=True, thorough=True, **kw):
    params = kw.pop("params", {})
    kw.update(src=src, params=params, name="%s:%s%s" % (pid, name or src[2:-2], "".join("-%s" % params[k] for k in sorted(params))), quick=quick, thorough=thorough)
    kw.setdefault("covers", [1])
    RUNS[pid].append(kw)
def runs_for(pid, tier):
    return [r for r in RUNS[pid] if r[tier]]

prop("C04")
for s in range(17):
    run("C04", "h_short.c", params={0: s, 1: 5 if s < 9 else 4})
for k in range(60):
    for cfg in (0, 1):
        run("C04", "h_undef.c", name="undef", quick=(k + cfg) % 2 == 0 or k in (30, 37, 28, 29), params={0: k, 1: cfg})
prop("C03")
for s in range(9):
    for cfg in range(4):
        run("C03", "h_index.c", name="int", quick=(s + cfg) % 2 == 0, params={0: s, 1: cfg, 2: -1, 3: 11, 4: (s + cfg) % 5})
T_NAMES = ["bool", "str", "enum", "float", "ilist", "slist"]
T_KINDS = [4, 8, 5, 9, 9, 9]
for T in range(6):
    for s in (0, 1):
        if T == 3:
            for k in range(9):
                run("C03", "h_types.c", name=T_NAMES[T], sat=True, params={0: T, 1: s, 2: (k + s) % 5, 3: k, 4: 0, 5: 16})
        else:
            run("C03", "h_types.c", name=T_NAMES[T], params={0: T, 1: s, 2: (T + s) % 5, 3: -1, 4: 0, 5: 16})
    for s in range(2, 9):
        for k in range(3, T_KINDS[T]):
            if T == 3:
                for k2 in range(3, 9):
                    eq = (k > 6) + (k2 > 6)
                    run("C03", "h_types.c", name=T_NAMES[T], quick=(eq == 0 and (k + s + k2) % 5 == 0) or (s, k, k2) == (5, 5, 7), params={0: T, 1: s, 2: (k + s) % 5, 3: k, 4: k2, 5: 14 - eq})
            else:
                quick = T in (0, 2) or (k + s) % 3 == 0
                run("C03", "h_types.c", name=T_NAMES[T], quick=quick, params={0: T, 1: s, 2: (k + s) % 5, 3: k, 4: 3 + (s + k) % (T_KINDS[T] - 3) if quick else -1, 5: 14})

prop("C02")
for fam, n in enumerate([12, 12, 8, 10, 4, 6, 18, 10, 27]):
    if fam == 8: ops = [o for o in range(27) if o % 3 < 2 or o >= 15]
    elif fam == 6: ops = [0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 13, 14]
    else: ops = range(n)
    for o in ops:
        run("C02", "h_ops.c", name=["int", "float", "bool", "str", "enum", "set", "ilist", "slist", "null"][fam], sat=(fam == 1 and o in (4, 5, 10, 11)), params={0: fam, 1: o})
        if fam == 7:
            for m in (1, 2): run("C02", "h_ops.c", name="slist", params={0: fam, 1: o, 2: m})

prop("C05")
for k in range(60):
    for arr in range(3):
        for m in (0, 1):
            run("C05", "h_share.c", name="share", quick=(arr == (k + m) % 3), params={0: k, 1: arr, 2: m})

for n in (33, 64, 65, 70, 129, 258):
    for ord in range(3):
        for fam in range(3):
            run("C05", "h_memo.c", name="memo", quick=(ord + fam) % 3 == n % 3, params={0: n, 1: ord, 2: fam})

# ---- several subscriptions over the whole schema (h_multi.c)
MODES = {"C01": 0, "C12": 1, "C13": 2, "C18": 3, "C23": 5}
HEAVY = set(range(25, 30)) | set(range(32, 37)) | set(range(40, 49))
for pid, mode in MODES.items():
    prop(pid)
    for k in range(60):
        for st in range(6):
            k2 = (k * 5 + 11 * st + mode * 7 + 3) % 59
            quick = st == (k + mode) % 6 and (pid in ("C01", "C12") or (k + mode) % 2 == 0)
            if quick and k in HEAVY and k2 in HEAVY: k2 = k % 15
            if pid == "C18" and k == 59: k2 = (5, 2, 17, 30, 50, 8)[st]
            run(pid, "h_multi.c", name="multi", quick=quick, fpfork=(mode == 3), params={0: mode, 1: k, 2: k2, 3: (k // 3 + st) % 4, 4: (k // 2 + st + mode) % 4})

for n in (11, 25, 40, 300):
    for cfg in range(4):
        for mix in range(3):
            run("C01", "h_bulk.c", name="bulk", quick=(n == 25 and (cfg + mix) % 2 == 0) or n == 11, params={0: n, 1: cfg, 2: mix})

# ---- special predicates (h_special.c)
prop("C06")
for ty in range(10):
    for nc in range(3):
        for form in range(4):
            for wide in range(3):
                if nc == 0 and wide or wide == 2 and nc == 2: continue
                q = (nc == 1 and form == (ty + wide) % 4) or (nc == 0 and ty == form) or (nc == 2 and ty == 3 * form and not wide)
                run("C06", "h_special.c", name="freq", quick=q, params={0: 0, 1: ty, 2: nc, 3: (ty + nc + form) % 4, 4: form, 5: wide})
prop("C07")
for wide in (2, 0, 1):
    for n in range(4):
        for form in range(2):
            for named in range(2):
                if wide < 2 or n in (1, 2): run("C07", "h_special.c", name="seg", params={0: 1, 1: n, 2: form, 3: named, 4: wide})
prop("C08")
for k in range(14):
    for ints in range(2):
        if k < 13 or not ints: run("C08", "h_special.c", name="geo", params={0: 2, 1: k, 2: ints})
prop("C09")
for n in range(6):
    for m in range(4):
        for al in range(4):
            run("C09", "h_special.c", name="pat", quick=(n < 5 and (al == (n + m) % 4 or al == 0)), params={0: 3, 1: n, 2: m, 3: al})

# ---- accepted and refused insertions (h_insert.c)
prop("C10")
for which in range(3):
    for bound in range(4):
        run("C10", "h_insert.c", name="bound", params={0: 0, 1: bound, 2: which, 3: 2, 4: 3 if which < 1 else 2})
        if which == 1: run("C10", "h_insert.c", name="bound", quick=False, params={0: 0, 1: bound, 2: which, 3: 2, 4: 3})
        run("C10", "h_insert.c", name="bound", quick=(bound == 2 and which != 1), params={0: 0, 1: bound, 2: which, 3: 3, 4: 2 + (bound == 3)})
for place in range(6):
    for way in range(3):
        for miss in range(1, 6):
            run("C10", "h_insert.c", name="undeclared", quick=(place + way + miss) % 3 == 0, params={0: 1, 1: miss, 2: place, 3: way, 4: miss + place})
        for part in range(5):
            run("C10", "h_insert.c", name="refused", quick=(place + way + part) % 3 != 0, params={0: 1, 1: 0, 2: place, 3: way, 4: part})


# ---- mandatory attributes (h_valid.c)
prop("C11")
for mask in range(16):
    for rot in range(9):
        for api in range(2):
            cfg = (mask + rot + api) % 3 if mask else rot % 2
            run("C11", "h_valid.c", name="valid", quick=(mask + 2 * rot + api) % 3 == 0, params={0: mask, 1: rot, 2: api, 3: cfg})

# ---- expression text (h_parse.c)
prop("C14")
for sp in range(4):
    for t0 in (0, 3, 4):
        for t1 in ((1, 2) if t0 == 0 else (0, 3, 4)):
            run("C14", "h_parse.c", name="ops", quick=sp == (t0 + t1) % 4, params={0: 0, 1: sp, 2: 9, 3: t0, 4: t1})
    for t0 in (1, 2, 5, 0, 3, 4):
        run("C14", "h_parse.c", name="ops", quick=(sp == 1), params={0: 0, 1: sp, 2: 3, 3: t0, 4: -1})
    run("C14", "h_parse.c", name="ops", quick=False, params={0: 0, 1: sp, 2: 11, 3: 0, 4: 1})
    run("C14", "h_parse.c", name="ops", quick=False, params={0: 0, 1: sp, 2: 11, 3: 3, 4: 4})
for form in range(13):
    for nd in range(4):
        run("C14", "h_parse.c", name="int", quick=nd < 3, params={0: 1, 1: form, 2: nd})
for form in range(6):
    for a in (1, 2, 6):
        for b in range(5):
            run("C14", "h_parse.c", name="dec", quick=(form + a + b) % 3 == 0, params={0: 2, 1: form, 2: a, 3: b})
for part in range(27):
    for cfg in range(2):
        run("C14", "h_parse.c", name="spell", quick=(part + cfg) % 2 == 0, params={0: 3, 1: part, 2: cfg})
for n in range(3):
    for m in range(3):
        for q in range(4):
            run("C14", "h_parse.c", name="str", quick=(n + m < 4 and (n + m + q) % 2 == 0), params={0: 4, 1: n, 2: m, 3: q})

# ---- event text (h_event.c)
prop("C15")
for p in range(0, 720, 13):
    for sp in range(3):
        run("C15", "h_event.c", name="order", quick=(p // 13 + sp) % 9 == 0, params={0: 0, 1: p, 2: sp, 3: (p + sp) % 2})
for form in range(12):
    for nd in range(4):
        run("C15", "h_event.c", name="int", quick=nd < 3, params={0: 1, 1: form, 2: nd})
for a in (1, 2, 6):
    for b in range(5):
        run("C15", "h_event.c", name="dec", quick=(a + b) % 2 == 0, params={0: 2, 1: a, 2: b})
for which in range(4):
    for n in range(5):
        for sp in range(3):
            run("C15", "h_event.c", name="list", quick=((which + n + sp) % 3 == 0 or n == 0) and not (which == 0 and n == 4), params={0: 3, 1: which, 2: n, 3: sp})

# ---- copies and equality (h_clone.c)
prop("C16")
for k in range(60):
    for f in range(6):
        run("C16", "h_clone.c", name="copy", quick=(f == k % 6), params={0: 0, 1: k, 2: f})
    for m in range(2):
        run("C16", "h_clone.c", name="equal", quick=(m == 0 or k % 3 == 0), params={0: 1, 1: k, 2: m})

# ---- constants (h_const.c)
prop("C21")
for ty in range(10):
    for s in range(13):
        for step in ((0,) if s < 8 else (1, 2, 3, 4, 7)):
            run("C21", "h_const.c", name="const", quick=(ty + s + step) % 3 == 0 or s in (8, 9), params={0: ty, 1: s, 2: (ty + step) % 10})

# ---- many attributes (h_many.c)
prop("C22")
_c = 0
for n, ps in ((2, (0, 1)), (63, (0, 62)), (64, (1, 62, 63)), (65, (0, 63, 64)), (66, (1, 64, 65)), (128, (3, 63, 64, 127)), (129, (2, 64, 127, 128)), (258, (0, 1, 255, 256, 257)), (130, (31, 32, 66, 129))):
    for p in ps:
        for q in ps:
            if p == q: continue
            for al in range(2):
                _c += 1
                run("C22", "h_many.c", name="many", quick=_c % 2 == 0, params={0: n, 1: p, 2: q, 3: al, 4: _c % 6, 5: _c // 2 % 2})

# ---- strings and enum values by content (h_str.c)
prop("C24")
for ord in range(4):
    for bound in range(2):
        for early in range(2):
            for which in range(3):
                run("C24", "h_str.c", name="str", quick=(ord + bound + early + which) % 4 == 0, params={0: 0, 1: ord, 2: bound, 3: early, 4: which})
            run("C24", "h_str.c", name="enum", quick=(ord + bound + early) % 2 == 0, params={0: 1, 1: ord, 2: bound, 3: early})
    run("C24", "h_str.c", name="ns", params={0: 2, 1: ord})
for n in (5, 9, 17, 33, 258):
    for bound in range(2):
        for early in range(2):
            run("C24", "h_str.c", name="words", quick=(bound + early + n) % 2 == 0, params={0: 3, 1: n, 2: bound, 3: early})

# ---- boundary adjustment (h_adjust.c)
prop("C17")
for k in range(60):
    for st in range(6):
        k2 = (k * 7 + 13 * st + 5) % 59
        quick = st == k % 6
        if quick and k in HEAVY and k2 in HEAVY: k2 = k % 15
        run("C17", "h_adjust.c", name="adjust", quick=quick, fpfork=True, params={0: k, 1: k2, 2: (k + st) % 3, 3: (k // 3 + st) % 4, 4: (k // 2 + st) % 2})

# ---- domains, capacities and repetition (h_domain.c)
prop("C19")
D_N = ["int", "float", "str", "enum", "ilist", "slist", "bool"]
D_C = [18, 74, 12, 12, 18, 12, 2]
_c = 0
for T in range(7):
    for d in range(D_C[T]):
        for mix in range(5):
            _c += 1
            n = (3, 4, 5, 4, 5)[mix]
            run("C19", "h_domain.c", name=D_N[T], quick=(_c % 3 == 0) if T != 1 else (_c % 7 == 0), sat=(T == 1), params={0: T, 1: d, 2: _c * 5 % 9 if mix > 2 else 0, 3: _c % 6 if mix > 2 else 0, 4: n, 5: mix})
for T in (0, 2, 3, 4, 5, 6):
    for cap in (0, 1, 3, 5):
        run("C19", "h_domain.c", name="many", quick=(cap < 3), params={0: T, 1: 5 if T != 6 else 1, 2: cap, 3: 0, 4: 120, 5: (T + cap) % 2})

# ---- attributes declared by lines of text (h_decl.c)
prop("C26")
for a in range(9):
    for form in range(3):
        for step in range(4):
            b, c = ((a + 1 + 2 * step) % 9, (a * 2 + step + form + 3) % 9) if step else (-1, -1)
            run("C26", "h_decl.c", name="decl", quick=step == 0 or (a + form + step) % 4 == 0, params={0: a, 1: b, 2: c, 3: form, 4: (a + form + step) % 2, 5: 1 if step < 2 else step % 2})

# ---- memory safety, defined behaviour, no leaks (h_safe.c around the other harnesses)
prop("C20")
def safe(src, name, quick=True, **kw):
    run("C20", "h_safe.c", name=src[2:-2] + "-" + name, quick=quick, ub=True, defs=['SRC="%s"' % src], **kw)
for pid in ("C01", "C03", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C21", "C22", "C23", "C24", "C26"):
    for _i, r in enumerate([x for x in RUNS[pid] if x["quick"]]):
        kw = {k: r[k] for k in ("sat", "fpfork", "params") if k in r}
        if r["src"] == "h_insert.c": kw["params"] = {**kw["params"], 9: 1}
        safe(r["src"], pid, quick=(_i % 11 == 0), **kw)
