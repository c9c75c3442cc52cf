"""C07-C09, C30: tiles, notation, tile sets, numbers and categories, dora."""
import copy
import itertools

from checks import check

MC = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxCopies = %d
INVARIANTS ExcludeRestores AddContains MeetJoin
"""
ALL = list(range(1, 35)) + [105, 114, 123]


def design(ctx):
    ctx.model_check("MCTiles", MC % ctx.pick(2, 3), name="MaxCopies=%d" % ctx.pick(2, 3))


def run(ctx, cases, clauses, corrupt):
    obs = ctx.driver("tiles", cases)
    lines = []
    for o, c in zip(obs, cases):
        lines.append({"calls": o["calls"]} if not o["raise"] else {"calls": [dict(c["calls"][0], **{"raise": o["raise"]})]})

    def spoil():
        can, seen = [], {}
        for l in lines:
            for j, c in enumerate(l["calls"]):
                if not c["raise"] and seen.get(c["op"], 0) < 1:
                    bad = copy.deepcopy(l["calls"][:j + 1])
                    if corrupt(bad[-1]):
                        seen[c["op"]] = seen.get(c["op"], 0) + 1
                        can.append({"calls": bad})
        return can

    ctx.count("calls_checked", sum(len(l["calls"]) for l in lines))
    keep = list(ctx.violations)
    ctx.validate("TilesTrace", lines, steps=lambda l: len(l["calls"]), canaries=spoil)
    ctx.violations = keep + [v for v in ctx.violations[len(keep):]
                             if v[0] in clauses or v[0] == "malformed" or any(m[1] in clauses for m in v[2]["mismatches"])]
    return lines


def texts(rng, n):
    """texts over digits, letters and rubbish"""
    out = []
    for _ in range(n):
        r = rng.random()
        alphabet = "0123456789mpsz" if r < 0.6 else "0189mpszx -" if r < 0.85 else "05789z1m٣é\n\U0001F004MPSZ7"
        out.append("".join(rng.choice(alphabet) for _ in range(rng.randint(0, 14))))
    return out


@check("C07")
def c07(ctx):
    design(ctx)
    rng = ctx.rng
    cases = [{"calls": [{"op": "tile", "tile": t}, {"op": "order", "tile": t}, {"op": "tile", "tile": t}]} for t in ALL]
    # every text of up to four (five) characters over a small alphabet
    small = ctx.pick("058mz", "058mz-")
    strings = ["".join(p) for n in range(0, ctx.pick(5, 6)) for p in itertools.product(small, repeat=n)]
    strings += ["".join(p) for p in itertools.product("0123456789", "mpsz")]
    strings += texts(rng, ctx.pick(3000, 60000))
    for i in range(0, len(strings), 40):
        cases.append({"calls": [{"op": "parse", "text": [ord(c) for c in s], "dst": 0} for s in strings[i:i + 40]]})
    for _ in range(ctx.pick(200, 4000)):
        calls = []
        for _ in range(6):
            pool = rng.choice([ALL, [5, 105, 14, 114, 23, 123], rng.sample(ALL, 6)])
            ts = [rng.choice(pool) for _ in range(rng.choice([0, 1, 3, 5, 13, 14, 20]))]
            calls.append({"op": "new", "tiles": ts, "dst": 0, "how": rng.choice(["list", "counter", "iter"])})
            if rng.random() < 0.3:
                calls.append({"op": "new", "tiles": [rng.choice(ALL) for _ in range(5)], "dst": 1})
                calls.append({"op": rng.choice(["add", "or", "sub"]), "a": 0, "b": 1, "dst": 0})
            calls.append({"op": "roundtrip", "a": 0, "dst": 2, "rep": rng.random() < 0.3})
            calls.append({"op": "sort", "tiles": ts})
        cases.append({"calls": calls})

    def corrupt(c):
        if c["op"] == "tile" and c["next"]:
            c["next"] += 1
            return True
        if c["op"] == "order":
            c["others"][3]["lt"] = not c["others"][3]["lt"]
            return True
        if c["op"] == "parse" and c["res"]:
            c["res"].pop()
            return True
        if c["op"] == "roundtrip" and c["text"]:
            c["text"].pop()
            return True
        if c["op"] == "sort" and len(c["res"]) > 1 and c["res"][0] != c["res"][-1]:
            c["res"].reverse()
            return True
        return False
    run(ctx, cases, {"face", "text_of_tile", "successor", "run", "triplet", "pair", "repeat", "equal_tiles", "order", "hash",
                     "sorting", "text", "text_equal", "parse", "parse_order", "registers", "raise"}, corrupt)


@check("C08")
def c08(ctx):
    design(ctx)
    rng = ctx.rng
    cases = []
    ops = ["add", "sub", "and", "or", "exclude", "contains", "eq", "len", "count", "tiles", "copy", "iadd", "isub",
           "update", "roundtrip", "exclude", "contains", "sub"]
    # every pair of small sets over two faces (one of them a five in both colours)
    faces = [5, 105, 31]
    small = [list(x) for n in range(0, 4) for x in itertools.combinations_with_replacement(faces, n)]
    for x in small:
        calls = []
        for y in small:
            for op in ("add", "sub", "and", "or", "exclude", "contains", "eq"):
                calls += [{"op": "new", "tiles": x, "dst": 0}, {"op": "new", "tiles": y, "dst": 1},
                          {"op": op, "a": 0, "b": 1, "dst": 2}]
                if op == "exclude":
                    calls.append({"op": "add", "a": 2, "b": 1, "dst": 3})
        for i in range(0, len(calls), 120):
            cases.append({"calls": calls[i:i + 120]})
    for _ in range(ctx.pick(900, 20000)):
        pool = rng.choice([ALL, rng.sample(ALL, 3), [5, 105, 6, 14], rng.sample(ALL, 8)])
        calls = []
        for r in range(rng.randint(1, 4)):
            calls.append({"op": "new", "tiles": [rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 4, 9, 14]))],
                          "dst": r, "how": rng.choice(["list", "counter", "iter"])})
        for _ in range(rng.randint(4, 14)):
            op = rng.choice(ops)
            c = {"op": op, "a": rng.randrange(4), "b": rng.randrange(4), "dst": rng.randrange(4)}
            if op in ("iadd", "isub", "update"):
                c["dst"] = c["a"]
                if c["a"] == c["b"]:
                    c["b"] = (c["a"] + 1) % 4
            if op == "count":
                c["tile"] = rng.randint(1, 34)
            if op == "new":
                c["tiles"] = [rng.choice(pool) for _ in range(3)]
            calls.append(c)
        cases.append({"calls": calls})

    def corrupt(c):
        if c["op"] in ("contains", "eq", "exclude"):
            c["res"] = not c["res"]
            return True
        if c["op"] in ("len", "count"):
            c["res"] += 1
            return True
        if c["op"] in ("add", "sub", "and", "or") and c["regs"][c["a"]]:
            c["regs"][c["a"]].pop()
            return True
        return False
    run(ctx, cases, {"registers", "contains", "exclude", "equal", "size", "count", "listing", "text", "text_equal", "raise"},
        corrupt)


def cat_size(c):
    if c["t"] == "s":
        r = 1
        for n in c["n"]:
            r *= n
        return r
    sizes = [cat_size(p) for p in c["parts"]]
    return 0 if 0 in sizes else sum(sizes)


def gen_cat(rng, depth=0):
    if depth >= 2 or rng.random() < 0.45:
        return {"t": "s", "n": [rng.choice([1, 2, 3, 4]) for _ in range(rng.choice([1, 1, 2, 2, 3]))]}
    return {"t": "m", "parts": [gen_cat(rng, depth + 1) for _ in range(rng.randint(1, 4))]}


@check("C09")
def c09(ctx):
    design(ctx)
    rng = ctx.rng
    cases = [{"calls": [{"op": "number", "n": n}]} for n in range(136)]
    cases += [{"calls": [{"op": "range", "tile": t}]} for t in ALL]
    cats = []
    # all small shapes
    subs = [{"t": "s", "n": list(n)} for k in (1, 2, 3) for n in itertools.product((1, 2, 3), repeat=k)]
    cats += subs
    short = [s for s in subs if cat_size(s) <= 4]
    cats += [{"t": "m", "parts": [a, b]} for a in short for b in short]
    for _ in range(ctx.pick(700, 12000)):
        cats.append(gen_cat(rng))
    calls = []
    for c in cats:
        n = cat_size(c)
        if n > ctx.pick(150, 400):
            continue
        calls.append({"op": "category", "cat": c, "expect": n})
    # with field names
    for _ in range(ctx.pick(100, 1000)):
        if rng.random() < 0.5:
            n = [rng.choice([1, 2, 3]) for _ in range(rng.randint(1, 3))]
            names = ["f%d" % i for i in range(len(n))]
            calls.append({"op": "category", "cat": {"t": "s", "n": n, "names": names}, "expect": cat_size({"t": "s", "n": n}),
                          "fields": names})
        else:
            parts, fields = [], []
            for p in range(rng.randint(1, 4)):
                n = [rng.choice([1, 2, 3]) for _ in range(rng.randint(1, 3))]
                names = ["p%d_%d" % (p, i) for i in range(len(n))]
                parts.append({"t": "s", "n": n, "names": names})
                fields.append(["which"] + names)
            c = {"t": "m", "parts": parts, "field": "which"}
            calls.append({"op": "category", "cat": c, "expect": cat_size(c), "fields": fields})
    # unbounded first size (not as part of another category: Python's len cannot be infinite)
    for _ in range(ctx.pick(60, 600)):
        c = {"t": "s", "n": [0] + [rng.choice([1, 2, 3, 4, 9]) for _ in range(rng.randint(0, 3))]}
        calls.append({"op": "opencategory", "cat": c, "at": sorted(rng.sample(range(0, 3000), 15)) + list(range(6))})
    rng.shuffle(calls)
    cases += [{"calls": calls[i:i + 8]} for i in range(0, len(calls), 8)]

    def corrupt(c):
        if c["op"] == "number":
            c["range"][1] += 1
            return True
        if c["op"] == "category" and c["expect"] > 1:
            c["encoded"][-1] = 0
            return True
        if c["op"] == "opencategory":
            c["decoded"][2][-1] += 1
            return True
        return False
    run(ctx, cases, {"number", "position", "range_of_number", "range", "category_size", "category_decode", "category_encode",
                     "category_encode_tuple", "category_names", "category_beyond", "raise"}, corrupt)


@check("C30")
def c30(ctx):
    design(ctx)
    rng = ctx.rng
    cases = [{"calls": [{"op": "population", "players": p, "aka": a} for p in (3, 4, 3, 4) for a in order]}
             for order in ((True, False), (False, True))]
    cases.append({"calls": [{"op": "doras", "ind": []}] + [{"op": "doras", "ind": [t]} for t in ALL] * 2})
    cases += [{"calls": [{"op": "doras", "ind": [a, b]} for b in ALL]} for a in ALL]
    for _ in range(ctx.pick(200, 5000)):
        cases.append({"calls": [{"op": "doras", "ind": [rng.choice(ALL) for _ in range(rng.randint(1, 10))]}
                                for _ in range(10)]})

    def corrupt(c):
        if c["op"] == "doras" and c["res"]:
            c["res"].append(c["res"][0])
            return True
        if c["op"] == "population":
            c["res"][5] = c["res"][0]
            return True
        return False
    run(ctx, cases, {"doras", "doras_unknown", "population", "population_unknown", "raise"}, corrupt)
