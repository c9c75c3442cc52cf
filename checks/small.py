"""C12 (grouping part), C24, C28, C29, C31."""
import copy
import itertools

from checks import check
from lib.hands import near_complete, redden

SPEC = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def run(ctx, cases, corrupt, n_canaries=6, **kw):
    obs = ctx.driver("small", cases, **kw)
    lines = []
    for o, c in zip(obs, cases):
        if o["raise"]:
            o = dict(c, calls=[dict(c["calls"][0], **{"raise": o["raise"]})])
            o.pop("names", None)
        o.pop("raise", None)
        lines.append(o)

    def spoil():
        can = []
        for l in lines:
            if len(can) >= n_canaries:
                break
            bad = copy.deepcopy(l)
            if not any(c["raise"] for c in bad["calls"]) and corrupt(bad):
                can.append(bad)
        return can

    ctx.count("calls_checked", sum(len(l["calls"]) for l in lines))
    ctx.validate("SmallTrace", lines, steps=lambda l: len(l["calls"]), canaries=spoil)
    return lines


# ------------------------------------------------------------------ grouping
def group_script(rng, keys, stages, style):
    """calls of a consumer; reads name the item expected for plain keys"""
    # the consumer does not know the groups: it advances and reads, more often than there is something
    calls = []
    n = 0
    for _ in range(rng.randint(2, 2 * len(keys) + 4)):
        r = rng.random()
        if n == 0 or (style == "walk" and r < 0.3) or (style == "skip" and r < 0.7):
            calls.append({"op": "advance"})
            n += 1
        elif style == "stale" and r < 0.4:
            calls.append({"op": "read", "handle": rng.randint(1, n)})
        elif style == "stale" and r < 0.6:
            calls.append({"op": "advance"})
            n += 1
        else:
            calls.append({"op": "read", "handle": n})
    return calls


def groups_of(keys, stages):
    """number of groups, to keep handles of the script in range (not used for the verdict)"""
    n, i = 0, 0
    while i < len(keys):
        n += 1
        cur = keys[i]
        i += 1
        if cur not in stages:
            while i < len(keys) and keys[i] == cur:
                i += 1
        else:
            s = stages.index(cur)
            while i < len(keys) and keys[i] in stages and stages.index(keys[i]) >= s:
                s = stages.index(keys[i])
                i += 1
    return n


def group_cases(ctx):
    rng = ctx.rng
    cases = []
    stage_lists = [[], [1], [1, 2], [2, 1], [1, 2, 3], [3, 1], [1, 2, 3, 4], [2, 4, 1, 3], [5, 4, 3, 2, 1], [1, 2, 3, 4, 5]]
    # every sequence up to a length, read completely group by group
    for n in range(0, ctx.pick(5, 7)):
        for keys in itertools.product((1, 2, 3, 4), repeat=n):
            st = rng.choice(stage_lists) if not ctx.thorough else None
            for stages in ([st] if st is not None else stage_lists[1:]):
                cases.append((list(keys), stages, "full"))
    for _ in range(ctx.pick(1500, 30000)):
        n = rng.randint(0, 14)
        alphabet = rng.choice([(1, 2), (1, 2, 3, 4), (1, 1, 1, 2, 3), (1, 2, 3, 4, 5), (1, 2, 3, 4, 5, 6)])
        cases.append(([rng.choice(alphabet) for _ in range(n)], rng.choice(stage_lists), rng.choice(["walk", "skip", "stale"])))
    out = []
    for keys, stages, style in cases:
        ng = groups_of(keys, stages)
        if style == "full":
            calls = []
            h = 0
            # read every group until it says it is finished
            i = 0
            while h < ng:
                h += 1
                calls.append({"op": "advance"})
                calls += [{"op": "read", "handle": h}] * 1
            calls = []
            sizes = sizes_of(keys, stages)
            for h, size in enumerate(sizes):
                calls.append({"op": "advance"})
                calls += [{"op": "read", "handle": h + 1} for _ in range(size + 1)]
            calls += [{"op": "advance"}, {"op": "advance"}]
        else:
            calls = group_script(rng, keys, stages, style)
            # handles exist only for groups that exist
            fixed, n = [], 0
            for c in calls:
                if c["op"] == "advance":
                    n = min(ng, n + 1)
                elif n == 0:
                    continue
                else:
                    c = dict(c, handle=min(c["handle"], n))
                fixed.append(c)
            calls = fixed
        case = {"kind": "groups", "keys": keys, "stages": stages, "calls": calls or [{"op": "advance"}]}
        r = rng.random()
        if r < 0.2:
            case["names"] = {1: "A", 2: "B", 3: "", 4: "D", 5: "E", 6: "F"}
        elif r < 0.4:
            case["names"] = {1: True, 2: False, 3: None, 4: "x", 5: 0.5, 6: 2.5}
        if "names" in case:
            case["names"] = [None] + [case["names"][i] for i in (1, 2, 3, 4, 5, 6)]
        if rng.random() < 0.25:
            case["plain"] = True
        out.append(case)
    return out


def sizes_of(keys, stages):
    sizes, i = [], 0
    while i < len(keys):
        start = i
        cur = keys[i]
        i += 1
        if cur not in stages:
            while i < len(keys) and keys[i] == cur:
                i += 1
        else:
            s = stages.index(cur)
            while i < len(keys) and keys[i] in stages and stages.index(keys[i]) >= s:
                s = stages.index(keys[i])
                i += 1
        sizes.append(i - start)
    return sizes


def corrupt_groups(l):
    for c in l["calls"]:
        if c["op"] == "read" and not c["stop"]:
            c["item"] += 1
            return True
    return False


STAGES_MC = SPEC + """CONSTANTS MaxLen = %d
Alphabet = {%s}
StageSeqs <- Seqs
INVARIANTS Agrees Complete Finished Partition
"""


# ------------------------------------------------------------------ snapshots
def random_tree(rng, depth):
    """pairs of a tree; the root is a part"""
    pairs = [[[], 0]]

    def grow(path, d):
        for k in ("a", "b", "c"):
            r = rng.random()
            if r < 0.35:
                pairs.append([path + [k], rng.randint(1, 9)])
            elif r < 0.6 and d > 0:
                pairs.append([path + [k], 0])
                grow(path + [k], d - 1)
    grow([], depth)
    return pairs


def tree_case(rng, length):
    snaps = [{tuple(p): v for p, v in random_tree(rng, 2)}]
    start = [[list(p), v] for p, v in snaps[0].items()]
    calls = []

    def put(t, path, sub):
        r = {p: v for p, v in t.items() if p[:len(path)] != path}
        r.update({path + p: v for p, v in sub.items()})
        return r
    for _ in range(length):
        i = rng.choice([len(snaps), rng.randint(1, len(snaps))])
        t = snaps[i - 1]
        parts = [p for p, v in t.items() if v == 0]
        path = rng.choice(parts) if rng.random() < 0.7 else max(parts, key=len)
        key = rng.choice("abc")
        op = rng.choice(["set", "set", "set", "drop", "default", "default", "mutate", "meddle"])
        c = {"op": op, "snap": i, "path": list(path), "key": key, "keep": rng.random() < 0.4}
        full = path + (key,)
        if op in ("set", "default"):
            # often a value that Python takes for equal to the one that is there (see LEAVES of the driver)
            near = {1: (2, 3), 2: (1, 3), 3: (1, 2), 4: (5, 6, 7), 5: (4, 6, 7)}.get(t.get(full))
            sub = {(): rng.choice(near) if near and rng.random() < 0.5 else rng.randint(1, 9)} if rng.random() < 0.6 else {tuple(p): v for p, v in random_tree(rng, 1)}
            c["value"] = [[list(p), v] for p, v in sub.items()]
            c["wrap"] = rng.random() < 0.3
            snaps.append(t if op == "default" and full in t else put(t, full, sub))
        elif op == "meddle":
            # the caller goes on using a dictionary it handed over
            c["which"] = rng.randrange(100)
        elif op == "drop":
            if full not in t:
                continue
            snaps.append({p: v for p, v in t.items() if p[:len(full)] != full})
        else:
            c["how"] = rng.choice(["setitem", "pop", "update", "popitem", "clear", "delitem"])
        calls.append(c)
    return {"kind": "tree", "start": start, "calls": calls}


@check("C24")
def c24(ctx):
    ctx.model_check("MCPersist", SPEC + "CONSTANTS MaxSnaps = %d Depth = 2\nINVARIANTS Valid OnlyThere\nPROPERTY KeptAll\n"
                    % ctx.pick(3, 4), name="snapshots up to %d" % ctx.pick(3, 4))
    rng = ctx.rng
    cases = [tree_case(rng, rng.choice([3, 6, 10, 16])) for _ in range(ctx.pick(2000, 20000))]
    cases = [c for c in cases if c["calls"]]

    def corrupt(l):
        for c in l["calls"]:
            if len(c["seen"]) > 2:
                c["seen"][0] = c["seen"][0][:-1] if len(c["seen"][0]) > 1 else c["seen"][0] + [[["a"], 1]]
                return True
        return False
    run(ctx, cases, corrupt)


# ------------------------------------------------------------------ walls
def wall_case(rng):
    pool = rng.choice([list(range(1, 35)), rng.sample(range(1, 35), 3), rng.sample(range(1, 35), 1), [5, 14, 23, 6]])
    start = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 14])):
        k = rng.choice(pool)
        start.append(k + (100 if k in (5, 14, 23) and rng.random() < 0.4 else 0))
    walls = [[k % 100 for k in start]]
    iters = []
    calls = []
    for _ in range(rng.randint(2, 12)):
        w = rng.randint(1, len(walls))
        r = rng.random()
        if r < 0.3 and walls[w - 1]:
            k = rng.choice(walls[w - 1])
            rest = list(walls[w - 1])
            rest.remove(k)
            walls.append(rest)
            calls.append({"op": "pick", "wall": w, "tile": k, "red": k in (5, 14, 23) and rng.random() < 0.3})
        elif r < 0.5:
            n = rng.randint(0, len(walls[w - 1]))
            iters.append(n)
            calls.append({"op": "sampler", "wall": w, "count": n})
        elif r < 0.85 and iters:
            calls.append({"op": "next", "iter": rng.randint(1, len(iters))})
        else:
            calls.append({"op": "all", "wall": w, "count": len(walls[w - 1])})
    if walls[0] and rng.random() < 0.25 and len(set(walls[0])) <= 4:
        calls.append({"op": "many", "wall": 1, "count": rng.choice([1, len(walls[0]), rng.randint(1, len(walls[0]))]),
                      "trials": rng.choice([200, 600])})
    elif walls[0] and rng.random() < 0.3:
        calls.append({"op": "many", "wall": 1, "count": rng.randint(1, len(walls[0])), "trials": 10})
    return {"kind": "wall", "start": start, "calls": calls, "seed": rng.randrange(10 ** 6)}


@check("C28")
def c28(ctx):
    ctx.model_check("MCWall", SPEC + "CONSTANT MaxCopies = %d\nINVARIANTS Conserved OrderOk Exhausted\n" % ctx.pick(2, 3),
                    name="walls of three kinds, copies <= %d" % ctx.pick(2, 3))
    rng = ctx.rng
    cases = [wall_case(rng) for _ in range(ctx.pick(1800, 15000))]
    for _ in range(ctx.pick(12, 100)):
        # many copies of one tile, few of another
        ks = rng.sample(range(1, 35), rng.randint(2, 4))
        start = [ks[0]] * rng.randint(7, 14) + [k for k in ks[1:] for _ in range(rng.randint(1, 3))]
        rng.shuffle(start)
        cases.append({"kind": "wall", "start": start, "seed": rng.randrange(10 ** 6),
                      "calls": [{"op": "many", "wall": 1, "count": rng.choice([1, 2, len(start)]), "trials": 1500}]})
    full = [k for k in range(1, 35) for _ in range(4)]
    for i in range(ctx.pick(4, 40)):
        calls = [{"op": "all", "wall": 1, "count": 136}, {"op": "sampler", "wall": 1, "count": 10}]
        calls += [{"op": "next", "iter": 1} for _ in range(11)]
        cases.append({"kind": "wall", "start": full, "calls": calls, "seed": i})

    def corrupt(l):
        for c in l["calls"]:
            if c["op"] == "all" and c["tiles"]:
                c["tiles"].append(c["tiles"][0])
                return True
        return False
    run(ctx, cases, corrupt)


# ------------------------------------------------------------------ win rate tool
def text_of(hand):
    return "".join("%d%s" % (0 if k > 100 else (k % 100 - 1) % 9 + 1, "mpsz"[(k % 100 - 1) // 9]) for k in hand)


@check("C29")
def c29(ctx):
    ctx.model_check("MCWall", SPEC + "CONSTANT MaxCopies = 2\nINVARIANTS Conserved OrderOk Exhausted\n")
    ctx.model_check("MCShape", """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 5 M = 1 P = 1 MaxTiles = 6 Limit = FALSE
INVARIANTS CostAgrees NoneCheaper MatchAgrees
""", name="one suit of five ranks, one group and a pair")
    rng = ctx.rng
    cases = []
    for i in range(ctx.pick(40, 600)):
        r = rng.random()
        if r < 0.55:
            h = near_complete(rng, 14, 4, 1, noise=rng.choice([0, 1, 1, 2, 3]))
        elif r < 0.75:
            ks = rng.sample(range(1, 35), 7)
            h = [k for k in ks for _ in range(2)]
            for _ in range(rng.randint(0, 3)):
                h[rng.randrange(14)] = rng.choice([k for k in range(1, 35) if h.count(k) < 3])
        elif r < 0.9:
            ks = rng.sample(range(1, 35), 5)
            h = ([k for k in ks for _ in range(4)])[:14]
        else:
            h = rng.sample([k for k in range(1, 35) for _ in range(4)], 14)
        if any(h.count(k) > 4 for k in h):
            continue
        rng.shuffle(h)
        hand = redden(rng, h)
        count = rng.choice([0, 1, 2, 3, 5, 8, 18, 30])
        tries = rng.choice([1, 2, 5, 9])
        wrong = [text_of(hand[:13]), "", "abc"] if rng.random() < 0.2 else []
        cases.append({"kind": "winrate", "hand": hand, "text": text_of(hand), "count": count, "tries": tries,
                      "tries_text": str(tries), "wrong": wrong, "seed": rng.randrange(10 ** 6), "calls": [{"op": "run"}]})

    # a blank answer asks for the thousand experiments the question offers
    for blank in ["", " "][:ctx.pick(1, 2)]:
        ks = rng.sample(range(1, 35), 6)
        hand = [k for k in ks for _ in range(2)] + rng.sample([k for k in range(1, 35) if k not in ks], 2)
        cases.append({"kind": "winrate", "hand": hand, "text": text_of(hand), "count": ctx.pick(0, 1), "tries": 1000, "tries_text": blank,
                      "wrong": [], "seed": rng.randrange(10 ** 6), "calls": [{"op": "run"}]})

    def corrupt(l):
        c = l["calls"][0]
        if c["rows"]:
            c["rows"][0]["wins"] += 1
            return True
        return False
    lines = run(ctx, cases, corrupt, n_canaries=2)
    ctx.note("experiments", sum(len(l["calls"][0].get("drawn", [])) for l in lines))
    ctx.note("winning_rows", sum(r["wins"] > 0 for l in lines for r in l["calls"][0].get("rows", [])))


# ------------------------------------------------------------------ construction scopes
def scope_case(rng, length):
    calls, opened = [], []
    families = rng.choice([1, 1, 2, 3])

    def fields():
        return [[f, rng.randint(1, 5)] for f in ("x", "y", "z") if rng.random() < 0.5]
    for _ in range(length):
        r = rng.random()
        fam = rng.randint(1, families)
        if r < 0.35:
            calls.append({"op": "enter", "fam": fam, "fields": fields(), "how": rng.choice(["normal", "exception", "generator"]),
                          "other": rng.random() < 0.2})
            opened.append(fam)
        elif r < 0.6 and opened:
            calls.append({"op": "leave", "fam": opened.pop()})
        elif r < 0.9:
            calls.append({"op": "build", "fam": fam, "fields": fields(), "other": rng.random() < 0.3, "new": rng.random() < 0.1})
        else:
            calls.append({"op": "failbuild", "fam": fam, "fields": fields()})
    calls += [{"op": "leave", "fam": f} for f in reversed(opened)]
    calls += [{"op": "build", "fam": f + 1, "fields": []} for f in range(families)]
    return {"kind": "scopes", "families": families, "calls": calls}


@check("C31")
def c31(ctx):
    ctx.model_check("MCScopes", SPEC + "CONSTANT MaxDepth = %d\nINVARIANT Innermost\nPROPERTY Restored\n" % ctx.pick(3, 4),
                    name="scopes nested up to %d" % ctx.pick(3, 4))
    rng = ctx.rng
    cases = [scope_case(rng, rng.choice([3, 6, 12, 20])) for _ in range(ctx.pick(3000, 30000))]

    def corrupt(l):
        for c in l["calls"]:
            if c["op"] == "build" and c["got"]:
                c["got"][0][1] += 1
                return True
        return False
    run(ctx, cases, corrupt)


@check("C12")
def c12(ctx):
    for n, keys in ((ctx.pick(5, 7), "1, 2, 3"), (ctx.pick(4, 5), "1, 2, 3, 4, 5")):
        ctx.model_check("MCStagesSeqs", STAGES_MC % (n, keys), name="sequences up to %d of the keys %s" % (n, keys))
    run(ctx, group_cases(ctx), corrupt_groups)
    from checks.table import hands_part
    hands_part(ctx)
