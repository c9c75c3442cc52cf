"""C01-C06: hand analysis."""
import copy

from checks import check
from lib.hands import near_pairs, near_complete, redden, shuffled, one_suit_hands

MC = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = %d M = %d P = %d MaxTiles = %d Limit = %s
INVARIANTS CostAgrees UsefulAgrees NoneCheaper BorrowsUseful MatchAgrees Smooth DivisionsAgree
"""


def mc(ctx, *configs):
    for n, m, p, t, lim in configs:
        ctx.model_check("MCShape", MC % (n, m, p, t, lim), name="N=%d M=%d P=%d tiles<=%d limit=%s" % (n, m, p, t, lim),
                        timeout=3000)


def lines_of(ctx, cases, per_case_timeout=25, size=1):
    obs = ctx.driver("shape", cases, per_case_timeout=per_case_timeout, timeout=880)
    for o, c in zip(obs, cases):
        if o["raise"]:
            c0 = c["calls"][0]
            o["calls"] = [dict(c0, **{"raise": o["raise"], "after": []})]
    return obs


def validate(ctx, lines, clauses, corrupt):
    """clauses: the ones this property is about"""

    def spoil():
        can = []
        for l in lines:
            if len(can) >= 6:
                break
            for j, c in enumerate(l["calls"]):
                if not c["raise"]:
                    bad = copy.deepcopy(c)
                    if corrupt(bad):
                        can.append({"calls": [bad]})
                        break
        return can

    keep = list(ctx.violations)
    ctx.validate("ShapeTrace", [{"calls": l["calls"]} for l in lines], steps=lambda l: len(l["calls"]), canaries=spoil)
    ctx.violations = keep + [v for v in ctx.violations[len(keep):]
                             if v[0] in clauses or v[0] == "malformed" or any(m[1] in clauses for m in v[2]["mismatches"])]
    ctx.count("calls_checked", sum(len(l["calls"]) for l in lines))


def sizes(rng):
    m = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 4, 4])
    p = 1 if rng.random() < 0.85 else rng.choice([0, 2, 3])
    return m, p


def norm(m, p):
    return {"t": "n", "m": m, "p": p}


def uniq(p):
    return {"t": "u", "m": 0, "p": p}


@check("C01")
def c01(ctx):
    mc(ctx, (5, 1, 1, ctx.pick(6, 10), "FALSE"), *([(5, 2, 1, 8, "FALSE")] if ctx.thorough else []))
    rng = ctx.rng
    calls = []
    for total, m in ((2, 0), (3, 1), (5, 1)) if not ctx.thorough else ((2, 0), (3, 1), (5, 1), (6, 1), (8, 2)):
        for h in one_suit_hands(total):
            s = rng.choice([0, 9, 18])
            calls.append((redden(rng, [k + s for k in h]), norm(m, 1 if total != 3 else 0)))
    # two overlapping blocks and honors, all pattern sizes, surplus tiles
    for _ in range(ctx.pick(1700, 40000)):
        m, p = sizes(rng)
        need = 3 * m + 2 * p
        size = max(0, need + rng.choice([0, 0, 0, 0, 0, 1, 3, 6, -1, -2]))
        calls.append((redden(rng, near_complete(rng, min(size, 40), m, p, noise=rng.choice([0, 0, 0, 1, 1, 2]))),
                      norm(m, p)))
    for _ in range(ctx.pick(200, 3000)):
        m, p = sizes(rng)
        calls.append((redden(rng, crowded(rng, m, p, 3 * m + 2 * p + rng.choice([0, 0, 0, 1, 2]))), norm(m, p)))
    for _ in range(ctx.pick(400, 4000)):
        n = rng.choice([7, 7, 7, 3, 2, 5])
        calls.append((redden(rng, near_pairs(rng, rng.choice([2 * n, 2 * n, 14]), n)), uniq(n)))
    cs = [{"op": "match", "hand": shuffled(rng, h), "pat": p, "limit": False} for h, p in calls]
    cases = [{"calls": cs[i:i + 10]} for i in range(0, len(cs), 10)]
    lines = lines_of(ctx, cases)

    def corrupt(c):
        c["match"] = not c["match"]
        return True
    ctx.note("complete_hands", sum(c.get("match", False) for l in lines for c in l["calls"]))
    validate(ctx, lines, {"match", "raise"}, corrupt)


@check("C02")
def c02(ctx):
    mc(ctx, (9, 1, 1, ctx.pick(4, 6), "FALSE"), *([(9, 2, 1, 5, "FALSE"), (5, 2, 1, 9, "FALSE")] if ctx.thorough else []))
    rng = ctx.rng
    calls = []
    for total, m in (((5, 1),) if not ctx.thorough else ((5, 1), (6, 1), (6, 2), (8, 2))):
        for h in one_suit_hands(total, ranks=9 if ctx.thorough else 7):
            calls.append(([k + rng.choice([0]) for k in h], norm(m, (total - 3 * m) // 2)))
    for _ in range(ctx.pick(1600, 15000)):
        m, p = sizes(rng)
        need = 3 * m + 2 * p
        size = need + rng.choice([0, 0, 0, 0, 1, 2, 3])
        calls.append((redden(rng, near_complete(rng, size, m, p, noise=rng.choice([0, 0, 0, 1]),
                                                suits=rng.choice([None, [rng.randint(0, 3)], [0]]))), norm(m, p)))
    for _ in range(ctx.pick(150, 2000)):
        m, p = sizes(rng)
        calls.append((redden(rng, crowded(rng, m, p, 3 * m + 2 * p + rng.choice([0, 0, 0, 1]))), norm(m, p)))
    for _ in range(ctx.pick(150, 2000)):
        n = rng.choice([7, 7, 3, 2, 5])
        calls.append((redden(rng, near_pairs(rng, rng.choice([2 * n, 14]), n)), uniq(n)))
    cs = [{"op": "div", "hand": shuffled(rng, h), "pat": p, "limit": False} for h, p in calls]
    cases = [{"calls": cs[i:i + 10]} for i in range(0, len(cs), 10)]
    lines = lines_of(ctx, cases)

    def corrupt(c):
        if len(c["divs"]) > 1:
            c["divs"].pop()
            c["unique"].append(c["unique"][0])
            return True
        return False
    ctx.note("hands_with_several_divisions", sum(len(c.get("unique", [])) > 1 for l in lines for c in l["calls"]))
    validate(ctx, lines, {"division_not_possible", "division_missing", "unique_division_wrong",
                          "unique_division_repeated", "raise"}, corrupt)


def copies(rng, size):
    """a hand holding many copies of a tile"""
    base = rng.choice([0, 9, 18])
    ks = rng.sample(range(1, 10), min(9, rng.randint(2, 4)))
    tiles = [base + k for k in ks for _ in range(4)] + [rng.choice([28, 29, 33, 34])] * rng.choice([0, 3, 4, 4])
    tiles = tiles[-size:] if rng.random() < 0.5 else tiles[:size]
    while len(tiles) < size:
        k = rng.randint(1, 34)
        if tiles.count(k) < 4:
            tiles.append(k)
    return tiles


def alike(rng, hand):
    """another hand of the same kinds, or nearly"""
    ks = sorted(set(hand))
    r = rng.random()
    if r < 0.6:
        tiles = list(ks)
        free = [k for k in ks for _ in range(3)]
        rng.shuffle(free)
        tiles += free[:rng.choice([len(hand), len(hand), len(hand) - 1]) - len(ks)] if len(hand) > len(ks) else []
    else:
        tiles = list(hand)
        tiles.remove(rng.choice(tiles))
        tiles.append(rng.choice([k for k in range(1, 35) if tiles.count(k) < 4]))
    return tiles


def crowded(rng, m, p, size):
    """more than four copies of some tiles (not a hand of the game, but a set of tiles all the same)"""
    base = rng.choice([0, 0, 9, 18])
    ks = [base + k for k in rng.sample(range(1, 10), rng.randint(1, 4))] + rng.choice([[], [], [28], [31, 34]])
    tiles = []
    while len(tiles) < size:
        k = rng.choice(ks)
        tiles += rng.choice([[k] * 3, [k] * 2, [k]] + ([[k, k + 1, k + 2]] * 2 if k <= 27 and (k - 1) % 9 <= 6 else []))
    return tiles[:size]


def wait_cases(ctx, n_main, n_small, n_other):
    """hands for the three evaluators"""
    rng = ctx.rng
    cs = []
    for i in range(n_main):
        m = rng.choice([4, 4, 4, 4, 3, 3, 2, 2, 1, 1, 0])
        size = 3 * m + rng.choice([1, 2, 1, 2, 1, 2, 0])
        if rng.random() < 0.06:
            size = 14
        size = min(size, 14)
        h = redden(rng, near_complete(rng, size, m, 1))
        lim = rng.random() < 0.85
        cs.append({"op": "wait", "by": "heuristic", "hand": shuffled(rng, h), "pat": norm(m, 1), "limit": lim,
                   "plain": rng.random() < 0.5, "how": rng.choice(["both", "both", "split"])})
    for i in range(n_small):
        # the four-copy limit matters
        m = rng.choice([1, 2, 3, 4])
        tiles = copies(rng, 3 * m + rng.choice([1, 2]))
        lim = rng.random() < 0.8
        cs.append({"op": "wait", "by": "heuristic", "hand": shuffled(rng, redden(rng, tiles)), "pat": norm(m, 1),
                   "limit": lim, "how": "both"})
    for i in range(n_small):
        size = rng.choice([13, 14, 13, 14, 12, 11])
        cs.append({"op": "wait", "by": "heuristic", "hand": shuffled(rng, redden(rng, near_pairs(rng, size))),
                   "pat": uniq(7), "limit": rng.random() < 0.9, "how": "both"})
        cs.append({"op": "wait", "by": "heuristic", "hand": shuffled(rng, redden(rng, near_pairs(rng, 5, 3))),
                   "pat": uniq(3), "limit": True, "how": "both"})
    for i in range(n_small // 2):
        # any hand size for any pattern: steps only
        m = rng.randint(0, 4)
        size = rng.randint(0, 14)
        cs.append({"op": "wait", "by": "heuristic", "hand": redden(rng, near_complete(rng, size, m, 1)),
                   "pat": norm(m, 1), "limit": rng.random() < 0.8, "how": "step"})
    for i in range(n_small):
        # other patterns, answered with their useful tiles at any size of the hand
        m = rng.choice([0, 1, 1, 2, 2, 3, 4])
        p = rng.choice([0, 2, 2, 3, 1])
        size = max(0, min(14, 3 * m + 2 * p + rng.choice([-3, -2, -1, -1, 0, 0, 1, 2])))
        h, pat = near_complete(rng, size, m, p, noise=rng.choice([0, 0, 1, 1, 2, 3])), norm(m, p)
        if rng.random() < 0.15:
            n = rng.choice([1, 2, 4, 5, 6])
            h, pat = near_pairs(rng, max(1, 2 * n + rng.choice([-2, -1, 0, 1])), n), uniq(n)
        if rng.random() < 0.12:
            m, p = rng.choice([0, 1, 2, 3]), rng.choice([1, 1, 2])
            h, pat = crowded(rng, m, p, max(0, 3 * m + 2 * p - rng.randint(0, 2))), norm(m, p)
        cs.append({"op": "wait", "by": rng.choice(["heuristic", "heuristic", "heuristic", "pattern"]),
                   "hand": shuffled(rng, redden(rng, h)), "pat": pat,
                   "limit": rng.random() < 0.7, "how": rng.choice(["both", "split"])})
    for i in range(n_other):
        by = rng.choice(["pattern", "brute"])
        if by == "brute":
            m = rng.choice([0, 1, 1, 2, 4])
            h = near_complete(rng, 3 * m + rng.choice([1, 2]), m, 1, noise=rng.choice([0, 0, 1]))
            pat = norm(m, 1)
            if rng.random() < 0.4:
                # few tiles, so that two may be missing
                m, p = rng.choice([(1, 0), (1, 0), (0, 1), (1, 1), (0, 2)])
                h, pat = near_complete(rng, max(0, 3 * m + 2 * p - rng.choice([0, 1, 2, 2])), m, p, noise=0), norm(m, p)
            if rng.random() < 0.2:
                h = near_pairs(rng, 14)
                pat = uniq(7)
        else:
            m = rng.choice([0, 1, 2, 2, 3, 3, 4])
            h = near_complete(rng, 3 * m + rng.choice([1, 2]), m, 1, noise=rng.choice([0, 1, 1, 2]))
            pat = norm(m, 1)
            if rng.random() < 0.2:
                h = near_pairs(rng, 14)
                pat = uniq(7)
        cs.append({"op": "wait", "by": by, "hand": shuffled(rng, redden(rng, h)), "pat": pat,
                   "limit": rng.random() < 0.8, "how": rng.choice(["both", "split"])})
    return cs


def limit_slow(cs):
    """keep the exhaustive evaluators on hands they can finish: the distance is bounded by an own estimate"""
    from lib.distance import distance
    out = []
    for c in cs:
        if c["by"] == "brute":
            bound = 1 if c["pat"]["m"] + c["pat"]["p"] > 2 else 2
        elif c["by"] == "pattern":
            bound = 3
        else:
            bound = 99
        if bound < 99 and distance(c["hand"], c["pat"]) > bound:
            continue
        out.append(c)
    return out


def run_wait(ctx, clauses, corrupt, n):
    cs = limit_slow(wait_cases(ctx, *n))
    ctx.rng.shuffle(cs)
    cases = [{"calls": cs[i:i + 4]} for i in range(0, len(cs), 4)]
    lines = lines_of(ctx, cases)
    hist = {}
    for l in lines:
        for c in l["calls"]:
            k = "%s/%s" % (c.get("by"), c.get("step", "raise"))
            hist[k] = hist.get(k, 0) + 1
    ctx.note("answers_by_evaluator_and_step", hist)
    validate(ctx, lines, clauses, corrupt)


@check("C03")
def c03(ctx):
    mc(ctx, (5, 2, 1, ctx.pick(5, 12), "TRUE"), (5, 1, 1, ctx.pick(5, 12), "FALSE"),
       *([(6, 2, 1, 8, "TRUE"), (5, 2, 1, 10, "FALSE"), (5, 3, 1, 5, "TRUE")] if ctx.thorough else []))

    def corrupt(c):
        c["step"] += 1
        return True
    run_wait(ctx, {"step", "raise"}, corrupt, ctx.pick((1200, 250, 250), (14000, 3000, 2500)))


@check("C04")
def c04(ctx):
    mc(ctx, (5, 1, 1, ctx.pick(6, 14), "TRUE"), (5, 2, 1, ctx.pick(4, 10), "TRUE"),
       *([(6, 2, 1, 8, "TRUE"), (5, 2, 1, 10, "FALSE"), (5, 3, 1, 5, "TRUE")] if ctx.thorough else []))

    def corrupt(c):
        if c.get("useful"):
            c["useful"].pop()
            return True
        return False
    ctx.rng.random()
    run_wait(ctx, {"useful", "raise"}, corrupt, ctx.pick((1200, 350, 250), (14000, 4000, 2500)))


@check("C05")
def c05(ctx):
    mc(ctx, (5, 2, 1, ctx.pick(5, 9), "TRUE"))
    rng = ctx.rng
    cs = []
    for _ in range(ctx.pick(600, 6000)):
        m = rng.choice([4, 4, 4, 3, 3, 2, 2, 1, 1, 0])
        noise = rng.choice([0, 0, 0, 1, 1, 2, 3, 4])
        h = near_complete(rng, 3 * m + 2, m, 1, noise=noise)
        cs.append({"op": "batch", "hand": shuffled(rng, redden(rng, h)), "pat": norm(m, 1), "limit": True})
    for _ in range(ctx.pick(300, 3000)):
        cs.append({"op": "batch", "hand": shuffled(rng, redden(rng, near_pairs(rng, 14))), "pat": uniq(7), "limit": True})
    for _ in range(ctx.pick(400, 4000)):
        # without the limit, other sizes than the usual ones, other patterns
        r = rng.random()
        m = rng.choice([4, 3, 3, 2, 2, 1, 0])
        p = 1 if rng.random() < 0.7 else rng.choice([0, 2, 3])
        if r < 0.3:
            h, pat = copies(rng, 3 * m + 2), norm(m, p)
        elif r < 0.8:
            size = max(1, min(14, 3 * m + 2 * p + rng.choice([-3, -2, -1, 0, 0, 1, 2, 3])))
            h, pat = near_complete(rng, size, m, p, noise=rng.choice([0, 0, 1, 1, 2, 3])), norm(m, p)
        else:
            n = rng.choice([7, 3, 2, 5])
            h, pat = near_pairs(rng, rng.choice([2 * n, 2 * n, 2 * n - 1, 2 * n + 1, 14]), n), uniq(n)
        cs.append({"op": "batch", "hand": shuffled(rng, redden(rng, h)), "pat": pat, "limit": rng.random() < 0.6})
    rng.shuffle(cs)
    cases = [{"calls": cs[i:i + 3]} for i in range(0, len(cs), 3)]
    lines = lines_of(ctx, cases, per_case_timeout=60)
    hist = {}
    for l in lines:
        for c in l["calls"]:
            k = str(c["items"][0]["step"]) if c.get("items") else "none"
            hist[k] = hist.get(k, 0) + 1
    ctx.note("hands_by_step", hist)

    def corrupt(c):
        if len(c["items"]) > 1:
            c["items"].pop()
            return True
        return False
    validate(ctx, lines, {"batch_tiles", "batch_once", "batch_step", "batch_useful", "raise"}, corrupt)


@check("C06")
def c06(ctx):
    mc(ctx, (5, 1, 1, ctx.pick(6, 10), "TRUE"))
    rng = ctx.rng
    cases = []
    for _ in range(ctx.pick(140, 1200)):
        # a few hands and patterns, analysed again and again on shared objects, in any tile order
        m = rng.choice([1, 2, 3, 4, 4])
        hands = [near_complete(rng, 3 * m + 2, m, 1), near_complete(rng, 3 * m + 1, m, 1)]
        if rng.random() < 0.4:
            # many copies: the four-copy limit matters
            hands = [copies(rng, 3 * m + 2), copies(rng, 3 * m + 1)]
        pats = [norm(m, 1), norm(max(0, m - 1), 1), norm(m, rng.choice([0, 1, 2]))]
        paired = rng.random() < 0.3
        if paired:
            n = rng.choice([7, 3, 4])
            hands = [near_pairs(rng, 2 * n, n), near_pairs(rng, 2 * n - 1, n)]
            pats = [uniq(n), uniq(max(1, n - 1)), rng.choice([uniq(n), norm(1, 1)])]
        # hands that look alike: the same kinds or the same size, but not the same hand
        hands += [alike(rng, rng.choice(hands)) for _ in range(2)]
        calls = []
        for _ in range(rng.randint(6, 10)):
            h = redden(rng, rng.choice(hands))
            op = rng.choice(["match", "div", "peek", "wait", "wait", "wait", "batch", "batch"])
            pat = rng.choice(pats)
            if op in ("wait", "batch"):
                pat = pats[0]
            if op == "batch":
                h = redden(rng, rng.choice([hands[0], hands[0], rng.choice(hands)]))
            c = {"op": op, "hand": shuffled(rng, h), "pat": pat, "obj": 0,
                 "limit": op not in ("wait", "batch") or rng.random() < 0.8}
            if op == "peek":
                c["take"] = rng.randint(1, 2)
            if op in ("div", "batch") and rng.random() < 0.25:
                c["late"] = True
            if op == "div" and c.get("late"):
                c["take"] = rng.randint(0, 2)
            if op == "batch" and rng.random() < 0.4 or c.get("late"):
                c["take"] = c.get("take", 1)
            if op == "wait":
                c["how"] = rng.choice(["both", "split", "step"])
                c["by"] = "heuristic"
            calls.append(c)
            if op == "wait" and rng.random() < 0.5:
                calls.append(dict(c, limit=not c["limit"], hand=shuffled(rng, h), plain=False))
        cases.append({"calls": calls})
    lines = lines_of(ctx, cases, per_case_timeout=60)

    def corrupt(c):
        if c["after"]:
            c["after"] = c["after"][1:]
            return True
        return False
    validate(ctx, lines, {"input_changed", "match", "division_not_possible", "division_missing",
                          "unique_division_wrong", "unique_division_repeated", "step", "useful", "batch_tiles",
                          "batch_once", "batch_step", "batch_useful", "raise"}, corrupt)
