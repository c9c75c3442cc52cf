"""Calls the hand analysis on recorded hands.
case: {objs: [pattern..], calls: [{op, hand, pat, obj?, limit, by, take}]}; with obj, the pattern/evaluator object of
that index is shared between calls, otherwise a fresh one is made. With late, an enumeration is begun in its turn and ended
after all other calls of the case."""
from itertools import islice

from common import run, hand_of, kinds, kind_of, tile_of, guarded
from mahjong.container.pattern.reasoning import HeuristicPatternMatchWaiting, PatternMatchWaiting, BruteForceWaiting
from mahjong.container.pattern.win import NormalTypeWin, UniquePairs

EVAL = {"heuristic": HeuristicPatternMatchWaiting, "pattern": PatternMatchWaiting, "brute": BruteForceWaiting}


def pattern(p):
    if p["t"] == "n":
        return NormalTypeWin(pairs=p["p"], melds=p["m"])
    return UniquePairs(p["p"])


def unit(u):
    ks = kinds(u)
    if len(ks) == 2 and ks[0] == ks[1]:
        return [1, ks[0]]
    if len(ks) == 3 and ks[0] == ks[2]:
        return [3, ks[0]]
    if len(ks) == 3 and ks[0] + 1 == ks[1] and ks[1] + 1 == ks[2]:
        return [2, ks[0]]
    return [9, ks[0] if ks else 0]


def batch_items(items):
    return [{"tile": kind_of(t), "step": int(s), "useful": sorted(kind_of(x) for x in set(u))} for t, s, u in items]


def finish(c, res, hand, it, obj):
    def go():
        if c["op"] == "div":
            res["divs"] += [[unit(u) for u in d] for d in it]
            res["unique"] = [[unit(u) for u in d] for d in obj.unique_win_selections(hand)]
        else:
            res["items"] += batch_items(it)
            res["op"] = "batch"

    if res["raise"]:
        return
    _, err = guarded(go)
    res["raise"] = err or ""
    res["after"] = kinds(hand)


def call(c, shared, timeouts, later):
    res = dict(c)
    for k in ("take", "obj", "late"):
        res.pop(k, None)
    if len(timeouts) >= 3:
        res["raise"] = "SkippedAfterTimeouts"
        return res
    pat = c["pat"]
    by = c.get("by", "heuristic")
    key = (c.get("obj"), str(pat), by if c["op"] in ("wait", "batch") else "")
    if c.get("obj") is not None and key in shared:
        obj = shared[key]
    else:
        obj = pattern(pat)
        if c["op"] in ("wait", "batch"):
            # an evaluator may share its pattern object with others
            pkey = (c.get("obj"), str(pat), "")
            if c.get("obj") is not None:
                obj = shared.setdefault(pkey, obj)
            obj = EVAL[by](obj)
        if c.get("obj") is not None:
            shared[key] = obj
    hand = hand_of(c["hand"])

    def go():
        if c["op"] == "match":
            res["match"] = bool(obj.match(hand))
        elif c["op"] == "div":
            it = obj.win_selections(hand)
            res["divs"] = [[unit(u) for u in d] for d in (islice(it, c.get("take", 1)) if c.get("late") else it)]
            if c.get("late"):
                later.append((c, res, hand, it, obj))
                return res
            res["unique"] = [[unit(u) for u in d] for d in obj.unique_win_selections(hand)]
        elif c["op"] == "peek":
            res["divs"] = [[unit(u) for u in d] for d in islice(obj.win_selections(hand), c.get("take", 1))]
        elif c["op"] == "wait":
            kw = {} if c["limit"] and c.get("plain", True) else {"ignore_4counts": c["limit"]}
            how = c.get("how", "both")
            if how == "both":
                s, u = obj.waiting_and_useful_tiles(hand, **kw)
                res["step"], res["useful"] = int(s), sorted(kind_of(t) for t in u)
            elif how == "step":
                res["step"] = int(obj.before_waiting_step(hand, **kw))
            else:
                res["step"] = int(obj.before_waiting_step(hand, **kw))
                res["useful"] = sorted(kind_of(t) for t in obj.useful_tiles(hand, **kw))
        elif c["op"] == "batch":
            kw = {} if c["limit"] and c.get("plain", True) else {"ignore_4counts": c["limit"]}
            it = obj.batch_waiting_and_useful_tiles(hand, **kw)
            if c.get("take"):
                items = list(islice(it, c["take"]))
                res["op"] = "batchpeek"
            else:
                items = list(it)
            res["items"] = batch_items(items)
            if c.get("late"):
                later.append((c, res, hand, it, obj))
        return res

    _, err = guarded(go)
    if err == "Timeout":
        timeouts.append(1)
    res["raise"] = err or ""
    res["after"] = kinds(hand)
    return res


TIMEOUTS = []


def handle(case):
    shared, later = {}, []
    calls = [call(c, shared, TIMEOUTS, later) for c in case["calls"]]
    for begun in later:
        finish(*begun)
    return {"calls": calls}


if __name__ == "__main__":
    run(handle)
