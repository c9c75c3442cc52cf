"""Tiles, notation, tile sets, tile numbers, categories, dora: replays scripts of calls.
case: {calls: [{op, ...}]}; observations are added to each call."""
from common import run, guarded, kind_of, tile_of, SUITS
from mahjong.container.set import TileSet
from mahjong.container.utils import tile_set_from_string, tiles_from_string


def code(tile):
    """1..34, +100 for the red five"""
    return kind_of(tile) + (100 if tile.number == 0 else 0)


def plain(tiles):
    return [kind_of(t) for t in tiles]


def tile(c):
    return tile_of(c % 100, c >= 100)


def listed(s):
    return sorted(k for t, n in s.items() for k in [kind_of(t)] * n)


def points(text):
    return [ord(ch) for ch in text]


def category(c):
    from mahjong.record.category import SubCategory, MixedCategory
    if c["t"] == "s":
        sizes = [-1 if n == 0 else n for n in c["n"]]
        if c.get("names"):
            return SubCategory(*sizes, caption="sub", names=c["names"])
        return SubCategory(*sizes)
    parts = [category(p) for p in c["parts"]]
    if c.get("field"):
        return MixedCategory(parts, caption="mix", field_name=c["field"])
    return MixedCategory(parts)


def plain_tuple(t):
    return [int(x) for x in tuple(t)]


def text_tile(s):
    n, c = int(s[:-1]), s[-1]
    return SUITS.index(c) * 9 + (5 if n == 0 else n) + (100 if n == 0 else 0)


def call(c, regs):
    op = c["op"]
    if op == "new":
        ts = [tile(t) for t in c["tiles"]]
        how = c.get("how", "list")
        if how == "counter":
            d = {}
            for t in ts:
                d[t] = d.get(t, 0) + 1
            regs[c["dst"]] = TileSet(d)
        elif how == "iter":
            regs[c["dst"]] = TileSet(iter(ts))
        else:
            regs[c["dst"]] = TileSet(ts)
    elif op == "parse":
        text = "".join(chr(p) for p in c["text"])
        regs[c["dst"]] = tile_set_from_string(text)
        c["res"] = [code(t) for t in tiles_from_string(text)]
    elif op == "add":
        regs[c["dst"]] = regs[c["a"]] + regs[c["b"]]
    elif op == "sub":
        regs[c["dst"]] = regs[c["a"]] - regs[c["b"]]
    elif op == "iadd":
        regs[c["a"]] += regs[c["b"]]
    elif op == "isub":
        regs[c["a"]] -= regs[c["b"]]
    elif op == "update":
        regs[c["a"]].update(regs[c["b"]])
    elif op == "and":
        regs[c["dst"]] = regs[c["a"]] & regs[c["b"]]
    elif op == "or":
        regs[c["dst"]] = regs[c["a"]] | regs[c["b"]]
    elif op == "exclude":
        r = regs[c["a"]].exclude(regs[c["b"]])
        c["res"] = r is not None
        if r is not None:
            regs[c["dst"]] = r
    elif op == "copy":
        regs[c["dst"]] = regs[c["a"]].copy()
    elif op == "contains":
        c["res"] = bool(regs[c["a"]].contains(regs[c["b"]]))
    elif op == "eq":
        c["res"] = bool(regs[c["a"]] == regs[c["b"]])
    elif op == "len":
        c["res"] = len(regs[c["a"]])
    elif op == "count":
        c["res"] = int(regs[c["a"]][tile(c["tile"])])
    elif op == "tiles":
        c["res"] = plain(regs[c["a"]].tiles())
    elif op == "roundtrip":
        src = regs[c["a"]]
        text = str(src) if not c.get("rep") else repr(src)
        c["text"] = points(text)
        back = tile_set_from_string(text)
        c["res"] = bool(back == src) and bool(src == back)
        regs[c["dst"]] = back
    elif op == "tile":
        t = tile(c["tile"])
        c["kind"] = kind_of(t)
        c["red"] = t.number == 0
        c["suit"] = bool(t.is_suit())
        c["text"] = points(str(t))
        nxt = t.next()
        c["next"] = 0 if nxt is None else code(nxt)
        c["flush"] = [] if t.flush() is None else sorted(code(x) for x in t.flush().tiles())
        c["triplet"] = [code(x) for x in t.triplet().tiles()]
        c["pair"] = [code(x) for x in t.pair().tiles()]
        c["repeat"] = [[code(x) for x in t.repeat(n).tiles()] for n in range(5)]
    elif op == "order":
        t = tile(c["tile"])
        c["others"] = []
        for k in list(range(1, 35)) + [105, 114, 123]:
            o = tile(k)
            c["others"].append({"tile": k, "eq": bool(t == o), "ne": bool(t != o), "lt": bool(t < o), "gt": bool(t > o),
                                "le": bool(t <= o), "ge": bool(t >= o), "samehash": hash(t) == hash(o)})
    elif op == "sort":
        c["res"] = [code(t) for t in sorted(tile(t) for t in c["tiles"])]
    elif op == "number":
        from mahjong.record.utils.value.tile import tile_from_tenhou, tile_to_tenhou_range
        from mahjong.record.utils.constant import TENHOU_TILE_CATEGORY
        t = tile_from_tenhou(c["n"])
        c["tile"] = code(t)
        c["cat"] = plain_tuple(TENHOU_TILE_CATEGORY.category(c["n"]))
        c["back"] = int(TENHOU_TILE_CATEGORY.index(TENHOU_TILE_CATEGORY.category(c["n"])))
        c["range"] = [int(x) for x in tile_to_tenhou_range(t)]
    elif op == "range":
        from mahjong.record.utils.value.tile import tile_to_tenhou_range
        c["range"] = [int(x) for x in tile_to_tenhou_range(tile(c["tile"]))]
    elif op == "category":
        cat = category(c["cat"])
        n = c["expect"]
        c["size"] = len(cat)
        dec = [cat.category(i) for i in range(min(n, c["size"]))]
        c["decoded"] = [plain_tuple(d) for d in dec] + [[]] * (n - len(dec))
        c["encoded"] = [int(cat.index(d)) for d in dec] + [-1] * (n - len(dec))
        c["encoded2"] = [int(cat.index(tuple(plain_tuple(d)))) for d in dec] + [-1] * (n - len(dec))
        names = True
        for d in dec:
            want = c["fields"][int(d[0])] if c["cat"]["t"] == "m" and c.get("fields") else c.get("fields")
            if want:
                names = names and list(d._fields) == want and [getattr(d, f) for f in want] == list(d)
        c["names"] = bool(names)
        c["refused"] = []
        for i in (n, n + 1, n + 7, 2 * n, 10 * n + 3):
            try:
                cat.category(i)
                c["refused"].append(False)
            except Exception:
                c["refused"].append(True)
    elif op == "opencategory":
        cat = category(c["cat"])
        c["size"] = 0 if cat.__len__() == float("inf") else int(cat.__len__())
        dec = [cat.category(i) for i in c["at"]]
        c["decoded"] = [plain_tuple(d) for d in dec]
        c["encoded"] = [int(cat.index(d)) for d in dec]
        c["encoded2"] = [int(cat.index(tuple(plain_tuple(d)))) for d in dec]
    elif op == "doras":
        from mahjong.record.const import doras
        ind = [str(tile(t)) for t in c["ind"]]
        before = list(ind)
        got = doras(ind)
        c["res"] = [text_tile(s) for s in got]
        assert ind == before
        # the answer is the caller's own
        got.append("1m")
        got.pop(0)
    elif op == "population":
        from mahjong.record.const import initial_tiles
        got = initial_tiles(c["players"], c["aka"])
        c["res"] = [text_tile(s) for s in got]
        got.append("1m")
        got.pop(0)
    else:
        raise ValueError(op)


def handle(case):
    regs = [TileSet() for _ in range(4)]
    out = []
    dead = False
    for c in case["calls"]:
        res = dict(c)
        err = "skipped"
        if not dead:
            _, err = guarded(call, res, regs)
        res["raise"] = err or ""
        dead = dead or bool(err)
        if not err:
            res["regs"] = [listed(r) for r in regs]
        out.append(res)
        if dead:
            break
    return {"calls": out}


if __name__ == "__main__":
    run(handle)
