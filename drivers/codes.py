"""Call codes and rule codes.  case: {calls: [...]}"""
from collections import namedtuple

from common import run, guarded

Event = namedtuple("Event", "tag attrib")


def ints(s):
    return [int(x) for x in s]


def fill(c, o):
    c["own"], c["got"] = ints(o.self_tiles), ints(o.borrowed_tiles)
    c["src"], c["opened"] = int(o.from_who), bool(o.is_opened())
    c["openquad"] = bool(getattr(o, "is_opened_kan", False))


def meld(who, m):
    from mahjong.record.utils.value.meld import meld_from
    return meld_from(Event("N", {"who": str(who), "m": str(m)}))


def call(c):
    if c["op"] == "meld":
        from mahjong.record.utils.value import meld as M
        o = meld(c["who"], c["m"])
        fill(c, o)
        c["kind"] = M.meld_type(str(c["m"])).name
        classes = [(n, getattr(M, k, None)) for n, k in (("flush", "Flush"), ("triplet", "Triplet"), ("kan", "Kan"),
                                                          ("add_kan", "TenhouAddedKan"), ("kita", "Kita"))]
        c["isa"] = c["kind"]
        if all(cls is not None for _, cls in classes):
            c["isa"] = "".join(n for n, cls in classes if isinstance(o, cls))
    elif c["op"] == "extend":
        from mahjong.record.utils.value import meld as M
        p, a = meld(c["who"], c["pon"]), meld(c["who"], c["add"])
        before = (set(p.self_tiles), set(p.borrowed_tiles), set(a.self_tiles))
        c["extends"] = bool(M.is_triplet_of_added_kan(p, a))
        if c["extends"]:
            fill(c, M.KanFromTriplet(p, a))
        assert before == (set(p.self_tiles), set(p.borrowed_tiles), set(a.self_tiles)), "operands changed"
    elif c["op"] == "rules":
        from mahjong.record.utils.value.gametype import GameType
        g = GameType(str(c["code"]) if c.get("text") else c["code"])
        c.update(players=int(g.player_count()), winds=int(g.play_wind_count()), games=int(g.main_game_count()),
                 aka=bool(g.has_aka_dora()), tanyao=bool(g.allow_tanyao_open()), level=int(g.play_level()),
                 speed=bool(g.speed_up()), shadow=bool(g.show_discard_shadow()), tips=int(g.tips_count()),
                 withtips=bool(g.with_tips()), name=[ord(x) for x in str(g)])
        for o in c["others"]:
            h = GameType(o["code"])
            o["eq"] = bool(g == h)
            o["ne"] = bool(g != h)
    else:
        raise ValueError(c["op"])


def handle(case):
    out = []
    for c in case["calls"]:
        res = dict(c)
        _, err = guarded(call, res)
        res["raise"] = err or ""
        out.append(res)
    return {"calls": out}


if __name__ == "__main__":
    run(handle)
