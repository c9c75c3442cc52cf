"""Records: reading, trackers, batches, hands, summary, events.  case: {op, xml, how, ...}"""
import os
import re
import sys
import xml.etree.ElementTree as ET

from common import run, guarded, online, SCRATCH

sys.path.append(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def record_of(case):
    from mahjong.record import reader
    xml = case["xml"]
    how = case.get("how", "string")
    if how == "file":
        p = os.path.join(SCRATCH, "record.xml")
        with open(p, "w", encoding="utf-8") as f:
            f.write(xml)
        return reader.from_file(p)
    if how == "url":
        with online(xml):
            return reader.from_url("http://tenhou.net/0/?log=2019000000gm-0029-0000-abcdef01&tw=1")
    return reader.TenhouRecord(ET.fromstring(xml))


# ---------------------------------------------------------------- trackers
def tracker(kind, p, rec):
    from mahjong.record import state as S
    if kind == "hand":
        return S.PlayerHand(rec.players[p])
    if kind == "calls":
        return S.PlayerMeld(rec.players[p])
    if kind == "disc":
        return S.DiscardTiles(rec.players[p])
    if kind == "dora":
        return S.DoraIndicators()
    if kind == "unseen":
        return S.InvisibleTiles(len(rec.players))
    if kind == "all":
        return S.GameStateCollection(**{"%s_%d" % (k, q): tracker(k, q, rec) for k, q in keys_of(rec)})


def keys_of(rec):
    n = len(rec.players)
    return [(k, q) for k in ("hand", "calls", "disc") for q in range(n)] + [("dora", 0), ("unseen", 0)]


def value_of(kind, v):
    if kind in ("hand", "unseen"):
        return sorted(int(x) for x in v)
    if kind == "calls":
        return [[sorted(int(x) for x in m.self_tiles), sorted(int(x) for x in m.borrowed_tiles), int(m.from_who)] for m in v]
    return [int(x) for x in v]


def shown(kind, st):
    v = st.value
    if kind == "all":
        return [[k.split("_")[0], int(k.split("_")[1]), value_of(k.split("_")[0], x.value)] for k, x in sorted(vars(v).items())]
    return value_of(kind, v)


def diff(prev, cur):
    out = []
    for key, v in cur.items():
        if key in prev and prev[key] == v:
            continue
        kind, p = key
        if kind == "unseen":
            old = set(prev.get(key, []))
            out.append([kind, p, sorted(set(v) - old), sorted(old - set(v))])
        else:
            out.append([kind, p, v])
    return out


def trackers(case):
    rec = record_of(case)
    todo = [k for k in keys_of(rec) if k[0] in case["kinds"]]
    fresh = {k: tracker(k[0], k[1], rec) for k in todo}
    cur = dict(fresh)
    states = [dict(cur)]
    if case["over"] == "record":
        for e in rec.events:
            cur = {k: st.scan(e) for k, st in cur.items()}
            states.append(dict(cur))
    else:  # every hand on its own, from fresh trackers
        first = rec.game_list[0].events[0].timestamp
        states += [dict(cur)] * first
        for g in rec.game_list:
            cur = dict(fresh)
            for e in g.events:
                cur = {k: st.scan(e) for k, st in cur.items()}
                if e.timestamp != len(states) - 1:
                    raise ValueError("event out of place")
                states.append(dict(cur))
    obs, prev = [], {}
    for st in states:
        now = {k: shown(k[0], x) for k, x in st.items()}
        obs.append(diff(prev, now))
        prev = now
    return {"n": len(rec.players), "obs": obs}


def batches(case):
    rec = record_of(case)
    kind, p = case["tracker"], case["p"]
    st = tracker(kind, p, rec)
    keys, out, kept = [], [], []
    events = rec.events
    step = st
    for e in events:
        keys.append(bool(step.is_key_event(e)))
        step = step.scan(e)
    start = 0
    for b in case["batches"]:
        part = events[start:b["upto"]]
        runs, last = [], None
        for m in b["methods"]:
            if m == "with_events":
                res = list(st.with_events(part))
                last = res[-1]
            elif m == "with_key_events":
                res = list(st.with_key_events(iter(part)))
                last = res[-1] if res else st
            elif m == "passed_events":
                last = st.passed_events(iter(part))
                res = [last]
            elif m == "passed_twice":
                half = len(part) // 2
                last = st.passed_events(part[:half]).passed_events([]).passed_events(part[half:])
                res = [last]
            else:
                last = st
                for e in part:
                    last = last.scan(e)
                res = [last]
            runs.append({"method": m, "got": [shown(kind, x) for x in res]})
            kept.append((runs[-1], res))
        st = last
        start = b["upto"]
        out.append({"upto": b["upto"], "runs": runs})
    for r, res in kept:
        r["again"] = [shown(kind, x) for x in res]
    return {"n": len(rec.players), "keys": keys, "batches": out}


# ---------------------------------------------------------------- hands and summary
def hundredths(x):
    return int(round(float(x) * 100))


def hands(case):
    from lib import tenhou
    rec = record_of(case)
    return {"events": [tenhou.event(e) for e in rec.events], "stamps": [e.timestamp for e in rec.events],
            "hands": [{"events": [e.timestamp for e in g.events], "playing": [e.timestamp for e in g.playing],
                       "ends": [e.timestamp for e in g.end_events]} for g in rec.game_list]}


def tiles_in(text):
    """tile codes of a text like 123m0p, None when it is not one"""
    if not re.fullmatch(r"([0-9]+[mpsz])*", text):
        return None
    out = []
    for digits, suit in re.findall(r"([0-9]+)([mpsz])", text):
        for d in digits:
            k = 9 * "mpsz".index(suit) + int(d)
            out.append(k if d != "0" else 105 + 9 * "mps".index(suit))
    return out


TYPES = {"Flush": "chi", "Triplet": "pon", "TenhouKan": "kan", "TenhouAddedKan": "addkan", "Kita": "kita"}
FORMS = [
    (r"player (\d) draw (\d[mpsz])", lambda a: {"k": "draw", "who": int(a[0]), "tile": tiles_in(a[1])[0]}),
    (r"player (\d) discard (\d[mpsz])", lambda a: {"k": "discard", "who": int(a[0]), "tile": tiles_in(a[1])[0]}),
    (r"player (\d) claimed '(\w+)' using '([0-9mpsz]*)' to get '([0-9mpsz]*)' from player (\d)",
     lambda a: {"k": "call", "who": int(a[0]), "kind": TYPES.get(a[1], a[1]), "own": tiles_in(a[2]), "got": tiles_in(a[3]),
                "src": int(a[4])}),
    (r"player (\d) richii", lambda a: {"k": "reach", "who": int(a[0])}),
    (r"new dora indicator (\d[mpsz])", lambda a: {"k": "dora", "tile": tiles_in(a[0])[0]}),
    (r"player (\d) win (\d+) from player (\d)",
     lambda a: {"k": "agari", "who": int(a[0]), "pts": int(a[1]), "from": int(a[2])}),
    (r"no body win (.*)", lambda a: {"k": "ryuu", "reason": a[0]}),
    (r"UNPARSED", lambda a: {"k": "other"}),
]


def said(text):
    text = text.split(":<", 1)[0]
    for form, f in FORMS:
        m = re.fullmatch(form, text, re.S)
        if m:
            return f(m.groups())
    return {"k": "unreadable", "text": text}


def summary(case):
    rec = record_of(case)
    out = []
    for g in rec.game_list:
        wind, num = g.game_index()
        out.append({"wind": wind, "num": num, "honba": g.sub_game_index(), "sticks": g.richii_counts(),
                    "dora": g.initial_dora(), "oya": g.east_index, "text": str(g)})
    return {"players": [{"index": p.index, "name": p.name, "level": p.level_str(), "rate": hundredths(p.rate), "sex": p.sex,
                         "text": str(p)} for p in rec.players],
            "rules": str(rec.game_type), "hands": out, "text": str(rec),
            "scores": [hundredths(x) for x in rec.end_score], "points": [hundredths(x) for x in rec.end_point],
            "said": [said(str(e)) for e in rec.events]}


def paifu(case):
    import pandas
    from mahjong.record.util_functions import light_dataframe_from_file
    rec = record_of(case)
    rows = []
    fields = {"event_type", "player", "player_see", "player_show", "player_open", "origin", "score", "game_str"}
    for r in rec.to_paifu():
        odd = set(r) - fields
        text = {k: r.get(k, "") for k in fields}
        if odd or not all(isinstance(v, str) for v in text.values()):
            raise ValueError("odd row %r" % (r,))
        t = {k: tiles_in(text["player_" + k]) for k in ("see", "show", "open")}
        rows.append({"type": text["event_type"].strip(), "who": int(text["player"] or -1), "see": t["see"], "show": t["show"],
                     "open": t["open"], "from": text["origin"], "score": int(text["score"]) if text["score"] else -999999999,
                     "hand": text["game_str"]})
        if None in t.values():
            raise ValueError("not tiles: %r" % (r,))
    path = os.path.join(SCRATCH, case["log"] + case["ext"])
    with open(path, "w", encoding="utf-8") as f:
        f.write(case["xml"])
    df = light_dataframe_from_file(path, case["abstract"])
    os.unlink(path)
    columns = ["index", "tag", "attr", "value", "log_id"]
    if sorted(df.columns) != sorted(columns):
        raise ValueError("columns %s" % list(df.columns))
    df = df[columns]
    light = [{"index": int(a), "tag": b, "attr": c, "value": d, "log": e} for a, b, c, d, e in df.itertuples(index=False)]
    return {"rows": rows, "light": light}


# ---------------------------------------------------------------- questions about an event
WHOLE = [("init", "is_game_init"), ("call", "is_open_hand"), ("dora", "is_dora_indicator_event"), ("reach", "is_richii"),
         ("agari", "is_somebody_win_game"), ("ryuu", "is_nobody_win_game")]
OWN = [("draw", "is_draw"), ("discard", "is_discard"), ("call", "is_open_hand"), ("choice", "is_player_choice"),
       ("reach", "is_reach"), ("win", "is_win")]


def asks(case):
    from mahjong.record.utils import event as E
    from mahjong.record import reader
    rec = record_of(case)
    homes = {id(g): j for j, g in enumerate(rec.game_list)}
    homes[id(rec)] = -1
    answers = []
    for e in rec.events:
        own = []
        for p in rec.players:
            yes = sorted(k for k, f in OWN if getattr(p, f)(e))
            call = []
            if "call" in yes:
                m = p.opened_hand_type(e)
                call = [{"own": sorted(int(x) for x in m.self_tiles), "got": sorted(int(x) for x in m.borrowed_tiles),
                         "src": int(m.from_who), "open": bool(m.is_opened())}]
            own.append({"yes": yes, "call": call, "drawn": int(p.draw_tile_index(e)) if "draw" in yes else -1,
                        "dropped": int(p.discard_tile_index(e)) if "discard" in yes else -1})
        drawn, dropped = E.draw_value(e), E.discard_value(e)
        drew, left = E.draw_tile_change(e), E.discard_tile_change(e)
        answers.append({"yes": sorted([k for k, f in WHOLE if getattr(E, f)(e)] + (["end"] if reader.is_game_end(e) else [])),
                        "drawn": -1 if drawn is None else int(drawn), "dropped": -1 if dropped is None else int(dropped),
                        "drew": [int(drew["player"]), tiles_in(str(drew["tile"]))] if drew else [],
                        "left": [int(left["player"]), tiles_in(str(left["tile"]))] if left else [],
                        "own": own, "home": homes.get(id(e.context_), -2)})
    return {"answers": answers}


OPS = {"asks": asks, "paifu": paifu, "hands": hands, "summary": summary, "trackers": trackers, "batches": batches}


def handle(case):
    return OPS[case["op"]](case)


if __name__ == "__main__":
    run(handle)
