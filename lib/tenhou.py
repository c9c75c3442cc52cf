"""Tenhou log XML <-> the abstract events of spec/Table.tla.  No judgement here, only notation."""
import re
import xml.etree.ElementTree as ET
from urllib.parse import quote, unquote

DRAWS, DISCARDS = "TUVW", "DEFG"


def nums(s):
    return [int(x) for x in s.split(",")] if s else []


def _hundredths(s):
    return int(round(float(s) * 100))


def _pairs(s, i):
    return [int(x) for x in s.split(",")[i::2]]


def _fin(a):
    if "owari" not in a:
        return []
    v = a["owari"].split(",")
    return [[int(v[i]), int(round(float(v[i + 1]) * 10))] for i in range(0, len(v), 2)]


def event(el):
    """One XML element as an abstract event."""
    tag, a = el.tag, el.attrib
    m = re.fullmatch(r"([A-Z])(\d+)", tag)
    if m and m.group(1) in DRAWS:
        return {"k": "draw", "who": DRAWS.index(m.group(1)), "t": int(m.group(2))}
    if m and m.group(1) in DISCARDS:
        return {"k": "discard", "who": DISCARDS.index(m.group(1)), "t": int(m.group(2))}
    if tag == "SHUFFLE":
        return {"k": "shuffle", "text": a["seed"]}
    if tag == "GO":
        return {"k": "go", "type": int(a["type"])}
    if tag == "UN":
        who = [p for p in range(4) if a.get("n%d" % p, "").strip()]
        return {"k": "un", "who": who, "names": [unquote(a["n%d" % p]) for p in who],
                "dan": nums(a.get("dan", "")), "rate": [_hundredths(x) for x in a["rate"].split(",")] if "rate" in a else [],
                "sx": a["sx"].split(",") if "sx" in a else []}
    if tag == "TAIKYOKU":
        return {"k": "taikyoku", "oya": int(a["oya"])}
    if tag == "BYE":
        return {"k": "bye", "who": int(a["who"])}
    if tag == "INIT":
        s = nums(a["seed"])
        return {"k": "init", "kyoku": s[0], "honba": s[1], "sticks": s[2], "dice": s[3:5], "dora": s[5],
                "ten": nums(a["ten"]), "oya": int(a["oya"]),
                "hands": [nums(a["hai%d" % p]) for p in range(4) if a.get("hai%d" % p, "").strip()]}
    if tag == "N":
        return {"k": "call", "who": int(a["who"]), "m": int(a["m"])}
    if tag == "REACH":
        return {"k": "reach", "who": int(a["who"]), "step": int(a["step"]), "ten": nums(a.get("ten", ""))}
    if tag == "DORA":
        return {"k": "dora", "t": int(a["hai"])}
    if tag == "AGARI":
        t = nums(a["ten"])
        yakuman = "yakuman" in a
        return {"k": "agari", "who": int(a["who"]), "from": int(a["fromWho"]), "hai": nums(a["hai"]),
                "ms": nums(a.get("m", "")), "machi": int(a["machi"]), "fu": t[0], "pts": t[1], "lim": t[2],
                "yaku": nums(a["yakuman"]) if yakuman else _pairs(a["yaku"], 0),
                "han": [] if yakuman else _pairs(a["yaku"], 1), "yakuman": yakuman,
                "dorahai": nums(a["doraHai"]), "ura": nums(a.get("doraHaiUra", "")), "ba": nums(a["ba"]),
                "base": _pairs(a["sc"], 0), "delta": _pairs(a["sc"], 1), "fin": _fin(a)}
    if tag == "RYUUKYOKU":
        sc = "sc" in a
        return {"k": "ryuu", "type": a.get("type", ""), "ba": nums(a["ba"]), "sc": sc,
                "base": _pairs(a["sc"], 0) if sc else [], "delta": _pairs(a["sc"], 1) if sc else [],
                "shown": [[p, nums(a["hai%d" % p])] for p in range(4) if "hai%d" % p in a], "fin": _fin(a)}
    return {"k": "other", "tag": tag}


def events_of(root):
    return [event(e) for e in root]


def load(path):
    return events_of(ET.parse(path).getroot())


# ------------------------------------------------------------------------------------------------ rendering
def _j(xs):
    return ",".join(str(x) for x in xs)


def _sc(e):
    return _j(x for p in zip(e["base"], e["delta"]) for x in p)


def _tenth(x, style):
    if style.get("old") and x % 10 == 0:
        return str(x // 10)
    return "%s%d.%d" % ("-" if x < 0 else "", abs(x) // 10, abs(x) % 10)


def _rate(x, style):
    if style.get("old") and x % 100 == 0:
        return str(x // 100)
    return "%d.%02d" % (x // 100, x % 100)


def encode_name(name, style):
    if style.get("quote") == "all":
        return "".join("%%%02X" % b for b in name.encode("utf-8"))
    return quote(name, safe=style.get("quote") or "")


def element(e, n, style=None):
    """One abstract event as (tag, attributes); n: player count; style: notation variants of the log format."""
    style = style or {}
    k = e["k"]
    if k == "draw":
        return "%s%d" % (DRAWS[e["who"]], e["t"]), {}
    if k == "discard":
        return "%s%d" % (DISCARDS[e["who"]], e["t"]), {}
    if k == "shuffle":
        return "SHUFFLE", {"seed": e["text"], "ref": ""}
    if k == "go":
        return "GO", dict({"type": str(e["type"])}, **({} if style.get("old") else {"lobby": "0"}))
    if k == "un":
        a = {"n%d" % p: encode_name(x, style) for p, x in zip(e["who"], e["names"])}
        if e["dan"]:
            if n == 3:
                a["n3"] = ""
            a.update(dan=_j(e["dan"]), rate=",".join(_rate(r, style) for r in e["rate"]), sx=",".join(e["sx"]))
        return "UN", a
    if k == "taikyoku":
        return "TAIKYOKU", {"oya": str(e["oya"])}
    if k == "bye":
        return "BYE", {"who": str(e["who"])}
    if k == "init":
        a = {"seed": _j([e["kyoku"], e["honba"], e["sticks"]] + list(e["dice"]) + [e["dora"]]), "ten": _j(e["ten"]),
             "oya": str(e["oya"])}
        for p, h in enumerate(e["hands"]):
            a["hai%d" % p] = _j(h)
        if n == 3:
            a["hai3"] = ""
        return "INIT", a
    if k == "call":
        return "N", {"who": str(e["who"]), "m": str(e["m"])}
    if k == "reach":
        a = {"who": str(e["who"])}
        if e["step"] == 2:
            a["ten"] = _j(e["ten"])
        a["step"] = str(e["step"])
        return "REACH", a
    if k == "dora":
        return "DORA", {"hai": str(e["t"])}
    if k == "agari":
        a = {"ba": _j(e["ba"]), "hai": _j(e["hai"])}
        if e["ms"]:
            a["m"] = _j(e["ms"])
        a.update(machi=str(e["machi"]), ten=_j([e["fu"], e["pts"], e["lim"]]))
        if e["yakuman"]:
            a["yakuman"] = _j(e["yaku"])
        else:
            a["yaku"] = _j(x for p in zip(e["yaku"], e["han"]) for x in p)
        a["doraHai"] = _j(e["dorahai"])
        if e["ura"]:
            a["doraHaiUra"] = _j(e["ura"])
        a.update(who=str(e["who"]), fromWho=str(e["from"]), sc=_sc(e))
        if e["fin"]:
            a["owari"] = ",".join("%d,%s" % (s, _tenth(p, style)) for s, p in e["fin"])
        return "AGARI", a
    if k == "ryuu":
        a = {}
        if e["type"]:
            a["type"] = e["type"]
        a["ba"] = _j(e["ba"])
        if e["sc"]:
            a["sc"] = _sc(e)
        for p, h in e["shown"]:
            a["hai%d" % p] = _j(h)
        if e["fin"]:
            a["owari"] = ",".join("%d,%s" % (s, _tenth(p, style)) for s, p in e["fin"])
        return "RYUUKYOKU", a
    raise ValueError(k)


def xml_of(events, style=None):
    from html import escape
    n = 4
    for e in events:
        if e["k"] == "go":
            n = 3 if e["type"] & 16 else 4
    out = ['<mjloggm ver="2.3">']
    for e in events:
        tag, a = element(e, n, style)
        out.append("<%s%s/>" % (tag, "".join(' %s="%s"' % (x, escape(y, quote=True)) for x, y in a.items())))
    out.append("</mjloggm>")
    return "".join(out)
