"""Translators with registered translations, given events.  case: {translators, calls}"""
import xml.etree.ElementTree as ET

from common import run, guarded


def handle(case):
    from mahjong.record.universe.command import GameCommand
    from mahjong.record.universe.format import GameView, PlayerView, Update, EventType
    from mahjong.record.universe.tenhou.xml_macher import TenhouCommandTranslator
    from mahjong.record.universe.translator import default_event_type
    from mahjong.record.utils.event import TenhouEvent
    keys = {"k1": ("all", GameView.sub_round), "k2": (0, PlayerView.score), "k3": (2, PlayerView.score), "k4": ("all", GameView.round)}
    back = {v: k for k, v in keys.items()}
    trs = [TenhouCommandTranslator() for _ in range(case["translators"])]
    asked = []

    def translation(m):
        def answer(event, ctx):
            asked.append(m["id"])
            if int(event.attrib["go"]) in m["answers"]:
                for c in m["cmds"]:
                    sub, prop = keys[c["key"]]
                    more = {} if sub == "all" else {"sub_scope": sub}
                    if c["method"] != "RESET_DEFAULT":
                        more["value"] = c["value"] + (ctx[keys[c["from"]]] if c["from"] else 0)
                    yield GameCommand(prop=prop, update=Update[c["method"]], event=EventType[c["kind"]] if c["kind"] else None, **more)
        return default_event_type(EventType[m["kind"]])(answer) if m["kind"] else answer

    def step(c):
        tr = trs[c["tr"] - 1]
        if c["op"] == "register":
            m = c["m"]
            f = translation(m)
            if m["how"] == "name":
                deco = tr.match_name(m["names"][0]) if len(m["names"]) == 1 and m["id"] % 2 else tr.match_names(m["names"])
            elif m["how"] == "attr":
                deco = tr.match_attr(m["attr"])
            elif m["how"] == "both":
                deco = tr.match_both(name=m["names"][0], attr=m["attr"])
            else:
                deco = tr.default_event
            assert deco(f) is f
        elif c["op"] == "clear":
            tr.clear()
        else:
            e = c["e"]
            del asked[:]
            event = TenhouEvent(ET.Element(e["tag"], {a: str(e["go"]) if a == "go" else "7" for a in e["attrs"]}), context=None,
                                timestamp=c["at"])
            c["refused"], c["cmds"] = False, []
            try:
                out = tr(event, strict=c["strict"]) if c["strict"] or c["at"] % 2 else tr(event)
            except ValueError:
                c["refused"] = True
                out = []
            for x in out:
                c["cmds"].append({"key": back[(x.sub_scope_id, x.property)], "kind": x.event.name if x.event is not None else "",
                                  "at": x.timestamp, "value": 0 if x.update_method == Update.RESET_DEFAULT else x.value, "st": x.state})
            c["asked"] = list(asked)
    out = []
    for c in case["calls"]:
        c = dict(c)
        _, err = guarded(step, c)
        c["raise"] = err or ""
        out.append(c)
        if err:
            break
    return {"translators": case["translators"], "calls": out}


if __name__ == "__main__":
    run(handle)
