"""C14-C16: the trackers of mahjong.record.state against the table."""
import copy

from checks import check
from lib import records, tables, tenhou

HOWS = ["string", "string", "file", "url"]


def design(ctx):
    for name, cfg in tables.configs(ctx.thorough):
        ctx.model_check("MCTable", cfg, name=name, timeout=850, heap="8g")


def load(ctx, quick, thorough, fixtures=True, max_events=None):
    out = records.generate(ctx, records.plans(ctx.rng, ctx.pick(quick, thorough)))
    if fixtures:
        out += records.fixtures()
    return out


def xml(ev, style):
    return open(style["file"], encoding="utf-8").read() if "file" in style else tenhou.xml_of(ev, style)


def n_of(events):
    return next(3 if e["type"] & 16 else 4 for e in events if e["k"] == "go")


def tracker_lines(ctx, kinds, recs):
    cases = []
    for ev, st in recs:
        cases.append({"op": "trackers", "xml": xml(ev, st), "how": ctx.rng.choice(HOWS), "kinds": kinds,
                      "over": ctx.rng.choice(["record", "hands"])})
    obs = ctx.driver("rec", cases)
    return [{"events": ev, "n": o.get("n", n_of(ev)), "obs": o.get("obs", []), "raise": o["raise"]}
            for (ev, _), o in zip(recs, obs)]


def run_trackers(ctx, part, kinds, corrupt):
    design(ctx)
    recs = load(ctx, 260, 2500)
    for k in range(0, len(recs), 1300):
        lines = tracker_lines(ctx, kinds, recs[k:k + 1300])

        def spoil():
            can = []
            for l in lines:
                if l["raise"] or len(l["obs"]) != len(l["events"]) + 1 or len(can) >= 4:
                    continue
                bad = copy.deepcopy(l)
                if corrupt(bad):
                    can.append(bad)
            return can

        for l in lines:
            if not l["raise"] and len(l["obs"]) != len(l["events"]) + 1:
                l["raise"] = "%d observations for %d events" % (len(l["obs"]), len(l["events"]))
        ctx.count("events_checked", sum(len(l["events"]) for l in lines))
        ctx.validate("TableTrace", lines, constants=records.CONSTS, steps=lambda l: len(l["events"]), canaries=spoil,
                     env={"PART": part})


@check("C14")
def c14(ctx):
    def corrupt(l):
        for k in range(len(l["obs"]) - 1, 0, -1):
            for c in l["obs"][k]:
                if c[0] in ("disc", "hand", "dora") and len(c[2]) > 1:
                    c[2].pop() if ctx.rng.random() < 0.5 or c[0] == "hand" else c[2].insert(0, c[2].pop())
                    return True
        return False
    run_trackers(ctx, "table", ["hand", "calls", "disc", "dora"], corrupt)


@check("C15")
def c15(ctx):
    def corrupt(l):
        for k in range(len(l["obs"]) // 2, len(l["obs"])):
            for c in l["obs"][k]:
                if c[3]:
                    c[3].pop()
                    return True
        return False
    run_trackers(ctx, "unseen", ["unseen"], corrupt)


METHODS = ["scan", "with_events", "with_key_events", "passed_events", "passed_twice"]


@check("C16")
def c16(ctx):
    design(ctx)
    rng = ctx.rng
    recs = load(ctx, 120, 900)
    cases, evs = [], []
    for ev, st in recs:
        for _ in range(2):
            t = rng.choice(["hand", "calls", "disc", "dora", "unseen", "all", "all"])
            if t == "all" and len(ev) > 250:
                t = "hand"
            cuts, at = [], 0
            big = rng.choice([1, 3, 12, 60, 1000])
            while at < len(ev):
                at = min(len(ev), at + rng.randint(1, big))
                cuts.append({"upto": at, "methods": rng.sample(METHODS, rng.choice([1, 2, 2, 3]))})
            p = rng.randrange(n_of(ev)) if t in ("hand", "calls", "disc") else 0
            cases.append({"op": "batches", "xml": xml(ev, st), "how": rng.choice(HOWS), "tracker": t, "p": p, "batches": cuts})
            evs.append(ev)
    obs = ctx.driver("rec", cases)
    lines = [{"events": ev, "n": o.get("n", n_of(ev)), "tracker": c["tracker"], "p": c["p"], "keys": o.get("keys", []),
              "batches": o.get("batches", []), "raise": o["raise"]} for ev, c, o in zip(evs, cases, obs)]

    def spoil():
        can = []
        for l in lines:
            if l["raise"] or len(can) >= 6:
                continue
            bad = copy.deepcopy(l)
            if len(can) % 3 == 0:
                bad["keys"][-3] = not bad["keys"][-3]
            elif len(can) % 3 == 1:
                bad["batches"][-1]["runs"][-1]["got"] = bad["batches"][0]["runs"][0]["got"] + [[]]
            else:
                bad["batches"][-1]["runs"][-1]["again"].append([])
            can.append(bad)
        return can

    ctx.count("batches_checked", sum(len(r["runs"]) for l in lines for r in l["batches"]))
    ctx.validate("BatchTrace", lines, constants=records.CONSTS, steps=lambda l: len(l["events"]), canaries=spoil)


def rec_lines(ctx, op, recs):
    obs = ctx.driver("rec", [{"op": op, "xml": xml(ev, st), "how": ctx.rng.choice(HOWS)} for ev, st in recs])
    return [{"events": ev, "raise": o.pop("raise"), "obs": o} for (ev, _), o in zip(recs, obs)]


def hands_part(ctx):
    recs = load(ctx, 160, 1200)
    lines = rec_lines(ctx, "hands", recs)

    def spoil():
        can = []
        for l in lines:
            if not l["raise"] and len(l["obs"]["hands"]) > 1 and len(can) < 3:
                bad = copy.deepcopy(l)
                h = bad["obs"]["hands"]
                h[0]["events"].append(h[1]["events"].pop(0))
                can.append(bad)
        return can

    ctx.count("records_split", len(lines))
    ctx.validate("RecTrace", lines, constants=records.CONSTS, steps=lambda l: len(l["events"]), canaries=spoil, env={"PART": "hands"})


@check("C13")
def c13(ctx):
    for name, cfg in tables.configs(ctx.thorough)[1:]:
        ctx.model_check("MCTable", cfg, name=name, timeout=850, heap="8g")
    recs = load(ctx, 260, 2500)
    for k in range(0, len(recs), 1300):
        lines = rec_lines(ctx, "summary", recs[k:k + 1300])

        def spoil():
            can = []
            for l in lines:
                if l["raise"] or len(can) >= 5:
                    continue
                bad = copy.deepcopy(l)
                o = bad["obs"]
                what = len(can) % 5
                if what == 0:
                    o["players"][0], o["players"][1] = o["players"][1], o["players"][0]
                elif what == 1:
                    o["hands"][-1]["text"] += ","
                elif what == 2:
                    o["points"][0] += 10
                elif what == 3:
                    o["said"].append(o["said"].pop(len(o["said"]) // 2))
                else:
                    o["text"] = o["text"].replace("1", "2")
                can.append(bad)
            return can

        ctx.count("hands_checked", sum(len(l["obs"].get("hands", [])) for l in lines))
        ctx.validate("RecTrace", lines, constants=records.CONSTS, steps=lambda l: len(l["events"]), canaries=spoil,
                     env={"PART": "summary"})


@check("C34")
def c34(ctx):
    for name, cfg in tables.configs(ctx.thorough)[1:]:
        ctx.model_check("MCTable", cfg, name=name, timeout=850, heap="8g")
    recs = load(ctx, 200, 1800)
    for k in range(0, len(recs), 1300):
        lines = rec_lines(ctx, "asks", recs[k:k + 1300])
        for l in lines:
            if not l["raise"] and len(l["obs"]["answers"]) != len(l["events"]):
                l["raise"] = "%d answers for %d events" % (len(l["obs"]["answers"]), len(l["events"]))

        def spoil():
            can = []
            for l in lines:
                if l["raise"] or len(can) >= 5:
                    continue
                bad = copy.deepcopy(l)
                a = bad["obs"]["answers"]
                what = len(can) % 5
                if what == 0:
                    a[-1]["yes"] = []
                elif what == 1:
                    a[-1]["home"] -= 1
                elif what == 2:
                    j = max(j for j, e in enumerate(bad["events"]) if e["k"] == "discard")
                    a[j]["own"].append(a[j]["own"].pop(0))
                elif what == 3:
                    j = max(j for j, e in enumerate(bad["events"]) if e["k"] == "draw")
                    a[j]["drawn"] ^= 1
                else:
                    a[max(j for j, e in enumerate(bad["events"]) if e["k"] == "init")]["own"].pop()
                can.append(bad)
            return can

        ctx.count("answers_checked", sum(len(x["own"]) * 6 + 9 for l in lines for x in l["obs"].get("answers", [])))
        ctx.validate("RecTrace", lines, constants=records.CONSTS, steps=lambda l: len(l["events"]), canaries=spoil,
                     env={"PART": "asks"})


# ------------------------------------------------------------------ flat exports
@check("C25")
def c25(ctx):
    import xml.etree.ElementTree as ET
    rng = ctx.rng
    design(ctx)
    recs = load(ctx, 160, 1500)
    cases, raws = [], []
    for ev, st in recs:
        text = xml(ev, st)
        raws.append([[[k, v] for k, v in el.attrib.items()] for el in ET.fromstring(text)])
        cases.append({"op": "paifu", "xml": text, "how": rng.choice(HOWS), "abstract": rng.random() < 0.5,
                      "log": rng.choice(["2019012600gm-0089-0000-100908f0", "a.b", "log 1", "x"]), "ext": rng.choice([".xml", ".mjlog", ""])})
        if cases[-1]["log"] == "a.b" and not cases[-1]["ext"]:
            cases[-1]["ext"] = ".xml"
    obs = ctx.driver("rec", cases)
    lines = [{"events": ev, "raw": raw, "abstract": c["abstract"], "log": c["log"], "rows": o.get("rows", []),
              "light": o.get("light", []), "raise": o["raise"]} for (ev, _), raw, c, o in zip(recs, raws, cases, obs)]

    def spoil():
        can = []
        for l in lines:
            if l["raise"] or len(can) >= 5:
                continue
            bad = copy.deepcopy(l)
            k = len(can)
            if k == 0:
                bad["rows"][-1]["score"] += 100
            elif k == 1:
                bad["rows"].pop(len(bad["rows"]) // 2)
            elif k == 2:
                bad["rows"][7]["hand"] += "x"
            elif k == 3:
                bad["light"].pop()
            else:
                bad["light"][3]["value"] += "x"
            can.append(bad)
        return can

    ctx.count("rows_checked", sum(len(l["rows"]) + len(l["light"]) for l in lines))
    ctx.validate("PaifuTrace", lines, constants=records.CONSTS, steps=lambda l: len(l["events"]), canaries=spoil)
