"""C33: the command line tools do what they are asked."""
import copy
from urllib.parse import quote

from checks import check
from checks.report import SIMPLE
from checks.table import n_of, xml
from lib import records

IDS = ["2019012600gm-0089-0000-100908f0", "2018111815gm-00a9-0000-504304e3", "2009060321gm-00b9-0000-75b25bcf", "x", "2019log", "log"]
OTHERS = [["tw", "1"], ["tw", "0"], ["lang", "en"], ["log2", "2018000000gm"], ["blog", "2017gm"], ["LOG", "2016gm"], ["tw", "log"], ["ts", "3"]]
BASES = ["http://tenhou.net/0/?", "https://tenhou.net/0/?", "http://tenhou.net/3/?", "tenhou.net/4/?", "http://tenhou.net/5/index.html?"]
NAMES = ["reimu", "marisa", "sanae", "youmu", "alice", "\u8a69\u66a2", "\u30ab\u30a4\u30c8", "a b"]
#: answers to the question for a number that are none
NONE = ["", "0", "5", "9", "all", "x", "-1", "1.5", "one", "10", "44", "1,2", "\u4e00", "\u00b2", "\u2460", "n", "\u00bd", "+", "12", "reimu"]


def link(rng):
    rid = rng.choice(IDS)
    params = [["log", rid]]
    for o in rng.sample(OTHERS, rng.choice([0, 1, 1, 2, 3])):
        params.insert(rng.randint(0, len(params)), o)
    r = rng.random()
    if r < 0.1:
        params.append(["log", "2000gm-late"])
    elif r < 0.2:
        params.insert(0, ["log", ""])

    def enc(t):
        return quote(t) if rng.random() < 0.7 else "".join("%%%02x" % b if rng.random() < 0.2 else chr(b) for b in t.encode())
    text = rng.choice(BASES) + "&".join("%s=%s" % (k, enc(v)) for k, v in params)
    if rng.random() < 0.15:
        text += "#" + rng.choice(["", "top", "log=7"])
    return rid, params, text


def case(rng, ev, st, tool, api):
    n = n_of(ev)
    rid, params, text = link(rng)
    choice = rng.choice([0, 0] + list(range(1, n + 1)))
    answer = str(choice) if choice else rng.choice(NONE + ["4"] * (n == 3))
    wait = 0
    seat = 0
    if api == "class":
        seat = rng.randrange(n)
        choice, wait = seat + 1, rng.choice([0, 0, 1, 7, 15, 60])
    return {"tool": tool, "api": api, "xml": xml(ev, st), "link": text, "params": params, "id": rid, "answer": answer, "choice": choice,
            "seat": seat, "wait": wait, "moved": rng.random() < 0.15, "n": n, "blank": rng.choice(["", "", " ", "\t", "  \r"]) if api == "main" else ""}


@check("C33")
def c33(ctx):
    rng = ctx.rng
    ctx.model_check("MCSession", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Named Asked All Everyone\nPROPERTY Ends\n", name="all runs")
    plans = [records.plan(rng, n=[4, 3][j % 2], hands=rng.choice([1, 1, 2]), weights=dict(SIMPLE, tsumo=40, ron=40, nines=30), kind="near",
                          names=rng.sample(NAMES, 4)) for j in range(ctx.pick(20, 60))]
    recs = [r for r in records.generate(ctx, plans)]
    # short hands keep the reports quick
    recs.sort(key=lambda r: len(r[0]))
    recs = recs[:max(8, len(recs) * 2 // 3)]
    cases, evs = [], []
    for j in range(ctx.pick(240, 1500)):
        ev, st = rng.choice(recs)
        tool, api = [("report", "main"), ("report", "main"), ("extract", "main"), ("report", "class")][j % 4]
        cases.append(case(rng, ev, st, tool, api))
        evs.append(ev)
    obs = ctx.driver("session", cases, per_case_timeout=75)
    lines = []
    for ev, c, o in zip(evs, cases, obs):
        calls = o.get("calls", [{"op": "raise", "error": o["raise"]}])
        if c["api"] == "class":
            calls.insert(sum(x["op"] == "fetch" for x in calls), {"op": "offer", "seats": list(range(c["n"]))})
        if c["tool"] == "extract":
            calls = [x for x in calls if x["op"] != "offer"]
        lines.append({"tool": c["tool"], "n": c["n"], "params": c["params"], "choice": c["choice"], "wait": c["wait"], "text": [c["link"], c["answer"]],
                      "events": [e for e in ev if e["k"] in ("init", "discard")], "calls": calls})
    ctx.count("reports_written", sum(x["op"] == "write" for l in lines for x in l["calls"]))

    def spoil():
        can = []
        for l in rng.sample(lines, len(lines)):
            bad = copy.deepcopy(l)
            w = [c for c in bad["calls"] if c["op"] == "write"]
            if not w or len(can) >= 6 or bad["calls"][-1]["op"] == "raise":
                continue
            k = len(can) % 3
            if k == 0:
                bad["calls"].remove(w[0])
            elif k == 1:
                bad["calls"][0]["id"] += "x"
            else:
                bad["calls"].insert(0, bad["calls"][0])
            can.append(bad)
        return can
    ctx.validate("SessionTrace", lines, steps=lambda l: len(l["calls"]), canaries=spoil)
