"""C32: which translation an event gets."""
import copy

from checks import check

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT MaxRegs = %d\nINVARIANTS Heard Best OnlyFits%s\nPROPERTY Newcomer\n"
KEYS = ["k1", "k2", "k3", "k4"]
KINDS = ["draw", "discard", "new_dora", "richii", "game_init", ""]


def command(rng):
    key = rng.choice(KEYS)
    method = rng.choice(["REPLACE", "ADD", "REMOVE", "ASSERT_EQUAL_OR_SET"] + (["RESET_DEFAULT"] if key in ("k1", "k4") else []))
    return {"key": key, "method": method, "value": rng.randint(-3, 9), "from": rng.choice(["", ""] + KEYS) if method != "RESET_DEFAULT" else "",
            "kind": rng.choice(["", "", "draw", "richii"])}


def start(rng, tr, number):
    """something that sets every number, and its event"""
    m = {"id": number, "how": "name", "names": ["START"], "attr": "", "answers": [0], "kind": "record_init",
         "cmds": [{"key": k, "method": "REPLACE", "value": rng.randint(0, 5), "from": "", "kind": ""} for k in KEYS]}
    return {"op": "register", "tr": tr, "m": m}


def first(tr, at):
    return {"op": "event", "tr": tr, "e": {"tag": "START", "attrs": ["go"], "go": 0}, "at": at, "strict": False}


def event(rng, tr, at, tags, attrs):
    a = rng.sample(attrs, rng.randint(0, len(attrs)))
    a.insert(rng.randint(0, len(a)), "go")
    return {"op": "event", "tr": tr, "e": {"tag": rng.choice(tags), "attrs": a, "go": rng.randint(1, 3)}, "at": at, "strict": rng.random() < 0.3}


def from_model(rng, reg):
    calls = [start(rng, 1, 1)]
    for m in reg:
        m = dict(m, id=len(calls) + 1, kind=rng.choice(KINDS))
        if m["cmds"]:
            m["cmds"] = [command(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        calls.append({"op": "register", "tr": 1, "m": m})
    calls.append(first(1, 0))
    for i in range(10):
        calls.append(event(rng, 1, i + 1, ["A", "A", "B"], ["x", "y"]))
    return {"translators": 1, "calls": calls}


def free(rng, length):
    trs = rng.choice([1, 1, 2, 3])
    tags = rng.choice([["A", "B"], ["PING", "Ping", "CHAT", "A"], ["A", "B", "x", "go"]])
    attrs = rng.choice([["x", "y"], ["x", "y", "z", "who"], ["A", "B", "x"]])
    calls, n = [], 0
    for t in range(1, trs + 1):
        n += 1
        calls += [start(rng, t, n), first(t, 0)]
    for i in range(length):
        t = rng.randint(1, trs)
        if rng.random() < 0.45:
            n += 1
            how = rng.choice(["name", "name", "attr", "both", "both", "rest"])
            names = [] if how in ("attr", "rest") else rng.sample(tags, 1 if how == "both" else rng.randint(1, len(tags)))
            calls.append({"op": "register", "tr": t, "m": {
                "id": n, "how": how, "names": names, "attr": rng.choice(attrs + ["go"]) if how in ("attr", "both") else "",
                "answers": rng.sample([1, 2, 3], rng.choice([1, 1, 2, 3])), "kind": rng.choice(KINDS),
                "cmds": [command(rng) for _ in range(rng.choice([0, 1, 1, 2, 4]))]}})
        elif rng.random() < 0.06:
            calls += [{"op": "clear", "tr": t}, first(t, i + 1)]
        else:
            calls.append(event(rng, t, i + 1, tags, attrs))
    return {"translators": trs, "calls": calls}


@check("C32")
def c32(ctx):
    rng = ctx.rng
    res = ctx.model_check("MCRouting", CFG % (3, " Show"), name="three registrations", heap="6g")
    regs = ctx.printed(res, "SEQ")
    ctx.count("registries_of_the_model", len(regs))
    if ctx.thorough:
        ctx.model_check("MCRouting", CFG % (4, ""), name="four registrations", heap="12g", timeout=3000)
    regs = rng.sample(regs, min(len(regs), ctx.pick(1200, 8000)))
    cases = [from_model(rng, r) for r in regs]
    cases += [free(rng, rng.choice([6, 15, 40])) for _ in range(ctx.pick(600, 12000))]
    obs = ctx.driver("routing", cases)
    lines = []
    for o, c in zip(obs, cases):
        if o["raise"]:
            o = dict(c, calls=[dict(c["calls"][0], **{"raise": o["raise"]})])
        o.pop("raise", None)
        lines.append(o)
    events = [c for l in lines for c in l["calls"] if c["op"] == "event" and not c["raise"]]
    ctx.count("events_translated", len(events))
    ctx.count("events_refused", sum(c["refused"] for c in events))

    def spoil():
        can = []
        for l in rng.sample(lines, len(lines)):
            bad = copy.deepcopy(l)
            es = [c for c in bad["calls"][2:] if c["op"] == "event" and not c["raise"] and c["cmds"]]
            if not es or len(can) >= 6:
                continue
            c = es[-1]
            k = len(can) % 3
            if k == 0:
                c["cmds"][-1]["st"] += 1
            elif k == 1:
                c["cmds"].append(c["cmds"][0])
            else:
                c["cmds"][0]["at"] += 1
            can.append(bad)
        return can
    ctx.validate("RoutingTrace", lines, steps=lambda l: len(l["calls"]), canaries=spoil)
