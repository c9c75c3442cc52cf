"""C17-C23: the universal format, its execution and its tables."""
import copy

from checks import check
from checks.table import HOWS, load, n_of, xml, design
from lib import records


def shape(l):
    return len(l["events"])


def uni_lines(ctx, recs):
    rng = ctx.rng
    cases = [{"op": "commands", "xml": xml(ev, st), "how": rng.choice(HOWS), "strict": rng.random() < 0.5,
              "api": rng.choice(["commands", "commands", "raw", "records"])} for ev, st in recs]
    obs = ctx.driver("uni", cases)
    return [{"events": ev, "cmds": o.get("cmds", []), "raise": o["raise"]} for (ev, _), o in zip(recs, obs)]


def mirror(ctx, part, corrupt, quick, thorough):
    design(ctx)
    recs = load(ctx, quick, thorough)
    for k in range(0, len(recs), 800):
        lines = uni_lines(ctx, recs[k:k + 800])

        def spoil():
            can = []
            for l in lines:
                if l["raise"] or len(can) >= 4:
                    continue
                bad = copy.deepcopy(l)
                if corrupt(bad["cmds"], len(can)):
                    can.append(bad)
            return can

        ctx.count("commands_checked", sum(len(l["cmds"]) for l in lines))
        ctx.count("events_checked", sum(len(l["events"]) for l in lines))
        ctx.validate("UniverseTrace", lines, constants=records.CONSTS, steps=shape, canaries=spoil, env={"PART": part})


def find(ctx, cmds, pred):
    hits = [i for i, c in enumerate(cmds) if pred(c)]
    return ctx.rng.choice(hits) if hits else None


@check("C17")
def c17(ctx):
    def corrupt(cmds, k):
        i = find(ctx, cmds, lambda c: c["prop"] == ("discard_tiles" if k % 2 else "hand") and c["st"][0] == "tiles" and len(c["st"][1]) > 1)
        if i is None:
            return False
        if k % 3 == 2:
            cmds[i]["kind"] = "new_dora"
        else:
            cmds[i]["st"][1].pop(0)
        return True
    mirror(ctx, "tiles", corrupt, 200, 2000)


@check("C18")
def c18(ctx):
    def corrupt(cmds, k):
        i = find(ctx, cmds, lambda c: c["prop"] == ("score" if k % 2 else "rank"))
        if i is None:
            return False
        at, key = cmds[i]["at"], (cmds[i]["seat"], cmds[i]["prop"])
        for c in cmds:
            if c["at"] == at and (c["seat"], c["prop"]) == key:
                c["st"][1] += 100
        return True
    mirror(ctx, "scores", corrupt, 200, 2000)


@check("C19")
def c19(ctx):
    def corrupt(cmds, k):
        p = ["round", "wind", "is_win", "in_richii"][k % 4]
        i = find(ctx, cmds, lambda c: c["prop"] == p and (k % 4 or c["kind"] == "discard"))
        if i is None:
            return False
        if k % 4 == 0:
            del cmds[i]
            return True
        cmds[i]["st"] = ["odd", "x"]
        return True
    mirror(ctx, "facts", corrupt, 200, 2000)


# ------------------------------------------------------------------ execution
EDITS = ["hand", "order", "red", "score", "dup", "del"]


def sequences(ctx):
    """command sequences that TLC goes through"""
    inv = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Agreed Undone Show\nPROPERTY Local\n" + records.CONSTS
    out = []
    small = ctx.model_check("MCExec", inv + 'CONSTANTS Depth = %d Size = "small"\n' % ctx.pick(3, 4), name="small", heap="6g")
    out += ctx.printed(small, "SEQ")
    wide = ctx.model_check("MCExec", inv + 'CONSTANTS Depth = %d Size = "large"\n' % ctx.pick(2, 3), name="large", heap="6g")
    out += ctx.printed(wide, "SEQ")
    sim = ctx.tlc("MCExec", inv.replace("PROPERTY Local\n", "").replace("Agreed Undone ", "") + 'CONSTANTS Depth = 25 Size = "large"\n',
                  simulate=ctx.pick(60, 3000), depth=26, workers=1, seed=ctx.seed)
    # every last step of a walk is printed: one of each
    ends = {}
    for q in ctx.printed(sim, "SEQ"):
        ends.setdefault(str(q[:-1]), []).append(q)
    out += [ctx.rng.choice(q) for q in ends.values()]
    return out


@check("C20")
def c20(ctx):
    rng = ctx.rng
    seqs = sequences(ctx)
    ctx.count("model_sequences", len(seqs))
    most = ctx.pick(2500, 60000)
    if len(seqs) > most:
        long = [q for q in seqs if len(q) > 5]
        seqs = long + rng.sample([q for q in seqs if len(q) <= 5], most - len(long))
    ctx.count("model_sequences_executed", len(seqs))
    cases = [{"op": "execute", "cmds": q, "strict": rng.random() < 0.6, "lazy": rng.random() < 0.5, "same": rng.random() < 0.5}
             for q in seqs]
    origin = [False] * len(cases)
    recs = load(ctx, 30, 400)
    recs = [r for r in recs if len(r[0]) < 300] + [max(recs, key=lambda r: len(r[0]))]
    for ev, st in recs:
        for edits in [[]] + [[rng.choice(EDITS) for _ in range(rng.choice([1, 1, 2]))] for _ in range(ctx.pick(2, 4))]:
            cases.append({"op": "execute", "xml": xml(ev, st), "how": rng.choice(HOWS), "edits": edits, "lazy": rng.random() < 0.5,
                          "strict": rng.random() < 0.8, "seed": rng.randrange(1 << 30), "same": rng.random() < 0.5})
            origin.append(not edits)
    obs = ctx.driver("uni", cases)
    lines = []
    for c, o, carried in zip(cases, obs, origin):
        l = {"cmds": o.get("cmds", [dict(x, at=0) for x in c.get("cmds", [])]), "snaps": o.get("snaps", []), "stop": o.get("stop", -1),
             "kept": o.get("kept", True), "again": o.get("again", True), "columns": [], "strict": c["strict"], "carried": carried,
             "told": o.get("told", []), "unmoved": o.get("unmoved", True), "asked": True, "raise": o["raise"]}
        if not l["cmds"]:
            l["cmds"] = [{"at": 0}]
        lines.append(l)
    ctx.count("contradictions_met", sum(l["stop"] >= 0 for l in lines))
    ctx.count("commands_executed", sum(len(l["snaps"]) for l in lines))

    def spoil():
        can = []
        for l in rng.sample(lines, min(len(lines), 400)):
            if l["raise"] or len(can) >= 8:
                continue
            bad = copy.deepcopy(l)
            if len(can) % 4 == 0 and l["strict"] and l["stop"] >= 0:
                bad["stop"] = -1
            elif len(can) % 4 == 1 and l["snaps"]:
                bad["snaps"][-1]["at"] += 1
            elif len(can) % 4 == 2 and l["snaps"] and l["snaps"][-1]["delta"]:
                bad["snaps"][-1]["delta"].append(["player", 3, "score", ["num", 1]])
            elif len(can) == 3:
                bad["again"] = False
            elif len(can) == 7 and l["told"]:
                bad["told"][0] = ["odd", "?"]
            else:
                continue
            can.append(bad)
        return can

    size = 12000
    for k in range(0, len(lines), size):
        ctx.validate("ExecTrace", lines[k:k + size], constants=records.CONSTS, steps=lambda l: len(l["cmds"]), canaries=spoil)


# ------------------------------------------------------------------ tables
PLAIN = ["\u8a69\u66a2", "QooPee", "a b"]
HARD = records.NAMES + ["a\nb", "a\r\nb", " ", "\u3000x", "\\N", "NULL", "<NA>", "#N/A", "1,5", "0b1", "1e400", "-0", "+1", "\u0661", "[]",
                        "'a'", '"', '""', "a,\"b\"", "\\", "\\\"", "Infinity", "-inf", "NaN", "nil", "TRUE", "2019-01-01", "1:30",
                        "record.seed", "ViewScope.game", "all", "0", "00", "1_0", "\ufeffx", "\u200b", "=1+1", "@x", "|", "\t"]


def named(ctx, hard, count):
    rng = ctx.rng
    out = []
    for j, p in enumerate(records.plans(rng, count)):
        n = 3 if p["code"] & 16 else 4
        p["_names"] = [rng.choice(HARD if hard else PLAIN) for _ in range(n)]
        if not hard:
            p["_seed"] = "mt19937ar,base64"
        p["walls"] = p["walls"][:2]
        out.append(p)
    return records.generate(ctx, out)


NUMBERS = [["num", n] for n in (0, 1, -1, 10, 99999, 123456, 1234567, 9999999, -5850, 150055, 100000000)] + \
          [["real", r] for r in ("0.30000000000000004", "1500.125", "0.001", "1e-07", "123456789.125", "1e+16", "-0.005", "98765.4321", "2.5e+300")]


def numbers(rng):
    """one command for every number"""
    return [{"scope": "player", "seat": rng.randrange(4), "prop": rng.choice(["extra_level", "final_point"]), "method": "REPLACE",
             "value": v, "st": v} for v in NUMBERS]


def texts(seqs, rng):
    """model sequences with hard texts put in"""
    out = []
    for q in seqs:
        q = copy.deepcopy(q)
        for x in q:
            if x["value"][0] == "str":
                x["value"] = ["str", rng.choice(HARD)]
            elif x["value"][0] == "strs":
                x["value"] = ["strs", [rng.choice(HARD) + "#" for _ in x["value"][1]]]
            if rng.random() < 0.4:
                x["st"] = x["value"]
        out.append(q)
    return out


@check("C21")
def c21(ctx):
    rng = ctx.rng
    seqs = sequences(ctx)
    cases, stated = [], []
    names = [[{"scope": "player", "seat": rng.randrange(4), "prop": rng.choice(["name", "level"]), "method": "REPLACE",
               "value": ["str", t], "st": ["str", t]} for t in HARD]]
    for q in names + [numbers(rng)] + texts(rng.sample(seqs, min(len(seqs), ctx.pick(120, 4000))), rng):
        cases.append({"op": "csv", "cmds": q, "bare": rng.random() < 0.3, "mixed": rng.random() < 0.3, "api": "table", "index": rng.random() < 0.5, "read": "clean"})
        stated.append(False)
    recs = [(r, True) for r in named(ctx, True, ctx.pick(50, 300))] + [(r, False) for r in named(ctx, False, ctx.pick(16, 60))]
    recs += [(r, True) for r in records.fixtures()[:ctx.pick(2, 99)]]
    for (ev, st), hard in recs:
        cases.append({"op": "csv", "xml": xml(ev, st), "how": "string", "api": rng.choice(["table", "util", "records", "tool"]),
                      "index": rng.random() < 0.5, "read": "clean" if hard else "readme"})
        stated.append(True)
    obs = ctx.driver("uni", cases)
    none = [{"at": 0}]
    lines = [{"before": o.get("before") or none, "after": o.get("after", []), "stated": t, "raise": o["raise"]} for o, t in zip(obs, stated)]

    def spoil():
        can = []
        for l in rng.sample(lines, len(lines)):
            if l["raise"] or len(can) >= 6 or len(l["after"]) < 2:
                continue
            bad = copy.deepcopy(l)
            k = len(can) % 3
            if k == 0:
                bad["after"].pop()
            elif k == 1:
                bad["after"][-1]["value"] = ["str", "x" + str(bad["after"][-1]["value"])]
            else:
                bad["after"][0]["st"] = ["odd", "?"]
            can.append(bad)
        return can

    ctx.count("commands_compared", sum(len(l["before"]) for l in lines))
    ctx.validate("CsvTrace", lines, constants=records.CONSTS, steps=lambda l: len(l["before"]), canaries=spoil)
    # what comes back from the file still tells the table
    uni = [{"events": ev, "cmds": [{k: c[k] for k in ("at", "seat", "scope", "prop", "kind", "st")} for c in o.get("after", [])],
            "raise": o["raise"]} for ((ev, _), _h), o in zip(recs, obs[len(obs) - len(recs):])]
    ctx.validate("UniverseTrace", uni, constants=records.CONSTS, steps=shape, env={"PART": "all"})


@check("C22")
def c22(ctx):
    rng = ctx.rng
    seqs = sequences(ctx)
    cases, carried = [], []
    for q in [numbers(rng)] + texts(rng.sample(seqs, min(len(seqs), ctx.pick(100, 3000))), rng):
        cases.append({"op": "states", "cmds": q, "api": "table", "index": rng.random() < 0.5, "read": "clean"})
        carried.append(False)
    recs = [(r, True) for r in named(ctx, True, ctx.pick(45, 250))] + [(r, False) for r in named(ctx, False, ctx.pick(14, 50))]
    recs += [(r, True) for r in records.fixtures()[:ctx.pick(1, 99)]]
    for (ev, st), hard in recs:
        cases.append({"op": "states", "xml": xml(ev, st), "how": "string", "api": rng.choice(["table", "util", "ffill"]),
                      "index": rng.random() < 0.7, "read": "clean" if hard else "readme"})
        carried.append(True)
    obs = ctx.driver("uni", cases)
    none = [{"at": 0}]
    lines = [{"cmds": o.get("cmds") or none, "snaps": o.get("snaps", []), "columns": o.get("columns", []), "stop": -1, "strict": False,
              "kept": True, "again": o.get("same", True), "told": [], "unmoved": True, "asked": False, "carried": t, "raise": o["raise"]} for o, t in zip(obs, carried)]

    def spoil():
        can = []
        for l in rng.sample(lines, len(lines)):
            if l["raise"] or len(can) >= 6 or len(l["cmds"]) < 3 or len(l["columns"]) < 2:
                continue
            bad = copy.deepcopy(l)
            k = len(can) % 3
            if k == 0:
                bad["columns"].pop()
            elif k == 1:
                bad["snaps"].pop()
            else:
                bad["snaps"][0]["delta"][0][3] = ["odd", "?"]
            can.append(bad)
        return can

    ctx.count("rows_compared", sum(len(l["cmds"]) for l in lines))
    ctx.validate("ExecTrace", lines, constants=records.CONSTS, steps=lambda l: len(l["cmds"]), canaries=spoil)


# ------------------------------------------------------------------ translations at the same time
@check("C23")
def c23(ctx):
    rng = ctx.rng
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Independent Show\nCONSTANTS Slots = {%s} Recs = {1, 2} Depth = %d\n"
    res = ctx.model_check("Interleave", cfg % ("1, 2", ctx.pick(5, 6)), name="two", heap="6g")
    plans = ctx.printed(res, "SEQ")
    few = ctx.model_check("Interleave", cfg % ("1, 2, 3", 4), name="three", heap="6g")
    plans += ctx.printed(few, "SEQ")
    ctx.count("schedules", len(plans))
    plans = rng.sample(plans, min(len(plans), ctx.pick(90, 4000)))
    sim = ctx.tlc("Interleave", cfg % ("1, 2, 3", 14), simulate=ctx.pick(20, 500), depth=15, workers=1, seed=ctx.seed)
    ends = {}
    for q in ctx.printed(sim, "SEQ"):
        ends.setdefault(str(q[:-1]), []).append(q)
    plans += [rng.choice(q) for q in ends.values()]
    ctx.count("schedules_followed", len(plans))
    recs = [r for r in load(ctx, ctx.pick(40, 200), 200) if len(r[0]) < ctx.pick(140, 400)]
    cases, pairs = [], []
    for q in plans:
        pair = [rng.choice(recs), rng.choice(recs)]
        pairs.append(pair)
        cases.append({"op": "interleave", "schedule": q, "xmls": [xml(ev, st) for ev, st in pair], "seed": rng.randrange(1 << 30),
                      "how": "string"})
    obs = ctx.driver("uni", cases)
    lines = []
    for pair, o in zip(pairs, obs):
        if o["raise"]:
            lines.append({"events": pair[0][0][:1], "cmds": [], "raise": o["raise"]})
        for r in o.get("runs", []):
            ev, cmds = pair[r["rec"]][0], r["cmds"]
            if not r["whole"]:
                # the last event may not have been told to the end
                last = cmds[-1]["at"] if cmds else 0
                ev, cmds = ev[:max(0, last)], [c for c in cmds if c["at"] != last]
            if ev:
                lines.append({"events": ev, "cmds": cmds, "raise": ""})

    def spoil():
        can = []
        for l in rng.sample(lines, len(lines)):
            hits = [c for c in l["cmds"] if c["prop"] == "round" and c["scope"] == "player" and c["kind"] == "discard"]
            if hits and len(can) < 4:
                bad = copy.deepcopy(l)
                next(c for c in bad["cmds"] if c == hits[-1])["st"] = ["num", 9900]
                can.append(bad)
        return can

    ctx.count("translations_checked", len(lines))
    for k in range(0, len(lines), 900):
        ctx.validate("UniverseTrace", lines[k:k + 900], constants=records.CONSTS, steps=shape, canaries=spoil, env={"PART": "all"})
