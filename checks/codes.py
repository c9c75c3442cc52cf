"""C10, C11: call codes and rule codes, exhaustively."""
import copy
import json
import os

from checks import check

MELD = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT RoundTrip\n"
RULES = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS NameTells SameName\n"


def run(ctx, calls, size, corrupt, n_canaries=8):
    cases = [{"calls": calls[i:i + size]} for i in range(0, len(calls), size)]
    obs = ctx.driver("codes", cases)
    lines = [{"calls": o["calls"]} if not o["raise"] else {"calls": [dict(c["calls"][0], **{"raise": o["raise"]})]}
             for o, c in zip(obs, cases)]

    def spoil():
        can = []
        flat = [c for l in lines for c in l["calls"] if not c["raise"]]
        for i in range(0, len(flat), max(1, len(flat) // n_canaries)):
            bad = copy.deepcopy(flat[i])
            if corrupt(bad):
                can.append({"calls": [bad]})
        return can

    ctx.count("calls_checked", len(calls))
    ctx.validate("CodesTrace", lines, steps=lambda l: len(l["calls"]), canaries=spoil)


@check("C10")
def c10(ctx):
    out = os.path.join(ctx.work, "codes.ndjson")
    ctx.model_check("MCMeld", MELD, name="all legal calls of all seats", env={"OUT": out})
    codes = json.loads(open(out).read())["codes"]
    ctx.note("legal_codes_per_seat", len(codes))
    calls = [{"op": "meld", "who": w, "m": m} for m in codes for w in range(4)]
    rng = ctx.rng
    pons = [m for m in codes if m & 0xC == 8]
    adds = [m for m in codes if m & 0x1C == 16]
    face = lambda m: (m >> 9) // 3
    ext = []
    for a in adds:
        same = [p for p in pons if (p ^ a) & ~0x18 == 0]
        ext.append((rng.choice(same), a))
    for _ in range(ctx.pick(2500, 60000)):
        a = rng.choice(adds)
        ext.append((rng.choice([p for p in rng.sample(pons, 20) if abs(face(p) - face(a)) in (0, 1, 9)] or pons), a))
    ext += [(rng.choice([p for p in pons if face(p) == f]), rng.choice([a for a in adds if face(a) == g]))
            for f in range(34) for g in range(34)]
    calls += [{"op": "extend", "who": rng.randrange(4), "pon": p, "add": a} for p, a in ext]
    rng.shuffle(calls)

    def corrupt(c):
        c["src"] = (c.get("src", 0) + 1) % 4
        if c["op"] == "extend":
            c["extends"] = not c["extends"]
            c.update(own=[], got=[], opened=False)
        return True
    run(ctx, calls, 60, corrupt)


@check("C11")
def c11(ctx):
    ctx.model_check("MCRules", RULES, name="all rule codes")
    rng = ctx.rng
    calls = []
    for code in range(65536):
        if ctx.thorough or code < 4096 or rng.random() < 0.35:
            flips = [code ^ (1 << b) for b in range(16)] if (ctx.thorough or code < 2048) else \
                [code ^ (1 << rng.randrange(16)) for _ in range(2)]
            flips += [rng.randrange(65536), code, (code & 0x7FE) | (rng.randrange(65536) & 0xF801)]
            calls.append({"op": "rules", "code": code, "text": code % 2 == 0,
                          "others": [{"code": o} for o in flips]})
    rng.shuffle(calls)

    def corrupt(c):
        c["name"][0] = 22235 + 19977 - c["name"][0]
        return True
    run(ctx, calls, 100, corrupt)
