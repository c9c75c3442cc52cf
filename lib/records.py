"""Records for the checks: behaviours of spec/Table.tla generated by spec/Gen.tla, and the logs kept in the repository."""
import glob
import json
import os

from lib import hands, tenhou
from lib.harness import NCPU, REPO, Machinery

GROUPS = ["draw", "discard", "tsumogiri", "reach", "ankan", "addkan", "kita", "chi", "pon", "kan", "dora", "tsumo",
          "ron", "second", "nines", "abort", "exhausted", "deal", "conn", "head"]
BASE = dict(draw=300, discard=100, tsumogiri=100, reach=12, ankan=250, addkan=300, kita=300, chi=30, pon=90, kan=150,
            dora=200, tsumo=8, ron=3, second=200, nines=2, abort=1, exhausted=100, deal=100, conn=4, head=100)
CONSTS = "CONSTANTS HandSize = 13 SmallPool = {} LiveDraws = 0\n"
NAMES = ["詩暢", "QooPee", "a b", "100", "007", "1e3", "NA", "nan", "null", "None", "true", "[1,2]", '"q"', "x,y", "o'k",
         "<b>&amp;</b>", "<script>alert(1)</script>", "a/b\\c", "../../etc", "%41", "+plus", "-5", "NoName", "1.0", "inf",
         "{}", "  lead", "tab\there", "☆彡", "A.B", "PlayerView.name", "#", ";", "é", "𠮷野", "0x10", "1_000", "''", "-",
         "N/A", "1.50", "False"]


def pool(n):
    return [t for t in range(136) if n == 4 or t // 4 + 1 not in range(2, 9)]


def near(rng, n, tiles):
    """Every player is dealt tiles near a complete hand (of groups or of pairs)."""
    left = set(tiles)
    out = []
    for _ in range(n):
        shape = hands.near_complete(rng, 14, 4, 1) if rng.random() < 0.7 else hands.near_pairs(rng, 14)
        want = []
        for k in shape:
            c = [t for t in range(4 * ((k % 100) - 1), 4 * (k % 100)) if t in left]
            if c:
                want.append(rng.choice(c))
                left.discard(want[-1])
        rng.shuffle(want)
        mine, rest = want[:13], want[13:]
        left |= set(rest)
        while len(mine) < 13:
            t = rng.choice(sorted(left))
            left.discard(t)
            mine.append(t)
        out += mine
    rest = sorted(left)
    rng.shuffle(rest)
    return out + rest


def wall(rng, n, kind):
    tiles = pool(n)
    rng.shuffle(tiles)
    if kind == "random":
        return tiles
    if kind == "near":
        return near(rng, n, tiles)
    # gather copies: every player gets several triplets or pairs, the missing copies come early
    faces = sorted({t // 4 for t in tiles})
    rng.shuffle(faces)
    if kind == "twins":
        # the same ranks in several suits come to one player
        order = list(range(9))
        rng.shuffle(order)
        if rng.random() < 0.5:
            order.remove(4)
            order.append(4)
        faces.sort(key=lambda f: (order.index(f % 9), f) if f < 27 else (-1, rng.random()))
    hands, early, used = [], [], set()
    for p in range(n):
        h = []
        if n == 3 and kind == "norths" and p == 0:
            faces = [f for f in faces if f != 30]
            h += [120, 121, 122][:rng.randint(1, 3)]
            early += [x for x in (120, 121, 122, 123) if x not in h]
        while len(h) < 9 and faces:
            f = faces.pop()
            copies = [4 * f + c for c in range(4)]
            rng.shuffle(copies)
            k = rng.choice([2, 3, 3, 4] if kind != "twins" else [2, 2, 3, 3])
            h += copies[:k]
            early += copies[k:]
        hands.append(h[:13])
        early += h[13:]
    for h in hands:
        used.update(h)
    used.update(early)
    rest = [t for t in tiles if t not in used]
    for h in hands:
        while len(h) < 13:
            h.append(rest.pop())
        rng.shuffle(h)
    tail = [rest.pop() for _ in range(14)]
    rng.shuffle(early)
    k = min(len(rest), len(early))
    mix = early + rest[:k]
    rng.shuffle(mix)
    return [t for h in hands for t in h] + mix + rest[k:] + tail


def code(rng, n):
    c = rng.randrange(1 << 11) & ~16
    return c | 16 if n == 3 else c


def plan(rng, n=None, hands=None, kind=None, weights=None, names=None, rule=None):
    weights = dict(weights or {})
    kind = weights.pop("_kind", kind)
    hands = weights.pop("_hands", hands)
    rot = weights.pop("_rot", False)
    hold = weights.pop("_hold", False)
    n = weights.pop("_n", n)
    if isinstance(hands, tuple):
        hands = rng.randint(*hands)
    n = n or rng.choice([3, 4, 4])
    c = rule if rule is not None else code(rng, n)
    if rot and rule is None and rng.random() < 0.8:
        c |= 8
    n = 3 if c & 16 else 4
    hands = hands or rng.choice([1, 1, 2, 2, 3])
    w = dict(BASE)
    w.update(weights)
    walls = []
    for _ in range(hands):
        k = kind or rng.choice(["random", "gathered", "gathered", "norths", "twins"])
        walls.append(wall(rng, n, k))
    return {"code": c, "shuffle": rng.random() < 0.7, "rot": rot, "hold": hold, "fin": [rng.randrange(-999, 1000) for _ in range(4)], "walls": walls, "w": [w[g] for g in GROUPS],
            "r": [rng.randrange(1 << 20) for _ in range(1201)],
            "dan": [rng.randrange(21) for _ in range(n)] + [0] * (4 - n),
            "rate": [rng.choice([150000, 148001, 217350, 90099, 200000, rng.randrange(50000, 260000)]) for _ in range(n)]
            + [150000] * (4 - n),
            "sx": [rng.choice("MF") for _ in range(n)] + ["C"] * (4 - n),
            "_names": names or [rng.choice(NAMES) for _ in range(n)],
            "_seed": rng.choice(["mt19937ar-sha512-n288-base64,Dey4+/=x,y", "123", "1e5", "NA"]),
            "_style": {"old": rng.random() < 0.3, "quote": rng.choice(["all", "", "+!*()"])}}


STYLES = [
    {},                                                                     # mixed
    dict(ron=0, tsumo=0, nines=0, abort=0, reach=4),                        # to the end of the wall
    dict(chi=1200, pon=300, kan=200, tsumo=2, ron=1, reach=3, abort=0, _kind="near", _n=4),  # many calls
    dict(reach=150, ron=10, tsumo=15, chi=5, pon=10),                       # many riichi
    dict(tsumo=150, ron=30, nines=20, abort=10, conn=10),                   # many short hands
    dict(dora=20, ankan=900, addkan=900, kan=900, kita=900, abort=0),       # quads, late dora
    dict(pon=2000, kan=0, ankan=20, addkan=3000, abort=0, tsumo=0, ron=0, nines=0, chi=0, reach=0, _kind="twins", _hands=1),  # same ranks
    dict(reach=350, abort=14, tsumo=2, ron=2, nines=0, chi=60, pon=20, _hands=(3, 4)),  # deposits that stay on the table
    dict(nines=4000, tsumo=1500, conn=2, _hands=(9, 13), _rot=True),        # many very short hands, to the last winds
    dict(nines=4000, tsumo=300, reach=100, conn=2, _hands=(9, 14), _hold=True),  # a dealer who stays and stays
]


def plans(rng, count):
    out = []
    for j in range(count):
        st = STYLES[j % len(STYLES)]
        hands = {1: 1, 4: rng.choice([4, 6, 9])}.get(j % len(STYLES))
        out.append(plan(rng, n=[4, 3, 4, 3][(j // len(STYLES)) % 4] if j % 2 else None, hands=hands, weights=st))
    return out


def subst(events, p):
    """Opaque texts (names, seed) are put in after generation."""
    for e in events:
        if e["k"] == "un":
            e["names"] = [p["_names"][int(x)] for x in e["names"]]
        elif e["k"] == "shuffle":
            e["text"] = p["_seed"]
    return events


def features(events):
    """what happens in a record: how rich the generated ones are"""
    out, reach, away, prev, melds, n = set(), {}, set(), None, {}, 4
    for e in events:
        k = e["k"]
        if k == "go":
            n = 3 if e["type"] & 16 else 4
        elif k == "init":
            reach, melds = {}, {}
            out |= {"deal kyoku %d" % e["kyoku"], "deal honba %d" % min(e["honba"], 2), "deal deposits %d" % min(e["sticks"], 2)}
            out |= {"deal below zero"} if min(e["ten"][:n]) < 0 else set()
            out |= {"deal while away"} if away else set()
        elif k == "reach":
            reach[e["who"]] = e["step"]
            out |= {"riichi step %d" % e["step"], "riichi players %d" % sum(v == 2 for v in reach.values())}
        elif k == "call":
            m = e["m"]
            kind = "chi" if m & 4 else "pon" if m & 8 else "added quad" if m & 16 else "north" if m & 32 else "open quad" if m & 3 else "closed quad"
            melds[e["who"]] = melds.get(e["who"], 0) + (kind not in ("added quad", "north"))
            out |= {kind, "calls %d" % melds[e["who"]]}
            out |= {kind + " in riichi"} if reach.get(e["who"]) == 2 else set()
        elif k == "dora":
            out.add("dora after " + prev)
        elif k == "agari":
            out |= {"own draw" if e["who"] == e["from"] else "robbed" if prev == "call" else "ron" if prev != "agari" else "further ron"}
            out |= {"yakuman"} if e["yakuman"] else set()
            out |= {"win with %d calls" % len(e["ms"]), "win deposits %d" % min(e["ba"][1], 2)}
            out |= {"ron on the riichi tile"} if reach.get(e["from"]) == 1 else set()
            out |= {"record ends by win"} if e["fin"] else set()
        elif k == "ryuu":
            out |= {"no win %s" % (e["type"] or "exhausted"), "shown %d" % len(e["shown"])}
            out |= {"record ends without win"} if e["fin"] else set()
        elif k == "bye":
            away.add(e["who"])
        elif k == "un" and away:
            away -= set(e["who"])
            out.add("back again")
        if k in ("draw", "discard", "reach", "agari") and e["who"] in away:
            out.add(k + " while away")
        prev = k
    return out | {"players %d" % n, "length %d00+" % (len(events) // 100)}


def generate(ctx, plan_list, timeout=600):
    """[(events, style)] for the plans."""
    src = ctx.path("plans.ndjson")
    with open(src, "w") as f:
        for p in plan_list:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    res = ctx.tlc("Gen", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + CONSTS, env={"PLANS": src}, timeout=timeout,
                  heap="6g", what="generation of records")
    by = {}
    for x in ctx.printed(res, "EV"):
        by.setdefault(x["id"], {})[x["i"]] = x["e"]
    os.unlink(src)
    out = []
    for k, p in enumerate(plan_list, 1):
        ev = by.get(k, {})
        if sorted(ev) != list(range(len(ev))) or not ev:
            raise Machinery("generated behaviour %d has gaps" % k)
        events = [ev[i] for i in range(len(ev))]
        if not events[-1].get("fin"):
            raise Machinery("generated behaviour %d does not end: %s" % (k, events[-1]))
        out.append((subst(events, p), p["_style"]))
    seen = ctx.notes.setdefault("generated_records_with", {})
    for events, _ in out:
        for f in features(events):
            seen[f] = seen.get(f, 0) + 1
    ctx.count("generated_records", len(out))
    ctx.count("generated_events", sum(len(e) for e, _ in out))
    return out


def scripted(rng, names=None):
    """Four players; player 0 holds four groups (or quads that are declared) and one tile more, whose other copies the
    others throw away early: decisions about waits that are dead or nearly so."""
    faces = list(range(34))
    rng.shuffle(faces)
    if rng.random() < 0.4:
        lone = [f for f in range(27, 34)]
        rng.shuffle(lone)
        faces = lone + [f for f in faces if f < 27]
    g, (x, y) = faces[:4], faces[4:6]
    if rng.random() < 0.3:
        s = 9 * rng.randrange(3) + rng.randrange(7)      # one of the groups is a run near the wait
        g[3] = None
        run = [4 * s + rng.randrange(4), 4 * (s + 1) + rng.randrange(4), 4 * (s + 2) + rng.randrange(4)]
        if {s, s + 1, s + 2} & set(g[:3] + [x, y]):
            run = None
            g[3] = faces[6]
    quads = g[3] is not None and rng.random() < 0.4
    copies = {f: rng.sample([4 * f + c for c in range(4)], 4) for f in range(34)}
    draws = []                                           # what player 0 draws on purpose
    if quads:
        mine = copies[g[0]] + copies[g[1]] + copies[g[2]] + [copies[x][0]]
        draws = copies[g[3]]
    else:
        mine = [t for f in g if f is not None for t in copies[f][:3]] + (run if g[3] is None else []) + [copies[x][0]]
    draws = draws + [copies[y][0]]
    left = set(range(136)) - set(mine) - set(draws)
    dead = [t for f in (x, y) for t in copies[f][1:] if t in left and rng.random() < 0.85]
    left -= set(dead)
    rest = sorted(left)
    rng.shuffle(rest)
    hands = [mine, [], [], []]
    for t in dead:
        hands[rng.randint(1, 3)].append(t)
    plan = [list(h) for h in hands]
    for h in hands[1:]:
        while len(h) < 13:
            h.append(rest.pop())
        rng.shuffle(h)
    for h in hands:
        rng.shuffle(h)
    dora = rest.pop()
    ev = [{"k": "go", "type": code(rng, 4)},
          {"k": "un", "who": [0, 1, 2, 3], "names": [rng.choice(names or NAMES) for _ in range(4)],
           "dan": [rng.randrange(21) for _ in range(4)], "rate": [150000] * 4, "sx": ["M", "F", "M", "F"]},
          {"k": "taikyoku", "oya": 0},
          {"k": "init", "ten": [250] * 4, "sticks": 0, "honba": 0, "oya": 0, "hands": hands, "kyoku": 0, "dice": [1, 2], "dora": dora}]
    held = [list(h) for h in hands]
    late = rng.random() < 0.7                            # the telling draw comes when the copies are gone
    rounds = max(len(q) for q in plan[1:]) + 2
    riichi = rng.random() < 0.3

    def throw(p, t):
        held[p].remove(t)
        ev.append({"k": "discard", "who": p, "t": t})

    for r in range(rounds):
        for p in range(4):
            last = r == rounds - 1
            if p == 0:
                special = draws and (last or r == 0 and quads or not late and rng.random() < 0.4)
                t = draws.pop(0) if special else rest.pop()
                ev.append({"k": "draw", "who": 0, "t": t})
                held[0].append(t)
                while quads and special:
                    full = [f for f in g if all(c in held[0] for c in copies[f])]
                    if not full:
                        break
                    f = rng.choice(full)
                    ev.append({"k": "call", "who": 0, "m": rng.choice(copies[f]) << 8})
                    for c in copies[f]:
                        held[0].remove(c)
                    t = draws.pop(0) if len(draws) > 1 or last else rest.pop()
                    ev.append({"k": "draw", "who": 0, "t": t})
                    held[0].append(t)
                keep = set(mine)
                junk = [c for c in held[0] if c not in keep] if not last else held[0]
                throw(0, rng.choice(junk))
                if last:
                    ev.append({"k": "ryuu", "type": "kaze4", "sc": False, "ba": [0, 0], "base": [], "delta": [], "shown": [],
                               "fin": [[250, 0]] * 4})
                    return ev, {"old": False, "quote": "all"}
            else:
                t = rest.pop()
                ev.append({"k": "draw", "who": p, "t": t})
                held[p].append(t)
                first = [c for c in plan[p] if c in held[p]]
                if first:
                    throw(p, first[0])
                elif riichi and p == 1:
                    riichi = False
                    ev.append({"k": "reach", "who": p, "step": 1, "ten": []})
                    throw(p, t)
                    ev.append({"k": "reach", "who": p, "step": 2, "ten": [250, 240, 250, 250]})
                else:
                    throw(p, t)


def fixtures():
    out = []
    for p in sorted(glob.glob(os.path.join(REPO, "tests", "*.xml"))):
        out.append((tenhou.load(p), {"file": p}))
    return out
