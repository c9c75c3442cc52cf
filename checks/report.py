"""C26, C27: the efficiency report against the table and the shapes."""
import copy

from checks import check
from checks.table import n_of, xml
from lib import records

URLS = ["http://tenhou.net/0/?log=2019000000gm-0029-0000-abcdef01&tw=1", "http://tenhou.net/0/?log=2019gm",
        "https://tenhou.net/3/?log=a%22%3E%3Cscript%3Ealert(1)%3C/script%3E&tw=\"><script>alert(1)</script>",
        "http://tenhou.net/0/?log=..%2F..%2Fetc%2Fx&x='onclick=alert(1)", "http://tenhou.net/0/?log=a%0Ab&tw=<b>"]
IDS = ["2019000000gm-0029-0000-abcdef01", "../../x", "a\\b:c", "<i>", "\"q\"", "a b", "x\x00y\n", "con*|?"]
HOSTILE = ["<b>&amp;</b>", "<script>alert(1)</script>", "a/b\\c", "../../etc", "</p><p>", "\" onmouseover=\"x", "'><i>", "..", "/",
           "{{ 7*7 }}", "{% raw %}", "&lt;", "a\nb", "a:b|c?d*e", "<!-- x -->", "%2e%2e%2f", "]]>", "詩暢", "\\", "~", "$HOME"]
SIMPLE = dict(ron=0, tsumo=2, nines=0, abort=0)
STYLES = [dict(SIMPLE), dict(SIMPLE, chi=250, pon=400, kan=300), dict(SIMPLE, reach=200), dict(SIMPLE, ankan=900, addkan=900, kita=900),
          dict(SIMPLE, tsumogiri=900, discard=20), dict(ron=10, tsumo=20)]


def plans(rng, count, names=None):
    out = []
    for j in range(count):
        out.append(records.plan(rng, n=[4, 3][j % 3 == 2], hands=rng.choice([1, 1, 1, 2]), weights=STYLES[j % len(STYLES)],
                                kind=["near", "near", "near", "gathered", "norths", "near", "random"][j % 7],
                                names=[rng.choice(names) for _ in range(4)] if names else None))
    return out


def cases_of(ctx, recs, vias):
    rng = ctx.rng
    out = []
    for j, (ev, st) in enumerate(recs):
        out.append({"op": "report", "xml": xml(ev, st), "seat": 0 if ev[0]["k"] == "go" and rng.random() < 0.8 else rng.randrange(n_of(ev)), "via": vias[j % len(vias)],
                    "url": rng.choice(URLS), "id": rng.choice(IDS)})
    return out


def file_facts(name):
    bad = '/\\:*?"<>|'
    return {"parts": 1 if "/" not in name and "\\" not in name else 2, "plain": not any(c in bad or ord(c) < 32 or ord(c) == 127 for c in name),
            "head": bool(name) and name[0] not in ". -", "tail": name.endswith(".html"), "name": name}


def lines_of(ctx, recs, vias):
    cases = cases_of(ctx, recs, vias)
    obs = ctx.driver("rep", cases, per_case_timeout=75)
    nfiles = {"record": lambda n: 0, "url": lambda n: 0, "name": lambda n: 1, "id": lambda n: 1, "main": lambda n: 1, "all": lambda n: n}
    lines = []
    for (ev, _), c, o in zip(recs, cases, obs):
        lines.append({"events": ev, "seat": c["seat"], "raise": o["raise"], "sections": o.get("sections", []), "names": o.get("names", []),
                      "odd": o.get("odd", []), "player": o.get("player", False), "record": o.get("record", False),
                      "links": o.get("links", []), "linkswant": o.get("links_want", []), "plain": o.get("plain", False),
                      "files": [file_facts(f) for f in o.get("files", [])], "nfiles": nfiles[c["via"]](n_of(ev))})
    ctx.count("decisions_judged", sum(len(s["rows"]) for l in lines for s in l["sections"]))
    return lines


def corrupted(lines, hows):
    can = []
    for l in lines:
        if len(can) >= len(hows):
            break
        if l["raise"] or sum(len(s["rows"]) for s in l["sections"]) < 2:
            continue
        bad = copy.deepcopy(l)
        hows[len(can)](bad, next(s["rows"] for s in bad["sections"] if s["rows"]))
        can.append(bad)
    return can


@check("C26")
def c26(ctx):
    recs = records.generate(ctx, plans(ctx.rng, ctx.pick(54, 700)))
    recs += records.fixtures()[:ctx.pick(2, 99)]
    dead = [records.scripted(ctx.rng) for _ in range(ctx.pick(36, 300))]
    lines = lines_of(ctx, recs, ["record", "record", "url"]) + lines_of(ctx, dead, ["record"])

    def best(l, q):
        q[0]["best"] = q[0]["best"] + [k for k in range(1, 35) if k not in q[0]["best"]][:1]

    def count(l, q):
        q[-1]["ec"] += 1

    def actual(l, q):
        q[-1]["ys"] -= 1

    def useful(l, q):
        u = q[0]["normal"][0]["useful"]
        u.append(next(k for k in range(1, 35) if k not in u))

    def twice(l, q):
        q[-1]["merged"].append(q[-1]["merged"][0])
    ctx.validate("ReportTrace", lines, constants=records.CONSTS, steps=lambda l: len(l["events"]), env={"PART": "advice"},
                 canaries=lambda: corrupted(lines, [best, count, actual, useful, twice]), heap="8g")


@check("C27")
def c27(ctx):
    recs = records.generate(ctx, plans(ctx.rng, ctx.pick(100, 900), HOSTILE + records.NAMES))
    recs += records.fixtures()[:ctx.pick(2, 99)]
    recs += [records.scripted(ctx.rng, HOSTILE) for _ in range(ctx.pick(36, 300))]
    lines = lines_of(ctx, recs, ["record", "name", "url", "main", "id", "name", "all"])

    def row(l, q):
        q.pop()

    def riichi(l, q):
        q[0]["riichi"] = not q[0]["riichi"]

    def wrong(l, q):
        q[0]["wrong"] = 1000000 - q[0]["wrong"] if abs(q[0]["wrong"] - 500000) > 9 else 0

    def hand(l, q):
        q[-1]["hand"][0] = q[-1]["hand"][0] % 34 + 1

    def markup(l, q):
        l["odd"].append("tag b")
    ctx.validate("ReportTrace", lines, constants=records.CONSTS, steps=lambda l: len(l["events"]), env={"PART": "cover"},
                 canaries=lambda: corrupted(lines, [row, riichi, wrong, hand, markup]), heap="8g")
