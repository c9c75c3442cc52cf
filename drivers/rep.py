"""The efficiency report.  case: {op: "report", xml, seat, via, url}"""
import base64
import contextlib
import io
import os
import re
import sys
import tempfile
import xml.etree.ElementTree as ET
from html.parser import HTMLParser

from common import run, online, SCRATCH, SUITS

VOID = {"meta", "br", "hr", "img", "link", "input", "base", "embed", "source", "area", "col", "wbr", "track", "param"}


class Node:
    def __init__(self, tag, attrs):
        self.tag, self.attrs, self.kids = tag, attrs, []

    def all(self, tag=None, cls=None):
        for k in self.kids:
            if isinstance(k, Node):
                if (tag is None or k.tag == tag) and (cls is None or cls in k.attrs.get("class", "").split()):
                    yield k
                yield from k.all(tag, cls)

    def own(self, tag=None, cls=None):
        return [k for k in self.kids if isinstance(k, Node) and (tag is None or k.tag == tag)
                and (cls is None or cls in k.attrs.get("class", "").split())]

    def text(self):
        return "".join(k if isinstance(k, str) else k.text() for k in self.kids)


class Tree(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = Node("", {})
        self.open = [self.root]
        self.odd = []

    def handle_starttag(self, tag, attrs):
        node = Node(tag, {k: v or "" for k, v in attrs})
        if len(node.attrs) != len(attrs):
            self.odd.append("attributes of " + tag)
        self.open[-1].kids.append(node)
        if tag not in VOID:
            self.open.append(node)

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if tag not in VOID:
            self.open.pop()

    def handle_endtag(self, tag):
        if tag == self.open[-1].tag:
            self.open.pop()
        else:
            self.odd.append("end of " + tag)

    def handle_data(self, data):
        kids = self.open[-1].kids
        if kids and isinstance(kids[-1], str):
            kids[-1] += data
        else:
            kids.append(data)

    def handle_comment(self, data):
        self.odd.append("comment")


PICTURES = {}
DRAWN = {}


def pictures(styles):
    """which picture each class draws: the tiles a reader sees, whatever the classes are called"""
    import mahjong.templates.mjpic as m
    if not PICTURES:
        where = os.path.dirname(m.__file__)
        for name in os.listdir(where):
            if re.fullmatch(r"\d[mpsz]\.png", name):
                with open(os.path.join(where, name), "rb") as f:
                    PICTURES[f.read()] = SUITS.index(name[1]) * 9 + (int(name[0]) or 5)
    DRAWN.clear()
    for cls, body in re.findall(r"\.([-\w]+)\s*\{([^}]*)\}", styles):
        m = re.search(r"url\(\s*[\"']?data:image/png;base64,([A-Za-z0-9+/=\s]*)[\"']?\s*\)", body)
        if m:
            DRAWN[cls] = PICTURES.get(base64.b64decode(m.group(1)), 0)


def kind(node):
    for c in node.attrs.get("class", "").split():
        if c in DRAWN or re.fullmatch(r"pic.*", c):
            return DRAWN.get(c, 0)


def pics(node):
    return [k for k in (kind(x) for x in node.all("div")) if k is not None]


def held(td):
    """tiles called and tiles in hand: groups of pictures with a gap after each call"""
    groups, last = [], []
    for k in td.kids:
        if isinstance(k, str):
            if "\xa0" in k:
                groups.append(last)
                last = []
        elif kind(k) is not None:
            last.append(kind(k))
    return groups, last


def steps(text):
    return [(int(a), int(b)) for a, b in re.findall(r"Steps\s*(-?\d+)\s*Tiles\s*(-?\d+)", text)]


def reasons(node):
    out = []
    for d in node.own("div", "reasoning-tile"):
        parts = d.own("div")
        (s, t), = steps(d.text())
        out.append({"tiles": pics(parts[0]), "step": s, "count": t, "useful": [k for p in parts[1:] for k in pics(p)]})
    return out


def row(tr):
    td = tr.own("td")
    melds, hand = held(td[1])
    red, green, blue, rate = re.search(r"rgba\(\s*(\d+),\s*(\d+),\s*(\d+),\s*([^)]+)\)", tr.attrs["style"]).groups()
    rate = float(rate)
    top, = td[4].own("details")
    summary, = top.own("summary")
    (es, ec), (ys, yc) = steps(summary.text())
    inner = {}
    for d in top.own("details"):
        inner[d.own("summary")[0].text().split("-")[0].strip().lower()] = reasons(d)
    return {"number": int(td[0].text()), "melds": melds, "hand": hand, "your": pics(td[2]), "best": pics(td[3]),
            "es": es, "ec": ec, "ys": ys, "yc": yc, "riichi": int(blue) > int(red), "wrong": int(round(rate * 1e6)),
            "zero": rate == 0, "inside": 0 <= rate <= 1, "merged": reasons(top), "normal": inner.get("normal", []),
            "seven": inner.get("seven", [])}


KNOWN = {"html", "head", "meta", "title", "style", "body", "div", "hr", "p", "span", "a", "details", "summary", "table", "tr",
         "th", "td", "br", ""}
ATTRS = {"lang", "charset", "type", "class", "href", "open", "style"}


def parsed(html, player, rec, url):
    t = Tree()
    t.feed(html)
    t.close()
    r = t.root
    pictures("".join(n.text() for n in r.all("style")))
    for n in r.all():
        if n.tag not in KNOWN:
            t.odd.append("tag " + n.tag)
        t.odd += ["attribute %s of %s" % (a, n.tag) for a in n.attrs if a not in ATTRS]
        if "class" in n.attrs and not re.fullmatch(r"[-\w ]*", n.attrs["class"]):
            t.odd.append("class")
        if n.tag == "style" and not n.attrs.get("type") == "text/css":
            t.odd.append("style")
    sections = []
    for d in r.all("div"):
        caption = [c for x in d.own("details") for s in x.own("summary") for c in s.own("span", "game-caption")]
        if caption:
            rows = [x for table in d.own("details")[0].own("table") for x in table.own("tr") if x.own("td")]
            sections.append({"name": caption[0].text(), "rows": [row(x) for x in rows]})
    ps = [p for p in r.all("p")]
    texts = [k for p in ps for k in p.kids if isinstance(k, str)]
    return {"odd": t.odd[:5], "sections": sections, "names": [str(g) for g in rec.game_list],
            "player": any(str(player) in x for x in texts), "record": any(str(rec) in x for x in texts),
            "links": [a.attrs.get("href", "") for a in r.all("a")],
            "plain": sum(1 for a in r.all("a") if list(a.attrs) != ["href"]) == 0}


def report(case):
    import builtins
    from mahjong import tenhou_record_check as C
    from mahjong.record.checker import TenhouChecker
    from mahjong.record.reader import TenhouRecord, log_id_to_url, log_id_from_url
    xml, seat, via, url = case["xml"], case["seat"], case["via"], case["url"]
    rec = TenhouRecord(ET.fromstring(xml))
    out = {"files": [], "links_want": [url], "id": log_id_from_url(url)}
    if via == "record":
        html = TenhouChecker().parse(rec, seat)
        out["links_want"] = []
    elif via == "url":
        with online(xml):
            html = TenhouChecker().parse(url, seat)
    elif via == "name":
        with online(xml):
            name, html = TenhouChecker().parse(url, seat, generate_filename=True)
        out["files"] = [name]
    elif via == "id":
        template = C.template_env("mahjong").get_template("record_checker_template.html")
        name, html = C.render_template(rec.players[seat], rec, template, log_id=case["id"])
        out["files"], out["links_want"], out["id"] = [name], [log_id_to_url(case["id"])], case["id"]
    else:  # the command line
        answers = iter([url + "  ", str(seat + 1)] if via == "main" else [url, "all"])
        where = tempfile.mkdtemp(dir=SCRATCH)
        back, said, err, ask = os.getcwd(), io.StringIO(), sys.stderr, builtins.input
        os.chdir(where)
        builtins.input = lambda prompt="": next(answers)
        sys.stderr = io.StringIO()
        try:
            with online(xml), contextlib.redirect_stdout(said):
                C.main()
        finally:
            builtins.input = ask
            sys.stderr = err
            os.chdir(back)
            C.logger.remove()
        names = sorted(os.listdir(where))
        out["files"] = names
        mine = [n for n in names if n.endswith("_%d.html" % seat)]
        if len(mine) != 1 or not all(os.path.isfile(os.path.join(where, n)) for n in names):
            raise ValueError("files written: %s" % names)
        with open(os.path.join(where, mine[0]), encoding="utf-8", newline="") as f:
            html = f.read()
        for n in names:
            os.unlink(os.path.join(where, n))
        os.rmdir(where)
    out.update(parsed(html, rec.players[seat], rec, url))
    if via == "record":
        out["links"] = []
    return out


def handle(case):
    return report(case)


if __name__ == "__main__":
    run(handle)
