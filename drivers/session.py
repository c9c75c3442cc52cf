"""Runs of the command line tools and of the checker class, seen from outside.
case: {tool, xml, link, wait, answer, names}"""
import builtins
import contextlib
import io
import os
import re
import shutil
import sys
import tempfile
from urllib.parse import urlsplit

from common import run, online, SCRATCH
from rep import parsed
from rec import record_of

SERVER = "http://e.mjv.jp/0/log/"
PLACE = "https://tenhou.net/9/moved/"


def tiles_of(html, player, rec):
    """tiles discarded in every section of a report"""
    p = parsed(html, player, rec, "")
    return [[k for r in s["rows"] for k in r["your"]] for s in p["sections"]]


def handle(case):
    rec = record_of(case)
    asked, calls = [], []
    where = tempfile.mkdtemp(dir=SCRATCH)
    back, ask, system, err = os.getcwd(), builtins.input, os.system, sys.stderr
    answers = iter([case["link"] + case["blank"], case["answer"]])
    said = io.StringIO()
    os.chdir(where)
    builtins.input = lambda prompt="": (said.write(str(prompt) + "\n"), next(answers))[1]
    os.system = lambda line: 0
    sys.stderr = io.StringIO()
    html = None
    raised = ""
    try:
        with online(case["xml"], asked, PLACE if case["moved"] else None), contextlib.redirect_stdout(said):
            if case["tool"] == "extract":
                from mahjong import universe_paifu_convert
                universe_paifu_convert.main()
            elif case["api"] == "main":
                from mahjong import tenhou_record_check
                tenhou_record_check.main()
            else:
                from mahjong.record.checker import TenhouChecker
                html = TenhouChecker().parse(case["link"], case["seat"], **({"timeout": case["wait"]} if case["wait"] else {}))
    except Exception as e:
        raised = "%s: %s" % (type(e).__name__, str(e)[:200])
    finally:
        builtins.input, os.system, sys.stderr = ask, system, err
        os.chdir(back)
        from loguru import logger
        logger.remove()
    for url, wait, moved in asked:
        u = urlsplit(url)
        where_to = u._replace(query="", scheme="http" if u.netloc == urlsplit(SERVER).netloc else u.scheme).geturl()
        if isinstance(wait, tuple):
            wait = max(x or 10 ** 6 for x in wait)
        calls.append({"op": "fetch", "id": u.query, "at": {SERVER: "log", PLACE: "moved"}.get(where_to, "odd"), "moved": moved,
                      "wait": int(-(-wait // 1)) if isinstance(wait, (int, float)) else 0})
    if case["api"] == "main" and case["tool"] == "report":
        # the players offered, by the numbers in front of them
        seats = {}
        for l in said.getvalue().splitlines():
            m = re.match(r"\W*(\d+)\b(.*)$", l)
            hits = [p.index for p in rec.players if m and str(p) in l and p.name in m.group(2)]
            if len(hits) == 1:
                seats.setdefault(int(m.group(1)), []).append(hits[0])
        calls.append({"op": "offer", "seats": [x for i in sorted(seats) for x in seats[i]] if sorted(seats) == list(range(1, len(seats) + 1)) else []})
    names = sorted(os.listdir(where))
    for n in names:
        path = os.path.join(where, n)
        m = re.fullmatch(r"tenhou_record_(.*?)_(.*)_(\d)\.html", n, re.S)
        t = re.fullmatch(r"(.*)_command\.csv", n, re.S)
        c = {"op": "write", "w": {"what": "odd", "seat": 9}, "id": n, "sections": []}
        if m and case["tool"] == "report":
            seat = int(m.group(3))
            c["w"], c["id"] = {"what": "report", "seat": seat}, m.group(1)
            with open(path, encoding="utf-8", newline="") as f:
                text = f.read()
            if seat < len(rec.players):
                c["sections"] = tiles_of(text, rec.players[seat], rec)
                if rec.players[seat].name != m.group(2):
                    c["id"] = n
        elif t and case["tool"] == "extract":
            c["w"], c["id"] = {"what": "table", "seat": 0}, t.group(1)
        calls.append(c)
    if html is not None:
        calls.append({"op": "write", "w": {"what": "report", "seat": case["seat"]}, "id": case["id"],
                      "sections": tiles_of(html, rec.players[case["seat"]], rec)})
    if raised:
        calls.append({"op": "raise", "error": raised})
    else:
        calls.append({"op": "end"})
    shutil.rmtree(where)
    return {"calls": calls}


if __name__ == "__main__":
    run(handle)
