"""Shared by the drivers; runs under the project's interpreter with /repo first on the path."""
import json
import os
import signal
import sys
import time

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
SCRATCH = os.environ.get("VERIF_SCRATCH", ".")
try:
    from loguru import logger
    logger.remove()
except Exception:
    pass
import logging
logging.disable(logging.CRITICAL)


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def guarded(f, *args):
    """(result, None) or (None, error text): failures of the code under test are observations."""
    limit = int(os.environ.get("VERIF_CASE_TIMEOUT", "120"))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return f(*args), None
    except CaseTimeout:
        return None, "Timeout"
    except RecursionError as e:
        return None, "RecursionError"
    except Exception as e:
        return None, "%s: %s" % (type(e).__name__, str(e)[:200])
    finally:
        signal.alarm(0)


def run(handler):
    """handler(case) -> observation dict.  An exception becomes {"raise": text}."""
    src, dst = sys.argv[1], sys.argv[2]
    late, start = 0, time.monotonic()
    with open(src) as f, open(dst, "w") as out:
        for line in f:
            case = json.loads(line)
            # two cases that do not end say enough, or one when much time is gone; the rest is not waited for
            res, err = guarded(handler, case) if late < 2 and (not late or time.monotonic() - start < 200) else (None, "Timeout of earlier cases")
            late += err == "Timeout"
            if err is not None:
                res = {"raise": err}
            else:
                res.setdefault("raise", "")
            out.write(json.dumps(res) + "\n")


SUITS = "mpsz"


def kind_of(tile):
    """1..34 for a tile object, red fives counted as fives."""
    n = tile.number
    if n == 0:
        n = 5
    return SUITS.index(tile.color) * 9 + n


def tile_of(kind, red=False):
    from mahjong.tile.definition import Tile, AkaTile
    c, n = divmod(kind - 1, 9)
    if red:
        assert n == 4 and c < 3
        return AkaTile(0, SUITS[c])
    return Tile(n + 1, SUITS[c])


def hand_of(tiles):
    """tiles: list of kinds; a red five is kind + 100"""
    from mahjong.container.set import TileSet
    return TileSet(tile_of(k % 100, k >= 100) for k in tiles)


def kinds(tileset):
    """sorted list of kinds (with multiplicity) of a tile set"""
    return sorted(k for t, n in tileset.items() for k in [kind_of(t)] * n)


class online:
    """A log server: every request is answered with the text; asked collects (address, time limit, moved).
    With a place, the first answer is that the record has moved there (the query is kept)."""

    def __init__(self, text, asked=None, place=None):
        self.text, self.asked, self.place = text, asked if asked is not None else [], place

    def __enter__(self):
        import requests
        self.cls = requests.adapters.HTTPAdapter
        self.real = self.cls.send
        me = self

        def send(adapter, request, stream=False, timeout=None, **kw):
            moved = bool(me.place) and not me.asked
            me.asked.append((request.url, timeout, moved))
            r = requests.Response()
            r.status_code, r.url, r.request, r.encoding = 200, request.url, request, "utf-8"
            r.headers["Content-Type"] = "text/xml; charset=utf-8"
            r._content = me.text.encode("utf-8")
            r._content_consumed = True
            if moved:
                r.status_code, r._content = 302, b"moved"
                r.headers["Location"] = me.place + "?" + request.url.partition("?")[2]
            return r
        self.cls.send = send
        return self.asked

    def __exit__(self, *exc):
        self.cls.send = self.real
