"""Grouping, snapshots, walls, the win rate tool and construction scopes: replays scripts.
case: {kind, calls, ...}"""
import builtins
import contextlib
import io
import os
import random
import re

from common import run, guarded, kind_of, tile_of, hand_of


# ------------------------------------------------------------------ grouping
def groups(case):
    from mahjong.record.stage import StageGroupby
    keys, stages = case["keys"], case["stages"]
    names = case.get("names")

    def conv(k):
        return names[k] if names else k
    items = [(i + 1, conv(k)) for i, k in enumerate(keys)]
    if case.get("plain"):
        g = StageGroupby([conv(k) for k in keys], *[conv(s) for s in stages])
    else:
        g = StageGroupby(iter(items), *[conv(s) for s in stages], key=lambda x: x[1])
    back = {conv(k): k for k in set(keys) | set(stages)}
    handles = []
    out = []
    stopped = False
    for c in case["calls"]:
        c = dict(c)

        def step():
            if c["op"] == "advance":
                try:
                    key, handle = next(g)
                except StopIteration:
                    c["stop"] = True
                    return
                c["stop"] = False
                handles.append(handle)
                c["known"] = isinstance(key, list)
                c["rest"] = [back[k] for k in key] if isinstance(key, list) else [back[key]]
            else:
                h = c["handle"]
                try:
                    item = next(handles[h - 1])
                except StopIteration:
                    c["stop"] = True
                    return
                c["stop"] = False
                # without a key function the items are the keys, and one cannot be told from another of its kind
                c["item"] = 1000 + back[item] if case.get("plain") else item[0]
        _, err = guarded(step)
        c["raise"] = err or ""
        out.append(c)
        if err:
            break
    return {"kind": "groups", "keys": keys, "stages": stages, "calls": out}


# ------------------------------------------------------------------ snapshots
KEYS = {"a": "a", "b": ("pair", 1), "c": 3}
BACK = {v: k for k, v in KEYS.items()}
# the values the numbers stand for: values that Python takes for equal are different ones here
LEAVES = [None, 1, True, 1.0, 0, False, "", None, "1", ()]


def code_of(v):
    same = [n for n, x in enumerate(LEAVES) if n and type(x) is type(v) and repr(x) == repr(v)]
    return same[0] if same else 99


def nested(pairs):
    """nested dictionary (or value) of [[path, value], ...]"""
    root = {}
    for path, v in sorted(pairs, key=lambda x: len(x[0])):
        if not path:
            if v != 0:
                return LEAVES[v]
            continue
        d = root
        for k in path[:-1]:
            d = d[KEYS[k]]
        d[KEYS[path[-1]]] = {} if v == 0 else LEAVES[v]
    return root


def read(td, path=()):
    out = [[list(path), 0]]
    for k in list(td.keys()):
        v = td[k]
        assert k in td and td.get(k) is v
        name = BACK[k]
        if hasattr(v, "nested_dict") or hasattr(v, "keys"):
            out += read(v, path + (name,))
        else:
            out.append([list(path + (name,)), code_of(v)])
    return out


def tree(case):
    from mahjong.record.universe.executor import TransferDict
    given = [nested(case["start"])]
    snaps = [TransferDict(given[0])]

    def inner(d):
        """the dictionaries of a nested one"""
        return [d] + [x for v in d.values() if isinstance(v, dict) for x in inner(v)]

    handles = {}
    out = []

    def part(i, path, keep):
        key = (i, tuple(path))
        if keep and key in handles:
            return handles[key]
        p = snaps[i - 1]
        for k in path:
            p = p[KEYS[k]]
        handles[key] = p
        return p
    for c in case["calls"]:
        c = dict(c)

        def step():
            p = part(c["snap"], c["path"], c.get("keep"))
            if c["op"] in ("set", "default"):
                value = nested(c["value"])
                if isinstance(value, dict):
                    given.append(value)
                if c.get("wrap") and isinstance(value, dict):
                    value = TransferDict(value)
                r = p.set(KEYS[c["key"]], value) if c["op"] == "set" else p.setdefault(KEYS[c["key"]], value)
                snaps.append(r)
            elif c["op"] == "drop":
                snaps.append(p.drop(KEYS[c["key"]]))
            elif c["op"] == "meddle":
                every = [x for d in given for x in inner(d)]
                d = every[c["which"] % len(every)]
                k = KEYS[c["key"]]
                if k in d and c["which"] % 2:
                    del d[k]
                else:
                    d[k] = 77
            else:
                c["refused"] = True
                k = KEYS[c["key"]]
                how = {"setitem": lambda: p.__setitem__(k, 9), "pop": lambda: p.pop(k), "update": lambda: p.update({k: 9}),
                       "popitem": lambda: p.popitem(), "clear": lambda: p.clear(), "delitem": lambda: p.__delitem__(k)}
                try:
                    how[c["how"]]()
                    c["refused"] = False
                except (TypeError, AttributeError):
                    pass
            c["seen"] = [read(s) for s in snaps]
            c["flat"] = [[[BACK[k] for k in path], code_of(v)] for path, v in snaps[-1].flatten_iter()]
        _, err = guarded(step)
        c["raise"] = err or ""
        out.append(c)
        if err:
            break
    return {"kind": "tree", "start": case["start"], "calls": out}


# ------------------------------------------------------------------ walls
def wall(case):
    from mahjong.container.distribution import StaticWall
    random.seed(case["seed"])
    source = hand_of(case["start"])
    walls = [StaticWall(source)]
    iters = []
    out = []

    def weights():
        from mahjong.container.distribution import TileDistribution
        res = []
        for w in walls:
            ws = [int(w.weight_of(tile_of(k)) * 1000) for k in range(1, 35)]
            named = {kind_of(t): x for t, x in zip(TileDistribution.ALL_TILES, w.weights())}
            assert len(named) == 34 and all((named[k] > 0) == (ws[k - 1] > 0) for k in range(1, 35))
            res.append(ws)
        return res
    for c in case["calls"]:
        c = dict(c)

        def step():
            if c["op"] == "pick":
                walls.append(walls[c["wall"] - 1].pick(tile_of(c["tile"], c.get("red", False))))
            elif c["op"] == "sampler":
                iters.append(walls[c["wall"] - 1].sample(c["count"]))
            elif c["op"] == "next":
                try:
                    c["tile"] = kind_of(next(iters[c["iter"] - 1]))
                    c["stop"] = False
                except StopIteration:
                    c["stop"] = True
            elif c["op"] == "all":
                c["tiles"] = [kind_of(t) for t in walls[c["wall"] - 1].sample(c["count"])]
            else:
                c["samples"] = [[kind_of(t) for t in walls[c["wall"] - 1].sample(c["count"])] for _ in range(c["trials"])]
            c["weights"] = weights()
        _, err = guarded(step)
        c["raise"] = err or ""
        out.append(c)
        if err:
            break
    return {"kind": "wall", "start": case["start"], "calls": out}


# ------------------------------------------------------------------ win rate tool
ROW = re.compile(r"discard (\S+): ([0-9.]+)% win rate \((\d+)/(\d+)\)")


def winrate(case):
    from mahjong import win_rate_demo
    from mahjong.container import distribution
    random.seed(case["seed"])
    answers = list(case["wrong"]) + [case["text"], str(case["count"]), case["tries_text"]]
    recorded, picked = [], []
    classes = [c for c in vars(distribution).values()
               if isinstance(c, type) and issubclass(c, distribution.TileDistribution) and "sample" in vars(c)]
    olds = {c: c.sample for c in classes}
    choices = random.choices

    def wrap(old):
        def sample(self, count):
            mine = []
            recorded.append(mine)
            for t in old(self, count):
                mine.append(kind_of(t))
                yield t
        return sample

    def rec_choices(*a, **k):
        r = choices(*a, **k)
        picked.extend(r)
        return r
    c = dict(case["calls"][0])

    def go():
        buf = io.StringIO()
        old_input, old_system = builtins.input, os.system
        builtins.input = lambda prompt="": answers.pop(0)
        os.system = lambda cmd: 0
        random.choices = rec_choices
        for cls in classes:
            cls.sample = wrap(olds[cls])
        try:
            with contextlib.redirect_stdout(buf):
                win_rate_demo.main()
        finally:
            builtins.input, os.system = old_input, old_system
            random.choices = choices
            for cls in classes:
                cls.sample = olds[cls]
        rows = []
        for line in buf.getvalue().splitlines():
            m = ROW.search(line)
            if m:
                name = m.group(1)
                n = int(name[:-1])
                kind = "mpsz".index(name[-1]) * 9 + (5 if n == 0 else n)
                rows.append({"tile": kind, "rate": int(round(float(m.group(2)) * 100)), "wins": int(m.group(3)),
                             "total": int(m.group(4))})
        c["rows"] = rows
        n = case["tries"]
        if len(recorded) != n and case["count"] and len(picked) == n * case["count"]:
            recorded[:] = [[kind_of(t) for t in picked[i:i + case["count"]]] for i in range(0, len(picked), case["count"])]
        c["drawn"] = recorded
        c["hand"], c["count"], c["tries"] = case["hand"], case["count"], case["tries"]
        return c
    _, err = guarded(go)
    c["raise"] = err or ""
    if err:
        c.update(hand=case["hand"], text=case["text"])
    return {"kind": "winrate", "calls": [c]}


# ------------------------------------------------------------------ construction scopes
class Boom(Exception):
    pass


# what the numbers of a script stand for: values of a field that are easily taken for no value
FIELD_VALUES = [None, 1, None, False, 0, "x"]


def field_number(v):
    same = [n for n, x in enumerate(FIELD_VALUES) if n and type(x) is type(v) and x == v]
    return same[0] if same else 99


def scopes(case):
    """families of builders; those of a family share their defaults, and different families nothing"""
    from mahjong.record.utils.builder import Builder
    first = [Builder(dict) for _ in range(case["families"])]
    other = [Builder(lambda **kw: list(kw.items()), inner_state=b.inner_state) for b in first]
    out = []
    calls = [dict(c) for c in case["calls"]]
    pos = [0]

    def pairs(d):
        return [[k, field_number(v)] for k, v in sorted(dict(d).items())]

    def values(c):
        return {k: FIELD_VALUES[v] for k, v in c["fields"]}

    def probe():
        return [pairs(b()) for b in first]

    def finish(c):
        c["raise"] = ""
        out.append(c)

    def body():
        """interpret calls until the scope that was opened is left; returns how"""
        while pos[0] < len(calls):
            c = calls[pos[0]]
            pos[0] += 1
            f = c["fam"] - 1
            if c["op"] == "build":
                kw = values(c)
                if c.get("new"):
                    c["got"] = pairs(Builder(dict, inner_state=first[f].inner_state)(**kw))
                else:
                    c["got"] = pairs(first[f](**kw) if not c.get("other") else dict(other[f](**kw)))
                finish(c)
            elif c["op"] == "failbuild":
                seen = {}

                def ctor(**kw):
                    seen.update(kw)
                    raise Boom()
                b = Builder(ctor, inner_state=first[f].inner_state)
                try:
                    b(**values(c))
                except Boom:
                    pass
                c["got"] = pairs(seen)
                finish(c)
            elif c["op"] == "enter":
                scope(c, first[f] if not c.get("other") else other[f])
            elif c["op"] == "leave":
                return c
        return None

    def scope(c, b):
        how = c["how"]
        leave = None
        if how == "generator":
            def gen():
                with b.when(**values(c)):
                    yield 1
            g = gen()
            next(g)
            c["probe"] = probe()
            finish(c)
            leave = body()
            g.close()
        else:
            try:
                with b.when(**values(c)):
                    c["probe"] = probe()
                    finish(c)
                    leave = body()
                    if how == "exception":
                        raise Boom()
            except Boom:
                pass
        if leave is not None:
            leave["probe"] = probe()
            finish(leave)
    _, err = guarded(body)
    if err:
        out.append(dict(case["calls"][min(len(out), len(case["calls"]) - 1)], **{"raise": err}))
    return {"kind": "scopes", "families": case["families"], "calls": out}


def handle(case):
    return {"groups": groups, "tree": tree, "wall": wall, "winrate": winrate, "scopes": scopes}[case["kind"]](case)


if __name__ == "__main__":
    run(handle)
