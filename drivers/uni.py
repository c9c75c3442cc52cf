"""The universal format.  case: {op, xml, how, ...}"""
import os
import sys

from common import run, online, SCRATCH
from rec import record_of, tiles_in


def is_tile(x):
    return len(x) == 2 and tiles_in(x) is not None


def typed(v):
    if v is None:
        return ["none"]
    if isinstance(v, bool):
        return ["bool", v]
    if isinstance(v, (int, float)):
        if v != v or v in (float("inf"), float("-inf")):
            return ["odd", repr(v)]
        if abs(v) > 1e7 or round(v * 100) / 100 != v:
            return ["real", repr(float(v))]
        return ["num", int(round(v * 100))]
    if isinstance(v, str):
        return ["str", v]
    if isinstance(v, list):
        if not v:
            return ["empty"]
        if all(isinstance(x, bool) for x in v):
            return ["bools", v]
        if all(isinstance(x, str) for x in v):
            if all(is_tile(x) for x in v):
                return ["tiles", [tiles_in(x)[0] for x in v]]
            return ["strs", v]
        if all(isinstance(x, list) and x and all(isinstance(y, str) and is_tile(y) for y in x) for x in v):
            return ["melds", [[tiles_in(y)[0] for y in x] for x in v]]
    return ["odd", repr(v)]


def seat_of(sub):
    return -1 if sub == "all" else sub if isinstance(sub, int) and not isinstance(sub, bool) else -9


def view(c):
    """what matters of a command object"""
    at = c.timestamp
    if isinstance(at, bool) or at is None or int(at) != at:
        at = -1
    return {"at": int(at), "seat": seat_of(c.sub_scope_id), "scope": c.prop.scope.name, "prop": c.property.name,
            "kind": c.event.name if c.event is not None else "", "method": c.update_method.name,
            "value": typed(c.value), "st": typed(c.state)}


def short(c):
    x = view(c)
    x.pop("method")
    x.pop("value")
    return x


def raw_command(r):
    from mahjong.record.universe.command import GameCommand
    return GameCommand.from_raw_record(r)


def record_command(r):
    from mahjong.record.universe.command import GameCommand
    return GameCommand.from_record(r)


def commands(case):
    from mahjong.record.universe.tenhou import to_commands, to_command_records
    rec = record_of(case)
    api = case.get("api", "commands")
    if api == "raw":
        cmds = [raw_command(r) for r in to_command_records(rec, raw=True, strict=case["strict"])]
    elif api == "records":
        cmds = [record_command(r) for r in to_command_records(rec, strict=case["strict"])]
    else:
        cmds = to_commands(rec, strict=case["strict"])
    return {"cmds": [short(c) for c in cmds]}


TILES = {}


def tile_text(code):
    plain = code % 100 if code > 100 else code
    n = (plain - 1) % 9 + 1
    return ("0" if code > 100 else str(n)) + "mpsz"[(plain - 1) // 9]


def untyped(v):
    if v[0] in ("bool", "str", "bools", "strs"):
        return v[1]
    if v[0] == "num":
        return v[1] // 100 if v[1] % 100 == 0 else v[1] / 100
    if v[0] == "real":
        return float(v[1])
    if v[0] == "tiles":
        return [tile_text(c) for c in v[1]]
    if v[0] == "melds":
        return [[tile_text(c) for c in m] for m in v[1]]
    if v[0] == "empty":
        return []
    return None


def made(x, at):
    from mahjong.record.universe.command import GameCommand
    from mahjong.record.universe import format as F
    scope = F.ViewScope[x["scope"]]
    return GameCommand(prop=F.View.by_name(x["scope"])[x["prop"]], update=F.Update[x["method"]],
                       sub_scope="all" if x["seat"] < 0 else x["seat"], value=untyped(x["value"]), timestamp=at,
                       event=F.EventType.draw)


def edit(cmds, rng, how):
    """one change to a list of commands that keeps every command defined"""
    import copy
    cmds = [copy.copy(c) for c in cmds]
    expect = [i for i, c in enumerate(cmds) if c.update_method.name == "ASSERT_EQUAL_OR_SET" and isinstance(c.value, (list, int))]
    if how in ("hand", "order", "red"):
        expect = [i for i in expect if isinstance(cmds[i].value, list) and len(cmds[i].value) > 1]
    if how == "score":
        expect = [i for i in expect if isinstance(cmds[i].value, int)]
    adds = [i for i, c in enumerate(cmds) if c.update_method.name == "ADD" and i > 0 and c.property.name in ("hand", "score")]
    takes = [i for i, c in enumerate(cmds) if c.update_method.name == "REMOVE" and c.property.name in ("hand", "score")]
    if how in ("hand", "order", "red", "score") and expect:
        c = cmds[rng.choice(expect)]
        v = c.value
        if how == "score":
            v = v + rng.choice([-100, 100, 1000, 1, -v])
        else:
            v = list(v)
            if how == "order":
                rng.shuffle(v)
            elif how == "red":
                fives = [j for j, t in enumerate(v) if t[0] in "05" and t[1] != "z"]
                if fives:
                    j = rng.choice(fives)
                    v[j] = ("5" if v[j][0] == "0" else "0") + v[j][1]
            else:
                r = rng.random()
                if r < 0.4:
                    v[0] = v[-1]
                elif r < 0.7:
                    v.pop(rng.randrange(len(v)))
                else:
                    v.append(rng.choice(v))
        c.value = v
    elif how == "dup" and adds:
        i = rng.choice(adds)
        cmds.insert(i, copy.copy(cmds[i]))
    elif how == "del" and takes:
        del cmds[rng.choice(takes)]
    return cmds


def store_of(snap):
    """every property of a snapshot"""
    from mahjong.record.universe.format import ViewScope, PlayerId
    out = {}
    for scope, inner in snap.items():
        if scope == "global":
            continue
        for sub, props in inner.items():
            seat = -1 if sub == "single" else sub.value if isinstance(sub, PlayerId) else -9
            for prop, v in props.items():
                out[(scope.name, seat, prop.name)] = v
    return out


def raw(store):
    return {k: repr(v) for k, v in store.items()}


def execute(case):
    import random
    from mahjong.record.universe.tenhou import to_commands
    from mahjong.record.universe.executor import GameExecutor
    if "cmds" in case:
        cmds = [made(x, at * 3) for at, x in enumerate(case["cmds"])]
    else:
        cmds = to_commands(record_of(case))
        rng = random.Random(case["seed"])
        for how in case["edits"]:
            cmds = edit(cmds, rng, how)
    # the interpreter says the new value of the addressed property, command by command
    from mahjong.record.universe.interpreter import GameInterpreter
    told, said = [], []
    one, two = GameInterpreter(), GameInterpreter()
    for j, c in enumerate(cmds):
        try:
            said.append(one.interpret(c))
            told.append(typed(said[-1]))
        except (TypeError, ValueError):
            break
        try:
            two.interpret(cmds[j // 2])
        except (TypeError, ValueError, AttributeError):
            pass  # what another one is told is of no concern
    unmoved = [typed(x) for x in said] == told
    snaps, texts, objects, stop = [], [], [], -1
    ex = GameExecutor(strict_mode=case["strict"])
    before = {}
    given = iter(cmds) if case.get("lazy") else cmds
    try:
        for snap in ex.execute(given):
            now = store_of(snap)
            text = raw(now)
            delta = [list(k) + [typed(now[k])] for k in now if before.get(k) != text[k]]
            delta += [list(k) + [["gone"]] for k in before if k not in text]
            at = snap["global"]["time"].get("timestamp", None)
            snaps.append({"at": -1 if at is None else int(at), "delta": delta})
            texts.append(text)
            objects.append(snap)
            before = text
    except AssertionError:
        stop = len(snaps)
    second, stop2 = [], -1
    try:
        runner = ex if case.get("same", True) else GameExecutor(strict_mode=case["strict"])
        for snap in runner.execute(cmds):
            second.append(raw(store_of(snap)))
    except AssertionError:
        stop2 = len(second)
    kept = all(raw(store_of(o)) == t for o, t in zip(objects, texts)) and store_of(ex.states) == {}
    return {"cmds": [view(c) for c in cmds], "snaps": snaps, "stop": stop, "kept": kept, "told": told, "unmoved": unmoved,
            "again": second == texts and stop == stop2}


# ---------------------------------------------------------------- tables
def at_of(x):
    return -1 if x is None or x != x else int(x)


def made_all(case):
    if "cmds" not in case:
        return None
    from mahjong.record.universe.format import EventType
    kinds = list(EventType)
    out = []
    for j, x in enumerate(case["cmds"]):
        c = made(x, None if case.get("bare") or (case.get("mixed") and j % 2) else 7 * j)
        c.state = untyped(x.get("st", ["none"]))
        c.event = None if case.get("bare") else kinds[j % len(kinds)]
        out.append(c)
    return out


def written(case, cmds, rec, path):
    """the commands as a CSV file, the way asked for"""
    import pandas
    from mahjong.record.universe.command import GameCommand
    from mahjong.record.universe.tenhou import to_command_records
    api = case["api"]
    if api == "tool":
        import builtins
        import mahjong.universe_paifu_convert as tool
        keep = (os.system, builtins.input, os.getcwd())
        os.system = lambda line: 0
        builtins.input = lambda *a: "  http://tenhou.net/0/?log=2019012600gm-0089-0000-100908f0&tw=0 "
        out = sys.stdout
        sys.stdout = open(os.devnull, "w")
        os.chdir(os.path.dirname(path))
        try:
            with online(case["xml"]):
                tool.main()
        finally:
            sys.stdout = out
            os.system, builtins.input = keep[:2]
            os.chdir(keep[2])
        return os.path.join(os.path.dirname(path), "2019012600gm-0089-0000-100908f0_command.csv")
    if api == "records":
        pandas.DataFrame(to_command_records(rec)).to_csv(path)
    elif api == "util":
        from mahjong.record.util_functions import parse_dataframe_from_tenhou_record
        parse_dataframe_from_tenhou_record(rec, return_state=False).to_csv(path, index=case["index"])
    else:
        GameCommand.to_dataframe(cmds).to_csv(path, index=case["index"])
    return path


def csv(case):
    import pandas
    from mahjong.record.universe.command import GameCommand
    from mahjong.record.universe.tenhou import to_commands
    rec = None if "cmds" in case else record_of(case)
    cmds = made_all(case) if rec is None else to_commands(rec)
    path = written(case, cmds, rec, os.path.join(SCRATCH, "table.csv"))
    if case["read"] == "readme":
        df = pandas.read_csv(path).apply(GameCommand.pandas_columns_clean, axis="columns")
        back = [GameCommand.from_raw_record(x) for x in df.itertuples()]
    else:
        df = GameCommand.read_clean_csv(path)
        back = [GameCommand.from_raw_record(x) for x in df.itertuples()]
    return {"before": [view(c) for c in cmds], "after": [view(c) for c in back]}


def deltas(rows):
    """rows: (timestamp, {key: typed value}) -> what changes from row to row"""
    out, prev = [], {}
    for at, now in rows:
        d = [list(k) + [v] for k, v in now.items() if prev.get(k) != v]
        d += [list(k) + [["none"]] for k in prev if k not in now]
        out.append({"at": at, "delta": d})
        prev = now
    return out


def states(case):
    """the table of states after every command, by way of CSV"""
    import pandas
    from mahjong.record.universe.command import GameCommand
    from mahjong.record.universe.executor import GameExecutor
    from mahjong.record.universe.format import ViewScope, PlayerId
    from mahjong.record.universe.tenhou import to_commands
    from mahjong.record.util_functions import parse_dataframe_from_tenhou_record
    path = os.path.join(SCRATCH, "states.csv")
    rec = None if "cmds" in case else record_of(case)
    cmds = made_all(case) if rec is None else to_commands(rec)
    extra, columns, rows = [], [], []
    if case["api"] == "ffill":
        # as the README shows: the states of the commands, spread to columns and filled
        frame = GameCommand.to_dataframe(cmds)
        frame.to_csv(path)
        if case["read"] == "readme":
            df = pandas.read_csv(path).apply(GameCommand.pandas_columns_clean, axis="columns")
        else:
            df = GameCommand.read_clean_csv(path)
        stamps = list(df["timestamp"])
        props = ["sub_scope_id", "property"]
        df = df[props + ["state"]].set_index(props, append=True).unstack(level=props).ffill()
        for c in df.columns:
            sub, prop = c[1], c[2]
            columns.append((prop.scope.name, -1 if sub == "all" else int(sub), prop.name))
        for at, row in zip(stamps, df.itertuples(index=False, name=None)):
            rows.append((at_of(at), {k: typed(v) for k, v in zip(columns, row) if not (v is None or v != v)}))
        same = True
    else:
        if case["api"] == "util":
            df0 = parse_dataframe_from_tenhou_record(rec)[1]
        else:
            df0 = GameExecutor(strict_mode=False).execute_as_dataframe(cmds)
        df0.to_csv(path, index=case["index"])
        df = GameExecutor.read_clean_csv(path)
        names = list(df.columns)
        if case["index"]:
            names = names[1:]
        same = names == list(df0.columns)
        where = []
        for c in df.columns:
            if isinstance(c[0], ViewScope):
                seat = -1 if c[1] == "single" else c[1].value if isinstance(c[1], PlayerId) else -9
                where.append((c[0].name, seat, c[2].name))
                columns.append(where[-1])
            else:
                where.append(c[2] if c[0] == "global" else None)
        for row in df.itertuples(index=False, name=None):
            at, now = -1, {}
            for k, v in zip(where, row):
                if k == "timestamp":
                    at = at_of(v)
                elif isinstance(k, tuple) and v is not None and v == v:
                    now[k] = typed(v)
            rows.append((at, now))
    return {"cmds": [view(c) for c in cmds], "snaps": deltas(rows), "columns": [list(c) for c in columns], "same": same}


def interleave(case):
    """follows a schedule of translations; answers with what each of them gave"""
    import itertools
    import random
    from mahjong.record.universe.tenhou import to_commands, to_command_records, to_command_iter
    rng = random.Random(case["seed"])
    recs = [record_of(dict(case, xml=x)) for x in case["xmls"]]
    live, out = {}, []

    def close(i, whole):
        rec, it, got = live.pop(i)
        out.append({"rec": rec, "whole": whole, "cmds": got})

    def more(i, n):
        got = live[i][2]
        for c in itertools.islice(live[i][1], n):
            got.append(short(c))
    for x in case["schedule"]:
        i, r = x["slot"], x["rec"] - 1
        if x["a"] == "open":
            rec = recs[r] if rng.random() < 0.7 else record_of(dict(case, xml=case["xmls"][r]))
            api = rng.choice(["iter", "iter", "raw", "records", "list"])
            if api == "iter":
                it = to_command_iter(rec, rng.random() < 0.5)
            elif api == "raw":
                it = map(raw_command, to_command_records(rec, raw=True, strict=rng.random() < 0.5))
            elif api == "records":
                it = map(record_command, to_command_records(rec))
            else:
                it = iter(to_commands(rec))
            live[i] = (r, it, [])
        elif x["a"] == "take":
            more(i, rng.choice([1, 2, 5, 30, 80, rng.randint(1, 200)]))
        elif x["a"] == "drain":
            more(i, None)
            close(i, True)
        else:
            close(i, False)
    for i in sorted(live):
        whole = rng.random() < 0.6
        if whole:
            more(i, None)
        close(i, whole)
    return {"runs": out}


OPS = {"interleave": interleave, "commands": commands, "execute": execute, "csv": csv, "states": states}


def handle(case):
    return OPS[case["op"]](case)


if __name__ == "__main__":
    run(handle)
