"""Small tables for the exhaustive exploration of spec/MCTable.tla."""

TEMPLATE = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW Shown
CONSTANTS HandSize = %(size)d SmallPool = {%(pool)s} LiveDraws = %(live)d Players = %(n)d MaxHands = %(hands)d MaxDepth = %(depth)d
CONSTANT Deals <- %(deals)s
INVARIANTS %(inv)s
PROPERTIES %(prop)s
"""


def config(n, size, pool, live, deals, hands, depth, inv="Tiles0 Scores0 Tracked Partition", prop="Quiet Moves"):
    return TEMPLATE % dict(n=n, size=size, pool=", ".join(map(str, pool)), live=live, deals=deals, hands=hands, depth=depth,
                           inv=inv, prop=prop)


P4 = [0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 13, 14, 15, 132, 133]
P3 = [0, 1, 2, 3, 36, 37, 38, 39, 120, 121, 122, 132, 133]


def configs(thorough, **kw):
    a, b = (7, 9) if thorough else (4, 5)
    return [("four players, %d events a hand" % a, config(4, 3, P4, 3, "Deals4", 1, a, **kw)),
            ("three players, %d events a hand" % b, config(3, 3, P3, 3, "Deals3", 1, b, **kw)),
            ("three players, two hands", config(3, 3, P3, 2, "Deals3", 2, 3 if thorough else 2, **kw))]
