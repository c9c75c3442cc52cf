"""Seeded generation of hands for the pure analysis functions.  A tile is a kind 1..34, or kind + 100 for the red five."""


def can_run(k):
    return k <= 27 and (k - 1) % 9 <= 6


def cap_ok(counts, ks):
    need = {}
    for k in ks:
        need[k] = need.get(k, 0) + 1
    return all(counts.get(k, 0) + n <= 4 for k, n in need.items())


def near_complete(rng, size, melds, pairs, suits=None, noise=None):
    """size tiles near a complete hand of the given pattern, at most four copies each."""
    if suits is None:
        suits = rng.choice([[0], [1], [2], [3], [0, 1], [1, 2], [0, 3], [2, 3], [0, 1, 2], [0, 1, 2, 3]])
    pool = [k for s in suits for k in range(s * 9 + 1, min(s * 9 + 9, 34) + 1)]
    if rng.random() < 0.3 and suits != [3]:
        lo = rng.randint(1, 5)
        pool = [k for k in pool if k > 27 or lo <= (k - 1) % 9 + 1 <= lo + 4]
    if 4 * len(pool) < size:
        pool = list(range(1, 35))
    counts = {}

    def add(ks):
        if cap_ok(counts, ks):
            for k in ks:
                counts[k] = counts.get(k, 0) + 1
            return True
        return False

    tries = 0
    m = melds
    while m > 0 and tries < 100:
        tries += 1
        k = rng.choice(pool)
        ks = [k, k + 1, k + 2] if can_run(k) and rng.random() < 0.6 else [k] * 3
        if add(ks):
            m -= 1
    p = pairs
    while p > 0 and tries < 200:
        tries += 1
        if add([rng.choice(pool)] * 2):
            p -= 1
    tiles = [k for k, n in counts.items() for _ in range(n)]
    rng.shuffle(tiles)
    noise = rng.choice([0, 0, 1, 1, 2, 3, 4, 6]) if noise is None else noise
    tiles = tiles[:max(0, min(len(tiles), size) - noise)]
    counts = {}
    for k in tiles:
        counts[k] = counts.get(k, 0) + 1
    wide = pool if rng.random() < 0.7 else list(range(1, 35))
    tries = 0
    while len(tiles) < size:
        tries += 1
        k = rng.choice(wide if tries < 300 else range(1, 35))
        if counts.get(k, 0) < 4:
            counts[k] = counts.get(k, 0) + 1
            tiles.append(k)
    return tiles


def redden(rng, tiles, prob=0.5):
    """turn some fives into red fives (at most one per suit)"""
    tiles = list(tiles)
    for five in (5, 14, 23):
        if five in tiles and rng.random() < prob:
            tiles[tiles.index(five)] = five + 100
    return tiles


def shuffled(rng, tiles):
    tiles = list(tiles)
    rng.shuffle(tiles)
    return tiles


def one_suit_hands(total, ranks=9, cap=4):
    """all multisets of `total` tiles of one suit"""
    def go(r, left):
        if r > ranks:
            if left == 0:
                yield []
            return
        for n in range(0, min(cap, left) + 1):
            for tail in go(r + 1, left - n):
                yield [r] * n + tail
    return go(1, total)


def near_pairs(rng, size=14, n=7):
    ks = rng.sample(range(1, 35), n) if rng.random() < 0.6 else rng.sample(range(1, 12), n)
    tiles = [k for k in ks for _ in range(rng.choice([1, 2, 2, 2, 3, 4]))]
    rng.shuffle(tiles)
    tiles = tiles[:size]
    while len(tiles) < size:
        k = rng.randint(1, 34)
        if tiles.count(k) < 4:
            tiles.append(k)
    return tiles
