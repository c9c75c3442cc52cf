"""A rough upper estimate of the distance of a hand, only used to keep slow evaluators on hands they can finish
(it decides nothing)."""


def distance(hand, pat):
    cnt = {}
    for t in hand:
        k = t - 100 if t > 100 else t
        cnt[k] = cnt.get(k, 0) + 1
    if pat["t"] == "u":
        return pat["p"] - sum(1 for n in cnt.values() if n >= 2)
    best = [3 * pat["m"] + 2 * pat["p"]]

    def go(k, m, p, missing):
        if missing >= best[0]:
            return
        if m == 0 and p == 0:
            best[0] = missing
            return
        if k > 34:
            best[0] = min(best[0], missing + 3 * m + 2 * p)
            return
        n = cnt.get(k, 0)
        if n == 0:
            go(k + 1, m, p, missing)
            return
        if m and n >= 2:
            cnt[k] -= min(3, n)
            go(k, m - 1, p, missing + max(0, 3 - n))
            cnt[k] += min(3, n)
        if m and k <= 27 and (k - 1) % 9 <= 6:
            have = [x for x in (k, k + 1, k + 2) if cnt.get(x, 0) > 0]
            if len(have) >= 2:
                for x in have:
                    cnt[x] -= 1
                go(k, m - 1, p, missing + 3 - len(have))
                for x in have:
                    cnt[x] += 1
        if p and n >= 2:
            cnt[k] -= 2
            go(k, m, p - 1, missing)
            cnt[k] += 2
        go(k + 1, m, p, missing)

    go(1, pat["m"], pat["p"], 0)
    return best[0] - 1 + 1
