"""Minimises a recorded choice list (or any list) while a predicate holds."""
import time


def shrink(rec, bad, seconds=20.0, clock=time.monotonic):
    """bad(list) -> True while the same violation persists. Deterministic order;
    the time limit only decides how far minimisation goes."""
    end = clock() + seconds
    cur = list(rec)
    improved = True
    while improved and clock() < end:
        improved = False
        n = len(cur)
        size = max(1, n // 2)
        while size >= 1 and clock() < end:
            i = 0
            while i < len(cur) and clock() < end:
                cand = cur[:i] + cur[i + size:]
                if bad(cand):
                    cur = cand
                    improved = True
                else:
                    if any(cur[i:i + size]):
                        cand = cur[:i] + [0] * len(cur[i:i + size]) + cur[i + size:]
                        if bad(cand):
                            cur = cand
                            improved = True
                    i += size
            size //= 2
        for i in range(len(cur)):
            if clock() > end:
                break
            while cur[i] > 1 and clock() < end:
                cand = list(cur)
                cand[i] //= 2
                if not bad(cand):
                    break
                cur = cand
                improved = True
    while cur and cur[-1] == 0:
        cur.pop()
    return cur


def shrink_list(items, bad, seconds=10.0, clock=time.monotonic):
    """Plain delta debugging of a list of independent items (e.g. fault rules)."""
    end = clock() + seconds
    cur = list(items)
    i = 0
    while i < len(cur) and clock() < end:
        cand = cur[:i] + cur[i + 1:]
        if bad(cand):
            cur = cand
        else:
            i += 1
    return cur
