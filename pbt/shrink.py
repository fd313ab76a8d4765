"""Shrinking of a sequence of choices."""

import time


def minimise(seq, fails, deadline):
    """Smaller sequences for which fails() still returns the choices actually used; returns accepted steps."""
    best = list(seq)
    steps = 0

    def better(a, b):
        return (len(a), a) < (len(b), b)

    def attempt(cand):
        nonlocal best, steps
        if time.monotonic() > deadline:
            raise TimeoutError
        if not better(cand, best):
            return False
        used = fails(cand)
        if used is not None and better(used, best):
            best = list(used)
            steps += 1
            return True
        return False

    try:
        progress = True
        while progress:
            start = list(best)
            # delete blocks
            size = max(1, len(best) // 2)
            while size:
                i = len(best) - size
                while i >= 0:
                    if not attempt(best[:i] + best[i + size :]):
                        i -= max(1, size // 2) if size > 8 else 1
                    else:
                        i = min(i, len(best) - size)
                size = size // 2 if size > 8 else size - 1
            # zero blocks, then lower single choices
            size = max(1, len(best) // 4)
            while size:
                i = 0
                while i < len(best):
                    if any(best[i : i + size]):
                        attempt(best[:i] + [0] * len(best[i : i + size]) + best[i + size :])
                    i += size
                size //= 2
            i = 0
            while i < len(best):
                lo, hi = 0, best[i]  # best[i] fails
                while i < len(best) and lo < hi and hi == best[i]:
                    mid = (lo + hi) // 2
                    if attempt(best[:i] + [mid] + best[i + 1 :]):
                        hi = mid
                    else:
                        lo = mid + 1
                i += 1
            # one element fewer: lower a choice (a count) and delete a block after it
            i = 0
            while i < len(best):
                if best[i]:
                    done = False
                    for j in range(i + 1, min(len(best), i + 60)):
                        for size in (1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 24, 32):
                            if j + size > len(best):
                                break
                            if attempt(best[:i] + [best[i] - 1] + best[i + 1 : j] + best[j + size :]):
                                done = True
                                break
                        if done:
                            break
                i += 1
            progress = best != start
    except TimeoutError:
        pass
    return steps
