"""Exact statistical verdicts with negligible false-alarm rate."""
from scipy import stats

ALPHA = 1e-11  # per comparison; a run makes fewer than 1e5 of them


def tail(k, n, p):
    """Two-sided exact binomial tail probability of seeing k of n at rate p."""
    if p <= 1e-12:
        return 1.0 if k == 0 else 0.0
    if p >= 1 - 1e-12:
        return 1.0 if k == n else 0.0
    return min(1.0, 2 * min(stats.binom.cdf(k, n, p), stats.binom.sf(k - 1, n, p)))


def off(k, n, p):
    return tail(k, n, p) < ALPHA


def compare(counts, n, dist):
    """First cell of a histogram that contradicts the exact distribution, or None."""
    for key in counts:
        if key not in dist:
            return f"impossible outcome {key} seen {counts[key]} times of {n}"
    for key, p in dist.items():
        k = counts.get(key, 0)
        if off(k, n, p):
            return f"outcome {key} seen {k} times of {n}, exact probability {p:.4f}"
    return None


def coarse(counts, n, dist):
    """The same for every marginal bit and every parity of two bits of flattened outcomes."""
    def flat(d):
        return [(tuple(b for part in key for b in part), v) for key, v in d.items()]
    fc, fd = flat(counts), flat(dist)
    if not fd:
        return None
    m = len(fd[0][0])
    masks = [(i,) for i in range(m)] + [(i, j) for i in range(m) for j in range(i)]
    masks.append(tuple(range(m)))
    for mask in masks:
        p = sum(v for key, v in fd if sum(key[i] for i in mask) % 2)
        k = sum(v for key, v in fc if sum(key[i] for i in mask) % 2)
        if off(k, n, min(p, 1.0)):
            return f"parity of bits {mask} is odd {k} times of {n}, exact probability {p:.4f}"
    return None
