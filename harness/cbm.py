"""oracles for the on/off routines, from the documented formulas"""
import math


def count_probs(n_on, t_on, n_off, t_off):
    """probability that j of n_on counts are signal: proportional to (1+t_off/t_on)^j (N-j)!/(n_on-j)!"""
    lt = math.log1p(t_off / t_on)
    l = [j * lt + math.lgamma(n_on + n_off - j + 1) - math.lgamma(n_on - j + 1) for j in range(n_on + 1)]
    m = max(l)
    w = [math.exp(x - m) for x in l]
    t = math.fsum(w)
    return [x / t for x in w]


def pois(n, m):
    if m == 0:
        return 1. if n == 0 else 0.
    x = n * math.log(m) - m - math.lgamma(n + 1)
    return math.exp(x) if x > -745 else 0.


def logterms(s, n_on, t_on, n_off, t_off):
    """logs of the terms of the marginal likelihood series, k=0..n_on"""
    out = []
    for k in range(n_on + 1):
        if s == 0:
            out.append(math.lgamma(n_on + n_off + 1) - math.lgamma(n_on + 1) if k == 0 else -math.inf)
        else:
            out.append(k * math.log(s * (t_on + t_off)) + math.lgamma(n_on + n_off - k + 1) - math.lgamma(n_on - k + 1) - math.lgamma(k + 1) - s * t_on)
    return out


def logsum(l):
    m = max(l)
    return m + math.log(math.fsum(math.exp(x - m) for x in l))
