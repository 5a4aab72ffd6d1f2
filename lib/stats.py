"""Distribution monitors with a chance of a false alarm below 1e-9."""
import math

LAMBDA = 3.4          # 2 exp(-2 * 3.4**2) = 1.8e-10 (Dvoretzky-Kiefer-Wolfowitz)


def ks(values, cdf):
    """sqrt(n) times the largest deviation from the cdf."""
    v = sorted(float(x) for x in values)
    n = len(v)
    worst = 0.0
    i = 0
    while i < n:
        j = i
        while j < n and v[j] == v[i]:
            j += 1
        f = cdf(v[i])
        # left limit and value of the empirical distribution at v[i]
        worst = max(worst, abs(j / n - f), abs(i / n - f))
        i = j
    return worst * math.sqrt(n)


def uniform_cdf(a, b):
    return lambda x: min(1.0, max(0.0, (x - a) / (b - a)))


def phi(x):
    return .5 * math.erfc(-x / math.sqrt(2))


def truncnorm_cdf(a, b):
    pa, pb = phi(a), phi(b)

    def f(x):
        if x <= a:
            return 0.0
        if x >= b:
            return 1.0
        return (phi(x) - pa) / (pb - pa)
    return f


def exp_cdf(mean):
    return lambda x: 1 - math.exp(-x / mean) if x > 0 else 0.0


def binomial_ok(k, n, p):
    """k successes of n are plausible for probability p (Bernstein)."""
    # P(|k - np| > t) <= 2 exp(-t^2 / (2 (np(1-p) + t/3))) < 1e-9
    var = n * p * (1 - p)
    L = math.log(2e9)
    t = L / 3 + math.sqrt(L * L / 9 + 2 * var * L)
    return abs(k - n * p) <= t + 1e-9


def poisson_ok(k, mean):
    L = math.log(2e9)
    t = L / 3 + math.sqrt(L * L / 9 + 2 * mean * L) + L / 3
    return abs(k - mean) <= t
