"""Sizes just below, at and above the powers of two and of ten: where a
counter, a buffer or a length field changes its width."""


def ladder(lo, hi):
    r = {b + d for b in [1 << k for k in range(3, 32)] + [10 ** k for k in range(1, 10)] for d in (-1, 0, 1)} | {lo, hi}
    return sorted(n for n in r if lo <= n <= hi)


def top(tier, quick, thorough):
    return thorough if tier == 'thorough' else quick


def fill(n, seed='abcdefg'):
    """n characters in which each place is different from its neighbours"""
    return ''.join('%s%d' % (seed, i) for i in range(n // (len(seed) + 1) + 2))[:n]
