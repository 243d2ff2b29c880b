"""Coverage-guided mutation of octet strings.

The worker reports the pairs of consecutively executed lines (with a bucketed
count); an input that shows a new one joins the pool the mutations start from.
"""
from vlib.sut import Violation

INTERESTING = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x0f, 0x10, 0x1b, 0x1e, 0x1f, 0x20, 0x22, 0x7e, 0x7f, 0x80, 0x81, 0x82,
               0x83, 0x84, 0x85, 0x89, 0x8a, 0x8b, 0x8c, 0x8d, 0x90, 0x91, 0x92, 0x96, 0x97, 0x98, 0x99, 0x9f, 0xa3,
               0xb3, 0xb4, 0xbe, 0xc0, 0xd0, 0xea, 0xfe, 0xff]


def mutate(rnd, data, pool):
    d = bytearray(data)
    for _ in range(rnd.choice((1, 1, 1, 2, 3, 6))):
        k = rnd.randrange(9)
        n = len(d)
        i = rnd.randrange(n + 1)
        if k == 0 and n:
            d[i % n] = rnd.randrange(256)
        elif k == 1 and n:
            d[i % n] = rnd.choice(INTERESTING)
        elif k == 2 and n:
            d[i % n] ^= 1 << rnd.randrange(8)
        elif k == 3:
            d[i:i] = bytes([rnd.choice(INTERESTING)]) * rnd.choice((1, 1, 2, 5))
        elif k == 4 and n:
            del d[i % n:i % n + rnd.choice((1, 1, 2, 4, 16))]
        elif k == 5 and n:
            d = d[:i]
        elif k == 6 and n:
            j = rnd.randrange(n)
            d[i:i] = d[j:j + rnd.randrange(1, 24)]
        elif k == 7 and pool:
            o = rnd.choice(pool)
            j = rnd.randrange(len(o) + 1)
            d = d[:i] + o[j:j + rnd.choice((4, 16, 400))] + (d[i:] if rnd.random() < .5 else b'')
        elif k == 8 and n:
            d[i % n] = (d[i % n] + rnd.choice((1, -1, 2, -2))) & 255
    return bytes(d[:700])


def run(w, rnd, n, seeds, script, verdict):
    """script(hex) -> operations; verdict(outcomes, data) raises Violation.
    Yields (case, whether it reached something new)"""
    pool, seen = [], set()

    def one(data):
        ops = script(data)
        try:
            out, cov = w.cover(ops)
            verdict(w, out, data)
        except Violation as e:
            e.case = {'hex': data.hex()}
            raise
        new = [c for c in cov if c not in seen]
        seen.update(new)
        if new:
            pool.append(data)
        return bool(new)

    for i in range(n):
        if i < len(seeds):
            data = seeds[i]
        else:
            # newer entries more often
            k = len(pool) - 1 - int(len(pool) * rnd.random() ** 2)
            data = mutate(rnd, pool[max(0, k)], pool)
        new = one(data)
        yield {'hex': data.hex()}, new or len(data) > 8
