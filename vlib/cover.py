"""Covering arrays: rows of choices in which every combination of any t of them occurs."""
import itertools
import random


def rows(dims, t, seed=0):
    """dims: {name: number of choices or list of choices} -> list of {name: choice}

    Deterministic: the same rows for the same arguments."""
    rnd = random.Random(seed)
    names = sorted(dims)
    vals = [list(range(dims[n])) if isinstance(dims[n], int) else list(dims[n]) for n in names]
    sizes = [len(v) for v in vals]
    t = min(t, len(names))
    combos = list(itertools.combinations(range(len(names)), t))
    todo = {c: set(itertools.product(*[range(sizes[i]) for i in c])) for c in combos}
    out = []
    while todo:
        # start from a combination that is still missing
        c = rnd.choice(sorted(todo))
        v = rnd.choice(sorted(todo[c]))
        best, gain = None, -1
        for _ in range(4):
            r = [rnd.randrange(s) for s in sizes]
            for i, x in zip(c, v):
                r[i] = x
            g = sum(tuple(r[i] for i in k) in todo[k] for k in todo) if len(todo) < 400 else 1
            if g > gain:
                best, gain = r, g
            if len(todo) >= 400:
                break
        for k in list(todo):
            todo[k].discard(tuple(best[i] for i in k))
            if not todo[k]:
                del todo[k]
        out.append({n: vals[i][best[i]] for i, n in enumerate(names)})
    return out
