"""Pairs of cases that differ in little: what a result remembered under too short a key would confuse.

A pair is [a, b]; its check examines a, b and a again in the same process, each against the oracle of one case."""
import copy
from hypothesis import strategies as st
from vlib.gen import ints

DIGITS = set('0123456789')
HEX = set('0123456789abcdef')


def near_text(draw, s):
    """a string that differs a little, of the same sort"""
    plus = s[:1] == '+'
    d = s[1:] if plus else s
    if d and set(d) <= DIGITS:
        k = draw(ints(0, 4))
        i = draw(ints(0, len(d) - 1))
        if k == 0:
            return d if plus else '+' + d
        if k == 1 and len(d) < 20:
            d = draw(st.sampled_from([d + '0', '0' + d, d + d[-1]]))
        elif k == 2 and len(d) > 3:
            d = draw(st.sampled_from([d[1:], d[:-1]]))
        else:
            d = d[:i] + str((int(d[i]) + draw(ints(1, 9))) % 10) + d[i + 1:]
        return '+' * plus + d
    if s and len(s) % 2 == 0 and set(s) <= HEX:
        i = draw(ints(0, len(s) // 2 - 1)) * 2
        return s[:i] + '%02x' % (int(s[i:i + 2], 16) ^ draw(st.sampled_from([1, 2, 0x20, 0x40, 0x41]))) + s[i + 2:]
    if not s:
        return 'a'
    i = draw(st.one_of(ints(0, len(s) - 1), st.sampled_from([0, len(s) - 1])))
    k = draw(ints(0, 5))
    if k == 0:
        return s + 'a'
    if k == 1:
        return s[:i] + s[i + 1:]
    if k == 2 and s[i].swapcase() != s[i] and len(s[i].swapcase()) == 1:
        return s[:i] + s[i].swapcase() + s[i + 1:]
    if k == 3 and len(s) > 1:
        return s[1:] + s[0]
    return s[:i] + ('b' if s[i] == 'a' else 'a') + s[i + 1:]


def near_leaf(draw, v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + draw(st.sampled_from([1, -1, 1, -1, 2, 16, 256, -256]))
    if isinstance(v, str):
        return near_text(draw, v)
    return v


def leaves(v, path=()):
    if isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            yield from leaves(x, path + (i,))
    elif isinstance(v, dict):
        for k in sorted(v):
            yield from leaves(v[k], path + (k,))
    elif v is not None:
        yield path


def put(case, path, f):
    if not path:
        return f(case)
    c = copy.deepcopy(case)
    at = c
    for k in path[:-1]:
        at = at[k]
    at[path[-1]] = f(at[path[-1]])
    return c


def listed(v):
    return [listed(x) for x in v] if isinstance(v, (list, tuple)) else {k: listed(x) for k, x in v.items()} if isinstance(v, dict) else v


@st.composite
def pairs(draw, cases, groups=(), fine=lambda c: True, frozen=(), fix=lambda c: c):
    """cases: a strategy; groups: keys (or indexes) that go together when taken over from another case; frozen: keys that
    are never altered alone; fine: whether an altered case is in the domain; fix: completes an altered case"""
    a = listed(draw(cases))
    other = None
    for _ in range(4):
        if groups and draw(st.booleans()):
            other = other or listed(draw(cases))
            b = copy.deepcopy(a)
            for k in draw(st.sampled_from(list(groups))):
                if isinstance(b, dict):
                    b.pop(k, None)
                    if k in other:
                        b[k] = copy.deepcopy(other[k])
                else:
                    b[k] = copy.deepcopy(other[k])
        else:
            ps = [p for p in leaves(a) if not set(p) & set(frozen)]
            if not ps:
                continue
            p = draw(st.sampled_from(ps))
            b = put(a, p, lambda v: near_leaf(draw, v))
        b = fix(b)
        if b != a and fine(b):
            return [a, b]
    return [a, listed(draw(cases))]


def check(one):
    """the check of a pair"""
    def both(w, c):
        a, b = c
        r = one(w, a)
        s = one(w, b)
        one(w, a)
        return r is not False and s is not False and a != b
    return both
