"""The preview iterator"""
import itertools
from hypothesis import strategies as st
from vlib import gen, scale
from vlib.gen import ints
from vlib.runner import Search, Enum
from vlib.sut import eq, need, ok, Exc

RULE = ('a history is non-trivial when it previews at least twice and consumes at least once; every enumerated history counts')


def model(items, ops):
    """next position, preview position"""
    at = pos = 0
    out = []
    for o in ops:
        if o == 'n':
            pos = at        # the previewed items come again
            if at < len(items):
                out.append(items[at])
                at += 1
                pos = at
            else:
                out.append('stop')
        elif o == 'p':
            if pos < len(items):
                out.append(items[pos])
                pos += 1
            else:
                out.append('stop')
        elif o == 'r':
            pos = at
            out.append({'r': None})
        elif o == 'i':
            out.append({'same': True})
        elif o == 'l':
            out.append({'rest': items[at:]})
            at = pos = len(items)
    return out


MIXED = [None, {'s': ''}, {'s': 'a'}, {'u': '\u20ac'}, 0, False, True, -1, {'f': '0.5'}, {'t': []}, {'t': [1, None]}, [], [0], {'s': 'stop'}]
PLAIN = [None, '', 'a', '\u20ac', 0, False, True, -1, 0.5, (), (1, None), [], [0], 'stop']


def item_args(kind, items):
    return {'mixed': [MIXED[i % len(MIXED)] for i in items], 'list': items, 'tuple': {'t': items}, 'array': {'arr': bytes(items).hex()}, 'str': {'hex': bytes(items).hex()},
            'iter': items}[kind]


def check(w, c):
    items, ops, kind = c['items'], c['ops'], c['kind']
    got = ok(w.fn('W.preview_ops', item_args(kind, items), [{'s': o} for o in ops], kind == 'iter'), 'history %r' % ops)
    want = [chr(x) for x in items] if kind == 'str' else [PLAIN[x % len(PLAIN)] for x in items] if kind == 'mixed' else items
    eq(got, model(want, ops), 'history %s over %r' % (''.join(ops), items))
    return ops.count('p') > 1 and 'n' in ops


def cases(tier):
    # the model depends on items only by identity: distinct items are enough
    for n in range(0, 4):
        for first in itertools.product('npr', repeat=2):
            yield {'n': n, 'first': ''.join(first), 'len': 7 if tier == 'thorough' else 5}


def check_all(w, c):
    items = list(range(100, 100 + c['n']))
    seqs = [c['first'] + ''.join(t) for k in range(c['len'] + 1) for t in itertools.product('npr', repeat=k)]
    todo = [s + x for s in seqs for x in ('', 'l')]
    outs = w.map('W.preview_ops', [[items, [{'s': o} for o in s]] for s in todo])
    for s, o in zip(todo, outs):
        eq(o, model(items, s), 'history %s over %r' % (s, items))
    return len(todo)


def long_cases(tier):
    for n in scale.ladder(15, scale.top(tier, 4097, 20000)):
        yield {'n': n}


def check_long(w, c):
    """many values previewed before they are read, in one go and in pieces"""
    n, h = c['n'], c['n'] // 2
    todo = [[['p', n], ['n', n + 1]], [['p', n + 1], ['p', 1], ['r', 1], ['p', n], ['n', 2], ['p', n], ['r', 1], ['n', n]],
            [['n', h], ['p', n], ['n', n]], [['p', h], ['r', 1], ['p', n], ['n', h], ['p', 3], ['l', 1], ['n', 1], ['p', 1]]]
    for lazy in (False, True):
        for runs, o in zip(todo, w.map('W.preview_runs', [[n, [[{'s': a}, b] for a, b in r], lazy] for r in todo])):
            eq(o, model(list(range(n)), [a for a, b in runs for _ in range(b)]), 'runs %r over %d items' % (runs, n))
    return 2 * len(todo)


item = st.one_of(ints(0, 255), ints(0, 3))
history = st.fixed_dictionaries({
    'items': st.lists(item, max_size=30), 'kind': st.sampled_from(['list', 'tuple', 'array', 'str', 'iter', 'mixed', 'mixed']),
    'ops': st.one_of(*[gen.history(*[st.just(o) for o in k], hi=60) for k in ('nprinprl', 'npr', 'nppprnp', 'pppnr', 'nnnp')])})

ASPECTS = [Enum('short_histories', cases, check_all), Enum('long', long_cases, check_long), Search('histories', history, check, 1500)]
