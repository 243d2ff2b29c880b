"""Alphanumeric senders"""
from hypothesis import strategies as st
from vlib import gen, gsm, near, snips
from vlib.gen import ints
from vlib.props.c10 import check_attrs
from vlib.runner import Search, Enum
from vlib.sut import eq, ok

RULE = 'every enumerated name counts; a random message is non-trivial when the name is not made of ASCII letters only'
BASE = {'smsc': ['123', 1, 1], 'first': 4, 'pid': 3, 'dcs': 0, 'alpha': '7', 'scts': [2010, 3, 4, 5, 6, 7, 8],
        'udh': None, 'payload': '686f6c61', 'trail': ''}


def cases(tier):
    for n in range(1, 12):
        for c in gsm.BASIC:
            yield {'n': n, 'c': c}
        for c in gsm.EXT:
            if n > 1:
                yield {'n': n - 1, 'c': c}


def check_enum(w, c):
    ch, n = c['c'], c['n']
    names = ['A' * (n - 1) + ch, ch + 'z' * (n - 1)]
    if ch in gsm.ENCODE:
        names += [ch * n]
        if n > 2:
            names.append('A' * (n - 2) + '@' + ch)
    out = w.map('W.deliver', [[{'s': gen.deliver_octets(dict(BASE, alnum=x)).hex()}] for x in names])
    for x, a in zip(names, out):
        eq(ok(a, 'sender %r' % x)['number'], x, 'sender')
        check_attrs(a, dict(BASE, alnum=x))
    return len(names)


def check(w, c):
    h = gen.deliver_octets(c).hex()
    check_attrs(ok(w.fn('W.deliver', {'s': h}), 'decoding %s' % h), c)
    return not (c['alnum'].isascii() and c['alnum'].isalpha())


def check_piece(w, c):
    n = 0
    for t in snips.texts(c):
        if len(gsm.encode(t)) <= 11:
            check(w, dict(BASE, alnum=t))
            n += 1
    return n or False


ASPECTS = [Enum('octets', gen.octet_cases(alnum=True), lambda w, c: check(w, c) or 1), Enum('pieces', snips.cases([s for s in snips.BMP if gsm.is_gsm(s)]), check_piece, snips.split), Enum('names', cases, check_enum), Search('messages', gen.deliver(sender='alnum', trailing=True), check, 1600),
           Search('neighbours', near.pairs(gen.deliver(sender='alnum'), gen.DELIVER_GROUPS, gen.fine_deliver, ('alpha', 'payload', 'scts', 'udh')),
                  near.check(check), 800)]
