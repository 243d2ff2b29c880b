"""Absolute validity and FixedOffset"""
import datetime as D
from hypothesis import strategies as st
from vlib import near, sms, submit
from vlib.gen import ints, datetime_fields, quarters, zone
from vlib.runner import Search, Enum
from vlib.sut import eq, need, ok

RULE = ('every enumerated zone text and offset counts; a random date-time is non-trivial when its offset is not zero '
        'or a field has a digit that differs from its neighbour')
DATES = [[2000, 1, 1, 0, 0, 0], [2009, 12, 31, 23, 59, 59], [2012, 2, 29, 10, 20, 30], [1999, 10, 20, 12, 34, 56]]


def tz_cases(tier):
    for sign in '+-':
        for hh in range(0, 24):
            yield {'sign': sign, 'hh': hh}
    yield {'sign': '', 'hh': None}


def check_tz(w, c):
    if c['hh'] is None:
        texts, want = [''], [0]
    else:
        texts = ['%s%02d%02d' % (c['sign'], c['hh'], m) for m in range(60)]
        k = -1 if c['sign'] == '-' else 1
        want = [k * (c['hh'] * 60 + m) for m in range(60)]
    if 'min' in c:
        texts, want = texts[c['min']:c['min'] + 1], want[c['min']:c['min'] + 1]
    out = w.map('utils.FixedOffset.from_timezone', [[{'s': t}, {'s': 'X'}] for t in texts])
    for t, m, o in zip(texts, want, out):
        o = ok(o, 'from_timezone(%r)' % t)
        need(o[0] == 'fixed' and o[1].seconds_total == 60 * m and o[1][2] == 0,
             'zone %r is offset %r, expected %d minutes', t, o[1], m)
    return len(texts)


def split_tz(c):
    return [] if c['hh'] is None else [dict(c, min=m) for m in range(60)]


def off_cases(tier):
    for q in range(-79, 80):
        yield {'q': q}


def kinds(q):
    return ([None] if q == 0 else []) + [q * 15, [q * 15]]


def check_off(w, c):
    todo = [(d, k) for d in DATES for k in kinds(c['q']) + [zone('vary', c['q'], d)]]
    out = w.map('utils.datetime_to_absolute_validity', [[{'dt': d + [0, k]}] for d, k in todo])
    for (d, k), o in zip(todo, out):
        eq(o, list(sms.stamp(*(d + [c['q']]))), 'validity %r with offset %r' % (d, k))
    return len(todo)


def check_random(w, c):
    f, q, us, kind = c
    z = None if q is None else zone(kind if isinstance(kind, str) else 'fixed' if kind else 'plain', q, f)
    dt = {'dt': f + [us, z]}
    want = sms.stamp(*(f + [q or 0]))
    out = w.script([['fn', None, 'utils.datetime_to_absolute_validity', [dt]],
                    ['new', 'm', 'SmsSubmit', [{'s': '+123'}, {'s': 'x'}]],
                    ['set', 'm', 'validity', dt], ['call', None, 'm', 'to_pdu', []]])
    eq(out[0], list(want), 'validity %r' % (c,))
    r = submit.parse(ok(out[3], 'encoding')[0], 'message')
    eq((r['first'] & 0x18, r['vp'].hex()), (0x18, want.hex()), 'validity %r in the PDU' % (c,))
    return bool(q) or any(v // 10 % 10 != v % 10 for v in f)


randoms = st.tuples(datetime_fields(1970, 2099), st.one_of(st.none(), quarters, ints(-79, 79)),
                    st.sampled_from([0, 0, 999999]), st.sampled_from(['plain', 'fixed', 'vary']))


def fine(c):
    try:
        D.datetime(*c[0])
    except ValueError:
        return False
    return 1970 <= c[0][0] <= 2099 and -79 <= (c[1] or 0) <= 79 and 0 <= c[2] <= 999999 and c[3] in ('plain', 'fixed', 'vary')


ASPECTS = [
    Enum('zone_texts', tz_cases, check_tz, split_tz),
    Enum('offsets', off_cases, check_off),
    Search('random', randoms, check_random, 2400),
    Search('neighbours', near.pairs(randoms, [(1,), (3,)], fine), near.check(check_random), 600),
]
