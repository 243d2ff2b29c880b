"""Relative validity"""
from hypothesis import strategies as st
from vlib import sms, submit
from vlib.gen import ints
from vlib.runner import Search, Enum
from vlib.sut import eq, need, Exc, ok

RULE = ('every enumerated duration counts; a random duration is non-trivial when it lies within the accepted range '
        'and is not itself representable')
LO, HI = 300, 63 * 7 * 86400
SEC = {'seconds': 1, 'minutes': 60, 'hours': 3600, 'days': 86400}


def verdict(v, us, what):
    if not LO * 10**6 <= us <= HI * 10**6:
        need(v == -1, '%s gave %r, expected ValueError', what, v)
    else:
        need(v in sms.best_vp(us), '%s gave %r (%s min), expected one of %s', what, v,
             sms.VP_TABLE[v] if isinstance(v, int) and 0 <= v < 256 else '?', sorted(sms.best_vp(us)))


def cases(tier):
    for a in range(-10, 635060, 2500):
        yield {'from': a, 'to': min(a + 2500, 635060), 'step': 1, 'unit': 'minutes'}
    for a in range(-100, 90000, 1500):
        yield {'from': a, 'to': a + 1500, 'step': 1, 'unit': 'seconds'}
    for a in range(86400 * 29, 86400 * 36, 3600 * 8):
        yield {'from': a, 'to': a + 3600 * 8, 'step': 7 if tier == 'quick' else 1, 'unit': 'seconds'}
    yield {'from': -1000, 'to': 3000, 'step': 1, 'unit': 'days'}
    if tier == 'thorough':
        for a in range(0, HI + 100, 86400 * 7):
            yield {'from': a, 'to': a + 86400 * 7, 'step': 11, 'unit': 'seconds'}


def check_range(w, c):
    r = range(c['from'], c['to'], c['step'])
    out = ok(w.fn('W.validity_range', c['from'], c['to'], c['step'], {'s': c['unit']}), 'conversion')
    for n, v in zip(r, out):
        verdict(v, n * SEC[c['unit']] * 10**6, '%d %s' % (n, c['unit']))
    return len(r)


def split(c):
    return [{'from': n, 'to': n + 1, 'step': 1, 'unit': c['unit']} for n in range(c['from'], c['to'], c['step'])]


duration = st.one_of(
    st.tuples(ints(-3, 450), ints(0, 86399), st.sampled_from([0, 0, 1, 999999])),
    st.sampled_from(sms.VP_TABLE).flatmap(lambda m: ints(-1, 1).map(
        lambda d: [(m * 60 * 10**6 + d) // (86400 * 10**6), ((m * 60 * 10**6 + d) // 10**6) % 86400,
                   (m * 60 * 10**6 + d) % 10**6])),
    st.tuples(ints(-1, 1), ints(0, 86399), ints(0, 999999)),
    st.tuples(st.sampled_from([-10**6, 10**6, 441, 442, 440]), st.sampled_from([0, 1]), st.sampled_from([0, 1])))


def check_td(w, c):
    us = (c[0] * 86400 + c[1]) * 10**6 + c[2]
    td = {'td': list(c)}
    out = w.script([['fn', None, 'utils.timedelta_to_relative_validity', [td]],
                    ['new', 'm', 'SmsSubmit', [{'s': '+123'}, {'s': 'x'}]],
                    ['set', 'm', 'validity', td], ['call', None, 'm', 'to_pdu', []]])
    v, enc = out[0], out[3]
    ok(out[2], 'assigning a validity')
    if LO * 10**6 <= us <= HI * 10**6:
        verdict(ok(v, 'conversion'), us, 'duration %r' % (c,))
        r = submit.parse(enc[0], 'message')
        eq(r['first'] & 0x18, 0x10, 'validity format')
        verdict(r['vp'][0], us, 'encoding the duration %r' % (c,))
        return us % (60 * 10**6) != 0 or us // (60 * 10**6) not in sms.VP_TABLE
    for o in (v, enc):
        need(isinstance(o, Exc) and o.isa('ValueError'), 'duration %r gave %r instead of ValueError', c, o)
    return False


ASPECTS = [Enum('durations', cases, check_range, split), Search('random', duration, check_td, 2000)]
