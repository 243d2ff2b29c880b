"""Time stamps"""
from hypothesis import strategies as st
from vlib import gen, near, sms
from vlib.gen import ints, datetime_fields
from vlib.runner import Search, Enum
from vlib.sut import need, ok, DT

RULE = 'a time stamp is non-trivial when its offset is not zero'
BASE = sms.smsc('123', 0) + b'\x04' + sms.address('4567', 1) + b'\x00\x00'
DATES = [[2010, 1, 1, 0, 0, 0], [2010, 12, 31, 23, 59, 59], [2012, 2, 29, 12, 0, 0], [2012, 3, 1, 0, 10, 0],
         [2011, 2, 28, 23, 50, 1], [2000, 2, 29, 1, 2, 3], [2000, 1, 1, 0, 0, 0], [2068, 6, 30, 22, 33, 44],
         [2009, 10, 25, 2, 30, 0], [2024, 3, 31, 2, 15, 9], [2011, 11, 6, 1, 30, 0], [2013, 3, 10, 2, 30, 0]]


def verdict(w, stamps):
    out = w.map('W.deliver', [[{'s': (BASE + sms.stamp(*s) + b'\x01\x61').hex()}] for s in stamps])
    for s, a in zip(stamps, out):
        d = ok(a, 'time stamp %r' % s)['date']
        need(isinstance(d, DT) and tuple(d) in gen.utc_of(s), 'time stamp %r is %r, expected %r', s, d, gen.utc_of(s))


def cases(tier):
    for q in range(-79, 80):
        yield {'q': q}
    if tier == 'thorough':
        for y in range(2000, 2069):
            for m in range(1, 13):
                yield {'y': y, 'm': m}


def check_enum(w, c):
    if 'q' in c:
        stamps = [d + [c['q']] for d in DATES]
    else:
        last = [31, 29 if c['y'] % 4 == 0 else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][c['m'] - 1]
        stamps = [[c['y'], c['m'], d, h, 30, 7, q] for d in (1, 2, last - 1, last) for h in (0, 12, 23)
                  for q in (-79, -48, -3, 0, 1, 55, 79)]
    verdict(w, stamps)
    return len(stamps)


def check(w, s):
    verdict(w, [s])
    return s[6] != 0


stamps = st.tuples(datetime_fields(), st.one_of(gen.quarters, ints(-79, 79))).map(lambda t: t[0] + [t[1]])

ASPECTS = [Enum('offsets', cases, check_enum), Search('random', stamps, check, 3000),
           Search('neighbours', near.pairs(stamps, [(6,), (0,), (3, 4, 5)], gen.fine_stamp), near.check(check), 1000)]
