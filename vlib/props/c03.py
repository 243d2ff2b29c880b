"""Header fields of a single-part SUBMIT"""
from vlib import combos, near, submit
from vlib.runner import Enum, Search
from vlib.sut import eq, need

RULE = ('a case is non-trivial when at least two of service centre, class, validity, status report, reference, '
        'protocol identifier and format differ from their defaults')


def check(w, a):
    pdus = submit.encode(w, a)
    t = submit.text_of(a)
    if submit.want_parts(a) != 1:
        return False
    eq(len(pdus), 1, 'number of parts of %r' % t)
    p = pdus[0]
    eq((p.cnt, p.seq), (1, 1), 'part numbering')
    r = submit.parse(p, 'message')
    submit.check_fields(a, r, False)
    eq(r['text'], t, 'text')
    need(r['udh'] is None, 'unexpected header')
    return sum([bool(a['csca']), a['klass'] is not None, a['validity'] is not None, a['srr'],
                a['ref'] is not None, a['pid'] != 0, a['fmt'] is not None]) >= 2


def check_ref(w, a):
    """without a reference the object chooses one and shows it"""
    a = dict(a, ref=None)
    out = w.script(submit.ops(a) + [['call', None, 'm', 'to_pdu', []], ['get', 'm', 'ref']])
    for p in out[-2]:
        eq(submit.parse(p, 'message')['mr'], out[-1], 'reference on the wire')


def combination_cases(tier):
    return combos.submits(tier, combos.SINGLE)


ASPECTS = [Enum('values', submit.value_cases({'7': 'Ab@ 1', '8': 'a\xfe\0', 'u': 'a\u0416\u20ac'}), lambda w, a: check(w, a) or 1),
           Enum('combinations', combination_cases, check),
           Search('neighbours', near.pairs(submit.attrs(), submit.GROUPS, submit.fine, submit.FROZEN), near.check(check), 800),
           Search('fields', submit.attrs(), check, 2400),
           Search('chosen_reference', submit.attrs(), check_ref, 160)]
