"""Status reports"""
from vlib import combos, gen, near
from vlib.runner import Search, Enum
from vlib.sut import eq, need, ok

RULE = 'a report is non-trivial when a time stamp is invalid, or the status is not 0, or the recipient has an odd length'
LABEL = {0: 'SR-OK', 0x30: 'SR-STORED'}


def check(w, c):
    s1, s2 = gen.read_stamp(c['scts']), gen.read_stamp(c['dt'])
    if s1 is None or s2 is None:
        return False
    h = gen.report_octets(c).hex()
    a = ok(w.fn('W.deliver', {'s': h}), 'decoding %s' % h)
    recipient = gen.plus(c['ra'])
    eq(a['csca'], gen.plus(c['smsc']) if c['smsc'] else None, 'service centre')
    eq(a['type'], 3, 'type')
    eq(a['number'], LABEL.get(c['status'], 'SR-UNKNOWN'), 'label of status %r' % c['status'])
    shown = s2[0] if c['status'] in (0, None) else ''
    eq(a['text'], '|'.join([recipient, s1[0], shown]), 'text')
    sr = a['sr']
    eq(sr['recipient'], recipient, 'recipient')
    eq(sr['status'], c['status'], 'status')
    for name, got, s in (('scts', sr['scts'], s1), ('dt', sr['dt'], s2), ('date', a['date'], s1)):
        if s[1] is None:
            eq(got, None, name)
        else:
            need(got is not None and tuple(got) in s[1], '%s is %r, expected %r', name, got, s[1])
    need(a['udh'] is not None and a['udh'].concat is not None and a['udh'].concat[1] == c['mr'],
         'message reference %r not found in %r', c['mr'], a['udh'])
    eq(a['data'].get('ref'), c['mr'], 'reference in the dictionary')
    for k in ('text', 'number', 'type', 'date', 'sr', 'csca'):
        eq(a['data'].get(k), a[k], 'dictionary entry %r' % k)
    return s1[1] is None or s2[1] is None or bool(c['status']) or len(c['ra'][0]) % 2 == 1


def status_cases(tier):
    for s in list(range(256)) + [None]:
        yield {'status': s}


def check_status(w, c):
    n = 0
    for dt in ('01302141301400', '99999999999999'):
        for ra in (['346', 1, 1], ['1234', 0, 1]):
            check(w, {'smsc': None, 'first': 6, 'mr': 200, 'ra': ra, 'scts': '01302141301480', 'dt': dt,
                      'status': c['status'], 'trail': ''})
            n += 1
    return n


def octet_cases(tier):
    """every value of one octet"""
    b = {'smsc': None, 'first': 6, 'mr': 200, 'ra': ['34600', 1, 1], 'scts': '01302141301480', 'dt': '01302141301400', 'status': 0, 'trail': ''}
    for s in (0, 0x30, 0x41, None):
        b['status'] = s
        for v in range(256):
            yield dict(b, mr=v)
            if v & 0x43 == 2:
                yield dict(b, first=v)
            if v >> 4 not in (5, 13):
                yield dict(b, ra=['34600', v >> 4 & 7, v & 15], smsc=['346%03d' % v, v >> 4 & 7, v & 15] if v < 128 else None)
            for i in (0, 1, 2, 3, 4, 5, 6):
                x = '%s%02x%s' % (b['scts'][:2 * i], v, b['scts'][2 * i + 2:])
                yield dict(b, scts=x)
                yield dict(b, dt=x)
        for n in range(1, 21):
            for d in '0123456789':
                for ton in (0, 1):
                    yield dict(b, ra=[(d * 20 if n % 2 else d + '1' * 18 + d)[:n - 1] + d, ton, 1])


ASPECTS = [Enum('octets', octet_cases, lambda w, c: check(w, c) or 1), Enum('combinations', combos.reports, check), Search('reports', gen.report(), check, 2400),
           Search('neighbours', near.pairs(gen.report(), gen.REPORT_GROUPS, gen.fine_report), near.check(check), 1000),
           Enum('status', status_cases, check_status)]
