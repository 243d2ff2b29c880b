"""User data headers"""
from vlib import combos, gen, near
from vlib.props.c10 import concat, check_attrs
from vlib.runner import Search, Enum
from vlib.sut import eq, need, ok, Udh, Arr

RULE = 'a case is non-trivial when the header has at least two elements, or one next to a text that is not empty'


def ports(ies):
    for iei, d in ies:
        b = bytes.fromhex(d)
        if iei == 4:
            return ('ports', b[0], b[1], True)
        if iei == 5:
            return ('ports', b[0] << 8 | b[1], b[2] << 8 | b[3], False)
    return None


def check_udh(got, ies):
    need(isinstance(got, Udh), 'no header reported: %r', got)
    eq(got.concat, concat(ies), 'concatenation of %r' % ies)
    eq(got.ports, ports(ies), 'ports of %r' % ies)
    eq({k: bytes(v) for k, v in got.headers.items()}, {i: bytes.fromhex(d) for i, d in ies}, 'elements of %r' % ies)


def check(w, c):
    h = gen.deliver_octets(c).hex()
    a = ok(w.fn('W.deliver', {'s': h}), 'decoding %s' % h)
    if c['udh'] is None:
        eq(a['udh'], None, 'header of a message without one')
    elif c['udh']:
        check_udh(a['udh'], c['udh'])
    elif a['udh'] is not None:
        check_udh(a['udh'], [])
    eq(a['text'], gen.deliver_text(c), 'text of %s' % h)
    check_attrs(a, c)
    return bool(c['udh']) and (len(c['udh']) > 1 or bool(a['text']))


def check_bytes(w, c):
    b = gen.udh_octets(c['udh'])
    check_udh(ok(w.fn('udh.UserDataHeader.from_bytes', {'arr': b.hex()}), 'from_bytes(%s)' % b.hex()), c['udh'])
    return len(c['udh']) > 1


def fill_cases(tier):
    """every header length against every alphabet: all fill bit counts"""
    for n in range(0, 137):
        for al in '78u':
            yield {'n': n, 'alpha': al}


def check_fill(w, c):
    base = {'smsc': None, 'first': 4, 'pid': 0, 'dcs': gen.DCS[c['alpha']][0], 'alpha': c['alpha'],
            'scts': [2010, 3, 4, 5, 6, 7, 8], 'oa': ['1234', 0, 1], 'trail': '',
            'udh': [[0x70, 'a5' * c['n']]]}
    n = 0
    for k in (0, 1, 2, 7, 8, 9):
        if 3 + c['n'] + k * {'7': 3, '8': 3, 'u': 4}[c['alpha']] > 140:
            break
        base['payload'] = '\u20ac\u0436' * k if c['alpha'] == 'u' else '7f417c'.replace('7c', '3c')[:6] * k
        check(w, base)
        n += 1
    return n


def many_cases(tier):
    for al in '78u':
        for n in range(1, 70):
            yield {'alpha': al, 'n': n}


def check_many(w, c):
    """as many elements as fit, none of which has data, or all of one octet"""
    base = {'smsc': None, 'first': 4, 'pid': 0, 'dcs': gen.DCS[c['alpha']][0], 'alpha': c['alpha'],
            'scts': [2010, 3, 4, 5, 6, 7, 8], 'oa': ['1234', 0, 1], 'trail': '', 'payload': ''}
    room = 139
    n = 0
    for d in ('', 'a5', '0b84'):
        if c['n'] * (2 + len(d) // 2) > room:
            break
        for last in (None, [0, '070302'], [8, '01070302'], [4, '1122'], [5, '01020304']):
            ies = [[0x30 + i, d] for i in range(c['n'])]
            if last is not None:
                ies = ies + [last] if c['n'] % 2 else [last] + ies
            if len(gen.udh_octets(ies)) > room:
                continue
            check(w, dict(base, udh=ies))
            check_bytes(w, dict(base, udh=ies))
            n += 2
    return n


def value_cases(tier):
    """every element identifier, and every value of each octet of the elements that have fields"""
    for al in '78u':
        b = dict(gen.PLAIN_DELIVER, alpha=al, dcs=gen.FMT[al], payload=gen.PAYLOADS[al])
        for v in range(256):
            x = '%02x' % v
            if v not in (0, 4, 5, 8):
                for d in ('', x, '00', '01020304', '0502') + ('a50b' * 9,) * (v % 5 == 0):
                    for ies in ([[v, d]], [[0, '070302'], [v, d]], [[v, d], [5, '0b8423f0']], [[v, d], [v ^ 0x40 if v ^ 0x40 not in (0, 4, 5, 8) else v ^ 0x20, x]]):
                        if al == '78u'[v % 3] or len(ies) == 1:
                            yield dict(b, udh=ies)
            for i, p in [(0, '%s0302'), (0, '07%s02'), (0, '0703%s'), (0, '%s' * 3), (8, '%s070302'), (8, '07%s0302'), (8, '0107%s02'), (8, '010703%s'), (8, '%s' * 4),
                         (4, '%s23'), (4, '23%s'), (4, '%s' * 2), (5, '%s8423f0'), (5, '0b%s23f0'), (5, '0b84%sf0'), (5, '0b8423%s'), (5, '%s' * 4), (5, '00%s' * 2), (5, '%s00' * 2)]:
                yield dict(b, udh=[[i, p.replace('%s', x)]])


def check_value(w, c):
    check(w, c)
    check_bytes(w, c)
    return 1


def combination_cases(tier):
    return combos.delivers(tier, headers=sorted(set(combos.UDHS) - {'none'}))


ASPECTS = [
    Enum('combinations', combination_cases, check),
    Enum('many', many_cases, check_many), Enum('values', value_cases, check_value),
    Search('messages', gen.deliver(udh='yes', trailing=True), check, 1600),
    Search('neighbours', near.pairs(gen.deliver(udh='yes'), gen.DELIVER_GROUPS, gen.fine_deliver, ('alpha', 'oa', 'scts')), near.check(check), 800),
    Search('none', gen.deliver(udh='no'), check, 160),
    Search('elements', gen.deliver(udh='yes'), check_bytes, 800),
    Enum('fill', fill_cases, check_fill),
]
