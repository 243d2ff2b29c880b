"""Fields of a delivered SMS"""
from vlib import combos, gen, gsm, near, snips
from vlib.runner import Search, Enum
from vlib.sut import eq, need, ok, DT

RULE = ('a case is non-trivial when its text is not empty and the message has a user data header, an extension '
        'character, an alphabet other than 7-bit, a service centre, or octets after the user data')


def concat(ies):
    for iei, d in ies or []:
        b = bytes.fromhex(d)
        if iei == 0:
            return ('concat', b[0], b[1], b[2], True)
        if iei == 8:
            return ('concat', b[0] << 8 | b[1], b[2], b[3], False)
    return None


def check_attrs(a, c, what='message'):
    eq(a['csca'], gen.plus(c['smsc']) if c['smsc'] else None, what + ': service centre')
    eq(a['number'], gen.sender_of(c), what + ': sender')
    eq(a['pid'], c['pid'], what + ': protocol identifier')
    eq(a['dcs'], c['dcs'], what + ': data coding scheme')
    eq(a['fmt'], gen.FMT[c['alpha']], what + ': format')
    eq(a['text'], gen.deliver_text(c), what + ': text')
    need(isinstance(a['date'], DT) and tuple(a['date']) in gen.utc_of(c['scts']),
         '%s: date %r, expected %r', what, a['date'], gen.utc_of(c['scts']))
    eq(a['type'], None, what + ': type')
    eq(a['sr'], None, what + ': status report')


def check_data(a, c):
    d = a['data']
    for k in ('csca', 'number', 'pid', 'dcs', 'fmt', 'text', 'date', 'type', 'sr'):
        need(k in d, 'the dictionary has no %r', k)
        eq(d[k], a[k], 'the dictionary entry %r' % k)
    k = concat(c['udh'])
    for i, name in enumerate(('ref', 'cnt', 'seq')):
        if k is None:
            need(name not in d, 'the dictionary has %r for a message that is no part of a longer one', name)
        else:
            eq(d.get(name), k[1 + i], 'the dictionary entry %r' % name)


def check(w, c):
    h = gen.deliver_octets(c).hex()
    a, b = w.script([['fn', None, 'W.deliver', [{'s': h}]], ['fn', None, 'W.deliver', [{'u': h.upper()}, False]]])
    for x in (a, b):
        ok(x, 'decoding %s' % h)
        check_attrs(x, c)
        check_data(x, c)
    return bool(gen.deliver_text(c)) and bool(
        c['udh'] or c['alpha'] != '7' or c['smsc'] or c['trail'] or '1b' in c['payload'])


def dcs_cases(tier):
    for al, values in gen.DCS.items():
        for v in values:
            yield {'alpha': al, 'dcs': v}
    for f in range(256):
        if f & 3 == 0:
            yield {'alpha': '7', 'dcs': 0, 'first': f}


def check_dcs(w, c):
    n = 0
    for smsc in (None, ['34600', 1, 1], ['123456', 0, 1]):
        m = {'smsc': smsc, 'first': 0x04, 'pid': 0, 'scts': [2012, 2, 29, 23, 59, 58, -5], 'oa': ['346001', 1, 1],
             'trail': '', 'payload': 'aé€' if c['alpha'] == 'u' else '61621b65'}
        m.update(c)
        for udh in (None, [[0, '070201']], [[8, '01070302']], [[0x70, '']]):
            if 'first' in c and (udh is None) != (c['first'] & 0x40 == 0):
                continue
            check(w, dict(m, udh=udh))
            n += 1
    return n


def text_cases(tier):
    """every character each alphabet has, at the start, within and at the end of a text"""
    units = [x for x in range(0x10000) if not 0xd800 <= x < 0xe000]
    if tier == 'quick':
        units = [x for x in units if x < 0x500 or x & 0xff in (0, 0x0d, 0x1b, 0x80, 0xff) or x >> 8 in (0x20, 0xff, 0xfe) or x % 7 == 0]
    for i in range(0, len(units), 70):
        yield {'alpha': 'u', 'payload': ''.join(map(chr, units[i:i + 70]))}
    for x in gen.SPECIAL:
        for y in ['', 'a', 'ñ', '\u4e2d'] + (list(gen.SPECIAL) if tier == 'thorough' else [x, '\ufeff', ' ']):
            for t in {x + y, y + x, x + y + x, y + x + y}:
                yield {'alpha': 'u', 'payload': t}
    for x in range(256):
        for p in ('%02x', '%02x41', '41%02x'):
            yield {'alpha': '8', 'payload': p % x}
            if x < 128:
                yield {'alpha': '7', 'payload': p % x}
                yield {'alpha': '7', 'payload': '1b' + p % x}


def check_text(w, c):
    m = {'smsc': None, 'first': 0x04, 'pid': 0, 'dcs': gen.DCS[c['alpha']][0], 'scts': [2012, 2, 29, 23, 59, 58, -5], 'oa': ['346001', 1, 1],
         'trail': '', 'udh': None}
    check(w, dict(m, **c))
    return 1


def run_cases(tier):
    """texts that end in, start with or consist of what may be taken for padding"""
    for al in '78u':
        for e in gen.DELIVER_ENDS[al]:
            for n in ((1, 2, 6, 7, 8, 9, 15, 16, 17, 24, 152, 159, 160) if al == '7' else (1, 2, 7, 8, 139, 140) if al == '8' else (1, 2, 7, 69, 70)):
                for where in ('tail', 'two', 'head', 'all'):
                    for udh in ([], [0], [5]) if n < 100 else ([],):
                        yield {'alpha': al, 'end': e if al == 'u' else e.hex(), 'len': n, 'where': where, 'udh': udh}


def check_run(w, c):
    al, n = c['alpha'], c['len']
    e, b = (c['end'], '\u0411') if al == 'u' else (bytes.fromhex(c['end']), b'b')
    k = {'tail': 1, 'two': 2, 'head': 1, 'all': n}[c['where']]
    p = (e + b * (n - 1) if c['where'] == 'head' else b * (n - k) + e * k)[:n]
    ies = [[0, '050201'], [5, '0b8423f0']]
    check(w, {'smsc': None, 'first': 4, 'oa': ['34600000000', 1, 1], 'pid': 0, 'alpha': al, 'dcs': {'7': 0, '8': 4, 'u': 8}[al],
              'scts': [2010, 2, 3, 4, 5, 6, 4], 'udh': [x for x in ies if x[0] in c['udh']] or None, 'payload': p if al == 'u' else p.hex(), 'trail': ''})
    return 1


def check_piece(w, c):
    m = {'smsc': None, 'first': 4, 'oa': ['34600000000', 1, 1], 'pid': 0, 'scts': [2010, 2, 3, 4, 5, 6, 4], 'udh': None, 'trail': ''}
    n = 0
    for t in snips.texts(c):
        if len(t) <= 70:
            check(w, dict(m, alpha='u', dcs=8, payload=t))
        if all(x <= '\xff' for x in t):
            check(w, dict(m, alpha='8', dcs=4, payload=t.encode('latin-1').hex()))
        if gsm.is_gsm(t):
            check(w, dict(m, alpha='7', dcs=0, payload=gsm.encode(t).hex()))
        n += 1
    return n


ASPECTS = [Enum('pieces', snips.cases(dict.fromkeys(snips.BMP + snips.LATIN)), check_piece, snips.split), Enum('runs', run_cases, check_run), Enum('combinations', combos.delivers, check), Enum('characters', text_cases, check_text), Search('deliver', gen.deliver(trailing=True), check, 2000),
           Search('neighbours', near.pairs(gen.deliver(trailing=True), gen.DELIVER_GROUPS, gen.fine_deliver, ('alpha',)), near.check(check), 1000),
           Enum('schemes', dcs_cases, check_dcs), Enum('octets', gen.octet_cases(), lambda w, c: check(w, c) or 1)]
