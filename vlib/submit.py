"""SMS-SUBMIT cases: attributes, the operations that build them, the oracle."""
from hypothesis import strategies as st
from vlib import gsm, sms
from vlib.gen import (number, gsm_text, bmp_text, validity, validity_arg, vp_ok, VPF, recipe, build, ints, FMT)
from vlib.sut import Exc, need, ok, Violation

CAPS = {'7': (160, 153), '8': (140, 134), 'u': (70, 67)}


def native_ok(t):
    return all(ord(c) < 128 for c in t)


@st.composite
def attrs(draw, long=False, big=0, fixed=False):
    """attributes of a message; the text is literal or a recipe"""
    alpha = draw(st.sampled_from('77u8'))
    a = {'number': draw(number()), 'csca': draw(st.one_of(st.none(), st.just(''), number())),
         'klass': draw(st.one_of(st.none(), ints(0, 3))),
         'validity': draw(validity()), 'srr': draw(st.booleans()),
         'ref': draw(st.one_of(st.none(), ints(0, 255), st.sampled_from([0, 255, 256, 511, 65536, 70001]))),
         'rand_id': draw(st.one_of(st.none(), ints(0, 255), st.sampled_from([0, 255, 256, 300, 65535]))),
         'pid': draw(st.one_of(st.just(0), ints(0, 255)))}
    if fixed:
        for k in ('ref', 'rand_id'):
            a[k] = draw(ints(0, 255))
    a['fmt'] = draw(st.sampled_from([None, None, FMT[alpha]]))
    if alpha == '8':
        a['fmt'] = 4
    if long:
        a['recipe'] = draw(recipe(alpha, CAPS[alpha], big))
    elif alpha == '7':
        t = draw(gsm_text(0, 160))
        while len(gsm.encode(t)) > 160:
            t = t[:-1]
        a['text'] = t
    elif alpha == 'u':
        a['text'] = draw(bmp_text(0, 70))
    else:
        a['text'] = draw(st.text(st.characters(max_codepoint=255), max_size=140))
    a['native'] = draw(st.booleans())
    return a


LIKE = ['other', 'plain', 'tail', 'head', 'one', 'ext', 'longer', 'shorter', 'half', 'double', 'swap', 'reverse', 'blank', 'strip', 'rotate']
likes = st.tuples(st.just('like'), st.sampled_from(LIKE), ints(0, 170)).map(list)


def like(t, fmt, kind, n):
    """a text that has much in common with another one, in the same format"""
    k = n % len(t) if t else 0
    odd = {0: 'bcdefgh', 4: '\xe0\xe1\xe2\xe3'}.get(fmt, '\u0416\u0417\u0418\u0419\u041a')
    t2 = {
        'other': ''.join(odd[i % len(odd)] for i in range(len(t))), 'plain': ('xyz' * len(t))[:len(t)],
        'tail': ''.join('q' if c != 'q' else 'r' for c in t[:k]) + t[k:], 'head': t[:k] + ''.join('q' if c != 'q' else 'r' for c in t[k:]),
        'one': t[:k] + odd[n % len(odd)] + t[k + 1:], 'ext': t[:k] + '{' + t[k + 1:], 'longer': t + t[:n], 'shorter': t[:len(t) - k],
        'half': t[:len(t) // 2], 'double': t + t if len(t) < 1500 else t, 'swap': t.swapcase(), 'reverse': t[::-1], 'blank': t + ' ' * (n % 9),
        'strip': t.strip(), 'rotate': t[k:] + t[:k]}[kind]
    if fmt == 0:
        t2 = ''.join(c if gsm.is_gsm(c) else 'x' for c in t2)
    elif fmt == 4:
        t2 = ''.join(c if ord(c) < 256 else '\xff' for c in t2)
    return ''.join(c if ord(c) < 0x10000 else '\u0416' for c in t2)


def text_of(a):
    return build(a['recipe']) if 'recipe' in a else a['text']


def text_arg(a):
    t = text_of(a)
    return {'s': t} if a['fmt'] == 4 or a.get('native') and native_ok(t) else {'u': t}


def string(a, t):
    if t is None:
        return None
    return {'s': t} if a.get('native') else {'u': t}


def alpha_of(a):
    """the alphabet the message must use"""
    if a['fmt'] is not None:
        return {0: '7', 4: '8', 8: 'u'}[a['fmt']]
    return '7' if gsm.is_gsm(text_of(a)) else 'u'


def sets(a, obj='m', defaults=True):
    ops = []
    for k in ('csca', 'klass', 'validity', 'srr', 'ref', 'rand_id', 'pid', 'fmt'):
        v = a[k]
        if k in ('klass',) and v is None:
            continue
        if k == 'csca':
            v = string(a, v)
        if k == 'validity':
            v = validity_arg(v)
        ops.append(['set', obj, {'srr': 'request_status'}.get(k, k), v])
    return ops


def ops(a, obj='m'):
    return [['new', obj, 'SmsSubmit', [string(a, a['number']), text_arg(a)]]] + sets(a, obj)


def encode(w, a):
    """-> list of PduV"""
    s = ops(a) + [['call', None, 'm', 'to_pdu', []]]
    out = w.script(s)
    for op, o in zip(s, out):
        ok(o, 'operation %r' % (op[:3],))
    return out[-1]


def parse(p, what):
    need(isinstance(p.pdu, str), '%s: pdu is %r', what, p.pdu)
    need(p.pdu == p.pdu.upper(), '%s: not upper case: %s', what, p.pdu)
    try:
        octets = bytes.fromhex(p.pdu)
        if ' ' in p.pdu:
            raise ValueError
    except ValueError:
        raise Violation('%s: not hexadecimal: %r' % (what, p.pdu))
    try:
        r = sms.parse_submit(octets)
    except (sms.Bad, UnicodeError) as e:
        raise Violation('%s: PDU %s is not a well-formed SMS-SUBMIT: %s' % (what, p.pdu, e))
    need(r['tpdu_len'] == p.length, '%s: announces length %r, has %d octets after the service centre address',
         what, p.length, r['tpdu_len'])
    return r


def address(t):
    return (0x91, t[1:]) if t.startswith('+') else (0x81, t)


def check_fields(a, r, multipart, what='message'):
    """every header field of a parsed SUBMIT against the attributes"""
    from vlib.sut import eq
    eq(r['smsc'], address(a['csca']) if a['csca'] else None, what + ': service centre')
    eq(r['da'], address(a['number']), what + ': destination')
    vk = a['validity'][0] if a['validity'] else None
    eq(r['first'], 1 | VPF[vk] | (0x20 if a['srr'] else 0) | (0x40 if multipart else 0), what + ': first octet')
    if a['ref'] is not None:
        eq(r['mr'], a['ref'] % 256, what + ': message reference')
    eq(r['pid'], a['pid'], what + ': protocol identifier')
    al = alpha_of(a)
    eq(r['alpha'], al, what + ': alphabet')
    eq(r['dcs'], FMT[al] | (0 if a['klass'] is None else 0x10 | a['klass']), what + ': data coding scheme')
    need(vp_ok(a['validity'], r['vp']), '%s: validity %r encoded as %s', what, a['validity'], r['vp'].hex())


def concat_of(udh):
    """(ref, total, number) of a header that is one 8-bit concatenation element"""
    if udh is None or len(udh) != 5 or udh[:2] != b'\x00\x03':
        raise Violation('user data header is %s, not one 8-bit concatenation element'
                        % (None if udh is None else udh.hex()))
    return udh[2], udh[3], udh[4]


def want_parts(a):
    t, al = text_of(a), alpha_of(a)
    single, part = CAPS[al]
    if al == '7':
        units = [2 if c in gsm.EXT_ENCODE else 1 for c in t]
        if sum(units) <= single:
            return 1
        return sms.greedy_parts(units, part)
    return 1 if len(t) <= single else -(-len(t) // part)


def fine(a):
    """are these attributes ones that every message may have?"""
    import datetime as D
    import re
    num = re.compile(r'\+?[0-9]{3,20}\Z').match
    v = a['validity']
    if not num(a['number']) or a['csca'] and not num(a['csca']):
        return False
    if not 0 <= (a['klass'] or 0) <= 3 or (a['ref'] or 0) < 0 or (a['rand_id'] or 0) < 0 or not 0 <= a['pid'] <= 255:
        return False
    if v and len(v) not in {'td': (3,), 'dt': (4, 5)}.get(v[0], ()):
        return False
    if v and v[0] == 'td' and not (300 <= v[1] <= 63 * 7 * 86400 and 0 <= v[2] <= 999999):
        return False
    if v and v[0] == 'dt':
        if v[3] not in ('plain', 'fixed', 'vary') or not -79 <= (v[2] or 0) <= 79 or not 2000 <= v[1][0] <= 2068:
            return False
        try:
            D.datetime(*(v[1] + v[4:]))
        except ValueError:
            return False
    t = text_of(a)
    if a['fmt'] == 4:
        return all(ord(c) < 256 for c in t)
    return (a['fmt'] != 0 or gsm.is_gsm(t)) and all(ord(c) < 0x10000 for c in t)


GROUPS = [('number',), ('csca',), ('klass',), ('validity',), ('srr',), ('ref',), ('rand_id',), ('pid',), ('text', 'recipe', 'fmt', 'native')]
FROZEN = ('fmt', 'native', 'recipe')


def check_whole(w, a):
    """a message of any number of parts"""
    from vlib.sut import eq
    pdus = encode(w, a)
    n = want_parts(a)
    eq(len(pdus), n, 'number of parts')
    got, ids = '', set()
    for i, p in enumerate(pdus):
        eq((p.cnt, p.seq), (n, i + 1), 'numbering of part %d' % (i + 1))
        r = parse(p, 'part %d' % (i + 1))
        check_fields(a, r, n > 1, 'part %d' % (i + 1))
        if n > 1:
            c = concat_of(r['udh'])
            eq(c[1:], (n, i + 1), 'numbering in the header of part %d' % (i + 1))
            ids.add(c[0])
        got += r['text']
    eq(got, text_of(a), 'text')
    if n > 1:
        eq(len(ids), 1, 'number of concatenation references')
        if a['rand_id'] is not None:
            eq(ids.pop(), a['rand_id'] % 256, 'concatenation reference')
    return True


def value_cases(texts):
    """every value of one attribute"""
    def cases(tier):
        for i, (alpha, t) in enumerate(sorted(texts.items())):
            b = {'number': '+34600123456', 'csca': None, 'klass': None, 'validity': None, 'srr': False, 'ref': 7, 'rand_id': 9, 'pid': 0,
                 'fmt': [None, FMT[alpha]][alpha == '8'], 'text': t, 'native': False}
            for v in range(300):
                yield dict(b, pid=v % 256, srr=v > 255)
                yield dict(b, ref=v)
                yield dict(b, rand_id=v)
                yield dict(b, ref=v, rand_id=v)
                yield dict(b, ref=v, pid=v % 256, klass=v % 4)
            if i == 0 or tier == 'thorough':
                for n in range(3, 21):
                    for d in '0123456789':
                        for plus in ('', '+'):
                            x = (d * 20 if n % 2 else d + '1' * 18 + d)[:n - 1] + d
                            yield dict(b, number=plus + x)
                            yield dict(b, csca=plus + x)
                            yield dict(b, csca=plus + x, number=plus + x)
    return cases
