"""Strategies for JSON-able cases, and builders from cases."""
from hypothesis import strategies as st
from vlib import gsm, sms

ints = st.integers
DIG = '0123456789'
digits = lambda lo, hi: st.text(st.sampled_from(DIG), min_size=lo, max_size=hi)
hexbytes = lambda lo, hi: st.binary(min_size=lo, max_size=hi).map(bytes.hex)


@st.composite
def history(draw, *kinds, lo=1, hi=12):
    """a list of steps, each kind equally likely whatever it is made of"""
    return [draw(kinds[draw(ints(0, len(kinds) - 1))]) for _ in range(draw(ints(lo, hi)))]


@st.composite
def number(draw):
    return draw(st.sampled_from(['', '+'])) + draw(digits(3, 20))


bmp_chars = st.characters(min_codepoint=0, max_codepoint=0xffff, exclude_categories=['Cs'])
NON_GSM = 'çáíóúÁêΑЖя中日\u00a0\u200b\u20ab\ufeff\uffff`\t\x00\x1b\x7f\u0100\u0080\u00ff\u1e9e'
SPECIAL = '\x00\t\n\r\x0c\x1b \x7f\x80\x85\xa0\xad\xff\u0300\u200b\u200e\u2028\u2029\u3000\ufeff\ufffe\ufffd\uffff\u1680\ufb01'
text_chars = st.one_of(st.sampled_from(gsm.BASIC), st.sampled_from(gsm.EXT), st.sampled_from(NON_GSM), bmp_chars, st.sampled_from(SPECIAL))
gsm_chars = st.one_of(st.sampled_from(gsm.BASIC), st.sampled_from(gsm.EXT), st.sampled_from('@aZ €[\\{\n'))
gsm_text = lambda lo=0, hi=80: st.text(gsm_chars, min_size=lo, max_size=hi)


@st.composite
def bmp_text(draw, lo=0, hi=70):
    t = draw(st.text(text_chars, min_size=lo, max_size=hi))
    k = draw(ints(0, 9))
    if k > 2 or not t:
        return t
    a = draw(st.sampled_from(SPECIAL))
    return a + t[1:] if k == 0 else t[:-1] + a if k == 1 else a + t[2:] + a if len(t) > 1 else a


quarters = st.one_of(ints(-56, 56), st.sampled_from([0, 4, -4, 22, -14, 23, -38, 51, 56, -48]))


@st.composite
def datetime_fields(draw, ylo=2000, yhi=2068):
    y = draw(st.one_of(ints(ylo, yhi), st.sampled_from([2009, 2012, 2010])))
    mo = draw(st.one_of(ints(1, 12), st.sampled_from([1, 2, 12])))
    last = [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1]
    d = draw(st.one_of(ints(1, last), st.sampled_from([1, last])))
    h = draw(st.one_of(ints(0, 23), st.sampled_from([0, 23])))
    mi = draw(st.one_of(ints(0, 59), st.sampled_from([0, 59])))
    s = draw(st.one_of(ints(0, 59), st.sampled_from([0, 59])))
    return [y, mo, d, h, mi, s]


@st.composite
def validity(draw):
    k = draw(ints(0, 3))
    if k < 1:
        return None
    if k < 2:
        return ['td', draw(st.one_of(ints(300, 43200), ints(43201, 86400), ints(86401, 30 * 86400),
                                     ints(30 * 86400, 63 * 7 * 86400 - 1),
                                     ints(1, 63).map(lambda w: w * 7 * 86400))),
                draw(st.sampled_from([0, 0, 0, 999999, 1]))]
    f = draw(datetime_fields())
    z = draw(st.one_of(st.none(), quarters))
    kind = draw(st.sampled_from(['plain', 'fixed', 'vary']))
    us = draw(st.sampled_from([0, 0, 0, 1, 678000, 999999]))
    return ['dt', f, z, kind, us] if us else ['dt', f, z, kind]


def validity_arg(v):
    if v is None:
        return None
    if v[0] == 'td':
        us = v[2] if v[1] < 63 * 7 * 86400 else 0
        return {'td': [v[1] // 86400, v[1] % 86400, us]}
    f, z, kind = v[1:4]
    us = v[4] if len(v) > 4 else 0
    return {'dt': f + [us, None if z is None else zone(kind, z, f)]}


def zone(kind, quarters, fields):
    """argument for a time zone with that offset at that time"""
    m = quarters * 15
    return [m] if kind == 'fixed' else {'vary': [m, fields[1], m - 60 if m > 0 else m + 60]} if kind == 'vary' else m


def zone_minutes(z):
    return z[0] if isinstance(z, list) else z['vary'][0] if isinstance(z, dict) else z


def vp_ok(v, octets):
    """do the TP-VP octets denote the validity?"""
    if v is None:
        return octets == b''
    if v[0] == 'td':
        us = v[2] if v[1] < 63 * 7 * 86400 else 0
        return len(octets) == 1 and octets[0] in sms.best_vp(v[1] * 10**6 + us)
    want = sms.stamp(*(v[1] + [v[2] or 0]))
    return octets == want


VPF = {None: 0, 'td': 0x10, 'dt': 0x18}


# -- long texts --------------------------------------------------------------
RUNS = {'7': ' \n\r@0a{|\xe9\u20ac', '8': '\0 \n\r\xff\x1b\xa0', 'u': ' \n\r\0\ufeff\ufffe\uffff\u3000\xa0\u200b\u0416@'}


@st.composite
def recipe(draw, alpha, caps, big=0):
    """a text given by a repeated pattern, a length near a boundary and
    some characters put at chosen places"""
    single, part = caps
    chars = {'7': gsm_chars, '8': st.characters(min_codepoint=0, max_codepoint=255),
             'u': text_chars}[alpha]
    base = draw(st.text(chars, min_size=1, max_size=9))
    k = draw(st.one_of(ints(0, 6), ints(0, 12)) if not big else st.one_of(ints(0, 6), ints(0, big)))
    edge = single if k == 0 else k * part
    n = draw(st.one_of(ints(0, 12), st.just(0), ints(-4, 4), ints(-4, 4), ints(-40, 40)))
    length = max(0, edge + n)
    ins = draw(st.lists(st.tuples(st.one_of(ints(0, 6), ints(0, max(k, 1))), ints(-3, 3), chars),
                        max_size=6))
    r = {'base': base, 'len': length, 'ins': [[a * part + b, c] for a, b, c in ins], 'pad': draw(st.booleans())}
    if draw(ints(0, 2)) == 2:
        r['run'] = [draw(st.sampled_from(['head', 'tail', 'tail', 'all'])), draw(st.sampled_from(RUNS[alpha])), draw(st.one_of(ints(1, 12), ints(1, part)))]
    return r


def build(r):
    base, n = r['base'], r['len']
    if r['pad']:
        # the pattern only at the start: all extension characters there
        t = list((base + 'a' * n)[:n])
    else:
        t = list((base * (n // len(base) + 1))[:n])
    for pos, c in r['ins']:
        if 0 <= pos < n:
            t[pos] = c
    if 'run' in r:
        where, c, k = r['run']
        k = min(k, n)
        t = [c] * n if where == 'all' else [c] * k + t[k:] if where == 'head' else t[:n - k] + [c] * k
    return ''.join(t)


# -- SMS-DELIVER -------------------------------------------------------------
@st.composite
def addr(draw, lo=1, hi=20):
    return [draw(digits(lo, hi)), draw(st.sampled_from([0, 1, 1, 1, 2, 3, 4, 6, 7])), draw(ints(0, 15))]


alnum_name = st.text(gsm_chars, min_size=1, max_size=11).map(
    lambda t: t if len(gsm.encode(t)) <= 11 else t[:5])

DCS = {'7': [0x00, 0x01, 0x10, 0x11, 0x12, 0x13, 0x03, 0x40, 0x50, 0xf0, 0xf1, 0xf2, 0xf3,
             0xc0, 0xc1, 0xc3, 0xc8, 0xc9, 0xcb, 0xd0, 0xd2, 0xd8, 0xda],
       '8': [0x04, 0x05, 0x14, 0x15, 0x16, 0x17, 0x07, 0x44, 0x54, 0xf4, 0xf5, 0xf6, 0xf7],
       'u': [0x08, 0x09, 0x18, 0x19, 0x1a, 0x1b, 0x0b, 0x48, 0x58, 0xe0, 0xe1, 0xe2, 0xe3, 0xe8, 0xe9, 0xeb]}
# the rest of what 3GPP TS 23.038 defines for uncompressed text
DCS = {k: v + [x for x in range(256) if x not in v and (
    x & 0xa0 == 0 and x >> 2 & 3 == '78u'.index(k) or x & 0xf8 == 0xf0 and x >> 2 & 1 == '78u'.index(k)
    or x & 0xe4 == 0xc0 and k == '7' or x & 0xf4 == 0xe0 and k == 'u')] for k, v in DCS.items()}
FMT = {'7': 0, '8': 4, 'u': 8}


@st.composite
def ie_list(draw, room):
    """distinct information elements of at most `room` octets together"""
    out, used, seen = [], 0, set()
    for _ in range(draw(ints(0, 5))):
        kind = draw(st.sampled_from(['c8', 'c16', 'p8', 'p16', 'x', 'x']))
        if kind in ('c8', 'c16'):
            if seen & {0, 8}:
                continue
            iei, n = (0, 3) if kind == 'c8' else (8, 4)
        elif kind in ('p8', 'p16'):
            if seen & {4, 5}:
                continue
            iei, n = (4, 2) if kind == 'p8' else (5, 4)
        else:
            iei = draw(st.one_of(st.sampled_from([1, 2, 3, 6, 7, 9, 0x0a, 0x0b, 0x10, 0x14, 0x20, 0x24, 0x25, 0x70, 0x80, 0xc0, 0xff]),
                                 ints(0, 255).filter(lambda x: x not in (0, 4, 5, 8))))
            n = draw(st.one_of(ints(0, 6), ints(0, 24), ints(0, max(room - 2, 0))))
            if iei in seen:
                continue
        if used + 2 + n > room:
            continue
        seen.add(iei)
        used += 2 + n
        out.append([iei, draw(hexbytes(n, n))])
    return out


DELIVER_ENDS = {'7': [b'\0', b'\r', b'\n', b' ', b'\x7f', b'\x1b', b'a'], '8': [b'\0', b'\r', b'\n', b' ', b'\xff', b'\x1b'],
                'u': list(' \r\n\0\ufeff\uffff\ufffe\u3000@\u0416')}


@st.composite
def deliver(draw, alphas='78u', udh='maybe', sender='any', trailing=False):
    alpha = draw(st.sampled_from(alphas))
    c = {'smsc': draw(st.one_of(st.none(), addr())),
         'first': draw(st.sampled_from([0x00, 0x04, 0x24, 0x20, 0x80, 0x84, 0x0c, 0xac])),
         'pid': draw(st.one_of(st.just(0), ints(0, 255))),
         'alpha': alpha, 'dcs': draw(st.sampled_from(DCS[alpha])),
         'scts': draw(datetime_fields()) + [draw(st.one_of(quarters, ints(-79, 79)))]}
    if sender == 'alnum' or sender == 'any' and draw(ints(0, 4)) == 0:
        c['alnum'] = draw(alnum_name)
        c['plan'] = draw(st.one_of(st.just(0), st.just(1), ints(0, 15)))
    else:
        # some networks give no sender at all
        c['oa'] = draw(addr()) if draw(ints(0, 15)) else ['', draw(st.sampled_from([0, 2, 3])), draw(ints(0, 1))]
    if udh == 'no' or udh == 'maybe' and draw(booleans_()):
        c['udh'] = None
        head = 0
    else:
        c['udh'] = draw(ie_list(draw(st.sampled_from([5, 12, 40, 100, 138]))))
        head = 1 + sum(2 + len(d) // 2 for _, d in c['udh'])
    room = 140 - head
    # mostly short, sometimes up to the very limit
    if alpha == '7':
        cap = room * 8 // 7 if head == 0 else (room * 8 - (-(8 * head) % 7)) // 7
        n = draw(length(cap))
        if draw(booleans_()):
            t = gsm.encode(draw(st.text(gsm_chars, max_size=12)))
            c['payload'] = (t * (n // max(1, len(t)) + 1))[:n].hex() if t else ''
        else:
            b = draw(st.binary(min_size=1, max_size=20)) or b'a'
            c['payload'] = bytes(x & 0x7f for x in (b * (n // len(b) + 1))[:n]).hex()
    elif alpha == '8':
        b = draw(st.binary(min_size=1, max_size=20))
        n = draw(length(room))
        c['payload'] = (b * (n // len(b) + 1))[:n].hex()
    else:
        b = draw(st.text(text_chars, min_size=1, max_size=12))
        n = draw(length(room // 2))
        c['payload'] = (b * (n // len(b) + 1))[:n]
    if draw(ints(0, 3)) == 3:
        p = c['payload'] if alpha == 'u' else bytes.fromhex(c['payload'])
        if alpha == '7' and draw(booleans_()):
            # a whole number of octets
            p = p[:len(p) // 8 * 8]
        k = min(len(p), draw(ints(1, 9)))
        e = draw(st.sampled_from(DELIVER_ENDS[alpha])) * k
        p = draw(st.sampled_from([p[:len(p) - k] + e, p[:len(p) - k] + e, e + p[k:], e]))
        c['payload'] = p if alpha == 'u' else p.hex()
    c['trail'] = draw(hexbytes(0, 6)) if trailing and draw(booleans_()) else ''
    return c


def booleans_():
    return st.booleans()


def length(cap):
    return st.one_of(ints(0, min(20, cap)), ints(0, cap), ints(max(0, cap - 4), cap))


def udh_octets(ies):
    return b''.join(bytes([i, len(d) // 2]) + bytes.fromhex(d) for i, d in ies)


def deliver_parts(c):
    """-> (everything before UDL, UDL and UD)"""
    udh = None if c['udh'] is None else udh_octets(c['udh'])
    payload = c['payload'] if c['alpha'] == 'u' else bytes.fromhex(c['payload'])
    udl, ud = sms.user_data(c['alpha'], payload, udh)
    oa = sms.alnum_address(c['alnum'], c.get('plan', 0)) if 'alnum' in c else sms.address(*c['oa'])
    smsc_ = sms.smsc(None, 0) if c['smsc'] is None else sms.smsc(*c['smsc'])
    first = c['first'] | (0x40 if udh is not None else 0)
    head = smsc_ + bytes([first]) + oa + bytes([c['pid'], c['dcs']]) + sms.stamp(*c['scts'])
    return head, bytes([udl]) + ud


def deliver_octets(c):
    a, b = deliver_parts(c)
    return a + b + bytes.fromhex(c.get('trail', ''))


def deliver_text(c):
    if c['alpha'] == 'u':
        return c['payload']
    b = bytes.fromhex(c['payload'])
    return gsm.decode(b) if c['alpha'] == '7' else b.decode('latin-1')


def plus(a):
    return ('+' if a[1] == 1 else '') + a[0]


def sender_of(c):
    return c['alnum'] if 'alnum' in c else plus(c['oa'])


def utc_of(f):
    """[y..s, quarters] -> set of acceptable UTC tuples (two-digit years)"""
    import datetime as D
    y = f[0] % 100
    centuries = [2000] if y <= 68 else [1900, 2000]
    r = set()
    for c in centuries:
        try:
            t = D.datetime(c + y, *f[1:6]) - D.timedelta(minutes=15 * f[6])
        except ValueError:
            continue
        r.add((t.year, t.month, t.day, t.hour, t.minute, t.second, 0))
    return r


PLAIN_DELIVER = {'smsc': None, 'first': 4, 'oa': ['34600000001', 1, 1], 'pid': 0, 'scts': [2010, 2, 3, 4, 5, 6, 4], 'udh': None, 'trail': ''}
PAYLOADS = {'7': '61621b65', '8': '61fe00', 'u': 'a\u0416\u20ac'}


def octet_cases(alnum=False, numbers=True):
    """delivered messages with every value of one octet of their header"""
    def cases(tier):
        more = {'alnum': 'Ab@ 1'} if alnum else {}
        for al in '78u':
            b = dict(PLAIN_DELIVER, alpha=al, dcs=FMT[al], payload=PAYLOADS[al], **more)
            for v in range(256):
                yield dict(b, pid=v)
                if v in DCS[al]:
                    yield dict(b, dcs=v)
                if v & 3 == 0:
                    yield dict(b, first=v, udh=[[0x70, 'a5']] if v & 0x40 else None)
                if alnum and v < 16:
                    yield dict(b, plan=v)
                ton, plan = v >> 4, v & 15
                if ton < 8 and ton != 5:
                    yield dict(b, smsc=['346000', ton, plan])
                    if not alnum:
                        yield dict(b, oa=['346000', ton, plan])
            if numbers:
                for n in range(0, 21):
                    for d in '0123456789':
                        for ton in (0, 1):
                            x = [(d * 20 if n % 2 else d + '1' * 18 + d)[:n - 1] + d if n else '', ton, 1]
                            if n:
                                yield dict(b, smsc=x)
                            if not alnum:
                                yield dict(b, oa=x)
    return cases


# -- status reports ----------------------------------------------------------
@st.composite
def any_stamp(draw):
    """7 octets, mostly a valid stamp"""
    f = draw(datetime_fields(2000, 2099))
    q = draw(ints(-79, 79))
    b = bytearray(sms.stamp(*(f + [q])))
    if draw(ints(0, 3)) == 0:
        i = draw(ints(0, 5))
        b[i] = draw(st.one_of(ints(0, 255), st.sampled_from([0x00, 0x31, 0x42, 0x99, 0xff, 0x0a, 0xa0])))
    return bytes(b).hex()


@st.composite
def report(draw):
    c = {'smsc': draw(st.one_of(st.none(), addr())), 'first': draw(st.sampled_from([0x02, 0x06, 0x26, 0x22, 0x0e])),
         'mr': draw(ints(0, 255)), 'ra': draw(addr()), 'scts': draw(any_stamp()), 'dt': draw(any_stamp()),
         'status': draw(st.one_of(st.none(), st.sampled_from([0, 0, 1, 0x30, 0x40, 0x20, 2, 0x31, 0x10]), ints(0, 255))),
         'trail': ''}
    if c['status'] is not None:
        c['trail'] = draw(st.one_of(st.just(''), hexbytes(0, 8)))
    elif draw(ints(0, 4)) == 0:
        c['dt'] = ''
    return c


def report_octets(c):
    smsc_ = sms.smsc(None, 0) if c['smsc'] is None else sms.smsc(*c['smsc'])
    r = smsc_ + bytes([c['first'], c['mr']]) + sms.address(*c['ra'])
    r += bytes.fromhex(c['scts']) + bytes.fromhex(c['dt'])
    if c['status'] is not None:
        r += bytes([c['status']]) + bytes.fromhex(c['trail'])
    return r


def read_stamp(h):
    """-> (text, set of local times) or ('', None) when not a valid stamp; None
    when the standard library might read a leap second into it"""
    import datetime as D
    if len(h) < 12:
        return '', None
    d = ''.join(h[i + 1] + h[i] for i in range(0, 12, 2))
    if not d.isdigit():
        return '', None
    y, mo, da, hh, mi, ss = [int(d[i:i + 2]) for i in range(0, 12, 2)]
    if ss in (60, 61):
        return None
    times = set()
    for c in ([2000] if y <= 68 else [1900, 2000]):
        try:
            D.datetime(c + y, mo, da, hh, mi, ss)
            times.add((c + y, mo, da, hh, mi, ss, 0))
        except ValueError:
            pass
    if not times:
        return '', None
    if len(times) == 1 and y > 68:
        return None     # a leap day of one century only
    return '%s/%s/%s %s:%s:%s' % tuple(d[i:i + 2] for i in range(0, 12, 2)), times


# -- cases altered a little ----------------------------------------------------
DELIVER_GROUPS = [('smsc',), ('first',), ('oa', 'alnum', 'plan'), ('pid',), ('alpha', 'dcs', 'payload', 'udh'), ('scts',), ('trail',)]
REPORT_GROUPS = [(k,) for k in ('smsc', 'first', 'mr', 'ra', 'scts', 'dt', 'status', 'trail')]


def fine_address(a):
    return 1 <= len(a[0]) <= 20 and set(a[0]) <= set(DIG) and 0 <= a[1] <= 7 and a[1] != 5 and 0 <= a[2] <= 15


def fine_stamp(f):
    import datetime as D
    try:
        D.datetime(*f[:6])
    except ValueError:
        return False
    return 2000 <= f[0] <= 2068 and -79 <= f[6] <= 79


def is_hex(h):
    return len(h) % 2 == 0 and set(h) <= set('0123456789abcdef')


def fine_deliver(c):
    if c['smsc'] and not fine_address(c['smsc']) or 'oa' in c and not fine_address(c['oa']) and not (c['oa'][0] == '' and c['oa'][1] in (0, 2, 3) and 0 <= c['oa'][2] <= 15) or not fine_stamp(c['scts']):
        return False
    if c['first'] & 0x43 or not 0 <= c['first'] < 256 or not 0 <= c['pid'] <= 255 or c['alpha'] not in DCS or c['dcs'] not in DCS[c['alpha']]:
        return False
    if 'alnum' in c and not (c['alnum'] and gsm.is_gsm(c['alnum']) and len(gsm.encode(c['alnum'])) <= 11 and 0 <= c.get('plan', 0) <= 15):
        return False
    if not is_hex(c['trail']):
        return False
    seen = set()
    for i, d in c['udh'] or ():
        if not 0 <= i <= 255 or i in seen or not is_hex(d) or len(d) // 2 != {0: 3, 8: 4, 4: 2, 5: 4}.get(i, len(d) // 2):
            return False
        seen.add(i)
    if {0, 8} <= seen or {4, 5} <= seen:
        return False
    if c['alpha'] == 'u':
        if any(ord(x) > 0xffff or 0xd800 <= ord(x) < 0xe000 for x in c['payload']):
            return False
    elif not is_hex(c['payload']) or c['alpha'] == '7' and any(x > 127 for x in bytes.fromhex(c['payload'])):
        return False
    udh = None if c['udh'] is None else udh_octets(c['udh'])
    if udh is not None and len(udh) > 139:
        return False
    return len(sms.user_data(c['alpha'], c['payload'] if c['alpha'] == 'u' else bytes.fromhex(c['payload']), udh)[1]) <= 140


def fine_report(c):
    if c['smsc'] and not fine_address(c['smsc']) or not fine_address(c['ra']) or c['first'] & 0x43 != 2 or not 0 <= c['first'] < 256:
        return False
    if not all(is_hex(c[k]) for k in ('scts', 'dt', 'trail')) or len(c['scts']) != 14 or len(c['dt']) not in (0, 14):
        return False
    if c['status'] is None and c['trail'] or c['dt'] == '' and c['status'] is not None:
        return False
    return 0 <= c['mr'] <= 255 and (c['status'] is None or 0 <= c['status'] <= 255)
