"""Reference model of SMS TPDUs (3GPP TS 23.040)."""
import bisect

from vlib import gsm


class Bad(AssertionError):
    pass


def semi(digits):
    """digits -> swapped semi-octets"""
    d = digits + ('F' if len(digits) % 2 else '')
    return bytes(int(d[i + 1] + d[i], 16) for i in range(0, len(d), 2))


def unsemi(octets, ndigits):
    h = ''.join('%x%x' % (o & 15, o >> 4) for o in octets)
    if ndigits % 2 and h[-1] != 'f':
        raise Bad('odd number not filled with F: %s' % h)
    d = h[:ndigits]
    if not d.isdigit() or not d.isascii():
        raise Bad('not digits: %s' % h)
    return d


def bcd(n):
    return (n % 10) << 4 | n // 10


def tz_octet(quarters):
    o = bcd(abs(quarters))
    return o | 0x08 if quarters < 0 else o


def stamp(y, mo, d, h, mi, s, quarters):
    return bytes([bcd(y % 100), bcd(mo), bcd(d), bcd(h), bcd(mi), bcd(s), tz_octet(quarters)])


def address(number, ton, npi=1):
    """TP address of a digit string"""
    return bytes([len(number), 0x80 | ton << 4 | npi]) + semi(number)


def smsc(number, ton, npi=1):
    if number is None:
        return b'\x00'
    body = bytes([0x80 | ton << 4 | npi]) + semi(number)
    return bytes([len(body)]) + body


def alnum_address(name, plan=0):
    septets = gsm.encode(name)
    return bytes([-(-7 * len(septets) // 4), 0xd0 | plan]) + gsm.pack(septets)


def user_data(alphabet, payload, udh=None):
    """-> (UDL, UD).  payload: septets for '7', octets for '8', text for 'u'.
    udh: the information elements' octets, without the header length"""
    head = b'' if udh is None else bytes([len(udh)]) + udh
    if alphabet == '7':
        fill = -(8 * len(head)) % 7
        body = gsm.pack(payload, fill)
        n = (8 * len(head) + fill) // 7 + len(payload)
        return n, head + body
    body = payload if alphabet == '8' else payload.encode('utf-16-be')
    return len(head) + len(body), head + body


def deliver(smsc_, first, oa, pid, dcs, scts, udl, ud):
    return smsc_ + bytes([first]) + oa + bytes([pid, dcs]) + scts + bytes([udl]) + ud


class Reader(object):
    def __init__(self, b):
        self.b, self.i = b, 0

    def take(self, n):
        if self.i + n > len(self.b):
            raise Bad('PDU ends early')
        r = self.b[self.i:self.i + n]
        self.i += n
        return r

    def one(self):
        return self.take(1)[0]

    def rest(self):
        return self.take(len(self.b) - self.i)


def parse_submit(octets):
    """Full strict parse of SMSC + SMS-SUBMIT"""
    r = Reader(octets)
    out = {}
    n = r.one()
    if n:
        body = r.take(n)
        ton = body[0]
        h = ''.join('%x%x' % (o & 15, o >> 4) for o in body[1:])
        digits = h[:-1] if h.endswith('f') else h
        if not (digits.isdigit() and digits.isascii()):
            raise Bad('service centre digits %s' % h)
        out['smsc'] = (ton, digits)
    else:
        out['smsc'] = None
    out['tpdu_len'] = len(octets) - r.i
    first = r.one()
    if first & 3 != 1:
        raise Bad('message type is not SUBMIT: %02x' % first)
    out['first'] = first
    out['mr'] = r.one()
    nd = r.one()
    ton = r.one()
    out['da'] = (ton, unsemi(r.take((nd + 1) // 2), nd))
    out['pid'] = r.one()
    out['dcs'] = r.one()
    vpf = (first >> 3) & 3
    out['vp'] = b'' if vpf == 0 else r.take(1 if vpf == 2 else 7)
    udl = r.one()
    out['udl'] = udl
    ud = r.rest()
    out['ud'] = ud
    if len(ud) > 140:
        raise Bad('user data of %d octets' % len(ud))
    dcs = out['dcs']
    if dcs & 0xc0 != 0:
        raise Bad('coding group %02x' % dcs)
    alpha = {0: '7', 4: '8', 8: 'u'}.get(dcs & 0x0c)
    if alpha is None or dcs & 0x20:
        raise Bad('coding %02x' % dcs)
    out['alpha'] = alpha
    head = 0
    out['udh'] = None
    if first & 0x40:
        if not ud or ud[0] + 1 > len(ud):
            raise Bad('user data header does not fit: %s' % ud.hex())
        out['udh'] = ud[1:1 + ud[0]]
        head = ud[0] + 1
    if alpha == '7':
        if len(ud) != (udl * 7 + 7) // 8:
            raise Bad('%d septets declared, %d octets present' % (udl, len(ud)))
        fill = -(8 * head) % 7
        skip = (8 * head + fill) // 7
        if udl < skip:
            raise Bad('length %d shorter than header' % udl)
        if head and fill and ud[head:] and ud[head] & ((1 << fill) - 1):
            pass    # fill bits may have any value
        out['septets'] = gsm.unpack(ud[head:], udl - skip, fill)
        used = 8 * head + fill + 7 * (udl - skip)
        if int.from_bytes(ud, 'little') >> used:
            raise Bad('unused bits not zero: %s' % ud.hex())
        out['text'] = gsm.decode(out['septets'])
    else:
        if len(ud) != udl:
            raise Bad('%d octets declared, %d present' % (udl, len(ud)))
        body = ud[head:]
        out['text'] = body.decode('latin-1') if alpha == '8' else body.decode('utf-16-be')
    return out


def elements(udh):
    """user data header octets -> [(iei, data)]"""
    r = Reader(udh)
    out = []
    while r.i < len(udh):
        iei = r.one()
        out.append((iei, r.take(r.one())))
    return out


def vp_minutes(v):
    if v <= 143:
        return (v + 1) * 5
    if v <= 167:
        return 12 * 60 + (v - 143) * 30
    if v <= 196:
        return (v - 166) * 24 * 60
    return (v - 192) * 7 * 24 * 60


VP_TABLE = [vp_minutes(v) for v in range(256)]


_BY_MIN = {}
for _v, _m in enumerate(VP_TABLE):
    _BY_MIN.setdefault(_m, set()).add(_v)
_MINS = sorted(_BY_MIN)


def best_vp(delta_us):
    """longest representable period not above the requested microseconds;
    the set of values denoting it"""
    return _BY_MIN[_MINS[bisect.bisect_right(_MINS, delta_us // (60 * 10**6)) - 1]]


def greedy_parts(units, size):
    """fewest parts when a unit (1 or 2 septets) is never split"""
    parts = fill = 0
    for n in units:
        if parts == 0 or fill + n > size:
            parts += 1
            fill = 0
        fill += n
    return parts
