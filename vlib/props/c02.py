"""Septet packing"""
from hypothesis import strategies as st
from vlib import gen, gsm, near, sms, submit
from vlib.gen import ints, recipe, build
from vlib.runner import Search, Enum
from vlib.sut import eq, need, Violation, ok

RULE = 'a case is non-trivial when the septets or octets are not all zero'


def septets(lo, hi):
    one = st.one_of(ints(0, 127), st.sampled_from([0, 127, 0x1b, 0x40, 1, 0x0d, 0x20]))
    return st.one_of(st.lists(one, min_size=lo, max_size=hi),
                     ints(lo, hi).flatmap(lambda n: st.lists(one, min_size=n, max_size=n)),
                     st.sampled_from(range(lo, hi + 1)).flatmap(
                         lambda n: st.tuples(one, one).map(lambda p: ([p[0]] * max(0, n - 1) + [p[1]])[:n]))
                     ).map(lambda v: bytes(v).hex())


def check_pack(w, h):
    s = bytes.fromhex(h)
    out = ok(w.fn('utils.pack_8bits_to_7bits', {'hex': h}), 'packing')
    want = bytes([len(s)]) + gsm.pack(s)
    eq(out.lower(), want.hex(), 'packing the septets %s' % h)
    body = want[1:].hex()
    for name, arg in (('unpack_msg', {'s': body}), ('unpack_msg', {'s': body.upper()}),
                      ('unpack_msg2', {'arr': body}), ('unpack_msg2', {'ints': body})):
        got = ok(w.fn('utils.' + name, arg), name)
        eq(got[:len(s)], s.decode('latin-1'), '%s of the packed %s' % (name, h))
    return any(s)


def check_unpack(w, h):
    d = bytes.fromhex(h)
    want = gsm.unpack(d, len(d) * 8 // 7).decode('latin-1')
    for name, arg in (('unpack_msg', {'s': h}), ('unpack_msg', {'s': h.upper()}),
                      ('unpack_msg2', {'arr': h}), ('unpack_msg2', {'ints': h})):
        eq(w.fn('utils.' + name, arg), want, '%s(%s)' % (name, h))
    return any(d)


def length_cases(tier):
    for n in range(0, 161):
        yield {'n': n}


def check_lengths(w, c):
    n = c['n']
    pats = [bytes([127] * n), bytes([0] * n), bytes([(37 * i + n) & 127 for i in range(n)])]
    if n:
        pats += [bytes([0] * (n - 1) + [127]), bytes([127] + [0] * (n - 1))]
    for p in pats:
        check_pack(w, p.hex())
    if n <= 140:
        for p in (bytes([255] * n), bytes([(91 * i + n) & 255 for i in range(n)])):
            check_unpack(w, p.hex())
    return len(pats)


def check_headed(w, c):
    """septets of the parts of a split message lie after a 6-octet header"""
    t = build(c)
    if len(gsm.encode(t)) <= 160 or not gsm.is_gsm(t):
        return False
    out = w.script([['new', 'm', 'SmsSubmit', [{'s': '12345'}, {'u': t}]], ['set', 'm', 'fmt', 0],
                    ['call', None, 'm', 'to_pdu', []]])
    got = b''
    for p in ok(out[2], 'encoding'):
        r = submit.parse(p, 'part')
        need(r['udh'] is not None and len(r['udh']) == 5, 'no 6-octet header in %s', p.pdu)
        want_udl, want_ud = sms.user_data('7', r['septets'], r['udh'])
        eq((r['udl'], r['ud'].hex()), (want_udl, want_ud.hex()), 'user data of a part')
        got += r['septets']
    eq(got.hex(), gsm.encode(t).hex(), 'septets of the parts')
    return True


def seven(h):
    return gen.is_hex(h) and all(x < 128 for x in bytes.fromhex(h))


ASPECTS = [
    Enum('lengths', length_cases, check_lengths),
    Search('pack', septets(0, 160), check_pack, 800),
    Search('unpack', st.one_of(st.binary(max_size=140), ints(100, 140).flatmap(
        lambda n: st.binary(min_size=n, max_size=n))).map(bytes.hex), check_unpack, 800),
    Search('near_septets', near.pairs(septets(0, 160), fine=seven), near.check(check_pack), 300),
    Search('near_octets', near.pairs(st.binary(max_size=140).map(bytes.hex), fine=gen.is_hex), near.check(check_unpack), 300),
    Search('after_header', recipe('7', (160, 153)), check_headed, 400),
]
