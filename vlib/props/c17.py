"""WSP integers and lengths"""
from hypothesis import strategies as st
from vlib import wsp
from vlib.gen import ints
from vlib.runner import Search, Enum
from vlib.sut import eq, need, ok, Exc

RULE = 'every enumerated integer counts; a random case is non-trivial when its integer is above 127'
E = 'wsp_pdu.Encoder.encode_'
MAXI = 2**31 - 1
TAIL = b'\x81\x00'


def encode(w, kind, values):
    return w.map(E + kind, [[v] for v in values])


def same(w, kind, values, ref, decoder=None):
    out = encode(w, kind, values)
    for v, o in zip(values, out):
        need(ok(o, '%s(%r)' % (kind, v)) == list(ref(v)), 'encode_%s(%r) is %r, expected %r', kind, v, o, list(ref(v)))
    wsp.many(w, [('decode_' + (decoder or kind), ref(v), v, t) for v in values for t in (TAIL, b'')])


def refused(w, kind, values):
    for v, o in zip(values, encode(w, kind, values)):
        need(isinstance(o, Exc) and o.isa('EncodeError'), 'encode_%s(%r): %r instead of EncodeError', kind, v, o)


def all_forms(w, values):
    same(w, 'uint_var', values, wsp.uintvar)
    same(w, 'value_length', values, wsp.value_length)
    same(w, 'integer_value', values, wsp.integer)
    pos = [v for v in values if v]
    same(w, 'long_integer', pos, wsp.long)
    for kind, top in (('short_integer', 127), ('short_length', 30)):
        ref = wsp.short if top == 127 else lambda v: bytes([v])
        same(w, kind, [v for v in values if v <= top], ref)
        refused(w, kind, [v for v in values if v > top])
    same(w, 'uint_8', [v for v in values if v < 256], lambda v: bytes([v]))


EDGES = sorted({max(0, min(MAXI, (1 << k) + d)) for k in range(32) for d in (-2, -1, 0, 1, 2)})


def cases(tier):
    for a in range(0, 2**17 if tier == 'thorough' else 8192, 512):
        yield {'from': a, 'to': a + 512}
    for i in range(0, len(EDGES), 20):
        yield {'edges': [i, i + 20]}
    yield {'neg': 1}


def check_enum(w, c):
    if 'neg' in c:
        neg = [-1, -2, -127, -128, -129, -256, -65536, -2**31]
        for kind in ('short_integer', 'short_length', 'integer_value', 'long_integer', 'uint_var', 'value_length'):
            refused(w, kind, neg)
        bad = [None, {'s': ''}, {'s': '5'}, {'u': '12'}, {'f': '1.0'}, {'f': '200.5'}, [], [1], {'dict': []}, {'obj': 0}]
        for kind in ('integer_value', 'long_integer'):
            refused(w, kind, bad)
        zero = ok(w.fn(E + 'long_integer', 0), 'encode_long_integer(0)')
        wsp.decoded(w, 'decode_long_integer', bytes(zero), 0, TAIL)
        return 40
    vals = list(range(c['from'], c['to'])) if 'from' in c else EDGES[slice(*c['edges'])]
    all_forms(w, vals)
    return len(vals) * 5


def split(c):
    if 'from' in c:
        return [{'from': v, 'to': v + 1} for v in range(c['from'], c['to'])]
    return [{'edges': [i, i + 1]} for i in range(*c['edges'])] if 'edges' in c else []


value = st.one_of(ints(0, MAXI), st.sampled_from(EDGES), ints(0, 31).flatmap(lambda k: ints(0, (1 << k) - 1 if k else 0)))


def check_value(w, v):
    all_forms(w, [v])
    return v > 127


@st.composite
def wire(draw):
    bits = draw(st.sampled_from([7, 8, 14, 16, 24, 31, 32, 33, 40, 63, 64, 65, 100, 239]))
    n = draw(ints(0, (1 << bits) - 1))
    return {'n': str(n), 'pad': draw(ints(0, 6)), 'tail': draw(st.binary(max_size=4)).hex()}


def check_wire(w, c):
    n, pad, tail = int(c['n']), c['pad'], bytes.fromhex(c['tail'])
    size = max(1, (n.bit_length() + 7) // 8)
    cases = [('decode_uint_var', wsp.uintvar(n, pad), n, tail)]
    if size + pad <= 30:
        cases += [(d, wsp.long(n, size + pad), n, tail) for d in ('decode_long_integer', 'decode_integer_value', 'decode_delta_seconds_value')]
    if n <= 127:
        cases += [(d, wsp.short(n), n, tail) for d in ('decode_integer_value', 'decode_short_integer', 'decode_delta_seconds_value')]
    cases.append(('decode_value_length', wsp.value_length(n, True, pad), n, tail))
    if n <= 30:
        cases += [(d, bytes([n]), n, tail) for d in ('decode_value_length', 'decode_short_length')]
    cases.append(('decode_uint_8', bytes([n & 255]), n & 255, tail))
    wsp.many(w, cases)
    return n > 127


ASPECTS = [Enum('enumerated', cases, check_enum, split), Search('values', value, check_value, 400),
           Search('wire_forms', wire(), check_wire, 1200)]
