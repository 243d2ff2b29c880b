"""Value decoders that refuse their input"""
from hypothesis import strategies as st
from vlib import wsp
from vlib.gen import ints
from vlib.runner import Search, Enum
from vlib.sut import eq, need, ok, Exc

RULE = 'an input is non-trivial when a decoder has to refuse it; every enumerated pair of decoder and first octet counts'
SEP = (11, 32, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64, 91, 92, 93, 123, 125)
UNSURE = {34, 127} | set(range(128, 256))
# whether the decoder must accept a first octet (None: unspecified)
STARTS = {
    'decode_short_integer': lambda o: o >= 128,
    'decode_long_integer': lambda o: o <= 30,
    'decode_short_length': lambda o: o <= 30,
    'decode_value_length': lambda o: o <= 31,
    'decode_integer_value': lambda o: o <= 30 or o >= 128,
    'decode_delta_seconds_value': lambda o: o <= 30 or o >= 128,
    'decode_quoted_string': lambda o: o == 34,
    'decode_token_text': lambda o: False if o <= 31 or o in SEP else None if o in UNSURE else True,
    'decode_extension_media': lambda o: o >= 32 and o != 127,
    'decode_no_value': lambda o: o == 0,
    'mms:decode_boolean_value': lambda o: o in (128, 129),
    'mms:decode_priority_value': lambda o: o in (128, 129, 130),
    'mms:decode_sender_visibility_value': lambda o: o in (128, 129),
    'mms:decode_mms_header': lambda o: None if 0x81 <= o <= 0x98 else False,
}


def judge(w, pairs):
    """pairs of decoder and octets"""
    refused = 0
    for (name, b), (got, prev, rest) in zip(pairs, wsp.prims(w, pairs)):
        if not b:
            need(isinstance(got, Exc), '%s of nothing gives %r', name, got)
            continue
        valid = STARTS[name](b[0])
        no = isinstance(got, Exc) and got.isa('DecodeError')
        if valid is True:
            need(not no, '%s refuses %s: %r', name, b.hex(), got)
        if valid is False:
            need(no, '%s of %s: %r instead of DecodeError', name, b.hex(), got)
        if no and not (name == 'mms:decode_mms_header' and valid is None):
            refused += 1
            need(prev == b[0], '%s refuses %s, after which a preview gives %r', name, b.hex(), prev)
            need(rest == b, '%s refuses %s, after which %s is left', name, b.hex(), rest.hex())
        elif not isinstance(got, Exc):
            need(b.endswith(rest) and len(rest) < len(b), '%s of %s leaves %s', name, b.hex(), rest.hex())
            need(prev == (rest[0] if rest else None), '%s of %s: preview shows %r, left is %s', name, b.hex(), prev, rest.hex())
    return refused


TAILS = [b'', b'\x00', b'abc\x00\x81', bytes(range(1, 41)) + b'\x00', b'\xff\x00\x80', bytes([31, 31, 0])]


def cases(tier):
    for n in sorted(STARTS):
        for a in range(0, 256, 64):
            yield {'name': n, 'from': a, 'to': a + 64}


def check_starts(w, c):
    pairs = [(c['name'], bytes([o]) + t) for o in range(c['from'], c['to']) for t in TAILS]
    judge(w, pairs)
    return len(pairs)


def split(c):
    return [dict(c, **{'from': o, 'to': o + 1}) for o in range(c['from'], c['to'])]


octets = st.one_of(st.binary(max_size=12), st.builds(lambda a, b: bytes([a]) + b, st.one_of(
    ints(28, 34), ints(126, 132), ints(0, 255)), st.binary(max_size=40)))


def check_random(w, h):
    b = bytes.fromhex(h)
    return judge(w, [(n, b) for n in sorted(STARTS)]) > 0


@st.composite
def streams(draw):
    """values one after another, and the decoders that are tried on them"""
    b = b''.join(draw(st.lists(st.one_of(octets, st.sampled_from(TAILS), st.sampled_from([b'\x00', b'\x81', b'abc\x00', b'"q\x00', b'\x02\x01\x00', b'\x1f\x05'])),
                               min_size=1, max_size=5)))
    return {'hex': b.hex(), 'steps': draw(st.lists(st.one_of(st.sampled_from(sorted(STARTS)), st.sampled_from(['next', 'look'])), min_size=2, max_size=14))}


def check_streams(w, c):
    """decoders tried on one stream, refused again and again, against each on what is left"""
    rest, wanted, refused = bytes.fromhex(c['hex']), [], 0
    steps = []
    for s in c['steps']:
        if s in ('next', 'look'):
            if not rest:
                break
            wanted.append(rest[0])
            rest = rest[s == 'next':]
        else:
            (got, _, left), = wsp.prims(w, [(s, rest)])
            if isinstance(got, Exc):
                if not rest or STARTS[s](rest[0]) is not False:
                    break
                refused += 1
                left = rest
            wanted.append(got)
            rest = left
        steps.append(s)
    out = ok(w.fn('W.prim_steps', {'hex': c['hex']}, [{'s': s} for s in steps]), 'decoding')
    for i, (o, want) in enumerate(zip(out['steps'], wanted)):
        got = wsp.result(o) if isinstance(o, str) else o
        need(got == want, 'step %d of %r on %s: %r, expected %r', i, steps, c['hex'], got, want)
    eq(bytes(out['rest']), rest, 'what %r leave of %s' % (steps, c['hex']))
    return refused > 1


ASPECTS = [Enum('first_octets', cases, check_starts, split), Search('streams', streams(), check_streams, 600), Search('octets', octets.map(bytes.hex), check_random, 800)]
