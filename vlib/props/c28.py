"""Totality of the MMS decoder"""
import json, os
from hypothesis import strategies as st
from vlib import wsp, mmsgen as mg, fuzz
from vlib.gen import ints, hexbytes
from vlib.runner import Search, Enum, Fuzz
from vlib.scale import ladder, top
from vlib.sut import eq, need, ok, Exc, Mms, HERE

RULE = ('an input is non-trivial when it decodes to a message with at least one part or is refused after its tenth octet; a cut when '
        'the whole message has parts')


@st.composite
def wire_message(draw, most=4):
    h = draw(mg.headers(most=most))
    parts = draw(st.lists(mg.part(st.one_of(ints(0, 12), ints(0, 60))), max_size=4))
    return (bytes.fromhex(h['hex']) + mg.body_octets(parts)).hex()


def outcome(o):
    return o.name if isinstance(o, Exc) else (o.headers, o.ctype, [p.key() for p in o.parts])


def pieces(parts, data):
    """are the parts' data ordered pieces of the input that do not overlap?"""
    at = 0
    for p in parts:
        d = p.data.encode('latin-1')
        i = data.find(d, at)
        if i < 0:
            return False
        at = i + len(d)
    return True


def uintvar(data, i):
    n = 0
    while True:
        n, i = n << 7 | data[i] & 0x7f, i + 1
        if not data[i - 1] & 0x80:
            return n, i


def delimited(parts, data):
    """does a body of exactly these parts' data, by its own length fields, start anywhere in the input?"""
    wanted = [p.data.encode('latin-1') for p in parts]
    for s in range(len(data)):
        try:
            n, i = uintvar(data, s)
            if n != len(parts):
                continue
            for want in wanted:
                hl, i = uintvar(data, i)
                dl, i = uintvar(data, i)
                i += hl + dl
                if i > len(data) or data[i - dl:i] != want:
                    break
            else:
                return True
        except IndexError:
            pass
    return not parts


def verdict(w, out, data):
    a, b = out
    need(isinstance(a, Mms) or isinstance(a, Exc) and not a.isa('AssertionError'), 'decoding %s: %r', data.hex(), a)
    eq(outcome(b), outcome(a), 'second decoding of %s' % data.hex())
    if isinstance(a, Exc):
        return False
    for p in a.parts:
        need(isinstance(p.data, str) and p.len == len(p.data), 'part %r', p)
    need(pieces(a.parts, data), 'the data of the parts of %s are not successive pieces of it: %r', data.hex(), [p.data for p in a.parts])
    need(delimited(a.parts, data), 'the data of the parts of %s are not where its length fields put them: %r', data.hex(),
         [p.data for p in a.parts])
    return bool(a.parts)


def script(data):
    op = ['fn', None, 'W.from_data', [{'hex': data.hex()}]]
    return [op, op]


def check(w, c):
    data = bytes.fromhex(c['hex'])
    return verdict(w, w.script(script(data)), data) or len(data) > 10


@st.composite
def wrong_lengths(draw):
    """a message whose part count, header lengths or data lengths are not those of its parts"""
    parts = draw(st.lists(mg.part(ints(0, 12)), min_size=1, max_size=3))
    near = lambda n: max(0, draw(st.sampled_from([0, n, n, n, n - 1, n + 1, n + 2])))
    out = bytes.fromhex('8c849831008d9084a3') + wsp.uintvar(near(len(parts)))
    for p in parts:
        h, d = bytes.fromhex(p['hex']), bytes.fromhex(p['data'])
        out += wsp.uintvar(near(len(h))) + wsp.uintvar(near(len(d))) + h + d
    return out.hex()


@st.composite
def damaged(draw):
    h = draw(st.one_of(wire_message(), wrong_lengths()))
    for _ in range(draw(ints(0, 4))):
        if not h:
            break
        i = draw(ints(0, len(h) // 2)) * 2
        k = draw(ints(0, 5))
        b = '%02x' % draw(st.one_of(ints(0, 255), st.sampled_from(fuzz.INTERESTING)))
        h = [h[:i] + b + h[i + 2:], h[:i] + b * draw(ints(1, 8)) + h[i:], h[:i], h[:i] + h[i + 2 * draw(ints(1, 12)):],
             h[:i] + h[i // 4 * 2:], h[:i] + draw(wire_message(2)) if draw(ints(0, 3)) == 0 else h][k]
    return {'hex': h}


raw = st.one_of(damaged(), damaged(), damaged(), hexbytes(0, 60).map(lambda h: {'hex': h}),
                hexbytes(0, 40).map(lambda h: {'hex': '8c848d9084a3' + h}))


@st.composite
def cut(draw):
    h = draw(wire_message(2))
    return {'hex': h, 'cut': draw(ints(0, len(h) // 2))}


def cut_ok(whole, part, what):
    """a cut message is refused, or has the first parts of the whole one"""
    need(isinstance(part, (Exc, Mms)), '%s: %r', what, part)
    if isinstance(part, Exc):
        return
    n = len(part.parts)
    need(n <= len(whole.parts) and [p.key() for p in part.parts] == [p.key() for p in whole.parts[:n]],
         '%s yields parts %r, the whole message %r', what, part.parts, whole.parts)


def check_cut(w, c):
    h, k = c['hex'], c['cut']
    whole, part = w.map('W.from_data', [[{'hex': h}], [{'hex': h[:2 * k]}]])
    ok(whole, 'the whole message %s' % h)
    cut_ok(whole, part, 'message %s cut after %d octets' % (h, k))
    return bool(whole.parts)


def message(head, parts=()):
    return (bytes.fromhex(head) + mg.body_octets(parts)).hex()


def plain_part(octets, data):
    return {'hex': octets.hex(), 'data': data.hex()}


PARTS = [plain_part(b'\x83', b'ab\x00\xff'), plain_part(b'\x09\x83\x81\xea\x85abcd\x00', b''),
         plain_part(b'\x9d\x8ea.jpg\x00', b'\x8c\x84'), plain_part(b'application/smil\x00\xb0x\x00X-Foo\x00\x7fbar\x00', b'<smil/>')]
RELATED = '841bb38a3c736d696c3e00896170706c69636174696f6e2f736d696c00'
WHOLE = [message('8c849831008d9084a3', PARTS), message('8c849831008d9089058061403200966100' + RELATED, PARTS[::-1]),
         message('8c849831008d909706ea2b33343600' + '84b3', PARTS[:2])]


def cases(tier):
    for h in WHOLE + corpus():
        yield {'hex': h}


def corpus():
    with open(os.path.join(HERE, 'corpus', 'mms.json')) as f:
        return sorted(json.load(f).values(), key=len)


def check_all_cuts(w, c):
    h = c['hex']
    n = len(h) // 2
    outs = w.map('W.from_data', [[{'hex': h[:2 * k]}] for k in range(n + 1)])
    whole = outs[-1]
    if isinstance(whole, Exc):
        return 1
    for k, o in enumerate(outs):
        cut_ok(whole, o, 'message %s cut after %d octets' % (h, k))
    return n


HEADS = ['8c82983132333400' + '8d9089048061620' + '08a808e02740088058103015180' + '83687474703a2f2f6d6d732f782f3100',
         '8c849831008d9085044d2b3c4a89038061009602eb6100' + '84b3', '8c858d9298310091808681958184a3',
         '8c868d908b61008504503c2b1a9706ea6869e9000095819800', '8c819831008d909281936f6b008b6100',
         '8c808d9097062b333400860180', '87048002045f8781808f828a618000928094819080918184a300', '']


def run_fuzz(w, rnd, n):
    return fuzz.run(w, rnd, n, [bytes.fromhex(s) for s in WHOLE + HEADS + corpus()], script, verdict)


HEAD = '8c849831008d90'
LENGTHS = [
    # what announces a length or a number, between what is before and after it
    ('count', HEAD + '84a3', '01018361'), ('headers', HEAD + '84a301', '018361'), ('data', HEAD + '84a30101', '8361'),
    ('second', HEAD + '84a302' + '01018361' + '01', '8362'), ('type', HEAD + '841f', 'a38a3c736d696c3e0000'),
    ('part type', HEAD + '84a3010a021f', '838a3c3e00000061'), ('from', HEAD + '891f', '802b3300' + '84a300'),
    ('expiry', HEAD + '881f', '810101' + '84a300'), ('subject', HEAD + '961f', 'ea6100' + '84a300')]


def length_cases(tier):
    for name, _, _ in LENGTHS:
        for n in ladder(0, 10 ** 9) + [2 ** k + d for k in (31, 32, 35, 63, 64, 70, 200) for d in (-1, 0, 1)]:
            yield {'in': name, 'n': n}


def check_lengths(w, c):
    a, b = [x[1:] for x in LENGTHS if x[0] == c['in']][0]
    datas = [bytes.fromhex(a) + wsp.uintvar(c['n'], pad) + bytes.fromhex(b) for pad in (0, 1, 9)]
    outs = w.script([op for d in datas for op in script(d)])
    for i, d in enumerate(datas):
        verdict(w, outs[2 * i:2 * i + 2], d)
    return len(datas)


def run_cases(tier):
    for o in range(256):
        for before in ('', HEAD, HEAD + '84a3', HEAD + '84a301', HEAD + '84a30105', HEAD + '841f'):
            yield {'octet': o, 'before': before, 'n': top(tier, 700, 1800)}


def check_runs(w, c):
    """one octet again and again"""
    d = bytes.fromhex(c['before']) + bytes([c['octet']]) * c['n']
    verdict(w, w.script(script(d)), d)
    return 1


ASPECTS = [Enum('lengths', length_cases, check_lengths), Enum('runs', run_cases, check_runs), Search('inputs', raw, check, 1800), Search('cuts', cut(), check_cut, 900), Enum('all_cuts', cases, check_all_cuts),
           Fuzz('coverage', run_fuzz, check, 1000, 60000)]
