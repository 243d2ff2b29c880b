"""Totality of the SMS decoder"""
from hypothesis import strategies as st
from vlib import gen, gsm, fuzz
from vlib.gen import ints
from vlib.runner import Search, Enum, Fuzz
from vlib.scale import ladder, top
from vlib.sut import eq, need, ok, Exc, DT
from vlib.props.c15 import any_pdu, KEEP

RULE = ('a text is non-trivial when it is hexadecimal of more than 10 digits; a cut is non-trivial when it leaves part of '
        'the user data; a fuzzed input when it reaches a new pair of lines or is longer than 8 octets')


def fields(o):
    return o.name if isinstance(o, Exc) else {k: o[k] for k in KEEP}


def check_text(w, c):
    t, strict = c
    a, b = w.script([['fn', None, 'W.deliver', [{'u': t}, strict]], ['fn', None, 'W.deliver', [{'u': t}, strict]]], quiet=True)
    eq(fields(b), fields(a), 'second outcome of %r' % t)
    return len(t) > 10 and all(ch in '0123456789abcdefABCDEF' for ch in t)


@st.composite
def damaged(draw):
    h = draw(any_pdu())
    for _ in range(draw(ints(0, 4))):
        if not h:
            break
        i = draw(ints(0, len(h) // 2)) * 2
        k = draw(ints(0, 4))
        b = '%02x' % draw(st.one_of(ints(0, 255), st.sampled_from(fuzz.INTERESTING)))
        h = [h[:i] + b + h[i + 2:], h[:i] + b * draw(ints(1, 8)) + h[i:], h[:i], h[:i] + h[i + 2 * draw(ints(1, 12)):],
             h[:i] + h[i // 4 * 2:]][k]
    return h


texts = st.one_of(damaged(), damaged(), st.text(st.sampled_from('0123456789abcdefABCDEF'), max_size=400),
                  st.binary(max_size=60).map(bytes.hex), st.text(st.characters(exclude_categories=['Cs']), max_size=40),
                  gen.hexbytes(20, 200))


@st.composite
def cut(draw):
    c = draw(gen.deliver())
    head, tail = gen.deliver_parts(c)
    n = len(head) + len(tail)
    return {'c': c, 'cut': draw(st.one_of(ints(0, n - 1), ints(len(head), n - 1)))}


def prefix_ok(got, full):
    if not isinstance(got, str):
        return False
    return full.startswith(got) or got.endswith(gsm.NBSP) and full.startswith(got[:-1])


def check_cut(w, case):
    c, k = case['c'], case['cut']
    head, tail = gen.deliver_parts(c)
    h = (head + tail)[:k].hex()
    a, whole = w.script([['fn', None, 'W.deliver', [{'s': h}]], ['fn', None, 'W.deliver', [{'s': (head + tail).hex()}]]], quiet=True)
    ok(whole, 'the whole message')
    if k <= len(head):
        need(isinstance(a, Exc), 'message cut after %d octets, before its user data, decodes to %r', k, a)
        return False
    if isinstance(a, Exc):
        return True
    for f in ('csca', 'number', 'pid', 'dcs', 'fmt', 'date', 'type', 'sr'):
        eq(a[f], whole[f], 'field %s of a message cut after %d octets' % (f, k))
    full = gen.deliver_text(c)
    need(prefix_ok(a['text'], full), 'text %r of a message cut after %d octets is no prefix of %r', a['text'], k, full)
    return True


def cut_cases(tier):
    for al in '78u':
        for udh in (None, [[0, '010201']], [[5, '0b8423f0'], [0, '050302']]):
            yield {'alpha': al, 'udh': udh}


def check_all_cuts(w, c):
    m = {'smsc': ['3460000', 1, 1], 'first': 4, 'pid': 0, 'dcs': gen.DCS[c['alpha']][0], 'scts': [2012, 2, 29, 1, 2, 3, 4],
         'oa': ['34612', 1, 1], 'payload': 'añ€жz€' if c['alpha'] == 'u' else '611b65621b3c3e001b', 'trail': ''}
    m.update(c)
    a, b = gen.deliver_parts(m)
    n = len(a) + len(b)
    for k in range(n):
        check_cut(w, {'c': m, 'cut': k})
    return n


def fuzz_script(data):
    op = ['fn', None, 'W.deliver', [{'s': data.hex()}]]
    return [op, op]


def fuzz_verdict(w, out, data):
    eq(fields(out[1]), fields(out[0]), 'second outcome of %s' % data.hex())
    need(not w.printed, 'prints %r', w.printed)


def run_fuzz(w, rnd, n):
    seeds = [bytes.fromhex(x) for x in (
        '07914356060013F1065A098136397339F7219011700463802190117004638030',
        '07911326040000F0040B911346610089F60000208062917314080CC8F71D14969741F977FD07',
        '07913306001000F0040B913306000000F10008909070800300400C0041006C00620065007200740000',
        '07911614220991F1040B9117364513F100009030309145400A' + '0A050003210201C8329BFD6681',
        '07914306073011F0040B914316709807F2000490304000000016' + '0B05040B8423F00003010101' + '0006' * 5,
        '0004040dd0e8f4f87cf6e9eb0000' + '99309251619580' + '03c8309a', '')]
    return fuzz.run(w, rnd, n, seeds, fuzz_script, fuzz_verdict)


def check_fuzz(w, c):
    data = bytes.fromhex(c['hex'])
    fuzz_verdict(w, w.script(fuzz_script(data), quiet=True), data)


BEFORE = ('', '00', '0004', '000404a12143', '000404a121430000' + '99309251619580', '004404a121430000' + '99309251619580' + 'ff',
          '004404a121430008' + '99309251619580' + '8c', '0006', '000604a12143', '07911326040000F0')


def run_cases(tier):
    for o in range(256):
        for b in BEFORE:
            yield {'before': b, 'octet': o, 'n': top(tier, 400, 5000)}


def check_runs(w, c):
    """one octet again and again"""
    for strict, odd in ((True, ''), (False, '0')):
        check_text(w, [c['before'] + '%02x' % c['octet'] * c['n'] + odd, strict])
    return 2


def garbage_cases(tier):
    for n in ladder(1, top(tier, 10000, 200000)):
        for t in ('a', 'G', ' ', '\u0663', '\x00'):
            yield {'text': t, 'n': n}


def check_garbage(w, c):
    for strict in (True, False):
        check_text(w, [c['text'] * c['n'], strict])
    return 2


ASPECTS = [
    Enum('runs', run_cases, check_runs), Enum('garbage', garbage_cases, check_garbage),
    Search('texts', st.tuples(texts, st.booleans()), check_text, 1400),
    Search('cuts', cut(), check_cut, 1000),
    Enum('all_cuts', cut_cases, check_all_cuts),
    Fuzz('coverage', run_fuzz, check_fuzz, 800, 60000),
]
