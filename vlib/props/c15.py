"""PDU text handling and reuse"""
from hypothesis import strategies as st
from vlib import gen
from vlib.gen import ints
from vlib.runner import Search, Enum
from vlib.scale import ladder, top
from vlib.sut import eq, need, ok, Exc

RULE = ('a case is non-trivial when the text has letters among its digits (case), when it is refused (odd, type, '
        'text), or when at least two PDUs of different shape were accepted (reuse)')
KEEP = ('csca', 'number', 'text', 'date', 'pid', 'dcs', 'fmt', 'type', 'mtype', 'sr', 'udh', 'data')


@st.composite
def any_pdu(draw):
    if draw(ints(0, 2)):
        return gen.deliver_octets(draw(gen.deliver(trailing=True))).hex()
    return gen.report_octets(draw(gen.report())).hex()


def same(a, b, what):
    if isinstance(a, Exc) or isinstance(b, Exc):
        need(isinstance(a, Exc) and isinstance(b, Exc), '%s: %r, expected %r', what, a, b)
        return
    for k in KEEP:
        eq(a[k], b[k], '%s: attribute %s' % (what, k))


@st.composite
def mixed(draw):
    h = draw(any_pdu())
    r = draw(st.randoms(use_true_random=False))
    return [h, ''.join(r.choice((c.lower(), c.upper())) for c in h)]


def check_case(w, c):
    h, m = c
    forms = [{'s': h}, {'s': h.upper()}, {'u': m}, {'s': m}]
    out = w.map('W.deliver', [[f] for f in forms])
    for o in out:
        same(o, out[0], 'another letter case of %s' % h)
        ok(o, 'decoding')
    return h != h.upper()


@st.composite
def odd(draw):
    return [draw(any_pdu()), draw(st.sampled_from('0123456789abcdefABCDEF'))]


def check_odd(w, c):
    h, extra = c
    strict, loose, even, reuse = w.script([
        ['fn', None, 'W.deliver', [{'s': h + extra}]], ['fn', None, 'W.deliver', [{'s': h + extra}, False]],
        ['fn', None, 'W.deliver', [{'s': h}, False]], ['fn', None, 'W.deliver', [{'s': h}, True]]])
    need(isinstance(strict, Exc) and strict.isa('ValueError'), 'odd PDU %s: %r instead of ValueError', h + extra, strict)
    same(ok(loose, 'non-strict decoding'), ok(reuse, 'decoding'), 'odd PDU without its last digit')
    same(even, reuse, 'even PDU in non-strict mode')


@st.composite
def submit_type(draw):
    c = draw(gen.deliver())
    c['first'] |= 1
    return c


def check_type(w, c):
    h = gen.deliver_octets(dict(c, first=c['first'] & ~2 | 1)).hex()
    out = w.fn('W.deliver', {'s': h})
    need(isinstance(out, Exc) and out.isa('ValueError'), 'submit-type PDU %s: %r instead of ValueError', h, out)


SPACE = ' \t\n\r\x0b\x0c\x00\x1a\x1c\x1f\x85\xa0\u2028\u3000\ufeff'
ALIENS = 'gGzZ xXlLoO+-_.,;:/@`~\n\r\t\x00\'"é٣０²ÿ'


@st.composite
def not_hex(draw):
    h = draw(any_pdu())
    if draw(ints(0, 4)) == 0:
        # white space and the like around the PDU, the number of digits still even
        a, b = draw(st.sampled_from([(0, 2), (1, 1), (2, 0), (1, 0), (0, 4), (2, 2)]))
        return draw(st.text(st.sampled_from(SPACE), min_size=a, max_size=a)) + h + draw(st.text(st.sampled_from(SPACE), min_size=b, max_size=b))
    n = draw(ints(1, 3))
    for _ in range(n):
        i = draw(ints(0, len(h) - 1))
        h = h[:i] + draw(st.one_of(st.sampled_from(ALIENS), st.characters(max_codepoint=0x2fff, exclude_categories=['Cs']).filter(
            lambda c: c not in '0123456789abcdefABCDEF'))) + h[i + 1:]
    return h


def check_not_hex(w, h):
    out = w.script([['fn', None, 'W.deliver', [{'u': h}]], ['fn', None, 'W.deliver', [{'u': h}, False]]])
    for o in out:
        need(isinstance(o, Exc) and o.isa('ValueError'), 'text %r: %r instead of ValueError', h, o)


@st.composite
def bad(draw):
    h = draw(any_pdu())
    k = draw(ints(0, 3))
    if k == 0:
        return h[:2 * draw(ints(0, len(h) // 2))]
    if k == 1:
        return h + 'a'
    if k == 2:
        return 'zz' + h
    i = draw(ints(0, len(h) // 2 - 1)) * 2
    return h[:i] + '%02x' % draw(ints(0, 255)) + h[i + 2:]


reuse = st.tuples(any_pdu(), gen.history(any_pdu(), any_pdu(), bad(), hi=6), st.booleans())


def check_reuse(w, c):
    first, seq, strict = c
    script = [['new', 'd', 'SmsDeliver', [{'s': first}, strict]]]
    at = []
    for h in seq:
        at.append((len(script), h))
        script += [['set', 'd', 'pdu', {'s': h}], ['attrs', 'd'], ['get', 'd', 'pdu'],
                   ['new', 'f', 'SmsDeliver', [{'s': h}, strict]], ['attrs', 'f'], ['get', 'f', 'pdu']]
    out = w.script(script)
    ok(out[0], 'decoding')
    done = set()
    for i, h in at:
        if isinstance(out[i + 3], Exc):
            need(isinstance(out[i], Exc), 'assigning %s is accepted, a new object refuses it: %r', h, out[i + 3])
            done.add('bad')
            continue
        ok(out[i], 'assigning %s' % h)
        same(out[i + 1], out[i + 4], 'after assigning %s' % h)
        eq(out[i + 2], out[i + 5], 'attribute pdu')
        done.add((out[i + 1]['type'], out[i + 1]['udh'] is None))
    return len(done) > 1


def size_cases(tier):
    for al, payload in (('7', '7f417c3c'), ('8', '00ff41'), ('u', '04160041')):
        for n in ladder(0, top(tier, 20000, 200000)):
            yield {'alpha': al, 'payload': payload, 'n': n}


def check_size(w, c):
    """octets after the message, to any number"""
    b = {'smsc': None, 'first': 0, 'pid': 0, 'dcs': gen.DCS[c['alpha']][0], 'alpha': c['alpha'], 'scts': [2010, 3, 4, 5, 6, 7, 8],
         'oa': ['1234', 0, 1], 'trail': '', 'udh': None, 'payload': c['payload']}
    bare = gen.deliver_octets(b).hex()
    h = bare + ''.join('%02x' % (i * 37 % 256) for i in range(c['n']))
    out = w.script([['fn', None, 'W.deliver', [f]] for f in (
        {'s': bare}, {'s': h}, {'s': h.upper()}, {'u': h})])
    ok(out[0], 'decoding %s' % bare)
    eq(out[0]['text'], gen.deliver_text(b), 'text')
    for o in out[1:]:
        same(o, out[0], 'followed by %d octets' % c['n'])
    strict, loose, alien, space = w.script([['fn', None, 'W.deliver', a] for a in (
        [{'s': h + 'A'}], [{'s': h + 'A'}, False], [{'s': h[:-1] + 'g'}], [{'s': h + ' \n'}])])
    same(loose, out[0], 'and an odd digit')
    for o in (strict, alien, space):
        need(isinstance(o, Exc) and o.isa('ValueError'), '%d octets after the message: %r instead of ValueError', c['n'], o)
    return 8


ASPECTS = [
    Enum('sizes', size_cases, check_size),
    Search('case', mixed(), check_case, 600),
    Search('odd', odd(), check_odd, 480),
    Search('submit_type', submit_type(), check_type, 320),
    Search('not_hexadecimal', not_hex(), check_not_hex, 800),
    Search('reuse', reuse, check_reuse, 600),
]
