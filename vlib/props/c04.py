"""Alphabet choice and splitting"""
from hypothesis import strategies as st
from vlib import gsm, near, snips, submit
from vlib.gen import recipe, build, ints, gsm_chars, text_chars, bmp_text, gsm_text, FMT, RUNS
from vlib.runner import Search, Enum
from vlib.sut import eq, need, ok, Exc

RULE = ('a case is non-trivial when the text is within 10 units of a part boundary, is split, or has a character '
        'that needs an escape pair or UCS2')


def run(w, text, fmt):
    # octets are given as a byte string or as the characters of their values
    arg = {'s': text} if fmt == 4 and len(text) % 2 else {'u': text}
    out = w.script([['new', 'm', 'SmsSubmit', [{'s': '+34600123456'}, arg]], ['set', 'm', 'fmt', fmt],
                    ['call', None, 'm', 'to_pdu', []]])
    return ok(out[2], 'encoding')


def verify(w, text, fmt):
    return compare(run(w, text, fmt), text, fmt)


def compare(pdus, text, fmt):
    a = {'text': text, 'fmt': fmt}
    n = submit.want_parts(a)
    eq(len(pdus), n, 'number of parts')
    got = []
    for p in pdus:
        r = submit.parse(p, 'part')
        eq(r['alpha'], submit.alpha_of(a), 'alphabet')
        need((r['udh'] is not None) == (n > 1), 'header in a message of %d parts: %r', n, r['udh'])
        got.append(r['text'])
    eq(''.join(got), text, 'text of the parts put together')
    al = submit.alpha_of(a)
    units = len(gsm.encode(text)) if al == '7' else len(text)
    return n > 1 or units >= submit.CAPS[al][0] - 10 or al == 'u' or al == '7' and units > len(text)


def check_short(w, c):
    return verify(w, c['text'], c['fmt'])


@st.composite
def short(draw):
    fmt = draw(st.sampled_from([None, None, None, 8, 0]))
    t = draw(st.one_of(gsm_text(0, 80), bmp_text(0, 75))) if fmt != 0 else draw(gsm_text(0, 200))
    return {'text': t, 'fmt': fmt}


def check_long(w, c):
    return verify(w, build(c['recipe']), c['fmt'])


@st.composite
def long(draw, alpha, big):
    return {'recipe': draw(recipe(alpha, submit.CAPS[alpha], big)),
            'fmt': 4 if alpha == '8' else draw(st.sampled_from([None, FMT[alpha]]))}


@st.composite
def unfit(draw):
    """a text with characters that the chosen format cannot hold"""
    fmt = draw(st.sampled_from([0, 4]))
    bad = draw(bmp_text(1, 4).map(lambda t: ''.join(c for c in t if not (gsm.is_gsm(c) if fmt == 0 else ord(c) < 256))).filter(bool))
    a = draw(gsm_text(0, 20) if fmt == 0 else st.text(st.characters(max_codepoint=255), max_size=20)) * draw(st.sampled_from([1, 1, 30]))
    i = draw(ints(0, len(a)))
    return {'text': a[:i] + bad + a[i:], 'fmt': fmt}


def check_unfit(w, c):
    t = c['text']
    out = w.script([['new', 'm', 'SmsSubmit', [{'s': '123'}, {'u': t}]], ['set', 'm', 'fmt', c['fmt']], ['call', None, 'm', 'to_pdu', []],
                    ['get', 'm', 'text', None], ['set', 'm', 'fmt', 8], ['call', None, 'm', 'to_pdu', []]])
    need(isinstance(out[2], Exc) and out[2].isa('ValueError'), 'text %r in format %d: %r instead of ValueError', t, c['fmt'], out[2])
    eq(out[3], t, 'text after the refusal')
    eq(''.join(submit.parse(p, 'part')['text'] for p in ok(out[5], 'encoding as UCS2')), t, 'text encoded as UCS2 after the refusal')
    return True


@st.composite
def alike(draw):
    """two texts, the second of which is the first with a character changed, left out or put in"""
    al = draw(st.sampled_from('78u'))
    if draw(st.booleans()):
        a = {'text': draw(short().filter(lambda c: c['fmt'] is None).map(lambda c: c['text'])), 'fmt': None}
    else:
        a = dict(draw(long(al, 8)), text=None)
        a['text'] = build(a.pop('recipe'))
    t, fmt = a['text'], a['fmt']
    i = draw(st.one_of(ints(0, len(t)), st.sampled_from([len(t), len(t) - 1, 0, 152, 153, 159, 160]).map(lambda n: max(0, min(n, len(t))))))
    new = draw(st.sampled_from({None: 'a{@\u20ac\u0444\xe9 ', 0: 'a{@ \xe9', 4: 'a{\xff', 8: 'a{\u0444'}[fmt]))
    t = t[:i] + draw(st.sampled_from(['', new, new])) + t[i + draw(ints(0, 1)):]
    return [a, {'text': t, 'fmt': fmt}]


@st.composite
def reused(draw):
    fmt = draw(st.sampled_from([None, None, None, 0, 4, 8]))
    al = {0: '7', 4: '8', 8: 'u'}.get(fmt) or draw(st.sampled_from('77u'))
    return {'recipe': draw(recipe(al, submit.CAPS[al])), 'short': draw(st.one_of(st.none(), ints(0, 80))), 'fmt': fmt,
            'likes': draw(st.lists(submit.likes, min_size=1, max_size=5))}


def check_reused(w, c):
    """one object sends texts that have something in common"""
    t, fmt = build(c['recipe']), c['fmt']
    if c['short'] is not None:
        t = t[:c['short']]
    arg = lambda t: {'s': t} if fmt == 4 else {'u': t}
    texts, ops = [t], [['new', 'm', 'SmsSubmit', [{'s': '+34600123456'}, arg(t)]], ['set', 'm', 'fmt', fmt], ['call', None, 'm', 'to_pdu', []]]
    for _, k, n in c['likes']:
        t = submit.like(t, fmt, k, n)
        texts.append(t)
        ops += [['set', 'm', 'text', arg(t)], ['call', None, 'm', 'to_pdu', []]]
    out = w.script(ops)
    for op, o in zip(ops, out):
        ok(o, 'operation %r' % (op,))
    pdus = [o for op, o in zip(ops, out) if op[0] == 'call']
    for p, t in zip(pdus, texts):
        compare(p, t, fmt)
    return len(set(texts)) > 1


def run_cases(tier):
    """characters a splitter may treat specially, at the ends of texts about as long as whole parts"""
    for al in '78u':
        single, part = submit.CAPS[al]
        for ch in RUNS[al]:
            for n in (1, single, single + 1, 2 * part, 2 * part + 1, 2 * part + 3):
                for where, k in (('tail', 1), ('tail', 2), ('tail', 5), ('head', 1), ('head', 3), ('all', 0), ('tail', part + 2), ('head', part + 2)):
                    if where == 'all' or k <= n:
                        yield {'alpha': al, 'ch': ch, 'len': n, 'where': where, 'k': k}


def check_run(w, c):
    t = build({'base': '\u0416' if c['alpha'] == 'u' else 'a', 'len': c['len'], 'ins': [], 'pad': False, 'run': [c['where'], c['ch'], c['k']]})
    verify(w, t, 4 if c['alpha'] == '8' else None)
    return 1


def edge_cases(tier):
    """every position of an escape pair around the boundaries, every length around them"""
    for total in (158, 159, 160, 161, 306, 307, 459, 460):
        for pos in (0, 1, 150, 151, 152, 153, 154, 157, 158, 159, 160, 304, 305, 306, 307):
            yield {'k': 'esc', 'len': total, 'pos': pos}
    for al, sizes in (('7', (160, 306, 459)), ('8', (140, 268, 402)), ('u', (70, 134, 201))):
        for s in sizes:
            for d in (-1, 0, 1, 2):
                yield {'k': 'len', 'alpha': al, 'len': s + d}


def check_edge(w, c):
    if c['k'] == 'esc':
        t = ['a'] * c['len']
        if c['pos'] >= c['len']:
            return 1
        t[c['pos']] = '{'
        verify(w, ''.join(t), None)
        if c['pos'] + 1 < c['len']:
            t[c['pos'] + 1] = '€'
            verify(w, ''.join(t), None)
        return 2
    ch = {'7': 'a', '8': '\x1b', 'u': '中'}[c['alpha']]
    verify(w, ch * c['len'], 4 if c['alpha'] == '8' else None)
    if c['alpha'] == '7':
        verify(w, '|' * c['len'], None)
    return 1


def char_cases(tier):
    """every character, alone among characters of the GSM alphabet"""
    step = 1 if tier == 'thorough' else 13
    for a in range(0, 0x10000, 512):
        if not 0xd800 <= a < 0xe000:
            yield {'from': a, 'to': a + 512, 'step': 1 if a < 0x800 or a in (0x2000, 0x2200, 0xfe00) else step}


AROUND = ('', ''), ('a', ''), ('a', 'b\u20ac')


def check_chars(w, c):
    n = 0
    for b, a in AROUND:
        r = range(c['from'], c['to'], c['step'])
        out = ok(w.fn('W.submit_each', r.start, r.stop, r.step, {'u': b}, {'u': a}), 'encoding %r' % c)
        for x, pdus in zip(r, out):
            t = b + chr(x) + a
            eq(len(pdus), 1, 'number of parts of %r' % t)
            m = submit.parse(pdus[0], 'message %r' % t)
            eq((m['alpha'], m['text']), (submit.alpha_of({'text': t, 'fmt': None}), t), 'alphabet and text of %r' % t)
            n += 1
    return n


def split_chars(c):
    return [{'from': x, 'to': x + 1, 'step': 1} for x in range(c['from'], c['to'], c['step'])]


def check_piece(w, c):
    n = 0
    for t in snips.texts(c):
        # at a boundary between two parts, too
        for fmt in (None, 4, 8):
            if fmt != 4 or all(x <= '\xff' for x in t):
                verify(w, t, fmt)
                n += 1
    s = c['piece']
    for al, (single, part) in submit.CAPS.items():
        if al == '8' and any(x > '\xff' for x in s) or 'text' in c:
            continue
        for k in range(1, len(s) + 1) if len(s) < 4 else (1, len(s) - 1):
            verify(w, 'a' * (part - k) + s + 'b' * 12, {'7': None, '8': 4, 'u': 8}[al])
            verify(w, s + 'a' * (part - k) + s, {'7': None, '8': 4, 'u': 8}[al])
            n += 2
    return n


ASPECTS = [
    Enum('pieces', snips.cases(snips.BMP), check_piece, snips.split),
    Enum('characters', char_cases, check_chars, split_chars),
    Enum('edges', edge_cases, check_edge), Enum('runs', run_cases, check_run), Search('reused', reused(), check_reused, 400),
    Search('short', short(), check_short, 1000), Search('far', st.sampled_from(['7', '8', 'u']).flatmap(lambda al: long(al, 120)), check_long, 60),
    Search('neighbours', alike(), near.check(check_short), 400),
    Search('septets', long('7', 40), check_long, 500),
    Search('octets', long('8', 20), check_long, 300),
    Search('ucs2', long('u', 30), check_long, 400), Search('unfit', unfit(), check_unfit, 200),
]
