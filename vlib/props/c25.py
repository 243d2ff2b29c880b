"""Slides and data parts"""
import itertools
import os
from hypothesis import strategies as st
from vlib import gen, snips, wsp, compose as co
from vlib.gen import ints
from vlib.runner import Search, Enum
from vlib.scale import ladder, top, fill
from vlib.sut import eq, need, ok, Exc, Part
from vlib.props.c18 import plain
from vlib.props.c19 import medias, params, params_arg

RULE = ('a history is non-trivial when at least one call is accepted and one refused (slides), or when content is given at least '
        'twice (data parts), or when a file changes after it was read; every enumerated call counts')
J, T = st.just, lambda *a: st.tuples(*a).map(list)
MEDIA = ('image', 'audio', 'text')
NOT_STR = [None, 5, {'f': '1.5'}, [], {'u': 'a.jpg'}, {'dict': []}, {'t': []}, {'obj': 0}, {'arr': '6162'}]
NOT_INT = [None, {'s': '5'}, {'f': '1.0'}, [], {'u': '7'}, {'s': ''}, {'td': [0, 1, 0]}, {'f': '0.0'}]
MISSING = ('missing', 'dir', 'empty')


def source(kind):
    good = co.any_text.map(lambda t: ['text', t]) if kind == 'text' else co.files.map(lambda f: ['file', f])
    bad = [ints(0, len(NOT_STR) - 1).map(lambda i: ['bad', i])]
    if kind != 'text':
        bad.append(st.sampled_from(MISSING).map(lambda m: [m, 0]))
    return st.one_of(good, good, good, good, *bad)


time = st.one_of(*[st.one_of(ints(-3, 10), ints(-100, 6000)).map(lambda n: ['ok', n])] * 6 + [ints(0, len(NOT_INT) - 1).map(lambda i: ['bad', i])])


@st.composite
def add(draw):
    k = draw(st.sampled_from(MEDIA))
    n = draw(ints(0, 2))
    return ['add', k, draw(source(k)), [draw(time) for _ in range(n)]]


duration = st.one_of(ints(-3, 10), ints(1, 10000), ints(-2**31 + 1, 2**31 - 1)).map(lambda n: ['ok', n])
page_steps = [add(), add(), add(), T(J('dur'), st.one_of(duration, duration, ints(0, len(NOT_INT) - 1).map(lambda i: ['bad', i])))]


def tv(t):
    return t[1] if t[0] == 'ok' else NOT_INT[t[1]]


def medium_value(k, src):
    """what a slide reports of a medium"""
    return co.text_part(src[1]) if k == 'text' else co.file_part(src[1])


def same_part(got, want, what):
    need(isinstance(got, Part), '%s is %r', what, got)
    eq(got.data, want['data'].decode('latin-1'), 'data of ' + what)
    eq(got.len, len(want['data']), 'length of ' + what)
    eq(got.ctype, want['ct'][0], 'content type of ' + what)
    eq(got.headers, dict(want['headers'], **{'Content-Type': want['ct']}), 'headers of ' + what)


def source_arg(k, src, fs):
    kind, v = src
    if kind == 'text':
        return {'s': v}
    if kind == 'file':
        return {'s': fs.path(v)}
    if kind == 'bad':
        return NOT_STR[v]
    return {'s': {'missing': os.path.join(fs.d, 'no', 'such.jpg'), 'dir': fs.d, 'empty': ''}[kind]}


def check_page(w, c):
    fs = co.Files(w.scratch())
    ops = [['new', 'p', 'message.MMSMessagePage', []]]
    for s in c:
        if s[0] == 'dur':
            ops.append(['call', None, 'p', 'set_duration', [tv(s[1])]])
        else:
            ops.append(['call', None, 'p', 'add_' + s[1], [source_arg(s[1], s[2], fs)] + [tv(t) for t in s[3]]])
        ops += [['fn', None, 'W.page', [{'ref': 'p'}]], ['fn', None, 'W.page_ids', [{'ref': 'p'}]]]
    out = w.script(ops)
    model = {'image': None, 'audio': None, 'text': None, 'duration': 4000}
    done = refused = 0
    for i, s in enumerate(c):
        r, seen, ids = out[3 * i + 1:3 * i + 4]
        what = 'operation %d (%r)' % (i, s)
        wrong = set()
        if s[0] == 'dur':
            if s[1][0] == 'bad':
                wrong = {'TypeError'}
            elif s[1][1] < 1:
                wrong = {'ValueError'}
        else:
            k, src, ts = s[1:]
            b, e = ([tv(t) for t in ts] + [0, 0])[:2]
            if src[0] == 'bad' or any(t[0] == 'bad' for t in ts):
                wrong.add('TypeError')
            if src[0] in MISSING:
                wrong.add('OSError')
            if all(t[0] == 'ok' for t in ts) and 0 < e < b:
                wrong.add('ValueError')
        if wrong:
            need(isinstance(r, Exc) and r.isa(*wrong), '%s gives %r instead of %s', what, r, sorted(wrong))
            refused += 1
        else:
            ok(r, what)
            done += 1
            if s[0] == 'dur':
                model['duration'] = s[1][1]
            else:
                model[k] = (medium_value(k, src), b, e)
        ok(seen, 'looking at the slide')
        have = [k for k in MEDIA if model[k]]
        eq(seen['duration'], model['duration'], 'duration after ' + what)
        eq(seen['n'], len(have), 'number of parts after ' + what)
        eq(sorted(ok(ids, 'listing')), sorted(have), 'listed parts after ' + what)
        need(len(seen['parts']) == len(have), 'listed parts after %s: %r', what, seen['parts'])
        for k in MEDIA:
            if not model[k]:
                need(seen[k] is None, '%s after %s is %r', k, what, seen[k])
                continue
            need(isinstance(seen[k], tuple) and len(seen[k]) == 3, '%s after %s is %r', k, what, seen[k])
            same_part(seen[k][0], model[k][0], '%s after %s' % (k, what))
            eq(seen[k][1:], model[k][1:], 'times of %s after %s' % (k, what))
    return done > 0 and refused > 0


part_steps = [T(J('set'), co.part()), T(J('set'), co.part()), T(J('set'), co.part()), T(J('ct'), medias),
              T(J('hdr'), st.sampled_from(co.EXTRA), plain), T(J('fail'), st.sampled_from(MISSING)), J(['len']), J(['data'])]


@st.composite
def part_history(draw):
    return {'first': draw(st.one_of(st.none(), co.files)), 'steps': draw(gen.history(*part_steps, hi=10))}


def check_part(w, c):
    fs = co.Files(w.scratch())
    ops = [['new', 'd', 'message.DataPart', [{'s': fs.path(c['first'])}] if c['first'] else []]]
    m = co.file_part(c['first']) if c['first'] else {'data': b'', 'ct': ('application/octet-stream', {}), 'headers': {}}
    checks = []
    given = 0
    look = [['fn', None, 'W.raw', [{'ref': 'd'}]], ['fn', None, 'W.slen', [{'ref': 'd'}]]]

    def later(full):
        checks.append((len(ops), full, {'data': m['data'], 'ct': m['ct'], 'headers': dict(m['headers'])}))
        ops.extend(look + ([['get', 'd', 'data'], ['fn', None, 'W.identity', [{'ref': 'd'}]]] if full else []))
    later(False)
    for s in c['steps']:
        if s[0] == 'set':
            ops += co.set_part('d', s[1], fs)
            m = co.part_model(s[1])
            given += 1
        elif s[0] == 'ct':
            ops.append(['set', 'd', 'content_type', {'s': s[1]}])
            m['ct'] = (s[1], {})
        elif s[0] == 'hdr':
            ops += [['get', 'd', 'headers', 'dh'], co.setitem('dh', s[1], {'s': s[2]})]
            m['headers'][s[1]] = s[2]
        elif s[0] == 'fail':
            ops.append(['call', None, 'd', 'from_file', [source_arg('image', [s[1], 0], fs)]])
            checks.append((len(ops) - 1, None, s[1]))
        later(s[0] == 'data' or len(checks) % 3 == 0)
    later(True)
    out = w.script(ops)
    failing = {i for i, full, _ in checks if full is None}
    for i, o in enumerate(out):
        if i not in failing:
            ok(o, 'operation %r' % (ops[i],))
    for i, full, want in checks:
        if full is None:
            need(isinstance(out[i], Exc) and out[i].isa('OSError'), 'from_file(%s) gives %r instead of OSError', want, out[i])
            continue
        what = 'the data part after %r' % (ops[i - 1],)
        eq(out[i]['headers'], dict(want['headers'], **{'Content-Type': want['ct']}), 'headers of ' + what)
        eq(out[i]['ctype'], want['ct'][0], 'content type of ' + what)
        eq(out[i + 1], len(want['data']), 'length of ' + what)
        if full:
            eq(out[i + 2], want['data'].decode('latin-1'), 'data of ' + what)
            same_part(out[i + 3], want, what)
    return given > 1 or bool(c['first'] and given)


def cases(tier):
    for k in MEDIA:
        for b in [['ok', x] for x in (-1, 0, 1, 5)] + [['bad', i] for i in range(len(NOT_INT))]:
            yield {'k': k, 'b': b}
    yield {'k': 'dur'}


F = {'name': 'p.gif', 'hex': '4749'}


def check_calls(w, c):
    k = c['k']
    if k == 'dur':
        steps = [['dur', ['ok', n]] for n in (-2**31 + 1, -1, 0, 1, 2, 2**31 - 1)] + [['dur', ['bad', i]] for i in range(len(NOT_INT))]
        check_page(w, steps)
        return len(steps)
    good = [['text', ''], ['text', 'x']] if k == 'text' else [['file', F]] + [[m, 0] for m in MISSING]
    steps = []
    for src in good + [['bad', i] for i in range(len(NOT_STR))]:
        steps.append(['add', k, src, []])
        steps.append(['add', k, src, [c['b']]])
        for e in [['ok', x] for x in (-1, 0, 1, 4, 5, 6)] + [['bad', i] for i in range(len(NOT_INT))]:
            steps.append(['add', k, src, [c['b'], e]])
    for i in range(0, len(steps), 40):
        check_page(w, [['add', 'text', ['text', 'kept'], []], ['add', 'image', ['file', F], [['ok', 3]]]] + steps[i:i + 40])
    return len(steps)


def no_data_part(w, c):
    for m in MISSING:
        o = w.fn('message.DataPart', source_arg('image', [m, 0], co.Files(w.scratch())))
        need(isinstance(o, Exc) and o.isa('OSError'), 'DataPart(%s) gives %r instead of OSError', m, o)
    return len(MISSING)


def size_cases(tier):
    big = [n for n in ladder(9, 2 ** 31 - 1)]
    for i in range(0, len(big), 8):
        yield {'numbers': big[i:i + 8]}
    for n in ladder(0, top(tier, 70000, 1100000)):
        yield {'octets': n}


def check_size(w, c):
    """long times and durations; texts and data by size"""
    if 'numbers' in c:
        n = 0
        for k in ('text', 'image'):
            src = ['text', 'x'] if k == 'text' else ['file', F]
            steps = []
            for x in c['numbers']:
                steps += [['add', k, src, [['ok', b], ['ok', e]]] for b, e in ((x, x), (x, 0), (0, x), (x, x - 1), (x - 1, x), (-x, x), (x, -x), (-x, -x))]
                steps += [['dur', ['ok', x]], ['dur', ['ok', -x]]]
            check_page(w, steps)
            n += len(steps)
        return n
    t = fill(c['octets'])
    f = {'name': 'p.gif', 'hex': t.encode().hex()}
    check_page(w, [['add', 'text', ['text', t], []], ['add', 'image', ['file', f], []], ['add', 'text', ['text', 'x'], []]])
    base = {'extra': []}
    sets = [dict(base, **{'from': 'text', 'text': t}), dict(base, **{'from': 'file', 'file': f}),
            dict(base, **{'from': 'data', 'hex': f['hex'], 'as': 'arr', 'ct': 'a/b', 'params': []}),
            dict(base, **{'from': 'data', 'hex': f['hex'], 'as': 'hex', 'ct': 'image/gif', 'params': []})]
    check_part(w, {'first': f, 'steps': [x for s in sets for x in (['set', s], ['data'])]})
    return 8


# -- files that change ---------------------------------------------------------
i2 = ints(0, 1)
contents = st.one_of(st.none(), st.binary(max_size=6).map(bytes.hex), st.sampled_from(['', '00', '61' * 127, '62' * 128, '63' * 200]))
file_steps = [T(J('write'), i2, contents), T(J('write'), i2, contents), T(J('from'), i2, i2), T(J('from'), i2, i2), T(J('data'), i2), T(J('len'), i2),
              T(J('set'), i2, st.binary(max_size=4).map(bytes.hex)), J(['encode']), J(['encode'])]


def file_cases(tier):
    """every short history of one file and one part"""
    acts = [['write', 0, '6162'], ['write', 0, '78797a' * 50], ['write', 0, None], ['from', 0, 0], ['data', 0], ['len', 0], ['encode']]
    for k in range(1, 4 if tier == 'quick' else 5):
        for h in itertools.product(acts, repeat=k):
            if any(a[0] == 'write' for a in h):
                yield [['write', 0, '30'], ['from', 0, 0]] + list(map(list, h)) + [['encode']]


def check_files(w, c):
    """a part holds what its file held when it was first read"""
    d = w.scratch()
    path = lambda i: {'s': os.path.join(d, 'f%d.%s' % (i, ('gif', 'txt')[i]))}
    ops = [['fn', None, 'W.write', [path(i), None]] for i in (0, 1)] + [['new', 'm', 'message.MMSMessage', []]]
    for i in (0, 1):
        ops += [['new', 'd%d' % i, 'message.DataPart', []], ['call', None, 'm', 'add_data_part', [{'ref': 'd%d' % i}]]]
    skip = len(ops)
    disk, parts = [None, None], [('data', b''), ('data', b'')]
    want = []           # (what, expected: bytes, int, None, 'error' or list of bytes)

    def content(j):
        kind, v = parts[j]
        if kind == 'file':
            if disk[v] is None:
                return None
            parts[j] = ('data', disk[v])
        return parts[j][1]
    moved = False
    for s in c:
        k = s[0]
        if k == 'write':
            disk[s[1]] = None if s[2] is None else bytes.fromhex(s[2])
            ops.append(['fn', None, 'W.write', [path(s[1]), None if s[2] is None else {'arr': s[2]}]])
            want.append(None)
            moved = moved or parts[0][0] == 'data' and bool(parts[0][1])
        elif k == 'from':
            ops.append(['call', None, 'd%d' % s[1], 'from_file', [path(s[2])]])
            want.append('error' if disk[s[2]] is None else None)
            if disk[s[2]] is not None:
                parts[s[1]] = ('file', s[2])
        elif k == 'set':
            ops.append(['call', None, 'd%d' % s[1], 'set_data', [{'arr': s[2]}, {'s': 'a/b'}]])
            parts[s[1]] = ('data', bytes.fromhex(s[2]))
            want.append(None)
        elif k == 'data':
            ops.append(['get', 'd%d' % s[1], 'data'])
            x = content(s[1])
            want.append('error' if x is None else x)
        elif k == 'len':
            ops.append(['fn', None, 'W.slen', [{'ref': 'd%d' % s[1]}]])
            kind, v = parts[s[1]]
            x = disk[v] if kind == 'file' else v
            want.append('error' if x is None else len(x))
        else:
            unread = [disk[v] is None for kind, v in parts if kind == 'file']
            if len(unread) > 1 and any(unread):
                continue        # which of them an attempt that fails has read is not specified
            ops.append(['call', None, 'm', 'encode', []])
            xs = [content(j) for j in (0, 1)]
            want.append('error' if None in xs else xs)
    out = w.script(ops)
    for op, o in zip(ops[:skip], out):
        ok(o, 'operation %r' % (op,))
    for op, o, x in zip(ops[skip:], out[skip:], want):
        what = '%r after %r' % (op, ops[skip:skip + len(c)])
        if x == 'error':
            need(isinstance(o, Exc) and o.isa('EnvironmentError', 'OSError', 'IOError'), '%s gives %r instead of an error of the file', what, o)
            continue
        ok(o, what)
        if isinstance(x, list):
            try:
                got = [p[3] for p in wsp.read_mms(bytes(o))[3]]
            except wsp.Bad as e:
                need(False, '%s is malformed: %s (%s)', what, e, bytes(o).hex()[:300])
            eq(got[1:], x, 'data encoded by ' + what)
        elif isinstance(x, bytes):
            eq(o, x.decode('latin-1'), what)
        elif x is not None:
            eq(o, x, what)
    return moved


def check_piece(w, c):
    """that text as text, as data, in the names of files and of the directories they are in"""
    page, part, n = [], [], 0
    base = {'extra': []}
    for t in snips.texts(c):
        page.append(['add', 'text', ['text', t], []])
        part += [['set', dict(base, **{'from': 'text', 'text': t})], ['data'],
                 ['set', dict(base, **{'from': 'data', 'hex': t.encode('latin-1').hex(), 'as': 'hex', 'ct': 'text/plain', 'params': []})], ['data']]
        for name, at in ((t + '.gif', ''), (t + '.PNG', 'link'), (t, ''), ('b.jpg', t + '/'), ('noextension', t + '.gif/'), ('b.html', 'dir')):
            f = {'name': name, 'hex': t.encode('latin-1').hex()}
            if at and at[-1:] == '/' and not ('/' not in t and '\0' not in t and t.isascii() and t.strip('.')):
                continue
            if co.fine_file(f):
                f = dict(f, at=at) if at else f
                page.append(['add', ('image', 'audio')[n % 2], ['file', f], []])
                part += [['set', dict(base, **{'from': 'file', 'file': f})], ['data']]
                n += 1
    check_page(w, page)
    check_part(w, {'first': None, 'steps': part})
    return len(page) + len(part)


ASPECTS = [Enum('pieces', snips.cases(snips.LATIN), check_piece, snips.split), Enum('file_histories', file_cases, check_files), Search('files', gen.history(*file_steps, hi=12), check_files, 300),
           Enum('sizes', size_cases, check_size), Enum('calls', cases, check_calls), Enum('no_file', lambda tier: [{}], no_data_part),
           Search('slides', gen.history(*page_steps), check_page, 600), Search('data_parts', part_history(), check_part, 600)]
