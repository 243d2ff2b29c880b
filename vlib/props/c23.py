"""Histories of a message that is composed, looked at, encoded and stored"""
import os
from hypothesis import strategies as st
from vlib import gen, wsp, compose as co, mmsgen as mg
from vlib.gen import ints
from vlib.runner import Search, Enum
from vlib.sut import eq, need, ok, Exc, Mms
from vlib.props.c18 import plain
from vlib.props.c19 import medias, params
from vlib.props.c28 import wire_message

RULE = ('a history is non-trivial when it encodes at least once after at least two edits; a stored message when it has a part; one that lacks headers when '
        'it is also edited')
i8 = ints(0, 7)
KINDS = st.sampled_from(['image', 'audio', 'text'])


@st.composite
def medium(draw):
    k = draw(KINDS)
    return ['medium', draw(i8), k, [draw(co.any_text if k == 'text' else co.files)] + draw(co.span())]


T = lambda *a: st.tuples(*a).map(list)
J = st.just
message_headers = st.sampled_from(['To', 'Cc', 'Bcc', 'Subject', 'X-Foo', 'Message-ID', 'From', 'MMS-Version', 'Transaction-Id',
                                   'X-Mms-Transaction-Id'])
FEW = ['abc', 'xyz', 'ABC', 'ab', 'xy', 'a', 'b']
steps = [T(J('page'), co.page()), T(J('part'), co.part()), T(J('hdr'), message_headers, plain.filter(bool)),
         T(J('type'), st.sampled_from(wsp.MSG_TYPES)), T(J('del'), ints(0, 12)),
         T(J('size'), st.sampled_from(['w', 'h']), ints(1, 3000)), T(J('dur'), i8, ints(1, 9000)), medium(), T(J('clear'), i8, KINDS),
         T(J('reset'), i8, co.part()), T(J('phdr'), i8, st.sampled_from(co.EXTRA), plain), T(J('ct'), T(medias, params())),
         T(J('look'), st.sampled_from(['smil', 'parts', 'snapshot', 'listed', 'ct', 'pages'])), T(J('look'), J('snapshot')),
         T(J('encode'), ints(0, 3)), T(J('encode'), ints(0, 3)), J(['file']),
         T(J('again'), st.sampled_from(['pages', 'parts']), i8),
         # contents that are as long as one another
         T(J('medium'), i8, J('text'), st.sampled_from(FEW).map(lambda t: [t, 0, 0])), T(J('medium'), i8, J('text'), st.sampled_from(FEW).map(lambda t: [t, 0, 0])),
         T(J('hdr'), st.sampled_from(['To', 'Subject', 'X-Foo']), st.sampled_from(FEW)),
         T(J('reset'), i8, st.sampled_from(FEW).map(lambda t: {'from': 'data', 'hex': t.encode().hex(), 'as': 'arr', 'ct': 'text/plain', 'params': [], 'extra': []}))]


def check(w, c):
    fs = co.Files(w.scratch())
    store = os.path.join(fs.d, 'stored.mms')
    m = {'w': None, 'h': None, 'headers': {}, 'del': [], 'ct': None, 'pages': [], 'parts': [], 'added': {'pages': [], 'parts': []}}
    ops = [['new', 'm', 'message.MMSMessage', []], ['get', 'm', 'headers', 'H']]
    checks = []             # (how, positions of the operations)
    n = edits = 0
    encoded_after_edits = False

    def fresh():
        """the operations that compose the message anew"""
        d = dict(m, headers=[[k, v] for k, v in m['headers'].items()], parts=[dict(p, extra=list(map(list, p['extra'].items()))) for p in m['parts']])
        return co.message_ops(d, fs, 'f%d' % n)

    for s in c:
        n += 1
        k = s[0]
        if k == 'page':
            q = 'p%d' % len(m['pages'])
            ops += co.page_ops(q, s[1], fs) + [['call', None, 'm', 'add_page', [{'ref': q}]]]
            m['added']['pages'].append(len(m['pages']))
            m['pages'].append(dict(s[1]))
            if m['ct'] and m['ct'][0] != 'application/vnd.wap.multipart.related':
                m['ct'] = None
        elif k == 'part':
            q = 'd%d' % len(m['parts'])
            ops += co.part_ops(q, s[1], fs) + [['call', None, 'm', 'add_data_part', [{'ref': q}]]]
            m['added']['parts'].append(len(m['parts']))
            m['parts'].append(dict(s[1], extra=dict(map(tuple, s[1]['extra']))))
        elif k == 'again':
            if not m[s[1]]:
                continue
            i = s[2] % len(m[s[1]])
            ops.append(['call', None, 'm', 'add_page' if s[1] == 'pages' else 'add_data_part', [{'ref': '%s%d' % ('p' if s[1] == 'pages' else 'd', i)}]])
            m['added'][s[1]].append(i)
            if s[1] == 'pages' and m['ct'] and m['ct'][0] != 'application/vnd.wap.multipart.related':
                m['ct'] = None
        elif k in ('hdr', 'type'):
            name, v = ('Message-Type', s[1]) if k == 'type' else s[1:]
            ops.append(co.setitem('H', name, {'s': v}))
            m['headers'][name] = v
        elif k == 'del':
            names = sorted(set(m['headers']) | ({'Message-Type', 'MMS-Version'} - set(m['del'])))
            names = [x for x in names if x != 'Transaction-Id']
            if not names:
                continue
            name = names[s[1] % len(names)]
            ops.append(['fn', None, 'W.delitem', [{'ref': 'H'}, {'s': name}]])
            m['headers'].pop(name, None)
            if name in ('Message-Type', 'MMS-Version'):
                if name not in m['del']:
                    m['del'].append(name)
        elif k == 'size':
            ops.append(['set', 'm', {'w': 'width', 'h': 'height'}[s[1]], s[2]])
            m[s[1]] = s[2]
        elif k == 'ct':
            ops.append(co.setitem('H', 'Content-Type', co.ct_arg(s[1])))
            m['ct'] = s[1]
        elif k in ('dur', 'medium', 'clear'):
            if not m['pages']:
                continue
            i = s[1] % len(m['pages'])
            q, p = 'p%d' % i, m['pages'][i]
            if k == 'dur':
                ops.append(['call', None, q, 'set_duration', [s[2]]])
                p['dur'] = s[2]
            elif k == 'medium':
                ops.append(co.add_medium(q, s[2], s[3], fs))
                p[s[2]] = s[3]
                p['mh'] = {x: y for x, y in p.get('mh', {}).items() if x != s[2]}
            else:
                ops.append(['set', q, s[2], None])
                p[s[2]] = None
        elif k in ('reset', 'phdr'):
            if not m['parts']:
                continue
            i = s[1] % len(m['parts'])
            q = 'd%d' % i
            if k == 'reset':
                ops += co.set_part(q, s[2], fs)
                m['parts'][i] = dict(s[2], extra=dict(map(tuple, s[2]['extra'])))
            else:
                ops += [['get', q, 'headers', q + 'h'], co.setitem(q + 'h', s[2], {'s': s[3]})]
                m['parts'][i]['extra'][s[2]] = s[3]
        elif k == 'look':
            ops.append({'smil': ['call', None, 'm', 'smil', []], 'parts': ['get', 'm', 'data_parts'], 'ct': ['get', 'm', 'content_type'],
                        'snapshot': ['fn', None, 'W.snapshot', [{'ref': 'm'}]], 'pages': ['get', 'm', 'pages'],
                        'listed': ['fn', None, 'W.msg_parts', [{'ref': 'm'}]]}[s[1]])
            checks.append(('ok', [len(ops) - 1]))
            continue
        else:
            at = len(ops)
            snap = [['fn', None, 'W.snapshot', [{'ref': 'm'}]]]
            e = [['call', 'e', 'm', 'encode', []]]
            if k == 'file':
                f = fresh()
                ops += [['call', None, 'm', 'to_file', [{'s': store}]], ['fn', None, 'W.read', [{'s': store}]]] + e + \
                    [['fn', None, 'W.from_data', [{'ref': 'e'}]], ['fn', None, 'message.MMSMessage.from_file', [{'s': store}]]]
                checks.append(('file', [at + j for j in range(5)]))
                continue
            mode = s[1]
            new = e + e if mode == 0 else snap + e + e + snap if mode == 1 else e + [['call', None, 'm', 'smil', []]] + snap + e + snap
            if mode == 3:
                new = e + [['fn', 'b', 'W.from_data', [{'ref': 'e'}]], ['fn', None, 'W.snapshot', [{'ref': 'b'}]], ['call', None, 'b', 'encode', []],
                           ['call', None, 'b', 'encode', []], ['fn', None, 'W.snapshot', [{'ref': 'b'}]]] + e
            ops += new
            pos = {0: ([0, 1], []), 1: ([1, 2], [0, 3]), 2: ([0, 3], [2, 4]), 3: ([0, 6], [])}[mode]
            for p in pos:
                if p:
                    checks.append(('same', [at + j for j in p]))
            if mode == 3:
                checks += [('same', [at + 3, at + 4]), ('same', [at + 2, at + 5])]
            f = fresh()
            ops += f + [['call', None, 'f%d' % n, 'encode', []]]
            checks.append(('equal', [at + pos[0][1], len(ops) - 1]))
            encoded_after_edits = encoded_after_edits or edits > 1
            continue
        edits += 1
    out = w.script(ops)
    looked = {j for h, p in checks for j in p}
    for j, o in enumerate(out):
        if j not in looked:
            ok(o, 'operation %r' % (ops[j],))
    for how, pos in checks:
        v = [out[j] for j in pos]
        if how == 'same':
            if isinstance(v[0], Exc) and isinstance(v[1], Exc) and ops[pos[0]][2] == 'b':
                continue        # a decoded message that cannot be encoded
            eq(v[1], ok(v[0], 'operation %r' % (ops[pos[0]],)), 'repeating %r' % (ops[pos[0]],))
        elif how == 'ok':
            ok(v[0], 'operation %r' % (ops[pos[0]],))
        elif how == 'equal':
            a, b = [canonical(ok(x, 'encoding')) for x in v]
            eq(a, b, 'encoding after the history, and of an equal message composed anew')
        else:
            _, stored, e, d, f = [ok(x, 'operation %r' % (ops[j],)) for x, j in zip(v, pos)]
            eq(stored, e, 'octets in the file')
            need(isinstance(d, Mms) and d == f, 'the file is decoded as %r, its octets as %r', f, d)
    return encoded_after_edits


def canonical(octets):
    try:
        return co.canonical(bytes(octets))
    except wsp.Bad as e:
        need(False, 'malformed: %s (%s)', e, bytes(octets).hex()[:400])


@st.composite
def stored(draw):
    h = draw(wire_message())
    cut = draw(st.one_of(st.just(None), st.just(None), ints(0, 400)))
    return {'hex': h if cut is None else h[:2 * cut]}


def check_stored(w, c):
    path = os.path.join(w.scratch(), 'in.mms')
    with open(path, 'wb') as f:
        f.write(bytes.fromhex(c['hex']))
    a, b, c2 = w.script([['fn', None, 'W.from_data', [{'hex': c['hex']}]], ['fn', None, 'message.MMSMessage.from_file', [{'s': path}]],
                         ['fn', None, 'message.MMSMessage.from_file', [{'s': path + '.none'}]]])
    if isinstance(a, Exc):
        need(isinstance(b, Exc), 'the octets raise %r but the file is decoded to %r', a, b)
    else:
        eq(b, a, 'message of the file')
    need(isinstance(c2, Exc) and c2.isa('OSError', 'EnvironmentError'), 'a missing file gives %r', c2)
    with open(path, 'rb') as f:
        need(f.read().hex() == c['hex'], 'reading the file changed it')
    return isinstance(a, Mms) and bool(a.parts)


def sizes(tier):
    """files whose size is about one at which a reader may stop"""
    for n in [0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 100000, 131073] + \
            ([1048575, 1048576, 1048577] if tier == 'thorough' else []):
        for ends in ('00', '0a', '1a', '0d0a', 'ff'):
            yield {'size': n, 'ends': ends}
    for n in [262144, 524288, 524289, 1048577, 2097153] + ([4194305] if tier == 'thorough' else []):
        yield {'size': n, 'ends': '0a'}


def check_size(w, c):
    ends = bytes.fromhex(c['ends'])
    head = bytes.fromhex('8c848d9083' + '61' * 3 + '0084a301')
    rest = b''
    # a message whose only part fills the file up
    for left in range(max(c['size'] - len(head) - 12, 0), c['size'] + 1):
        body = (bytes(i & 255 for i in range(left)) + ends)[-left:] if left else b''
        rest = b'\x01' + wsp.uintvar(len(body)) + b'\x9d' + body
        if len(head) + len(rest) >= c['size']:
            break
    octets = head + rest
    path = os.path.join(w.scratch(), 'sized.mms')
    with open(path, 'wb') as f:
        f.write(octets)
    try:
        m = ok(w.fn('message.MMSMessage.from_file', {'s': path}), 'decoding a file of %d octets' % len(octets))
        need(isinstance(m, Mms) and len(m.parts) == 1, 'a file of %d octets gives %r', len(octets), m)
        need(m.parts[0].data == body.decode('latin-1'), 'the part of a file of %d octets has %d octets, expected %d: ... %r', len(octets),
             len(m.parts[0].data), len(body), m.parts[0].data[-9:])
    finally:
        os.unlink(path)
    return 1


# -- headers that encoding completes -------------------------------------------
DEFAULT = ('Message-Type', 'Transaction-Id', 'MMS-Version')
later = st.one_of(T(J('set'), st.sampled_from(['To', 'Cc', 'Subject', 'Transaction-Id', 'X-Mms-Transaction-Id', 'MMS-Version']), st.sampled_from(['1.2', 'abc', '77'])),
                  T(J('set'), J('Message-Type'), st.sampled_from(wsp.MSG_TYPES)), T(J('del'), st.sampled_from(DEFAULT + ('To', 'Cc'))),
                  T(J('type'), T(medias, params())), T(J('text'), plain))


@st.composite
def incomplete(draw):
    return {'del': draw(st.lists(st.sampled_from(DEFAULT), unique=True, max_size=3)), 'steps': draw(gen.history(later, hi=5))}


def incomplete_cases(tier):
    dels = [[n for i, n in enumerate(DEFAULT) if k >> i & 1] for k in range(8)]
    steps = [['set', n, '1.2'] for n in ('To', 'Cc', 'Transaction-Id', 'MMS-Version')] + [['set', 'Message-Type', t] for t in wsp.MSG_TYPES[:4]] + \
        [['del', n] for n in DEFAULT + ('To',)] + [['text', 'x']]
    for d in dels:
        for a in steps:
            yield {'del': d, 'steps': [a]}
            for b in steps:
                yield {'del': d, 'steps': [a, b]}


def no_id(octets, given):
    """the canonical form without a transaction identifier that was made up"""
    c = canonical(octets)
    if given:
        return c
    fields, rest = list(c[0]) + list(c[1]), c[2:]
    ids = [f for f in fields if f[0] == 'Transaction-Id']
    need(len(ids) == 1 and len(ids[0][1]) > 1, 'transaction identifiers %r', ids)
    return (sorted(f for f in fields if f[0] != 'Transaction-Id'), rest)


def check_incomplete(w, c):
    """headers a message lacks are made up for its octets only"""
    have = {'Message-Type', 'Transaction-Id', 'MMS-Version'} - set(c['del'])
    make = [['new', 'm', 'message.MMSMessage', []], ['get', 'm', 'headers', 'mH']] + [['fn', None, 'W.delitem', [{'ref': 'mH'}, {'s': k}]] for k in c['del']]
    snap, enc = ['fn', None, 'W.snapshot', [{'ref': 'm'}]], ['call', None, 'm', 'encode', []]
    at = {k: 1 for k in have}
    ops, checks = list(make), []
    done = []
    for s in [None] + c['steps']:
        new = []
        if s and s[0] == 'set':
            new = [co.setitem('mH', s[1], {'s': s[2]})]
            at[s[1]] = 1
        elif s and s[0] == 'del':
            if s[1] not in at:
                continue
            new = [['fn', None, 'W.delitem', [{'ref': 'mH'}, {'s': s[1]}]]]
            del at[s[1]]
        elif s and s[0] == 'type':
            new = [co.setitem('mH', 'Content-Type', co.ct_arg(s[1]))]
        elif s:
            q = 'p%d' % len(done)
            new = [['new', q, 'message.DataPart', []], ['call', None, q, 'set_text', [{'s': s[1]}]], ['call', None, 'm', 'add_data_part', [{'ref': q}]]]
        done += new
        ops += new
        n = len(ops)
        ops += [snap, enc, snap, enc, snap]
        given = 'Transaction-Id' in at or 'X-Mms-Transaction-Id' in at
        checks.append((n, n + 1, n + 2, n + 3, n + 4, given))
        # the same message composed anew, never encoded before
        fresh = [[x if x not in ('m', 'mH') else 'f' + x for x in op] for op in make + done]
        fresh = [op[:3] + [[{'ref': 'f' + x['ref']} if isinstance(x, dict) and x.get('ref') in ('m', 'mH') else x for x in op[3]]] +
                 op[4:] if op[0] == 'fn' else op for op in fresh]
        ops += fresh + [['fn', None, 'W.snapshot', [{'ref': 'fm'}]], ['call', None, 'fm', 'encode', []]]
        checks[-1] += (len(ops) - 2, len(ops) - 1)
    out = w.script(ops)
    for op, o in zip(ops, out):
        ok(o, 'operation %r' % (op,))
    for s1, e1, s2, e2, s3, given, fs, fe in checks:
        eq(out[s2], out[s1], 'the message after encoding it')
        eq(out[s3], out[s1], 'the message after encoding it twice')
        eq(out[fs], out[s1], 'an equal message composed anew')
        a, b, f = [no_id(out[i], given) for i in (e1, e2, fe)]
        eq(b, a, 'encoding again')
        eq(f, a, 'encoding an equal message composed anew')
    return len(c['del']) > 0 and len(checks) > 1


# -- messages that cannot be stored ----------------------------------------------
awkward = st.one_of(
    T(J('header'), st.sampled_from(['Date', 'Message-Class', 'Priority', 'Read-Reply', 'Delivery-Report', 'Message-Size', 'Expiry']), st.sampled_from(['x', '', None, -1])),
    T(J('header'), st.sampled_from(['X-Foo', 'Subject', 'To', 'Message-ID']), st.sampled_from([None, 5])),
    T(J('header'), st.sampled_from(['X Foo', 'X:Foo', 'X(', 'a/b', 'X-\xe9', 'X\n', '']), J('v')),
    T(J('type'), st.sampled_from([None, 5, 'image/gif'])), T(J('gone'), co.files), T(J('gone'), co.files), T(J('own'), co.files))


@st.composite
def unstored(draw):
    return {'m': draw(co.message(pages=1, parts=1)), 'f': draw(awkward), 'before': draw(st.one_of(st.none(), co.hexblobs, wire_message())),
            'page': draw(st.booleans())}


def unstored_cases(tier):
    m = {'w': None, 'h': None, 'headers': [['To', 'x']], 'ct': None, 'pages': [], 'parts': [], 'order': {}}
    f = {'name': 'a.gif', 'hex': '616263'}
    for fault in [['header', 'Date', 'x'], ['header', 'Priority', 'x'], ['header', 'X Foo', 'v'], ['header', 'X-Foo', None], ['type', None], ['type', 5],
                  ['gone', f], ['own', f]]:
        for page in (False, True):
            for before in (None, '', '00', '8c848d90' * 40):
                yield {'m': m, 'f': fault, 'before': before, 'page': page}


def check_unstored(w, c):
    """a message that cannot be encoded leaves the file alone, one that can replaces it"""
    fs = co.Files(w.scratch())
    store = os.path.join(fs.d, 'kept.mms')
    k, f = c['f'][0], c['f'][1:]
    put = lambda p, h: ['fn', None, 'W.write', [{'s': p}, None if h is None else {'arr': h}]]
    ops = co.message_ops(c['m'], fs)
    cure = []
    if k == 'header':
        ops.append(co.setitem('mH', f[0], None if f[1] is None else {'s': f[1]} if isinstance(f[1], str) else f[1]))
        cure = [['fn', None, 'W.delitem', [{'ref': 'mH'}, {'s': f[0]}]]]
    elif k == 'type':
        ops.append(co.setitem('mH', 'Content-Type', {'s': f[0]} if isinstance(f[0], str) else f[0]))
        cure = [co.setitem('mH', 'Content-Type', co.ct_arg(['a/b', []]))]
    else:
        d = os.path.join(fs.d, 'part')
        os.mkdir(d)
        path = os.path.join(d, f[0]['name'])
        ops.append(put(path, f[0]['hex']))
        if c['page'] and f[0]['hex']:
            ops += [['new', 'xp', 'message.MMSMessagePage', []], ['call', None, 'xp', 'add_image', [{'s': path}]], ['call', None, 'm', 'add_page', [{'ref': 'xp'}]]]
        else:
            ops += [['new', 'xd', 'message.DataPart', []], ['call', None, 'xd', 'from_file', [{'s': path}]], ['call', None, 'm', 'add_data_part', [{'ref': 'xd'}]]]
        if k == 'own':
            store = path
    read = ['fn', None, 'W.read', [{'s': store}]]
    both = [['call', None, 'm', 'encode', []], read, ['call', None, 'm', 'to_file', [{'s': store}]], read]
    if k == 'gone':
        ops.append(put(path, None))
        cure = [put(path, f[0]['hex'])]
    if k != 'own':
        ops.append(put(store, c['before']))
    out = w.script(ops + both + cure + both)
    first, last = out[len(ops):len(ops) + 4], out[-4:]
    for op, o in list(zip(ops, out)) + list(zip(cure, out[len(ops) + 4:])):
        ok(o, 'operation %r' % (op,))
    e, before, s, after = first
    if isinstance(e, Exc):
        need(isinstance(s, Exc), 'a message that cannot be encoded (%r) is stored', e)
        if isinstance(before, Exc):
            need(isinstance(after, Exc), 'a message that cannot be encoded (%r) leaves a file with %r', e, after)
        else:
            eq(after, before, 'the file after a message that cannot be encoded (%r) was to be stored in it' % (e,))
    else:
        ok(s, 'storing a message that can be encoded')
        eq(ok(after, 'reading the file'), e, 'octets in the file')
    if k == 'own':
        return True
    e2, _, s, after = last
    ok(e2, 'encoding the corrected message')
    ok(s, 'storing the corrected message')
    eq(ok(after, 'reading the file'), e2, 'octets of the corrected message in the file')
    return isinstance(e, Exc)


ASPECTS = [Enum('unstorable', unstored_cases, check_unstored), Search('unstored', unstored(), check_unstored, 160),
           Enum('incomplete', incomplete_cases, check_incomplete), Search('completed', incomplete(), check_incomplete, 200),
           Enum('sizes', sizes, check_size), Search('histories', gen.history(*steps, hi=14), check, 600), Search('stored', stored(), check_stored, 500)]
