"""Encoding an SMS is a function of its attributes"""
from hypothesis import strategies as st
from vlib import near, submit
from vlib.gen import ints, validity, validity_arg, number, FMT, recipe, history as many
from vlib.runner import Search
from vlib.sut import eq, ok, Exc, need
from vlib.props.c08 import shape

RULE = 'a history is non-trivial when it encodes at least twice and changes an attribute in between'


@st.composite
def text_change(draw):
    a = draw(submit.attrs(long=draw(st.booleans())))
    return ['text', {k: a[k] for k in ('fmt', 'native') if k in a} | {k: a[k] for k in ('text', 'recipe') if k in a}]


change = st.one_of(
    text_change(), submit.likes, submit.likes,
    st.tuples(st.sampled_from(['ref', 'rand_id']), st.one_of(st.none(), ints(0, 255))),
    st.tuples(st.just('pid'), ints(0, 255)), st.tuples(st.just('srr'), st.booleans()),
    st.tuples(st.just('klass'), ints(0, 3)), st.tuples(st.just('validity'), validity()),
    st.tuples(st.just('number'), number()), st.tuples(st.just('csca'), st.one_of(st.none(), number())))
history = st.tuples(submit.attrs(), many(change, change, ints(1, 3)))


def view(pdus, a):
    """what two encodings must have in common"""
    if isinstance(pdus, Exc):
        return 'refused'
    out = []
    for p in pdus:
        r = submit.parse(p, 'part')
        b = bytearray.fromhex(p.pdu)
        if a['ref'] is None:
            at = len(b) - r['tpdu_len'] + 1
            b[at] = 0
        if a['rand_id'] is None and r['udh'] is not None:
            at = len(b) - len(r['ud']) + 3
            b[at] = 0
        out.append((bytes(b).hex(), p.length, p.cnt, p.seq))
    return out


def check(w, c):
    start, steps = c
    a = dict(start)
    script = submit.ops(a)
    plan = [None] * len(script)
    encodes = changed = n = 0
    for s in steps + [2]:
        if isinstance(s, int):
            n += 1
            for i in range(s):
                plan.append(('enc', dict(a), i))
                script.append(['call', None, 'm', 'to_pdu', []])
            f = submit.ops(a, 'f%d' % n)
            script += f + [['call', None, 'f%d' % n, 'to_pdu', []]]
            plan += [None] * len(f) + [('fresh', dict(a))]
            for k in ('number', 'csca', 'klass', 'validity', 'request_status', 'pid', 'text', 'ref', 'rand_id', 'fmt'):
                script.append(['get', 'm', k])
                plan.append(('get', k, dict(a)))
            encodes += s
            continue
        k, v = s[:2]
        changed += 1
        if k in ('text', 'like'):
            if k == 'like':
                v = {'text': submit.like(submit.text_of(a), a['fmt'], *s[1:])}
            a.pop('recipe', None)
            had = a['fmt']
            a.update(v)
            # a format the caller leaves alone is still the one it chose, or none
            sets = [('text', submit.text_arg(a))] + ([('fmt', a['fmt'])] if a['fmt'] != had else [])
        else:
            a[k] = v
            arg = submit.string(a, v) if k in ('number', 'csca') else validity_arg(v) if k == 'validity' else v
            sets = [({'srr': 'request_status'}.get(k, k), arg)]
        for name, arg in sets:
            script.append(['set', 'm', name, arg])
            plan.append(None)
    out = w.script(script)
    last = prev = None
    for op, p, o in zip(script, plan, out):
        if p is None:
            ok(o, 'operation %r' % (op[:3],))
            prev = prev if op[0] != 'set' or op[1] != 'm' else None
        elif p[0] == 'enc':
            ok(o, 'encoding')
            last = o
            if prev is not None:
                eq(view(o, dict(p[1], ref=0)), view(prev, dict(p[1], ref=0)), 'encoding again without changes')
            prev = o
        elif p[0] == 'fresh':
            eq(view(last, p[1]), view(o, p[1]), 'encoding, against a freshly built message with the same attributes')
        elif p[0] == 'get':
            k, at = p[1], p[2]
            if k == 'ref' and at['ref'] is None:
                continue
            if k == 'fmt' and at['fmt'] is None:
                continue
            want = {'request_status': at['srr'], 'text': submit.text_of(at), 'validity': shape(validity_arg(at['validity']))}
            w_ = want[k] if k in want else at[k]
            eq(o, w_, 'attribute %s after encoding' % k)
    return encodes > 2 and changed > 0




neighbour = st.booleans().flatmap(lambda long: near.pairs(submit.attrs(long=long), submit.GROUPS, submit.fine, submit.FROZEN))

ASPECTS = [Search('neighbours', neighbour, near.check(submit.check_whole), 800), Search('history', history, check, 900)]
