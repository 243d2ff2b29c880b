#!/usr/bin/env python3-vt
"""Mutation sweep: how sensitive are the checks to small changes of /repo?

  sweep.py gen OUT.json            list the mutants
  sweep.py tests IN OUT [jobs]     keep those that build and pass the stable tests
  sweep.py checks IN OUT [jobs]    run the related checks against them

Development aid; no check uses it. Everything runs in scratch copies."""
import concurrent.futures as cf, io, json, os, random, re, shutil, subprocess, sys, tempfile, tokenize
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
FILES = ['messaging/utils.py', 'messaging/sms/submit.py', 'messaging/sms/deliver.py', 'messaging/sms/udh.py', 'messaging/sms/wap.py',
         'messaging/sms/pdu.py', 'messaging/sms/consts.py', 'messaging/sms/gsm0338.py', 'messaging/mms/iterator.py',
         'messaging/mms/message.py', 'messaging/mms/mms_pdu.py', 'messaging/mms/wsp_pdu.py']
OPS = {'==': '!=', '!=': '==', '<': '<=', '<=': '<', '>': '>=', '>=': '>', '+': '-', '-': '+', '&': '|', '|': '&', '<<': '>>', '>>': '<<',
       '*': '+', '/': '*', '//': '*', '%': '+', '+=': '-=', '-=': '+=', '|=': '&=', '&=': '|='}
NAMES = {'and': 'or', 'or': 'and', 'True': 'False', 'False': 'True', 'not': '', 'break': 'pass', 'continue': 'pass', 'in': 'not in',
         'is': 'is not', 'None': '0', 'append': 'extend', 'preview': 'next', 'reset_preview': 'preview'}
RELATED = {
    'messaging/utils.py': ['C02', 'C07', 'C06', 'C10', 'C15', 'C12', 'C03', 'C05', 'C16', 'C14', 'C30', 'C09', 'C13', 'C04'],
    'messaging/sms/submit.py': ['C09', 'C03', 'C05', 'C04', 'C08', 'C16', 'C07', 'C06'],
    'messaging/sms/deliver.py': ['C10', 'C15', 'C13', 'C11', 'C12', 'C14', 'C30', 'C16', 'C29'],
    'messaging/sms/udh.py': ['C11', 'C16', 'C30', 'C15', 'C29', 'C10'],
    'messaging/sms/wap.py': ['C29'], 'messaging/sms/pdu.py': ['C03', 'C05'], 'messaging/sms/consts.py': ['C04', 'C10', 'C05', 'C14'],
    'messaging/sms/gsm0338.py': ['C01', 'C04', 'C10'], 'messaging/mms/iterator.py': ['C26', 'C27', 'C28'],
    'messaging/mms/message.py': ['C24', 'C25', 'C23', 'C22', 'C21'],
    'messaging/mms/mms_pdu.py': ['C20', 'C21', 'C22', 'C27', 'C28', 'C23', 'C29'],
    'messaging/mms/wsp_pdu.py': ['C17', 'C18', 'C19', 'C27', 'C20', 'C22', 'C21', 'C28', 'C29']}


def mutants():
    for f in FILES:
        src = open(os.path.join('/repo', f), encoding='utf8').read()
        lines = src.splitlines(True)
        toks = list(tokenize.generate_tokens(io.StringIO(src).readline))

        def put(row, a, b, new, what):
            l = lines[row - 1]
            return {'file': f, 'line': row, 'old': l, 'new': l[:a] + new + l[b:], 'what': what}
        depth = 0
        for i, t in enumerate(toks):
            (r, a), (r2, b) = t.start, t.end
            if r != r2 or t.type in (tokenize.COMMENT,):
                continue
            if f.endswith('gsm0338.py') and r < 190:
                continue
            if t.type == tokenize.NUMBER:
                try:
                    n = int(t.string, 0)
                except ValueError:
                    continue
                yield put(r, a, b, str(n + 1), 'n+1')
                if n > 0:
                    yield put(r, a, b, str(n - 1), 'n-1')
            elif t.type == tokenize.OP and t.string in OPS:
                prev = toks[i - 1].string
                if t.string in '*' and prev in '(,':
                    continue
                yield put(r, a, b, OPS[t.string], t.string)
            elif t.type == tokenize.NAME and t.string in NAMES:
                yield put(r, a, b, NAMES[t.string], t.string)
            elif t.type == tokenize.NAME and t.string == 'if' and toks[i - 1].type in (tokenize.INDENT, tokenize.DEDENT, tokenize.NEWLINE, tokenize.NL):
                yield put(r, a, b, 'if not', 'if not') if False else None
        # delete simple statements of one line
        for i, t in enumerate(toks):
            if t.type in (tokenize.NEWLINE, tokenize.INDENT, tokenize.DEDENT) and i + 1 < len(toks):
                j = i + 1
                while j < len(toks) and toks[j].type in (tokenize.NL, tokenize.COMMENT, tokenize.INDENT, tokenize.DEDENT):
                    j += 1
                if j >= len(toks) or toks[j].type in (tokenize.ENDMARKER, tokenize.STRING) or toks[j].start[0] == t.start[0]:
                    continue
                s = toks[j]
                if s.string in ('if', 'for', 'while', 'else', 'elif', 'try', 'except', 'finally', 'def', 'class', 'with', 'import', 'from', '@',
                                'pass', 'debug', 'raise'):
                    continue
                k = j
                while toks[k].type != tokenize.NEWLINE:
                    k += 1
                if toks[k].start[0] != s.start[0] or (f.endswith('gsm0338.py') and s.start[0] < 190):
                    continue
                yield put(s.start[0], s.start[1], len(lines[s.start[0] - 1].rstrip('\n')), 'pass', 'deleted')


def copy_with(m, tmp):
    subprocess.run(['cp', '-a', '/repo', tmp + '/repo'], check=True)
    p = os.path.join(tmp, 'repo', m['file'])
    lines = open(p, encoding='utf8').read().splitlines(True)
    assert lines[m['line'] - 1] == m['old']
    lines[m['line'] - 1] = m['new']
    open(p, 'w', encoding='utf8').write(''.join(lines))


def inside(tmp, script, timeout):
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s/repo /repo && cd /repo && %s' % (tmp, script)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd='/')


def passes_tests(m):
    tmp = tempfile.mkdtemp(prefix='sw-', dir='/tmp')
    try:
        copy_with(m, tmp)
        try:
            r = inside(tmp, 'bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh %s/o.json 2>&1 | tail -1' % tmp, 120)
        except subprocess.TimeoutExpired:
            return m, False
        return m, '63 passed' in r.stdout
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def caught_by(m):
    tmp = tempfile.mkdtemp(prefix='sw-', dir='/tmp')
    try:
        copy_with(m, tmp)
        subprocess.run('cp -a %s %s/verif && rm -rf %s/verif/seeded %s/verif/.git' % (ROOT, tmp, tmp, tmp), shell=True, check=True)
        errs = []
        for p in RELATED[m['file']]:
            try:
                r = inside(tmp, 'cd %s/verif && python3-vt check.py %s' % (tmp, p), 900)
            except subprocess.TimeoutExpired:
                errs.append(p + ':timeout')
                continue
            if r.returncode == 1:
                return dict(m, caught=p, why=r.stdout[:160], errs=errs)
            if r.returncode:
                errs.append(p + ':' + r.stdout[-200:])
        return dict(m, caught=None, errs=errs)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'gen':
        l = [m for m in mutants() if m]
        seen, out = set(), []
        for m in l:
            k = (m['file'], m['line'], m['new'])
            if k not in seen and m['new'] != m['old']:
                seen.add(k)
                out.append(m)
        json.dump(out, open(a[1], 'w'), indent=0)
        print(len(out))
    else:
        ms = json.load(open(a[1]))
        jobs = int(a[3]) if len(a) > 3 else 3
        done = []
        with cf.ThreadPoolExecutor(jobs) as ex:
            for r in ex.map(passes_tests if a[0] == 'tests' else caught_by, ms):
                if a[0] == 'tests':
                    if r[1]:
                        done.append(r[0])
                else:
                    done.append(r)
                    if not r['caught']:
                        print('SURVIVED %s:%d %s | %s  %s' % (r['file'], r['line'], r['what'], r['new'].strip(), r['errs']), flush=True)
                json.dump(done, open(a[2], 'w'), indent=0)
