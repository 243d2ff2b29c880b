#!/usr/bin/env python3-vt
"""Run a command against a changed copy of /repo without touching /repo.

  mutate.py [--patch FILE] [--keep DIR] -- COMMAND...

A scratch copy of /repo gets the patch and is bound over /repo in a private
user and mount namespace, where COMMAND runs. Not used by any check."""
import os, shlex, shutil, subprocess, sys, tempfile


def run(patch, command, timeout=1200, cwd='/repo', env=None):
    tmp = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        copy = os.path.join(tmp, 'repo')
        subprocess.run(['cp', '-a', '/repo', copy], check=True)
        if patch:
            subprocess.run(['git', '-C', copy, 'apply', os.path.abspath(patch)], check=True)
        script = 'mount --bind %s /repo && cd %s && exec %s' % (
            shlex.quote(copy), shlex.quote(cwd), ' '.join(map(shlex.quote, command)))
        return subprocess.run(['unshare', '-Urm', 'bash', '-c', script], timeout=timeout,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                              env=dict(os.environ, **(env or {})))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    patch = None
    if a[0] == '--patch':
        patch = a[1]
        a = a[2:]
    if a[0] == '--':
        a = a[1:]
    r = run(patch, a)
    sys.stdout.write(r.stdout)
    sys.exit(r.returncode)
