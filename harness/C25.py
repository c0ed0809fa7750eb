import os, builtins, tempfile, shutil
from common import *
import inference.utils.ioutils as io_

NAMES = ['f', 'data.txt', 'a%', 'x%%', 'with space', 'dir/y', '.hid', 'n.1']


def gen(g, i):
    nm = g.choice(NAMES)
    others = [nm + s for s in ('%', '%%', '%%%', '.1', '~', 'x')] + ['other', 'zzz']
    return dict(name=nm, here=[o for o in [nm] + others if g.bool(.5)], op=g.choice(['backup', 'text', 'bin', 'b', 'opener', 'kw']),
                reps=g.int(1, 4), crash=g.int(0, 3))


class Crash(Exception):
    pass


def check(c):
    d = tempfile.mkdtemp(dir='.')
    cwd = os.getcwd()
    os.chdir(d)
    try:
        os.mkdir('dir')
        body(c)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def ls():
    out = {}
    for r, _, fs in os.walk('.'):
        for f in fs:
            p = os.path.normpath(os.path.join(r, f))
            out[p] = open(p).read()
    return out


def body(c):
    nm = c['name']
    for h in c['here']:
        with open(h, 'w') as f:
            f.write('<' + h + '>')
    # crash run: stop after `crash` renames
    cnt = [0]
    before = ls()
    b, bb = nm + '%', nm + '%%'
    real = {k: getattr(os, k) for k in ('rename', 'replace', 'remove', 'unlink')}

    def wrap(fn):
        def f(*a, **k):
            if cnt[0] >= c['crash']:
                raise Crash()
            cnt[0] += 1
            return fn(*a, **k)
        return f

    def spec(before):
        after = dict(before)
        if nm in after:
            if b in after:
                after[bb] = after[b]
            after[b] = after.pop(nm)
        return after
    if c['crash']:
        for k in real:
            setattr(os, k, wrap(real[k]))
        crashed = False
        try:
            io_.backup(nm)
        except Crash:
            crashed = True
        finally:
            for k in real:
                setattr(os, k, real[k])
        now = ls()
        for n in (nm, b):
            if n in before:
                need(before[n] in now.values(), 'contents of %s lost when stopped after %d operations: %s', n, cnt[0], sorted(now))
        for n in before:
            if n not in (nm, b, bb):
                need(now.get(n) == before[n], 'file %s touched', n)
        if crashed:
            return
        need(now == spec(before), 'backup: %s, expected %s', now, spec(before))
        return
    for r in range(c['reps']):
        before = ls()
        exp = spec(before)
        if c['op'] == 'backup':
            io_.backup(nm)
            need(ls() == exp, 'backup: %s, expected %s', ls(), exp)
            with open(nm, 'w') as f:
                f.write('gen%d' % r)
            continue
        got = []

        def opener(*a, **k):
            got.append((a, k))
            return open(a[0], 'w')
        if c['op'] == 'text':
            f = io_.safe_open(nm)
        elif c['op'] == 'bin':
            f = io_.safe_open(nm, True)
        elif c['op'] == 'b':
            f = io_.safe_open(nm, 'b')
        elif c['op'] == 'opener':
            f = io_.safe_open(nm, False, opener, 'w', 1)
            need(got == [((nm, 'w', 1), {})], 'opener called with %r', got)
        else:
            f = io_.safe_open(nm, opener=opener, a=1)
            need(got == [((nm,), {'a': 1})], 'opener called with %r', got)
        exp[nm] = ''
        need(ls() == exp, 'safe_open: %s, expected %s', ls(), exp)
        f.write(b'gen%d' % r if c['op'] in ('bin', 'b') else 'gen%d' % r)
        f.close()
        exp[nm] = 'gen%d' % r
        need(ls() == exp, 'after writing: %s, expected %s', ls(), exp)
