"""Workloads: cases for the replay harness (or jobs for tomlkit), from TLC's enumerations and from generators."""
import collections, json, os, random, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
from .gen import *
from . import gen
from .run import *


class Ctx:
    def __init__(self, rng, harness, tlc, tmp):
        self.rng, self.h, self.tlc, self.tmp = rng, harness, tlc, tmp
        self.kitbin, self.hung = None, 0

    def jobs(self, jobs):
        p = os.path.join(self.tmp, 'jobs.ndjson')
        with open(p, 'w') as f:
            for j in jobs: f.write(json.dumps(j) + '\n')
        return p


# -- enumerated by TLC

def mc_docs(cx, jobs, ops=(('walk',), ('disp',))):
    """all documents of families: jobs are (family, bound[, parts]), of parts parts one is taken"""
    js = []
    for j in jobs:
        parts = j[2] if len(j) > 2 else 1
        js.append(dict(f=j[0], n=j[1], part=cx.rng.randrange(parts), parts=parts))
    lines = cx.tlc.run('MC_Docs', env=dict(JOBS=cx.jobs(js)))
    docs = sorted({d['doc'] for d in cx.tlc.said(lines, 'DOC')})
    o = [dict(op=x[0]) for x in ops]
    return [dict(doc=d, ops=o) for d in docs]


def mc_api(cx, depth, parts=1):
    env = dict(DEPTH=str(depth), PARTS=str(parts), PART=str(cx.rng.randrange(parts)))
    lines = cx.tlc.run('MC_Api', env=env)
    cases = []
    for x in cx.tlc.said(lines, 'OPS'):
        if len(x['ops']) < depth: continue
        ops = [dict(op='walk'), dict(op='disp')]
        for o in x['ops']:
            ops += [dict(op='set', **o), dict(op='get', key=o['key']), dict(op='walk'), dict(op='disp')]
        cases.append(dict(doc=x['doc'], ops=ops + [dict(op='reparse'), dict(op='walk'), dict(op='disp')]))
    return cases


def mc_turns(cx, depth, parts=1):
    env = dict(DEPTH=str(depth), PARTS=str(parts), PART=str(cx.rng.randrange(parts)))
    lines = cx.tlc.run('MC_Turns', env=env)
    cases = []
    for x in cx.tlc.said(lines, 'OPS'):
        ops = []
        for o in x[1:]: ops += [o] + ([dict(op='walk'), dict(op='disp')] if o['op'] in ('parse', 'reparse', 'set', 'put') else [])
        ops += [dict(op='recall', n=i + 1) for i in range(sum(o['op'] == 'keep' for o in x))]
        cases.append(dict(doc=x[0]['doc'], ops=ops + [dict(op='walk'), dict(op='disp'), dict(op='switch'), dict(op='walk'), dict(op='disp')]))
    return cases


def mc_values(cx, jobs, per=20):
    lines = cx.tlc.run('MC_Values', env=dict(JOBS=cx.jobs([dict(f=f, n=n) for f, n in jobs])))
    items = cx.tlc.said(lines, 'CASE')
    items.sort(key=lambda x: json.dumps(x, sort_keys=True))
    cases = []
    calls = [dict(op=x['k'], f=x['f'], a=x['a']) for x in items if x['k'] in ('ctor', 'part')]
    calls += [dict(op='eq', val=x['v'], val2=x['w']) for x in items if x['k'] == 'eq']
    for i in range(0, len(calls), per): cases.append(dict(doc='', ops=calls[i:i + per]))
    shows = [x['v'] for x in items if x['k'] == 'show']
    for i in range(0, len(shows), 8):
        ops = []
        for v in shows[i:i + 8]: ops += [dict(op='show', val=v), dict(op='showparse', val=v), dict(op='walk'), dict(op='disp')]
        cases.append(dict(doc='', ops=ops))
    return cases


# -- generated

PROFILES = dict(
    general=dict(),
    big=dict(lines=(10, 40), bad=0.02),
    tables=dict(keys='small', kinds=dict(blank=.3, comment=.3, kv=4, std=5, aot=4), vals=dict(scalar=8, arr=.5, it=1), bad=.03, lines=(2, 10), uni=0),
    clean=dict(bad=0, uni=.1),
    kit=dict(bad=0, uni=.1, keys=['a', 'b', 'c', 'd', 'e', 'k-1', 'f', 'g', '"x y"', '"é"', 'h2', 'i'], lines=(1, 5), kinds=dict(blank=1, comment=1, kv=6, std=1.5, aot=2)),
    wide=dict(keys='wide', bad=.04),
    values=dict(kinds=dict(kv=1, blank=.1, std=.1), keys='wide', bad=.02, lines=(2, 10)),
    scalars=dict(kinds=dict(kv=1, comment=.05), keys='wide', bad=.03, vals=dict(scalar=1), scalars=['int', 'flt', 'bool', 'dt'], lines=(2, 8)),
    strings=dict(kinds=dict(kv=1, comment=.05), keys='wide', bad=.03, vals=dict(scalar=1), scalars=['bs', 'mbs', 'ls', 'mls'], lines=(1, 6), uni=.2),
    dates=dict(kinds=dict(kv=1, std=.1), keys='wide', bad=.3, vals=dict(scalar=5, arr=1, it=1), scalars=['dt'], lines=(2, 8), fmt=.3),
    nested=dict(kinds=dict(kv=6, std=.5, aot=.5, blank=.2), vals=dict(scalar=1, arr=3, it=3), depth=4, bad=.02, lines=(1, 4), keys='small', maxitems=4),
    arrays=dict(kinds=dict(kv=1), vals=dict(scalar=.5, arr=4, it=1.5), depth=3, bad=.1, lines=(1, 4), maxitems=4),
    inline=dict(kinds=dict(kv=1, std=.3), vals=dict(scalar=.5, arr=1.5, it=4), depth=3, bad=.1, lines=(1, 4), maxitems=4, keys='small'),
    dups=dict(keys='small', bad=.25, kinds=dict(blank=.3, comment=.3, kv=8, std=2, aot=1), lines=(3, 12), uni=.02),
    errors=dict(keys='pool', bad=.3, lines=(3, 12), uni=.05, kinds=dict(blank=1, comment=1, kv=8, std=1.5, aot=1.5)),
    lines=dict(keys='pool', bad=.25, lines=(4, 16), nl='mix', uni=.05, kinds=dict(blank=2, comment=2, kv=6, std=1.5, aot=1)),
    fmt=dict(bad=0.01, keys='small', fmt=1, nl='mix', kinds=dict(blank=3, comment=3, kv=6, std=2, aot=2)),
    longs=dict(keys='wide', bad=.02, long=.35, lines=(1, 4), maxitems=2),
    keys=dict(keys='wide', bad=.02, fmt=.4, vals=dict(scalar=4, it=3, arr=.5), kinds=dict(kv=5, std=2, aot=1.5), lines=(2, 8)),
)


SPECIAL = dict(deep=lambda g: deepdoc(g, g.ch([g.r.randint(3, 10), g.r.randint(8, 16), g.r.randint(16, 32), g.r.randint(16, 75)])),
               deepok=lambda g: deepdoc(g, g.r.randint(3, 14), 0),
               scale=lambda g: scaledoc(g, g.ch([g.r.randint(6, 14), g.r.randint(10, 34)])),
               tree=lambda g: treedoc(g, g.ch([g.r.randint(4, 10), g.r.randint(8, 24)])),
               huge=hugedoc,
               vast=lambda g: vastdoc(g.r, g.ch(['lines', 'comment', 'comment', 'blank', 'basic', 'basic', 'literal', 'multi', 'raw', 'raw', 'digits', 'fraction', 'second'])).replace('\nx\n', '\ny = 1\n').replace('[1, "a"]', '[1]').replace('02-30', '02-03'),
               scaleset=lambda g: scaledoc(g, g.r.randint(7, 14)))
PROFILES.update({k: dict(bad=.03) for k in SPECIAL})


def docs(cx, profile, n, mut=0.0):
    out = []
    for _ in range(n):
        g = Gen(cx.rng, **PROFILES[profile])
        d = SPECIAL[profile](g) if profile in SPECIAL else g.doc()
        if cx.rng.random() < mut: d = mutate(cx.rng, d)
        out.append(d)
    return out


BEYOND = 66000                           # more than 16 bits count


def vastdoc(r, kind):
    """a document with one token of more than 65536 bytes, or as many lines; or more than 512 items"""
    n = BEYOND + r.randint(0, 3000)
    nl = r.choice(['\n', '\n', '\r\n'])
    bad = r.choice(['d = 2000-02-30', 'm = [1, "a"]', 'x = 1', '[x]', 'x', '']) + nl
    w = lambda s: 'a' * r.randint(0, 3) + r.choice(s + 'é€') * n                     # (characters of several bytes at any offset)
    body = dict(lines=lambda: 'a = [1,' + '\n' * n + '2]' + nl, comment=lambda: '#' + w('a-#é') + nl, blank=lambda: 'a =' + ' ' * n + '1' + nl,
                basic=lambda: 'a = "' + w('a-. é') + '"' + nl, literal=lambda: "a = '" + w('a-. "') + "'" + nl, multi=lambda: 'a = """' + w('a-. ') + '"""' + nl,
                raw=lambda: "a = '''" + w('a-. ') + "'''" + nl, key=lambda: r.choice('a1_') * n + ' = 1' + nl, quoted=lambda: '["' + r.choice('a. ') * n + '"]' + nl,
                digits=lambda: 'a = ' + r.choice('123') * n + nl, fraction=lambda: 'a = 1.' + r.choice('012') * n + nl, second=lambda: 'a = 1979-05-27T07:32:00.' + '9' * n + 'Z' + nl,
                items=lambda: 'a = [' + ', '.join(str(i) for i in range(r.randint(515, 640))) + ']' + nl, pairs=lambda: 'a = {' + ', '.join('k%d = %d' % (i, i) for i in range(r.randint(515, 640))) + '}' + nl)
    return 'x = 1' + nl + body[kind]() + bad


def vast(cx, kinds, ops=('walk', 'disp')):
    return [dict(doc=vastdoc(cx.rng, k), ops=[dict(op=o) for o in ops]) for k in kinds]


def sizable(g, much=True):
    """a value with a lot of something, and the keys of parts of it near its end"""
    r = g.r
    n = r.choice([255, 256, 257, r.randint(100, 2000), r.randint(2000, 8000)] + [BEYOND + r.randint(0, 3000)] * much)
    num = lambda i: dict(t='int', v=str(i))
    m = r.choice([r.randint(20, 120), 256, 257, r.randint(200, 400)])
    k = r.randrange(10)
    if k < 4: return dict(t=['bs', 'mbs', 'ls', 'mls'][k], v=r.choice('a-. é1#') * n), []
    if k == 4: return dict(t='flt', v='1.' + r.choice('015') * n), []
    if k == 5: return dict(t='dt', d=dict(zip(['y', 'mo', 'd', 'h', 'mi', 's', 'f', 'o', 'oh', 'om'], ['1979', '05', '27', '07', '32', '00', r.choice('019') * n, 'Z', '', '']))), []
    if k == 6: return dict(t='arr', a=[num(r.randint(0, 9)) for i in range(m)]), ['[%d]' % (m - 1), '[%d]' % m, '[10]', '[1]', '[%d]' % r.randrange(m)]
    if k == 7: return dict(t='it', m=[['k%d' % i, num(i)] for i in range(m)]), ['.k%d' % (m - 1), '.k%d' % m, '.k1', '.k10']
    d = r.randint(16, 36)
    v, at = num(1), ''
    for i in range(d):
        a = r.random() < .5
        v = dict(t='arr', a=[v]) if a else dict(t='it', m=[['k', v]])
        at = ('[0]' if a else '.k') + at
    return v, [at, at + '[0]', at[:-2] if at.endswith('.k') else at[:-3]]


def sizes(cx, n, checks=('walk', 'disp'), back=.5, much=True):
    """values with a lot of something are set, then parts of them, then something else in their place; shown and read again"""
    r = cx.rng
    cases = []
    for _ in range(n):
        g = Gen(r)
        d = r.choice(['a = 1\n', 'b = 2\na = [1, 2] # c\n', 'a = {b = 1}', '[t]\nc = 2000-01-01\na = "x"\n[u]\nd = 3', '[[t]]\n[[t]]\na = {b = [1]}\n'])
        key = 't.a' if d.startswith('[t]') else 't[1].a' if d.startswith('[[') else 'a'
        v, parts = sizable(g, much)
        ops = [dict(op='set', key=key, val=v)]
        if r.random() < back: ops.append(dict(op='reparse'))
        ops += [dict(op=o) for o in checks]
        for p in parts[:3]: ops.append(dict(op='get', key=key + p))
        for p in parts[:2]: ops += [dict(op='set', key=key + p, val=scalar_plain(g))] + [dict(op=o) for o in checks]
        if r.random() < .7: ops += [dict(op='set', key=key, val=r.choice([dict(t='int', v='5'), dict(t='arr', a=[dict(t='bool', v='true')]), sizable(g, much)[0]]))] + [dict(op=o) for o in checks] + [dict(op='get', key=key + p) for p in parts]
        elif not parts: ops += [dict(op='showparse', val=v)] + [dict(op=o) for o in checks]
        cases.append(dict(doc=d, ops=ops))
    return cases


def wrongs(cx, n, ops=(), bad=.3, of=(127, 128, 255, 256, 256, 257, 511, 512, 512, 513, 768, 1024)):
    """documents with exactly so many errors (around what fits into a byte, and multiples of that), also not read to the end"""
    r = cx.rng
    cases = []
    for _ in range(n):
        m = r.choice(of)
        nl = r.choice(['\n', '\n', '\r\n'])
        one = dict(dup=lambda: 'a = 2', std=lambda: '[t]', aot=lambda: '[[t]]', mixed=lambda: 'm%d = [1, "a"]', date=lambda: 'd%d = 2000-02-30', dates=lambda: 'd%d = [2000-02-30, 2001-02-29]', sub=lambda: '[a.b]')
        ks = r.choice([['dup'], ['std'], ['aot'], ['mixed'], ['date'], ['dates'], ['sub'], ['dup', 'mixed', 'date']])
        if ks == ['dates'] and m % 2: ks = ['date']
        body = [one[ks[i % len(ks)]]() for i in range(m // 2 if ks == ['dates'] else m)]
        d = ['a = 1'] + ['[t]'] * (ks in (['std'], ['aot'])) + [b % i if '%' in b else b for i, b in enumerate(body)]
        cases.append(dict(doc=nl.join(d) + nl + r.choice(['', 'x', '[x', '"']) * (r.random() < bad), ops=[dict(op=o) for o in ops]))
    return cases


def manydoc(r, n):
    """a document with something that has n parts, the key of that, and a function that gives the key of the i-th part"""
    nl = r.choice(['\n', '\n', '\r\n'])
    k = r.randrange(9)
    at = r.choice([lambda i: '[%d]' % i] if k in (0, 1, 2, 5) else [lambda i: '.k%d' % i])
    if k == 0: d = 'a = [' + r.choice([', ', ',', ',' + nl]).join(str(i) for i in range(n)) + ']' + nl
    elif k == 1: d, at = 'a = [' + ', '.join('[%d]' % i for i in range(n)) + ']' + nl, lambda i: '[%d]%s' % (i, ['', '[0]'][i % 2])
    elif k == 2: d, at = 'a = [' + ', '.join('{k = %d}' % i for i in range(n)) + ']' + nl, lambda i: '[%d]%s' % (i, ['', '.k'][i % 2])
    elif k == 3: d = 'a = {' + ', '.join('k%d = %d' % (i, i) for i in range(n)) + '}' + nl
    elif k == 4: d = '[a]' + nl + nl.join('k%d = %d' % (i, i) for i in range(n)) + nl
    elif k == 5: d, at = nl.join('[[a]]' + nl + 'k = %d' % i for i in range(n)) + nl, lambda i: '[%d].k' % i
    elif k == 6: d, at = nl.join('[a.k%d]' % i + nl + 'x = %d' % i for i in range(n)) + nl, lambda i: '.k%d%s' % (i, ['', '.x'][i % 2])
    elif k == 7: return ''.join('k%d = %d' % (i, i) + nl for i in range(n)), '', lambda i: 'k%d' % i, k
    else: d, at = 'a = {' + ', '.join('"k %d" = [%d]' % (i, i) for i in range(n)) + '}' + nl, lambda i: '."k %d"%s' % (i, ['', '[0]'][i % 2])
    return d, 'a', at, k


def many(cx, n, kinds=('get', 'ch', 'kids'), sets=0, top=400, rare=1100, p=.1):
    """documents with something that has many parts; lookups of parts anywhere in it, also once it was set to something else"""
    r = cx.rng
    cases = []
    while len(cases) < n:
        m = r.choice([255, 256, 257, 999, 1000, 1001, r.randint(515, rare)]) if r.random() < p else r.choice([99, 100, 101, 127, 128, 129, r.randint(60, top)])
        d, key, at, k = manydoc(r, m)
        if sets and k in (4, 5, 6, 7): continue
        some = lambda: [key + at(i) for i in [m - 1, m, 9, 10, m // 2, 99, 100, r.randrange(m), r.randrange(m)]]
        look = lambda: [dict(op=r.choice(kinds), key=x) for x in some()] + [dict(op=o, key=key) for o in kinds if o != 'get']
        ops = look()
        for _ in range(sets):
            if r.random() < .4: ops += [dict(op='set', key=key + at(r.choice([m - 1, m - 1, r.randrange(m)])), val=dict(t='bool', v='true'))] + look()
            ops += [dict(op='set', key=key, val=r.choice([dict(t='int', v='5'), dict(t='arr', a=[dict(t='bool', v='true')]), dict(t='arr', a=[]), dict(t='it', m=[['k1', dict(t='int', v='7')]]), sizable(Gen(r), False)[0]]))] + look()
        cases.append(dict(doc=d, ops=ops))
    return cases


def rnd(cx, profile, n, mut=0.0, ops=('walk', 'disp')):
    return [dict(doc=d, ops=[dict(op=o) for o in ops]) for d in docs(cx, profile, n, mut)]


def abyss(cx, n, depth=(65, 300), kinds=('get', 'ch'), sets=0):
    """values and tables nested deeper than what records of whole values can be: what's at the bottom is looked up and set"""
    r = cx.rng
    cases = []
    for _ in range(n):
        g = Gen(r)
        m = r.randint(*depth)
        names = [g.ch(['a', 'b', '"a.b"', 'k-1', '"["']) for _ in range(m)]
        nl = g.nl()
        header = r.random() < .25
        arr = [not header and r.random() < r.choice([0, .5, 1]) for _ in range(m)]
        paths = ['v']
        for i in range(m): paths.append(paths[-1] + ('[0]' if arr[i] else '.' + names[i]))
        s = g.ch(['1', '"x"', '[1, 2]', '{z = 1}', '[1, "a"]', '2000-02-30', '[]', '1979-05-27T07:32:00Z', '{z = 1, z = 2}', 'nil', '"'][:8 if sets else None])
        if header: d = r.choice(['[%s]', '[%s]', '[[%s]]']) % paths[-1] + nl + 'z = ' + s + nl + r.choice(['', '[%s.y]' % paths[-1] + nl, '[%s]' % paths[-2] + nl, '[%s]' % paths[r.randrange(1, m)] + nl + 'w = 1' + nl])
        else:
            for a, k in reversed(list(zip(arr, names))): s = '[' + s + ']' if a else '{' + r.choice(['', '', ' ']) + k + g.ch(['=', ' = ']) + s + '}'
            if r.random() < .1: i = r.randrange(len(s)); s = s[:i] + s[i + 1:]
            d = 'v = ' + s + nl + r.choice(['', 'w = 1'])
        low = paths[max(m - 40, 0):]
        keys = lambda: r.choice(low) + (r.choice(['', '', '[0]', '.z', '[0].z', '[1]', '.y', '.a']))
        ops = [dict(op='disp')] + [dict(op=k, key=r.choice(paths) if k != 'get' and r.random() < .4 else keys()) for k in (r.choice(kinds) for _ in range(5))]
        for _ in range(sets):
            k = keys()
            ops += [dict(op='set', key=k, val=g.ch([dict(t='int', v='5'), dict(t='arr', a=[dict(t='int', v='5'), dict(t='int', v='6')]), dict(t='it', m=[['z', dict(t='bool', v='true')]])])), dict(op='disp')]
            ops += [dict(op=x, key=y) for y in (k, keys(), keys(), r.choice(low)) for x in ('get', 'ch')]
        cases.append(dict(doc=d, ops=ops))
    return cases


PLACES = dict(
    key=['a%sb = 1\n', '%s = 1\n', '[a%s]\nx = 1\n', 'v = {b%s = 1}\n', '[[a.%s]]\n'],
    quoted=['"%s" = 1\n', '["a%s"]\n', 'v = {"%sb" = 1}\n'],
    basic=['v = "%s"\n', 'v = "a%sb"\n', 'v = """%s"""\n', 'v = """\na%s\n"""\n', 'v = "\\%s"\n', 'v = "\\u004%s"\n', 'v = """\\%s"""\n'],
    literal=["v = '%s'\n", "v = 'a%sb'\n", "v = '''%s'''\n", "v = '''\na%s\n'''\n"],
    number=['v = %s\n', 'v = 1%s\n', 'v = -%s\n', 'v = 1.%s\n', 'v = 1%s0\n', 'v = 1e%s\n', 'v = 200%s-01-01\n', 'v = 2000-01-0%s\n', 'v = 2000-01-01T00:00:00.%s\n', 'v = 2000-01-01%s00:00:00\n', 'v = tru%s\n'],
    comment=['# %s\n', '#%s\n', 'v = 1 # a%sb\n', '[t] #%s\n', 'v = [1, # %s\n2]\n', '#%s'],
    blank=['%sv = 1\n', 'v%s= 1\n', 'v =%s1\n', 'v = 1%s\nw = 2\n', '[t]%s\n', '[ t%s]\n', 'v = [%s1]\n', 'v = [1%s, 2]\n', 'v = {%sa = 1}\n', 'v = {a = 1%s}\n', 'v = 1\n%s', '%s\nw = 1\n', 'v = 1%sw = 2', 'v = 1\n%sw = 2'])


def chars(cx, places, n, ops=('walk', 'disp')):
    """characters, each at some place where it may or may not be: n of the first ones, n of all others"""
    r = cx.rng
    l = [f for k in places for f in PLACES[k]]
    first = [chr(i) for i in range(0x250)]
    cs = [c for _ in range(1 + n // len(first)) for c in r.sample(first, len(first))][:n]
    for _ in range(n):
        q = r.random()
        c = r.randrange(0x3000) if q < .5 else r.randrange(0xd800) if q < .7 else r.randrange(0xe000, 0x10000) if q < .85 else r.randrange(0x10000, 0x110000)
        cs.append(chr(c) if not 0xd800 <= c < 0xe000 else '\ufffd')
    return [dict(doc=r.choice(l).replace('%s', c), ops=[dict(op=o) for o in ops]) for c in cs]


def walked(cx, profile, n, mut=0.0):
    """documents with what the real parser makes of them (used to choose keys)"""
    cs = cx.h.run([dict(doc=d, ops=[dict(op='walk')]) for d in docs(cx, profile, n, mut)])
    return [(c['doc'], c['obs'][0]['v'] if c['obs'] and c['obs'][0]['p'] == '' else []) for c in cs]


def lookups(cx, profile, n, mut=0.0, k=12, kinds=('get', 'ch'), more=('walk',)):
    """lookups of keys that are there, and of ones that nearly are"""
    cases = []
    for d, w in walked(cx, profile, n, mut):
        g = Gen(cx.rng, **PROFILES[profile])
        ps = [x['p'] for x in w] or ['']
        ops = [dict(op=o) for o in more]
        for _ in range(k):
            key = near(g, cx.rng.choice(ps)) if cx.rng.random() < .6 else cx.rng.choice(ps)
            if okkey(key): ops.append(dict(op=cx.rng.choice(kinds), key=key))
        cases.append(dict(doc=d, ops=ops))
    return cases


def histories(cx, profile, n, mut=0.0, length=(1, 4), **kw):
    cases = []
    kw = dict(kw)
    gopt = kw.pop('gopt', {})
    nd = docs(cx, profile, 40, mut) if kw.get('p_parse') else ()
    for d, w in walked(cx, profile, n, mut):
        g = Gen(cx.rng, **dict(PROFILES[profile], **gopt))
        ops = [dict(op=c) for c in kw.get('checks', ('walk', 'disp'))]      # what's wrong already isn't said again
        ops += history(g, w, cx.rng.randint(*length), newdocs=nd, **kw)
        cases.append(dict(doc=d, ops=ops))
    return cases


PLACE = ['a = 1\n', 'a = [1, 2]\n', 'a = {b = 1, c = 2}', '[t]\na = 1 # c\nb = 2\n', '[[t]]\na = [[1], [2]] \n[t.u]\nx = 1\n', 'v = [{a = 1}, {a = {b = 2}}]\r\n', 'v = {a = [ # c\n1 , {b = 1,} ] }\n', 'a = "x" \n\n\n"b c" = """\ny\n"""', '"é" = {"x y" = [true]}\n']


def puts(cx, n, k=2, back=.6, checks=('walk', 'disp'), **o):
    """little documents in which anything is set to anything"""
    r = cx.rng
    ws = [(c['doc'], c['obs'][0]['v']) for c in cx.h.run([dict(doc=d, ops=[dict(op='walk')]) for d in PLACE])]
    cases = []
    for _ in range(n):
        g = Gen(r, **dict(dict(keys='wide', depth=r.choice([1, 1, 2, 3]), bad=.04), **o))
        d, w = r.choice(ws)
        vals = [(x['p'], x['g']) for x in w if x['g']['t'] != 'none']
        ops = []
        for _ in range(r.randint(1, k)):
            p, _ = r.choice(vals)
            v = plain(g, None, dict(scalar=1, arr=2, it=4))
            ops += [dict(op='set', key=p, val=v)] + [dict(op=c) for c in checks]
            vals = [x for x in vals if not x[0].startswith((p + '.', p + '['))] + [x for x in partsof(p, v) if okkey(x[0])]
            if r.random() < back: ops += [dict(op='reparse'), dict(op='walk'), dict(op='disp')]
        cases.append(dict(doc=d, ops=ops))
    return cases


def twice(cx, profile, n, mut=0.0):
    """one parser, several documents, with lookups and sets in between"""
    return histories(cx, profile, n, mut, length=(2, 5), p_parse=.5, p_reparse=.3)


def shows(cx, n, per=5, **o):
    cases = []
    for _ in range(n):
        g = Gen(cx.rng, **dict(dict(keys='wide', depth=3), **o))
        ops = []
        for _ in range(per):
            v = plain(g)
            ops += [dict(op='show', val=v), dict(op='showparse', val=v), dict(op='walk'), dict(op='disp')]
        cases.append(dict(doc='', ops=ops))
    return cases


FROMSTR = dict(date=3, datetime=6, datetime_frac=7, datetime_offset=9, datetime_full=10, datetime_zulu=6, datetime_full_zulu=7)


def ctors(cx, n, per=10, **o):
    r = cx.rng
    cases = []
    for _ in range(n):
        g = Gen(r, **dict(dict(bad=.2), **o))
        ops = []
        for _ in range(per):
            q = r.random()
            if q < .35:
                s = r.choice([g.basic(8), g.literal(8), g.mbasic(), g.mliteral()])
                if r.random() < .3: s = mutate(r, s)
                ops.append(dict(op='ctor', f=r.choice(['basic_string', 'ml_basic_string', 'literal_string', 'ml_literal_string']), a=[s]))
            elif q < .5:
                s = r.choice([g.int(), g.flt()])
                if r.random() < .4: s = mutate(r, s, 1)
                ops.append(dict(op='ctor', f=r.choice(['int_from_str', 'float_from_str']), a=[s]))
            elif q < .65:
                s = g.dt()
                if r.random() < .4: s = mutate(r, s, 1)
                ops.append(dict(op='ctor', f='datetime_parse', a=[s]))
            else:
                k = r.choice(list(FROMSTR))
                wild = r.choice([0, 0, .1, .5])                                   # how often a field is anything
                two = lambda lo, hi: r.choice(['00', '01', '02', '09', '10', '11', '12', '13', '23', '24', '28', '29', '30', '31', '59', '60', str(r.randint(10, 99))]) if r.random() < wild else '%02d' % r.choice([lo, hi, r.randint(lo, hi)])
                a = [r.choice(['0000', '0001', '0004', '1900', '2000', '2023', '2024', '9999', str(r.randint(1000, 9999))])] + [two(1, 12), two(1, r.choice([28, 28, 31])), two(0, 23), two(0, 59), two(0, 59)]
                frac = g.digits(r.randint(1, 6)) if r.random() < .6 else g.digits(r.randint(7, 19)) if r.random() < .8 else str(2 ** r.choice([8, 16, 31, 32, 53, 63, 64]) - r.randint(1, 2))
                off = [r.choice('+-'), two(0, 23), two(0, 59)]
                extra = {'datetime_frac': [frac], 'datetime_offset': off, 'datetime_full': [frac] + off, 'datetime_full_zulu': [frac]}.get(k, [])
                a = a[:3] if k == 'date' else a + extra
                if r.random() < .5:
                    a = [x if x in '+-' else str(int(x)) for x in a]
                    if r.random() < .15:                                          # what's the same but for bits that may get lost
                        i = r.choice([i for i, x in enumerate(a) if i != 6 and x not in '+-'])
                        a[i] = str(int(a[i]) + 2 ** r.choice([7, 8, 16, 31, 32, 63]))
                    ops.append(dict(op='ctor', f=k + '_from_int', a=a))
                else:
                    if r.random() < .2: i = r.randrange(len(a)); a[i] = mutate(r, a[i], 1)
                    ops.append(dict(op='ctor', f=k + '_from_str', a=a))
        cases.append(dict(doc='', ops=ops))
    return cases


def years(cx, parts, ways=('doc', 'str', 'int', 'parse')):
    """29 February of every year, and other ends of months, of parts parts one, read, built and parsed"""
    cases = []
    part = cx.rng.randrange(parts)
    ys = [y for y in range(10000) if y % parts == part]
    if parts > 1: ys = sorted(set(ys) | set(range(0, 10000, 100)))
    for i in range(0, len(ys), 25):
        ch = ys[i:i + 25]
        if 'doc' in ways:
            cases.append(dict(doc=''.join('k%d = %04d-02-29%s\n' % (y, y, cx.rng.choice(['', 'T00:00:00', 'T23:59:59Z'])) for y in ch), ops=[dict(op='disp')]))
        ops = []
        for y in ch:
            if 'str' in ways: ops.append(dict(op='ctor', f='date_from_str', a=['%04d' % y, '02', '29']))
            if 'int' in ways and y: ops.append(dict(op='ctor', f='date_from_int', a=[str(y), '2', '29']))
            if 'parse' in ways: ops.append(dict(op='ctor', f='datetime_parse', a=['%04d-02-29T12:00:00' % y]))
            m = cx.rng.randint(1, 12)
            ops.append(dict(op='ctor', f='date_from_str', a=['%04d' % y, '%02d' % m, str(cx.rng.randint(28, 32))]))
        cases.append(dict(doc='', ops=ops))
    return cases


def parts(cx, n, per=10):
    """parts of date-times by themselves, of fields that may be anything"""
    r = cx.rng
    num = lambda w: r.choice(['%0*d' % (w, r.randint(0, 10 ** w - 1)), '%0*d' % (w, r.choice([0, 1, 2, 12, 13, 23, 24, 28, 29, 30, 31, 59, 60])), mutate(r, '%0*d' % (w, r.randint(0, 99)), 1)] if r.random() < .5
                             else ['%0*d' % (w, r.choice([1, 2, 4, 6, 9, 11, 12, 19, 20]))])
    cases = []
    for _ in range(n):
        ops = []
        for _ in range(per):
            o = r.choice([[], [], ['Z'], [r.choice('+-'), num(2), num(2)], [r.choice('+-'), num(2), num(2)]])
            a = dict(y=num(4), mo=num(2), d=num(2), h=num(2), mi=num(2), s=num(2), f=r.choice([[], [], [num(3)], [''.join(r.choice('0123456789') for _ in range(r.randint(1, 30)))]]), o=o, t=r.random() < .7)
            f = r.choice(['date', 'time', 'time', 'datetime', 'offset' if o else 'date'])
            if r.random() < .1: f, a['o'] = 'amount', [r.choice(['+', '-', '', ' ', '+-', 'Z', '−', '0']), num(2), num(2)]
            ops.append(dict(op='part', f=f, a=a))
        cases.append(dict(doc='', ops=ops))
    return cases


def equals(cx, n, per=8, **o):
    """pairs of values that are the same, or nearly"""
    cases = []
    for _ in range(n):
        g = Gen(cx.rng, **dict(dict(keys='wide', depth=3), **o))
        ops = []
        for _ in range(per):
            v = plain(g)
            q = cx.rng.random()
            w = v if q < .3 else tweaked(g, v) if q < .5 else reshaped(g, v, .2) if q < .6 else alike(g, v)
            ops.append(dict(op='eq', val=v, val2=w) if cx.rng.random() < .5 else dict(op='eq', val=w, val2=v))
        cases.append(dict(doc='', ops=ops))
    return cases


def samekeys(cx, profile, n, mut=0.0, k=12):
    """values and children of pairs of keys of a document compared with each other"""
    cases = []
    for d, w in walked(cx, profile, n, mut):
        ps = [x['p'] for x in w] or ['']
        sh = collections.defaultdict(list)
        for x in w: sh[json.dumps([x['g']['t'], x['c']])].append(x['p'])
        for x in w:                                           # the same keys, perhaps in another order
            if x['c']['c'] == 'keys': sh[json.dumps(sorted(x['c']['ks']))].append(x['p'])
        ops = []
        for _ in range(k):
            l = cx.rng.choice(list(sh.values())) if sh and cx.rng.random() < .6 else ps
            ops.append(dict(op='same', key=cx.rng.choice(l), key2=cx.rng.choice(l)))
        cases.append(dict(doc=d, ops=[o for o in ops if okkey(o['key'])]))
    return cases


def samevalues(cx, n, **o):
    """values read from a document that are the same, or nearly, compared with each other"""
    r = cx.rng
    cases = []
    for _ in range(n):
        g = Gen(r, **dict(dict(keys='wide', depth=2, bad=0), **o))
        vs = []
        for _ in range(r.randint(1, 3)):
            v = dtval(g) if r.random() < .4 else plain(g)
            vs += [v, alike(g, v)] + ([alike(g, v)] if r.random() < .5 else [])
        ks = ['k%d' % i for i in range(len(vs))]
        ops = [dict(op='same', key=a, key2=b) for a in ks for b in r.sample(ks, min(3, len(ks)))]
        cases.append(dict(doc=''.join('%s = %s\n' % (k, shown(v)) for k, v in zip(ks, vs)), ops=ops))
    return cases


def isolated(cx, profile, n, mut=0.0, length=(5, 12), p_keep=.25):
    """two parsers taking turns; things they hand out are kept, and looked at again in the end"""
    r = cx.rng
    ws = walked(cx, profile, 2 * n, mut)
    cases = []
    for i in range(n):
        g = Gen(r, **PROFILES[profile])
        (d0, w0), (d1, w1) = ws[2 * i], ws[2 * i + 1] if r.random() < .7 else ws[2 * i]
        here, there = [w0, True], [[], False]       # what there is to be looked up, whether something was parsed
        ops, kept, values = [], 0, []
        for j in range(r.randint(*length)):
            q = r.random()
            paths = [x['p'] for x in here[0]] or ['', 'a']
            vals = [(x['p'], x['g']) for x in here[0] if x['g']['t'] != 'none']
            if q < .22 or j == 2:
                ops.append(dict(op='switch'))
                here, there = there, here
                if not here[1] and r.random() < .8:
                    ops += [dict(op='parse', doc=d1), dict(op='walk')]
                    here = [w1, True]
            elif q < .22 + p_keep:
                k = r.choice(['get', 'get', 'ch', 'res', 'res'])
                if k == 'res' and not here[1]: k = 'ch'
                ops.append(dict(op='keep', k=k, key=r.choice([x[0] for x in vals] or paths) if k == 'get' and r.random() < .7 else r.choice(paths)))
                kept += 1
                if k == 'get': values.append(kept)
            elif q < .55 + p_keep / 2 and vals:
                k, v = r.choice(vals)
                q = r.random()
                if values and q < .35: ops.append(dict(op='put', key=k, n=r.choice(values)))
                elif q < .5: ops.append(dict(op='copy', key=k, **{'from': r.choice(vals)[0]}))
                else: ops.append(dict(op='set', key=k, val=r.choice([reshaped, tweaked])(g, v)))
                if r.random() < .4: ops.append(dict(op=r.choice(['walk', 'disp'])))
            elif q < .72:
                d, w = r.choice([(d0, w0), (d1, w1)])
                ops.append(dict(op='parse', doc=d))
                here = [w, True]
                if r.random() < .5: ops.append(dict(op='walk'))
            elif q < .78:
                ops.append(dict(op='new'))
                here = [[], False]
                ops.append(r.choice([dict(op='walk'), dict(op='disp'), dict(op='get', key='a'), dict(op='ch', key=r.choice(['', 'a'])), dict(op='set', key='a', val=scalar_plain(g))]))
            elif q < .84 and here[1]: ops.append(dict(op='reparse'))
            elif kept: ops.append(dict(op='recall', n=r.randint(1, kept)))
        ops += [dict(op='recall', n=x + 1) for x in range(kept)]
        ops += [dict(op='walk'), dict(op='disp'), dict(op='switch'), dict(op='walk'), dict(op='disp')]
        cases.append(dict(doc=d0, ops=ops))
    return cases


def alone(case, n, fresh):
    """What happened to the parser that did operation n: without the other parsers, or (fresh) without what it did before it parsed
    its document.  Returns the case and which of its operations is operation n; None if it wasn't one of the parser."""
    turns, cur = [[dict(op='parse', doc=case['doc'])], []], 0
    at = [[0], []]
    kept = [x for o, x in zip(case['ops'], case['obs']) if o['op'] == 'keep']
    for i, o in enumerate(case['ops'][:n], 1):
        if o['op'] == 'put': o = dict(op='set', key=o['key'], val=kept[o['n'] - 1]['v'])
        if o['op'] == 'switch': cur = 1 - cur
        elif o['op'] not in ('keep', 'recall'): turns[cur].append(o); at[cur].append(i)
    ops, at = turns[cur], at[cur]
    if n not in at: return None
    b = max([i for i, o in enumerate(ops) if o['op'] == 'new'] or [0])
    if fresh: b = max([i for i, o in enumerate(ops) if o['op'] in ('parse', 'new')] or [0])
    ops, at = ops[b:], at[b:]
    if ops[0]['op'] == 'parse': return dict(doc=ops[0]['doc'], ops=ops[1:]), at.index(n)
    return dict(doc='', ops=[dict(op='new')] + ops), at.index(n) + 1


def reused(cx, n, k=3):
    """texts of the same length and nearly the same content, one after the other in the same memory, each with a parser of its own"""
    r = cx.rng
    cases = []
    for _ in range(n):
        g = Gen(r, **PROFILES[r.choice(['general', 'errors', 'lines', 'strings', 'arrays'])])
        d = g.doc()
        if r.random() < .6:
            body = ''.join(r.choice('ab\n\n ') for _ in range(r.randint(3, 12)))
            d = 's = ' + r.choice(["\'\'\'%s\'\'\'", '"""%s"""', '[%s]']) % body + '\n' + r.choice(['d = 2000-02-30', 's = 1', 'm = [1, true]', 'x', '', d]) + '\n'
        ops = [dict(op='walk')]
        for _ in range(k):
            e = list(d)
            for _ in range(r.choice([0, 1, 1, 2, 5])):
                i = r.randrange(len(e)) if e else 0
                if e and ord(e[i]) < 128: e[i] = r.choice(['\n', ' ', 'a', '1', '\n'] if e[i] in '\n ab' else [chr(ord(e[i]) ^ 1), 'a', '1', e[i]])
            if r.random() < .4:                   # things moved
                i, j = sorted((r.randrange(len(e) + 1), r.randrange(len(e) + 1)))
                e[i:j] = e[i:j][::-1]
            e = ''.join(e)
            ops += [dict(op='new'), dict(op='parse', doc=e), dict(op=r.choice(['walk', 'disp']))]
            if r.random() < .5: d = e
        cases.append(dict(doc=d, ops=ops))
    return cases


def reformatted(cx, n, **o):
    """the same content, written in different ways"""
    cases = []
    for _ in range(n):
        seed = cx.rng.random()
        for fmt, nl in ((0, '\n'), (1, '\n'), (1, '\r\n'), (1, 'mix')):
            g = Gen(random.Random(seed), **dict(PROFILES['fmt'], fmt=fmt, nl=nl, **o))
            cases.append(dict(doc=g.doc(), ops=[dict(op='walk'), dict(op='disp')]))
    return cases


# -- tomlkit

SHORT = {'get-value': 'g', 'get-children': 'c', 'set-value': 's', 'separator': 'p', 'quiet': 'q', 'input-file': 'i', 'output-file': 'o', 'help': 'h'}
LONG = {'get': 'get-value', 'has': 'has-value', 'ch': 'get-children', 'hasch': 'has-children', 'set': 'set-value'}
FLAGS = ('quiet', 'print-doc', 'strip-quotes', 'array-length', 'help')


def odd(path):
    """what's there besides files with text"""
    if os.path.islink(path): return 'link ' + os.readlink(path)
    if os.path.isdir(path): return 'dir'
    with open(path, 'rb') as f: b = f.read()
    try: b.decode(); return None
    except UnicodeDecodeError: return 'bytes ' + repr(b)


def run_kit(cx, job, r):
    """runs tomlkit in a directory of its own, called in one of many ways that are the same"""
    if cx.hung > 8: return None
    d = tempfile.mkdtemp(dir=cx.tmp)
    try:
        for name, text in job['disk']:
            os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
            with open(os.path.join(d, name), 'w', newline='') as f: f.write(text)
        os.makedirs(os.path.join(d, 'dir.toml'))
        with open(os.path.join(d, 'bytes.toml'), 'wb') as f: f.write(b'a = "\xff"\n')
        os.symlink('/dev/full', os.path.join(d, 'full.toml'))
        args = [[o] + ([] if o in FLAGS else [v]) for o, v in job['opt']] + [[LONG[c], v] for c, v in job['cmd']]
        stdin = ''
        if job['stdin']: stdin = ''.join(r.choice(['', '', '', ' ', '\t']) + f + r.choice(['', '', '', ' ', '\r']) + '\n' for f in job['files'])
        else: args.append(['input-file', job['files'][0]])
        if stdin and r.random() < .3: stdin = stdin[:-1]
        r.shuffle(args)
        if job['wrong'] == 'help': args.append(['help'])
        if job['wrong'] == 'call': args.append(r.choice([['nope'], ['get-value'], ['input-file'], ['getvalue', 'a'], ['output-file']]))
        argv = [cx.kitbin]
        for a in args: argv += ['-' + SHORT[a[0]] if a[0] in SHORT and r.random() < .4 else '--' + a[0]] + a[1:]
        try:
            p = subprocess.run(argv, cwd=d, input=stdin.encode(), capture_output=True, timeout=30, env=dict(os.environ, RUST_BACKTRACE='0'))
            out, code = p.stdout.decode('utf-8', 'replace'), p.returncode
            if code < 0 or code == 101: code = -1
        except subprocess.TimeoutExpired:
            out, code = '', -1
            cx.hung += 1
        after = []
        there = {'dir.toml': 'dir', 'bytes.toml': 'bytes ' + repr(b'a = "\xff"\n'), 'full.toml': 'link /dev/full'}
        for at, ds, fs in os.walk(d):
            for name in sorted(fs) + [x for x in ds if os.path.islink(os.path.join(at, x))]:
                path = os.path.join(at, name)
                rel, what = os.path.relpath(path, d), odd(path)
                if what is None:
                    with open(path, newline='') as f: after.append([rel, f.read()])
                elif there.pop(rel, None) != what: after.append([rel, what])
        after += [[x, 'gone'] for x in there if x != 'dir.toml' or not os.path.isdir(os.path.join(d, x))]
        return dict(job, out=out, code=code, after=after, argv=argv[1:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_kits(cx, jobs):
    seeds = [cx.rng.random() for _ in jobs]
    with ThreadPoolExecutor(16) as ex: return [c for c in ex.map(lambda j, s: run_kit(cx, j, random.Random(s)), jobs, seeds) if c]


def kitlist(l):
    """a list that the tool's reader takes as it's meant"""
    return all(x and not any(c in x for c in ',\n\r\x00') for x in l)


TYPES = dict(bs=['bs', 'basic-string'], mbs=['mbs', 'ml-basic-string'], ls=['ls', 'literal-string'], mls=['mls', 'ml-literal-string'],
             int=['int', 'integer'], flt=['flt', 'float'], bool=['bool', 'boolean'], dt=['dt', 'datetime'])


NOWRITE = ['no/out.toml', 'dir.toml', 'full.toml', 'dir.toml/', 'no/d.toml', 'dir.toml/d.toml/x', '']


def kits(cx, n, setting=.6, profile='kit', mut=.05):
    r = cx.rng
    ws = walked(cx, profile, n, mut)
    jobs = []
    for i in range(n):
        nf = r.choice([1, 1, 1, 2, 3]) if r.random() < .97 else r.randint(4, 14)
        parts = [r.choice(ws) for _ in range(nf)]
        disk = [[r.choice(['d%d.toml'] * 6 + ['my doc%d', 'é%d.toml', 'sub/d%d.toml', '-d%d.toml']) % j, p[0]] for j, p in enumerate(parts)]
        files = [x[0] for x in disk]
        if r.random() < .1: files.append(r.choice(files))
        if r.random() < .06: files.insert(r.randint(0, len(files)), r.choice(['missing.toml', 'no/d.toml', 'dir.toml', 'bytes.toml', 'dir.toml/d.toml']))
        stdin = len(files) > 1 or r.random() < .1
        paths = [x['p'] for p in parts for x in p[1] if x['p']] or ['a']
        vals = [x['p'] for p in parts for x in p[1] if x['g']['t'] != 'none'] or ['a']
        g = Gen(r, bad=.05, uni=.05)
        key = lambda l, bad: near(g, r.choice(l)) if r.random() < bad else r.choice(l)
        klist = lambda l, bad=.1: ','.join(k for k in [key(l, bad) for _ in range(r.choice([1, 1, 2, 3]) if r.random() < .96 else r.randint(4, 30))] if kitlist([k]) and not k.startswith('-')) or 'a'
        cmd = []
        if r.random() < .5: cmd.append(['get', klist(vals)])
        if r.random() < .35: cmd.append(['has', klist(paths, .4)])
        if r.random() < .4: cmd.append(['ch', klist(paths, .05)])
        if r.random() < .35: cmd.append(['hasch', klist(paths, .4)])
        lists = r.random() < .12
        if lists: cmd = [c for c in cmd if c[0] == 'get' and r.random() < .3] + [['has', klist(paths, .4)], ['hasch', klist(paths, .4)]]
        if r.random() < setting * (not lists) or not cmd:
            t = []
            for _ in range(r.choice([1, 1, 2, 3]) if r.random() < .95 else r.randint(4, 15)):
                v = scalar_plain(g)
                if v['t'] not in TYPES: continue
                text = r.choice(['1979-05-27', '1979-05-27T07:32:00Z', '2000-02-30', '2000-02-29', g.dt(), g.dt(), '1979-05-27T07:32:00.25-07:00', '1979-05-27T07:32:00.25+07:30', '1979-05-27T07:32:00.250Z', '1979-05-27T07:32:00.999', '1979-05-27T07:32:59']) if v['t'] == 'dt' else v['v']
                k = key(vals, .06)
                typ = r.choice(TYPES[v['t']]) if r.random() > .04 else r.choice(['x', 'array', 'Int', 'datetime '])
                if v['t'] == 'bool' and r.random() < .3: text = r.choice(['True', 'FALSE', 'yes'])
                if kitlist([k, text, typ]): t += [k, text, typ] * (1 if r.random() > .05 else 2)
            if r.random() < .04 and t: t = t[:-1]
            if t and not t[0].startswith('-'): cmd.append(['set', ','.join(t)])
        if not cmd: cmd = [['get', 'a']]
        if r.random() < .03: cmd = []
        wrong = r.choice(['help', 'call']) if r.random() < .03 else ''
        opt = []
        some = r.choice([.1, .1, .1, .6])
        for o, vs in (('set-true', ['yes', 'y,z', '1,2,3,4,5,6', 'T,,U', '', 'é,ü,€,中,x,y', '1,2,3', 'true']), ('set-false', ['no', 'n,m', '6,5,4,3,2,1', '', '6,5,4', 'false']),
                      ('separator', ['|', ' ', '; ', '\n', '', ',', '"', '€', ', ']), ('array-separator', [';', '--', '', '\n', ', ', '[']),
                      ('array-begin', ['<', '(', '', '[[']), ('array-end', ['>', ')', '', ']]', '\n'])):
            if lists and o in ('set-true', 'set-false'): opt.append([o, r.choice([v for v in vs if ',' in v])])
            elif r.random() < some: opt.append([o, r.choice(vs)])
        for o in ('array-length', 'strip-quotes', 'quiet', 'print-doc'):
            if r.random() < .15: opt.append([o, ''])
        if r.random() < .35: opt.append(['output-file', r.choice(['out.toml', 'out.toml', 'd0.toml', r.choice(files), r.choice(NOWRITE)])])
        if opt and opt[-1] == ['output-file', 'bytes.toml']: opt.pop()
        jobs.append(dict(files=files, disk=disk, cmd=cmd, opt=opt, stdin=stdin, wrong=wrong, nowrite=NOWRITE))
    return run_kits(cx, jobs)


def mc_kit(cx, parts=1):
    lines = cx.tlc.run('MC_Kit', env=dict(PARTS=str(parts), PART=str(cx.rng.randrange(parts))))
    jobs = []
    for j in cx.tlc.said(lines, 'JOB'):
        j['stdin'] = len(j['files']) > 1
        jobs.append(j)
    jobs.sort(key=lambda x: json.dumps(x, sort_keys=True))
    return run_kits(cx, jobs)
