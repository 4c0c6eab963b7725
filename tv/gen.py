"""Documents, values and histories to be run against tomllib.  Nothing here says what's right: that's the
specification's business.  Everything is drawn from the rng given."""
import copy

WS = ['', '', '', ' ', ' ', '  ', '\t', ' \t', '\t ', '\t\t', '   ', ' ' * 9, '\t \t\t ']
STRANGE = ['\ufeff', '\u00a0', '\u2028', '\u0085', '\x0b', '\x0c', '\x00', '\x7f', '\u3000', '\u200b', '\ufeff\ufeff', '\r', '\x1a', '\x08', '\x1f', '\u2003']
UNI = ['é', 'ß', '中', '😀', '\u00a0', '\u2028', '\ufeff', '\u007f', '\u0085', 'Ω', '\U0010ffff', '\ud7ff', '\ufffd']
POOL = ['a', 'b', 'c', 'd']
MORE = ['e', 'key', 'k-1', 'k_2', '1', '-', '_', 'A', 'true', 'false', 'inf', 'nan', 'info', 'nano', 'True', 'e', '1e5', '0x1', '1_0', '-1', '00', '"$Root$"', '"$Root$.a"', '1979-05-27', 'aa', 'ab', '"a"', '"b c"', '"a.b"', '"[0]"', '"é"',
        '"\\u00e9"', '"\\uaBcD"', '"\\U0000aBcD"', '"\\U0001f60E"', '"#"', '"="', '"\\""', '"x\'y"', '"]"', '" "', '"\\\\"', '"1"', '"true"', '"x,y"', '"{"', '"x=1"', 'a-b', 'a_b', 'B', '"\\n"', '"中😀"']
BARE = 'abcxyzABCXYZ0189-_'
# pools of keys that are easily taken for each other
POOLS = [POOL, POOL, POOL, ['port', 'ports', 'por', 'Port'], ['a', 'aa', 'aaa', 'A'], ['k', 'k-1', 'k_1', 'k-'], ['a', '"a"', '"a.b"', 'b'], ['0', '1', '10', '00'],
         ['a', 'b', '"a[0]"', '"[0]"'], ['x', '"x"', '"x y"', '"x "'], ['ab', 'a', 'b', 'ba'], ['key', 'Key', 'KEY', 'keys'], ['"é"', 'e', '"e\u0301"', '"É"'], ['-', '--', '_', '-_'],
         ['a', '"\\u0061"', '"\\U00000061"', '"A"']]


class Gen:
    def __init__(self, rng, **o):
        self.r = rng
        self.o = dict(keys='pool', nl=None, depth=2, bad=0.1, uni=0.15, lines=(1, 9),
                      kinds=dict(blank=1, comment=1, kv=8, std=2, aot=2), vals=None, fmt=1.0, maxitems=3, long=.02, pool=None, pathlen=3)
        self.o.update(o)
        self.nlstyle = self.o['nl']
        self.pool = self.o['pool'] or self.ch(POOLS)

    # -- small things
    def ch(self, l): return self.r.choice(l)
    def p(self, x): return self.r.random() < x
    def count(self, a, b):
        """how many: a to b, or now and then far more"""
        return self.r.randint(b, 8 * b + 4) if self.p(self.o['long']) else self.r.randint(a, b)

    def ws(self): return self.ch(WS) if self.p(self.o['fmt']) else ''

    def nl(self):
        s = self.nlstyle
        if s is None:
            s = self.nlstyle = self.ch(['\n', '\n', '\n', '\r\n', 'mix'])
        return self.ch(['\n', '\r\n']) if s == 'mix' else s

    def text(self, n=6):
        return ''.join(self.ch(UNI) if self.p(self.o['uni']) else self.ch('abc xyz0189,.;:!?#=[]{}()-_+/&%$@') for _ in range(self.count(0, n)))

    def comment(self):
        return '#' + self.ch(['', ' ', '\t', ' "', " '", ' [x]', ' a = 1', '#']) + self.text(8)

    def bare(self): return ''.join(self.ch(BARE) for _ in range(self.count(1, 5)))

    def key(self):
        m = self.o['keys']
        if m == 'pool': return self.ch(self.pool) if self.p(0.85) else self.ch(MORE)
        if m == 'small': return self.ch(self.pool[:3])
        if m == 'wide': return self.ch([self.bare(), self.ch(MORE), '"%s"' % self.basic(4) if self.p(.5) else self.bare(), self.ch(self.pool)]).replace('""', '"q"')
        return self.ch(m)

    def keypath(self, n=3):
        ks = [self.key() for _ in range(self.count(3, 6) if self.p(self.o['long']) else self.r.choice([1, 1, 2, 2, 3][:n + 2]))]
        if self.p(.6): return self.ch(['.', '.', '.', ' . ', '. ', ' .', '\t.']).join(ks)
        return ks[0] + ''.join(self.ws() + '.' + self.ws() + k for k in ks[1:])

    # -- scalars
    def digits(self, n): return ''.join(self.ch('0123456789') for _ in range(n))

    def udigits(self):
        s = self.digits(1)
        for _ in range(self.count(0, 4)):
            s += self.ch(['', '', '_']) + self.digits(1)
        return s

    def int(self):
        s = self.ch(['', '', '', '+', '-'])
        return s + ('0' if self.p(.15) else self.ch('123456789') + ('' if self.p(.4) else self.ch(['', '_']) + self.udigits()))

    def flt(self):
        s = self.int()
        f = '.' + self.udigits()
        e = self.ch('eE') + self.int()
        return s + self.ch([f, f, e, f + e])

    def date(self, bad=None):
        if bad is None: bad = self.p(self.o['bad'])
        y = self.ch(['1979', '2000', '1900', '2004', '2023', '0001', '9999', '2400', '2100'])
        if bad:
            return self.ch([y, '0000']) + '-' + self.ch(['00', '13', '02', '04', '06', '09', '11', '99', '12']) + '-' + self.ch(['00', '31', '32', '30', '29', '28', '99', '10'])
        return y + '-' + self.ch(['01', '02', '03', '04', '05', '06', '07', '08', '09', '10', '11', '12']) + '-' + self.ch(['01', '10', '27', '28'])

    def clock(self, bad=None):
        if bad is None: bad = self.p(self.o['bad'])
        if bad: return ':'.join([self.ch(['00', '23', '24', '25', '99']), self.ch(['00', '59', '60', '99']), self.ch(['00', '59', '60', '61', '99'])])
        return ':'.join([self.ch(['00', '07', '12', '23']), self.ch(['00', '32', '59']), self.ch(['00', '59', '30'])])

    def dt(self):
        s = self.date()
        if self.p(.3): return s
        s += 'T' + self.clock()
        if self.p(.4): s += '.' + self.digits(self.count(1, 9))
        q = self.r.random()
        if q < .3: s += 'Z'
        elif q < .6: s += self.ch('+-') + (self.ch(['00', '01', '12', '23']) if not self.p(self.o['bad']) else self.ch(['24', '99', '23'])) + ':' + (self.ch(['00', '30', '59']) if not self.p(self.o['bad']) else self.ch(['60', '99']))
        return s

    def esc(self):
        if self.p(.15): return self.ch(['\\u', '\\U0000', '\\U0001']) + ''.join(self.ch('0123456789abcdefABCDEF') for _ in range(4))
        return self.ch(['\\b', '\\t', '\\n', '\\f', '\\r', '\\/', '\\"', '\\\\', '\\u00e9', '\\u0000', '\\uD7FF', '\\uFFFF', '\\U0001F600', '\\U00000041', '\\uabCD', '\\u0022'])

    def basic(self, n=6):
        return ''.join(self.esc() if self.p(.2) else self.ch(UNI) if self.p(self.o['uni']) else self.ch("abc xyz01',.#=[]{}/") for _ in range(self.count(0, n)))

    def literal(self, n=6):
        return ''.join(self.ch(UNI) if self.p(self.o['uni']) else self.ch('abc xyz01",.#=[]{}\\\t/') for _ in range(self.count(0, n)))

    def mbasic(self):
        s = ''
        for _ in range(self.count(0, 7)):
            s += self.ch([self.esc(), self.nl(), self.basic(2), self.basic(3), '"', '""', '\\' + self.nl() + self.ch(['', '  ', '\t']), "'", '\t', ' '])
        while '"""' in s: s = s.replace('"""', '""')
        return s.rstrip('"') + self.ch(['', '', '\n'])

    def mliteral(self):
        s = ''
        for _ in range(self.count(0, 7)):
            s += self.ch(['\\', self.nl(), self.literal(3), "'", "''", '"', '\t', ' ', '"""'])
        while "'''" in s: s = s.replace("'''", "''")
        return s.rstrip("'") + self.ch(['', '', '\n'])

    SC = dict(int=4, flt=3, bool=2, dt=3, bs=4, mbs=2, ls=2, mls=2)

    def scalar(self, kinds=None):
        k = dict(self.SC if kinds is None else {x: self.SC[x] for x in kinds})
        t = self.pick(k)
        if t == 'bs': return '"' + self.basic() + '"'
        if t == 'mbs': return '"""' + self.mbasic() + '"""'
        if t == 'ls': return "'" + self.literal() + "'"
        if t == 'mls': return "'''" + self.mliteral() + "'''"
        if t == 'bool': return self.ch(['true', 'false'])
        return getattr(self, t)()

    def pick(self, w):
        x = self.r.random() * sum(w.values())
        for k, v in w.items():
            x -= v
            if x < 0: return k
        return k

    # -- nested values
    def gap(self):
        if not self.p(self.o['fmt']): return ''
        return ''.join(self.ws() + (self.comment() if self.p(.5) else '') + self.nl() for _ in range(self.ch([0, 0, 0, 0, 1, 1, 1, 2, 2, 3]))) + self.ws()

    def precomma(self):
        return self.ch(['', '', '', '', ' ', '\t', self.nl(), ' ' + self.nl() + ' ']) if self.p(self.o['fmt']) else ''

    def array(self, d):
        n = self.count(0, self.o['maxitems'])
        if self.p(1 - self.o['bad'] * 2):
            t = self.ch([['int'], ['flt'], ['bool'], ['dt'], ['bs', 'ls', 'mbs', 'mls'], ['bs'], 'arr', 'it'])
            item = (lambda: self.value(d - 1, t)) if t in ('arr', 'it') and d > 0 else (lambda: self.scalar(t if isinstance(t, list) else ['int']))
        else:
            item = lambda: self.value(d - 1)
        s = '[' + self.gap()
        for i in range(n):
            s += item()
            if i < n - 1 or self.p(.25): s += self.precomma() + ',' + self.gap()
            else: s += self.gap()
        return s + ']'

    def inline(self, d):
        n = self.count(0, self.o['maxitems'])
        ks = [self.key() for _ in range(n)]
        if not self.p(self.o['bad'] * 2):
            ks = list(dict.fromkeys(ks))
            n = len(ks)
        s = '{' + self.ws()
        for i, k in enumerate(ks):
            s += k + self.ws() + '=' + self.ws() + self.value(d - 1)
            if i < n - 1 or self.p(.12): s += self.ws() + ',' + (self.ws() if self.p(.7) else self.gap())
            else: s += self.ws() if self.p(.8) else self.gap()
        return s + '}'

    def value(self, d=None, kind=None):
        d = self.o['depth'] if d is None else d
        w = self.o['vals'] or dict(scalar=6, arr=2, it=2)
        k = kind or self.pick(w)
        if d <= 0 or k == 'scalar': return self.scalar(self.o.get('scalars'))
        return self.array(d) if k == 'arr' else self.inline(d)

    # -- documents
    def tail(self):
        return self.ch(['', '', '', ' ', '\t', ' ' + self.comment(), self.comment()]) if self.p(self.o['fmt']) else ''

    def line(self, kind=None):
        k = kind or self.pick(self.o['kinds'])
        if k == 'blank': return self.ws()
        if k == 'comment': return self.ws() + self.comment()
        if k == 'kv': return self.ws() + self.key() + self.ws() + '=' + self.ws() + self.value() + self.tail()
        b = self.ws()
        if k == 'std': return b + '[' + self.ws() + self.keypath() + self.ws() + ']' + self.tail()
        if k == 'aot': return b + '[[' + self.ws() + self.keypath() + self.ws() + ']]' + self.tail()
        return self.junk()

    def junk(self):
        return self.ch(['=', 'a', 'a =', 'a = ', '= 1', '[', '[]', '[[a]', '[a]]', '[a.]', '[.a]', '[a..b]', '[[]]', 'a.b = 1', "'a' = 1", 'a = 1 2', 'a = b',
                        'a = "', 'a = "\\x"', "a = '", 'a = [1', 'a = [1 2]', 'a = [,]', 'a = [1,,2]', 'a = {', 'a = {b}', 'a = {b=1,,}', 'a = {b=1 c=2}',
                        'a = 01', 'a = 1_', 'a = _1', 'a = 1__0', 'a = 1.', 'a = .1', 'a = 1e', 'a = +', 'a = True', 'a = 1979-5-27', 'a = 1979-05-27T7:32:00Z', 'a = 1979-05-27 07:32:00',
                        'a = "\t"', 'a = "\x00"', 'a = """', "a = '''x''", '\r', 'a\r= 1', '[a] b', '[a]\r', 'a = 1\r', '""=1', '[""]', 'a = {b=1\n,c=2}', 'é = 1', '\ufeffa = 1',
                        'a = [1 # c\n, 2]', 'a = "\\u12"', 'a = "\\U0001F60"', 'a = 0x1F', 'a = 1e1_', 'a = -', 'a = tru', 'a = falsey', '[a b]', '[a.b', '[[a.b]', '[a]#c\rx', '#\x01', '#\x7f'])

    def doc(self):
        n = self.r.randint(*self.o['lines'])
        out = ''
        j = self.r.randrange(n) if self.p(self.o['bad']) else -1
        for i in range(n):
            out += (self.junk() if i == j else self.line()) + self.nl()
        if self.p(.3):
            out = out[:-2] if out.endswith('\r\n') else out[:-1]
        if self.p(.01): out = ''
        if self.p(self.o['bad'] * .15):
            i = self.ch([0, 0, len(out), self.r.randint(0, len(out))])
            out = out[:i] + self.ch(STRANGE) + out[i:]
        return out


def deepdoc(g, n, broken=.3):
    """nested n deep: arrays, inline tables or both, or a header's path; perhaps unfinished or with something wrong at the bottom"""
    k = g.r.randrange(6)
    if k == 5:
        p = '.'.join(g.ch(['a', 'b', '"a.b"', 'k-1']) for _ in range(n))
        s = g.ch(['[%s]', '[[%s]]', '[%s']) % p + g.nl() + 'x = 1' + g.nl()
        if g.p(.6): s += g.ch(['[%s.z]', '[[%s.y]]', '[%s]', '[[%s]]']) % p + g.nl() + 'y = 2' + g.nl()
        return s
    arr = [k != 1 if k < 2 else g.p(.5) for _ in range(n)]
    wrong = g.p(broken)
    bottom = g.ch(['', '1', '"x"', '[', '{', '1 2', ',', 'x', '[1,"a"]', '2000-02-30', '#', '"']) if wrong else g.ch(['1', '"x"', '', '1979-05-27', 'true', '1, 2'])
    if not wrong and not arr[-1]: bottom = g.ch(['a = 1', '', 'b = "x", a = [1]'])
    s = ''
    side = g.p(.4)
    close = []
    for i, a in enumerate(arr):
        if a:
            s += '[' + (g.gap() if g.p(.15) else '')
            t = ']'
            if side and g.p(.3):
                if i + 1 < n and arr[i + 1]: t = ', [1]' + t
                elif i + 1 < n: t = ', {z = 1}' + t
        else:
            s += '{'
            t = '}'
            if i < n - 1: s += g.ch(['a = ', 'b=', '"a" = '])
            if side and g.p(.3): t = ', c = 2' + t if i < n - 1 else t
        close.append(t)
    close.reverse()
    if wrong and g.p(.6): close = close[:g.r.randint(0, n)]
    if wrong and g.p(.2): close.insert(g.r.randint(0, len(close)), g.ch([']', '}', ',', ' x', '#']))
    return g.ch(['', 'x = 1' + g.nl()]) + 'v = ' + s + bottom + ''.join(close) + g.ch([g.nl(), '', g.nl() + 'w = 2'])


def treedoc(g, n):
    """headers as one goes down and up in a tree of tables and arrays of tables, most of them valid"""
    nl = g.nl()
    arrs = g.ch([.4, .7, .95])
    kinds, out, at = {}, [], []
    for _ in range(n):
        q = g.r.random()
        if not at or (q < .5 and len(at) < 6): at = at + [g.ch('abc')]
        elif q < .75: pass                     # once more
        elif q < .9: at = at[:g.r.randint(1, len(at))]
        else: at = at[:-1] + [g.ch('abcd')]
        p = '.'.join(at)
        if p not in kinds: kinds[p] = g.p(arrs)
        if g.p(.03): kinds[p] = not kinds[p]
        if kinds[p] or g.p(.03) or '[%s]' % p not in out: out.append(('[[%s]]' if kinds[p] else '[%s]') % p)
        for k in g.r.sample('vwxd', g.ch([0, 0, 0, 1, 1, 2])): out.append('%s = %s' % (k, g.scalar(['int', 'bool']) if g.p(.8) else g.ch(['[1, 2]', '{u = 1}', '[{u = 1}]', '[]', '2000-02-30'])))
        if g.p(.03): out.append(g.ch(['%s = 1' % g.ch('abcd'), '']))
    return nl.join(out) + nl


def scaledoc(g, n):
    """more of one thing than usual: keys of a table, sub-tables, elements; gone back to out of order"""
    nl = g.nl()
    ks = [g.ch(['k%d', 'k-%d', '"k %d"', 'K%d']) % i for i in range(n)] if g.p(.5) else list(dict.fromkeys(g.bare() for _ in range(n)))
    g.r.shuffle(ks)
    sc = lambda: g.scalar(['int', 'bool', 'bs', 'flt'])
    kind = g.r.randrange(7)
    out = []
    if kind == 6:                         # sub-tables of a table first, then its own values, then more sub-tables
        t = g.ch(['t', 't.u'])
        subs = ['%s.%s' % (t, k) for k in ks]
        out += [g.ch(['[%s]', '[%s]', '[%s]', '[%s.z]', '[[%s]]']) % k for k in subs]
        if g.p(.8): out.append('[%s]' % t)
        if g.p(.5): out += [g.ch(['v', 'w', g.ch(ks)]) + ' = ' + sc() for _ in range(g.r.randint(1, 2))]
        out += [x for _ in range(g.r.randint(1, 3)) for x in [g.ch(['[%s.new]' % t, '[%s.other.new]' % t, '[[%s.new]]' % t, '[%s.z]' % g.ch(subs), '[%s]' % g.ch(subs), '[%s.v]' % t, '[%s]' % t]), 'y = 1']]
    elif kind == 0:                       # keys and sub-tables of one table
        t = g.ch(['', 't', 't.u'])
        if t: out.append('[%s]' % t)
        plains = ks[:n // 2] if g.p(.5) else ks[:1]
        out += [k + ' = ' + sc() for k in plains]
        subs = [k for k in ks if k not in plains]
        for k in subs: out += [g.ch(['[%s]', '[%s.z]', '[[%s]]', '[[%s]]']) % ((t + '.' if t else '') + k)] + ([g.key() + ' = ' + sc()] if g.p(.4) else [])
        for _ in range(g.r.randint(1, 4)):
            out += [g.ch(['[%s.w]', '[[%s]]', '[[%s.v]]', '[%s.w.x]', '[%s]']) % ((t + '.' if t else '') + g.ch(subs or ks))] + ([g.key() + ' = ' + sc()] if g.p(.7) else [])
    elif kind == 1:                       # elements of an array of tables
        for i in range(n):
            out.append('[[a]]')
            if g.p(.5): out.append('x = ' + str(i))
            if g.p(.4): out += ['[[a.b]]', 'y = ' + sc()] * (1 if g.p(.8) else g.r.randint(9, 14))
            if g.p(.2): out += ['[a.c]', 'z = ' + sc()]
    elif kind == 2:                       # elements of an array
        it = g.ch([lambda: str(g.r.randint(0, 99)), lambda: '{x = %d, y = [%d]}' % (g.r.randint(0, 9), g.r.randint(0, 9)), lambda: '[%d, %d]' % (g.r.randint(0, 9), g.r.randint(0, 9)), lambda: '"%s"' % g.basic(3)])
        xs = [it() for _ in range(n)]
        if g.p(.15): xs[g.r.randrange(n)] = g.ch(['true', '[]', '"s"', '1.5', '2000-02-30'])
        out.append('v = [' + ''.join(x + g.precomma() + ',' + g.gap() for x in xs[:-1]) + xs[-1] + g.gap() + ']')
    elif kind == 3:                       # keys of an inline table
        if g.p(.2): ks.insert(g.r.randrange(len(ks)), g.ch(ks))
        out.append('v = {' + ', '.join(k + ' = ' + sc() for k in ks) + '}')
    elif kind == 4:                       # many lines, one with an error, some key twice
        for k in ks:
            out.append(k + g.ws() + '=' + g.ws() + sc() + g.tail())
            if g.p(.2): out.append(g.ch(['', '# ' + g.text(20)]))
        for _ in range(g.r.randint(0, 3)): out.insert(g.r.randint(0, len(out)), g.ch([g.ch(ks) + ' = 1', g.junk(), 'd = 2001-02-29', 'm = [1, true]']))
    else:                                 # long things
        for k in ks[:4]:
            out.append(k * g.r.randint(1, 6) + ' = ' + g.ch(['"%s"' % g.basic(60), "'%s'" % g.literal(60), '"""' + g.mbasic() + g.text(40).replace('\\', '') + '"""', g.digits(1) and '1' + g.digits(g.r.randint(10, 40)),
                                               '0.' + g.digits(g.r.randint(10, 40)), '1e' + '1' + g.digits(30), '1979-05-27T00:00:00.' + g.digits(g.r.randint(9, 30)) + g.ch(['', 'Z', '-01:00'])]))
            out.append('#' + g.text(80))
    return nl.join(out) + g.ch([nl, ''])


SIZES = [33, 65, 70, 101, 129, 140, 200, 257, 300, 513, 600, 1025]


def hugedoc(g, n=None):
    """something small with one thing in it that's far longer or occurs far more often than usual"""
    n = n or g.ch(SIZES)
    nl = g.nl()
    fill = lambda cs, n=n: ''.join(g.ch(cs) for _ in range(n)) if g.p(.5) else g.ch(cs) * n
    bare = lambda n=n: fill(BARE, n)
    bstr = lambda n=n: fill(['a', 'é', ' ', '\\n', '\\u00e9', '.', '😀'], n)
    few = min(n, 300)
    lines = ['x = 1']
    k = g.r.randrange(16)
    if k == 0:                            # blanks
        w = fill([' ', '\t'])
        lines.append(g.ch([w + 'a = 1', 'a' + w + '= 1', 'a =' + w + '1', 'a = 1' + w, 'a = [' + w + '1]', 'a = [1' + w + ', 2]', 'a = {b = 1' + w + '}', 'a = {' + w + 'b = 1}', w + '# c', w, '[' + w + 't]', '[t' + w + '.u]', '[[t' + w + ']]', '[t]' + w + '# c', w + '[t]']))
    elif k == 1:                          # a comment
        c = '#' + fill(['-', '#', ' ', 'é', 'a', '\t', '"', '😀'])
        lines.append(g.ch([c, 'a = 1 ' + c, '[t] ' + c, '[[t]]' + c, 'a = [1, ' + c + nl + '2]', 'a = [' + c + nl + ']']))
    elif k == 2:                          # keys
        b = g.ch([bare(), '"' + bstr() + '"'])
        lines += g.ch([[b + ' = 1'], ['[' + b + ']', 'y = 1'], ['a = {' + b + ' = 1}'], ['[[' + b + '.' + b + ']]', 'y = 1'], [b + ' = 1', b[:-1] + ('"' if b[-1] == '"' else '') + ' = 2', b + ' = 3']])
    elif k == 3: lines.append('a = ' + g.ch(['"' + bstr() + '"', '"""' + bstr() + nl + bstr(5) + '"""', "'" + fill(['a', 'é', '\\', '"', ' ']) + "'", "'''" + fill(['a', "é", '\\', ' ', '"']) + nl + "'''"]))
    elif k == 4:                          # strings of many lines
        s = nl * n if g.p(.3) else ''.join(g.ch(['', 'x', ' ', '"', '\\']) + nl for _ in range(few))
        lines += ["a = '''" + s + "'''", 'd = 2000-02-30'] if g.p(.5) else ['a = """' + s.replace('"', "'") + '"""', 'x = 2']
    elif k == 5: lines.append('a = ' + g.ch(['', '+', '-']) + '1' + g.digits(n) + g.ch(['', '.5', '.' + g.digits(n), 'e' + '1' + g.digits(n), '_1', '__1']))
    elif k == 6: lines.append('a = 1979-05-27T07:32:00.' + g.digits(n) + g.ch(['', 'Z', '+01:00', 'x']))
    elif k == 7:                          # elements
        same = g.ch(['1', '"s"', '[]', '{}', 'true', '[1]', '{b = 1}', '0.5'])
        xs = [same] * few if g.p(.6) else [str(i) for i in range(few)]
        if g.p(.2): xs[-1] = g.ch(['"x"', '[1, true]', '2000-02-30'])
        lines.append('a = [' + g.ch([', ', ',', ',' + nl]).join(xs) + g.ch(['', ',', ' ', nl]) + ']')
    elif k == 8:                          # keys of an inline table
        ks = ['k%d' % i for i in range(few)]
        if g.p(.3): ks.append(g.ch(ks))
        lines.append('a = {' + ', '.join(q + ' = ' + g.ch(['1', 'true', '[1]']) for q in ks) + '}')
    elif k == 9: lines += [g.ch(['', ' ', '\t'])] * n + ['d = 2000-02-30'] * g.r.randint(0, 1) + ['x = 2']
    elif k == 10: lines += ['# ' + g.text(3)] * few + ['m = [1, true]']
    elif k == 11: lines += ['k%d = %d' % (i, i) for i in range(few)] + [g.ch(['k%d = 1' % g.r.randrange(few), '[k%d]' % g.r.randrange(few), 'k%d = 1' % few])]
    elif k == 12: lines += ['[[t]]'] * few + g.ch([['y = 1'], ['[t.u]', 'y = 1'], ['[t]'], []])
    elif k == 13:                         # sub-tables first, then perhaps values, then more
        t = g.ch(['t', 't.u'])
        few = min(few, 140)
        sub = lambda i: g.ch(['[%s.s%d]' % (t, i), '[%s.s%d]' % (t, i), '[%s.s%d.v]' % (t, i), '[[%s.s%d]]' % (t, i)])
        lines += [sub(i) for i in range(few)] + ['[%s]' % t] * g.r.randint(0, 1) + ['y = 1'] * g.r.randint(0, 2)
        lines += [g.ch(['[%s.z]', '[[%s.z]]', '[%s]', '[%s.s0]', '[%s.s%d]' % (t, few - 1) + '%.0s', '[[%s.s1]]', '[%s.z.w]']) % t, 'y = 2'] * g.r.randint(1, 2)
    elif k == 14:                         # tables one below the other
        lines += ['[t' + ''.join('.k%d' % j for j in range(min(n, 130))) + ']', 'y = 1', g.ch(['[t]', '[t.k0]', '[t.k0.k1.k2]', '[t.k0.z]']), 'y = 1']
    else:                                 # many times the same thing that's wrong
        lines += [g.ch(['x = 2', 'd%d = 2000-02-30', 'm%d = [1, true]', '[x]', '[t]', 'i%d = {a = 1, a = 2}']).replace('%d', str(i)) for i in range(min(n, 120))]
    lines.append('z = 1')
    return nl.join(lines) + nl


def mutate(r, s, k=None):
    alpha = list('"\'[]{}=.,#\\ \t\n\r01_-+eTZ:abu"\'[]{}=.,#\\ \t\n\r01_-+eTZ:abu' + 'é') + STRANGE
    for _ in range(k or r.choice([1, 1, 1, 2, 3])):
        i = r.randrange(len(s) + 1)
        j = min(len(s), i + r.choice([0, 1, 1, 2, 4]))
        q = r.random()
        if q < .4: s = s[:i] + r.choice(alpha) + s[j:]
        elif q < .6: s = s[:i] + s[j:]
        elif q < .75: s = s[:i] + r.choice(alpha) + s[i:]
        elif q < .85: s = s[:j] + s[i:j] + s[j:]
        elif s:
            a = r.randrange(len(s)); b = min(len(s), a + r.randint(1, 8))
            s = s[:i] + s[a:b] + s[i:]
    return s


# -- plain values, as the API takes them
NODT = dict(y='', mo='', d='', h='', mi='', s='', f='', o='', oh='', om='')
BADS = [dict(t='int', v=x) for x in ['', '4x', '01', '1_', '_1', '1__2', '+', '-', '1.0', '٣', ' 1', '1 ', '0x1', '--1', '00', '-01']] + \
       [dict(t='flt', v=x) for x in ['', '1', '1.', '.1', '1e', '1.5x', '1._5', '1.5_', '1e1.5', ' 1.0', '01.5', '1,5', 'nan', 'inf', '1.e1', '1_.5']] + \
       [dict(t='bs', v=x) for x in ['"', 'a"b', '\\', '\\x', '\n', '\r', '\t', '\x00', '\x1f', '\\u12', '\\u12G4', '\\U0001F60', '\\"\\', 'a\\ ']] + \
       [dict(t='mbs', v=x) for x in ['"""', 'a"""b', '\\', '\\x', '\r', '\x00', '"', 'a"', 'a\rb', '\\u', '\\ \n', '\x1f']] + \
       [dict(t='ls', v=x) for x in ["'", "a'b", '\n', '\x00', 'a\nb', '\r', "\x1f"]] + \
       [dict(t='mls', v=x) for x in ["'''", "a'''b", '\r', '\x00', "'", "a'", 'a\rb']] + \
       [dict(t='it', m=[[k, dict(t='int', v='1')]]) for k in ['', 'a b', '"', '"a', 'a.b', "'a'", '""', 'é', '"\\x"', 'a\n', '[a]', '=', '"a"b', '"\n"']] + \
       [dict(t='it', m=[['a', dict(t='int', v='1')], ['b', dict(t='int', v='2')], ['a', dict(t='int', v='3')]])]


def dtval(g):
    s = g.dt()
    d = dict(NODT, y=s[:4], mo=s[5:7], d=s[8:10])
    if len(s) > 10:
        d.update(h=s[11:13], mi=s[14:16], s=s[17:19])
        rest = s[19:]
        if rest.startswith('.'):
            n = 1
            while n < len(rest) and rest[n].isdigit(): n += 1
            d['f'] = rest[1:n]
            rest = rest[n:]
        if rest == 'Z': d['o'] = 'Z'
        elif rest: d.update(o=rest[0], oh=rest[1:3], om=rest[4:6])
    if g.p(g.o['bad'] / 2):
        k = g.ch(['y', 'mo', 'd'] + (['h', 'mi', 's'] if d['h'] else []) + (['oh', 'om'] if d['oh'] else []) + (['f'] if d['f'] else []))
        d[k] = g.ch(['1', '123', 'x', 'xx', '٣٣', '-1', '+1', ' 1', '00000', '1_1', '0x'] + ([''] if k not in ('h', 'f') else []))
    return dict(t='dt', d=d)


def plain(g, d=None, kinds=None):
    """a plain value, mostly valid"""
    d = g.o['depth'] if d is None else d
    if g.p(g.o['bad']): return copy.deepcopy(g.ch(BADS)) if g.p(.5) else spoiled(g, plain(g, 0, dict(scalar=1)))
    k = g.pick(kinds or dict(scalar=6, arr=2, it=2))
    if d <= 0 or k == 'scalar':
        t = g.pick(g.SC)
        if t == 'int': return dict(t=t, v=g.int())
        if t == 'flt': return dict(t=t, v=g.flt())
        if t == 'bool': return dict(t=t, v=g.ch(['true', 'false']))
        if t == 'dt': return dtval(g)
        return dict(t=t, v={'bs': g.basic, 'mbs': g.mbasic, 'ls': g.literal, 'mls': g.mliteral}[t]())
    if k == 'arr': return dict(t='arr', a=[plain(g, d - 1, kinds) for _ in range(g.r.randint(0, 3))])
    ks = list(dict.fromkeys(g.key() for _ in range(g.r.randint(0, 3))))
    return dict(t='it', m=[[k, plain(g, d - 1, kinds)] for k in ks])


def spoiled(g, v):
    """a scalar with one thing changed in how it's written: mostly invalid"""
    v = copy.deepcopy(v)
    edit = lambda s: g.ch([s + g.ch(' \t\n_.e+-x0"\'\r#,]'), g.ch(' \t\n_.+-x0"\'#') + s, s[:-1], s[1:], mutate(g.r, s, 1)])
    if v['t'] == 'dt':
        k = g.ch([k for k in v['d'] if k != 'o' and v['d'][k]])
        v['d'][k] = edit(v['d'][k]) or '0'
    elif v['t'] in ('int', 'flt', 'bs', 'mbs', 'ls', 'mls'): v['v'] = edit(v['v'])
    return v


def scalar_plain(g): return plain(g, 0, dict(scalar=1))


def reshaped(g, v, p=.5):
    """v with other scalars in places: the same shape"""
    if v['t'] == 'arr': return dict(t='arr', a=[reshaped(g, x, p) for x in v['a']])
    if v['t'] == 'it': return dict(t='it', m=[[k, reshaped(g, x, p)] for k, x in v['m']])
    return scalar_plain(g) if g.p(p) else v


def tweaked(g, v):
    """v with a small change of its shape"""
    v = copy.deepcopy(v)
    if v['t'] == 'arr':
        q = g.r.random()
        if v['a'] and q < .3: v['a'].pop(g.r.randrange(len(v['a'])))
        elif v['a'] and q < .5: i = g.r.randrange(len(v['a'])); v['a'][i] = tweaked(g, v['a'][i])
        else: v['a'].insert(g.r.randint(0, len(v['a'])), plain(g, 1))
    elif v['t'] == 'it':
        q = g.r.random()
        if v['m'] and q < .3:             # another key that's nearly the one there
            i = g.r.randrange(len(v['m']))
            k = v['m'][i][0]
            k = g.ch([k.swapcase(), k.swapcase(), k + k[-1:], k[:-1], '"' + k + '"', k.strip('"'), k + '-', '-' + k, g.key()])
            if k and (k.strip('"') == k or k[0] == k[-1] == '"' and len(k) > 2) and k not in [x[0] for x in v['m']]: v['m'][i][0] = k
        elif v['m'] and q < .4: v['m'].pop(g.r.randrange(len(v['m'])))
        elif len(v['m']) > 1 and q < .5: v['m'].reverse()
        elif v['m'] and q < .7: i = g.r.randrange(len(v['m'])); v['m'][i][1] = tweaked(g, v['m'][i][1])
        else:
            k = g.key()
            if k not in [x[0] for x in v['m']]: v['m'].insert(g.r.randint(0, len(v['m'])), [k, plain(g, 1)])
    else:
        v = plain(g, 1, dict(scalar=1, arr=2, it=2))
    return v


def alike(g, v):
    """another value that's easily taken for v"""
    v = copy.deepcopy(v)
    if v['t'] == 'arr' and v['a']:
        i = g.r.randrange(len(v['a']))
        if g.p(.2): v['a'].reverse()
        elif g.p(.2): v['a'].append(copy.deepcopy(v['a'][i]))
        else: v['a'][i] = alike(g, v['a'][i])
    elif v['t'] == 'it' and v['m']:
        i = g.r.randrange(len(v['m']))
        if g.p(.2): v['m'].reverse()
        elif g.p(.2): v['m'][i][0] = g.ch([v['m'][i][0].upper(), v['m'][i][0] + 'x', '"' + v['m'][i][0].strip('"') + '"'])
        else: v['m'][i][1] = alike(g, v['m'][i][1])
    elif v['t'] in ('arr', 'it'): v = dict(t='it', m=[]) if v['t'] == 'arr' else dict(t='arr', a=[])
    elif v['t'] == 'dt':
        k = g.ch([k for k in v['d'] if v['d'][k]])
        if k[0] == 'o': v['d'].update(g.ch([dict(o='+', oh='00', om='00'), dict(o='-', oh='00', om='00'), dict(o='Z', oh='', om=''), dict(o='', oh='', om=''), dict(v['d'], o=dict(zip('+-', '-+')).get(v['d']['o'], 'Z'))]))
        elif k == 'f': v['d']['f'] = g.ch(['', v['d']['f'] + '0', '0', '00', v['d']['f'][:-1]])
        else: v['d'][k] = g.ch(['01', '00', '10', '12'])
    elif v['t'] == 'bool': v['v'] = 'false' if v['v'] == 'true' else 'true'
    else:
        q = g.r.randrange(5)
        if q == 0: v['t'] = g.ch(['bs', 'mbs', 'ls', 'mls', 'int', 'flt'])
        elif q == 1: v['v'] = v['v'] + g.ch([' ', '0', '\n', 'x'])
        elif q == 2: v['v'] = v['v'].swapcase()
        elif q == 3: v['v'] = v['v'].replace('_', '') if '_' in v['v'] else '+' + v['v']
        else: v['v'] = v['v'][:-1]
    return v


def shown(v):
    """v written as in a document"""
    t = v['t']
    if t == 'arr': return '[' + ', '.join(shown(x) for x in v['a']) + ']'
    if t == 'it': return '{' + ', '.join(k + ' = ' + shown(x) for k, x in v['m']) + '}'
    if t == 'dt':
        d = v['d']
        return '-'.join((d['y'], d['mo'], d['d'])) + ('T' + ':'.join((d['h'], d['mi'], d['s'])) if d['h'] else '') + ('.' + d['f'] if d['f'] else '') + d['o'] + (d['oh'] + ':' + d['om'] if d['oh'] else '')
    q = dict(bs='"', mbs='"""', ls="'", mls="'''").get(t, '')
    return q + v['v'] + q


def near(g, path):
    """a key that's close to one that's there"""
    q = g.r.randrange(13)
    if q == 12 or not path: return g.ch(['', ' ', '.', '""', '"', "''", '$', 'Root', '[', ']', '[0]', '\t', '\n', 'é', '  ', '\u00a0', 'root', '$Root$.a', '$Root$[0]', '"$Root$"', '.$Root$', '$Root', '[0].a', '.a', '[]'])
    if q == 0: return path + g.ch(['.', '[', ']', '[0', '[0]', '[1]', '[-1]', '[+0]', '[+1]', '[ 0]', '[0 ]', '[0_0]', '[0x0]', '[0.0]', '[00]', '\n', ' ', '.a', '.b', '[0][0]', '[0].a', '[99]', 'x', '"'])
    if q == 1: return g.ch([' ', '.', 'a.', '[0]', 'x', '"']) + path
    if q == 2: return path[:-1]
    if q == 3: return path.replace('"', '')
    if q == 4: return '"' + path + '"'
    if q == 5: return path.replace('.', ' . ')
    if q == 6: return path.upper() if path.upper() != path else path.lower()
    if q == 7: return path.rsplit('.', 1)[0]
    if q == 8: return path.replace('[0]', g.ch(['', '[+0]', '[ 0]', '[0', '0]', '.0', '[0][0]', '["0"]']))
    if q == 9: return path.replace('[0]', '[00]').replace('[1]', '[01]')
    if q == 10: return path + '.' + g.key()
    return g.key() + '.' + g.key()


def okkey(k):
    return k != '$Root$'


def partsof(k, v):
    """the keys of the parts of v, which is at k"""
    l = [('%s[%d]' % (k, i), x) for i, x in enumerate(v['a'])] if v['t'] == 'arr' else [(k + '.' + q if k else q, x) for q, x in v['m']] if v['t'] == 'it' else []
    return l + [y for q, x in l for y in partsof(q, x)]


def history(g, walk, n, checks=('walk', 'disp'), newdocs=(), p_reparse=.3, p_parse=0, p_near=.15, sets=True):
    """ops on a document whose observed walk is given"""
    vals = [(x['p'], x['g']) for x in walk if x['g']['t'] != 'none']
    paths = [x['p'] for x in walk]
    ops = []
    for _ in range(n):
        q = g.r.random()
        if q < p_parse and newdocs:
            ops.append(dict(op='parse', doc=g.ch(newdocs)))
        elif not sets:
            pass
        elif q < p_parse + p_near or not vals:
            k = near(g, g.ch(paths)) if paths else g.key()
            ops.append(dict(op='set', key=k if okkey(k) else 'a', val=plain(g)))
        else:
            k, v = g.ch(vals)
            if v['t'] not in ('arr', 'it') and g.p(.25): k, v = g.ch([x for x in vals if x[1]['t'] in ('arr', 'it')] or vals)
            m = g.r.random()
            src = None
            if g.p(.1): src, nv = g.ch(vals)
            else: nv = reshaped(g, v) if m < .35 else tweaked(g, v) if m < .55 else scalar_plain(g) if m < .7 else alike(g, v) if m < .82 else v if m < .87 else plain(g)
            ops.append(dict(op='set', key=k, val=nv) if src is None or not okkey(src) else dict(op='copy', key=k, **{'from': src}))
            new = [x for x in partsof(k, nv) if okkey(x[0])]
            if new or v['t'] in ('arr', 'it'):                # from now on there's something else (unless it was refused)
                if g.p(.9): vals = [x for x in vals if not x[0].startswith((k + '.', k + '['))]
                vals = [x for x in vals if x[0] != k] + [(k, nv)] + new * (2 if g.p(.5) else 1)
            if g.p(.4): ops.append(dict(op='get', key=k))
            if g.p(.15): ops.append(dict(op='kids', key=k))
            if v['t'] in ('arr', 'it') and g.p(.6):           # what it had, whether it still has it or not
                old = [p for p in paths if p.startswith(k + '.') or p.startswith(k + '[')]
                if old: ops += [dict(op=g.ch(['get', 'ch']), key=x) for x in {old[-1], g.ch(old)} if okkey(x)]
        ops += [dict(op=c) for c in checks]
    if g.p(p_reparse):
        ops += [dict(op='reparse'), dict(op='walk'), dict(op='disp')]
    return ops
