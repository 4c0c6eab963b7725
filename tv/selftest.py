"""Does the specification reject what's not so?  Records what the real code does, changes one thing in each record, and counts how
many of these are noticed, by kind of observation.  Not a check of /repo, but of the checks:  python3 -m tv.selftest [seed] [n]"""
import collections, copy, json, random, shutil, sys
from .work import *


def places(x, at=()):
    """all places in a JSON value"""
    yield at
    for k in (range(len(x)) if isinstance(x, list) else x if isinstance(x, dict) else ()): yield from places(x[k], at + (k,))


def corrupt(r, x):
    """x with one thing in it changed"""
    x = [copy.deepcopy(x)]
    for _ in range(50):
        at = r.choice(list(places(x[0])))
        at = (0,) + at
        y = x
        for k in at[:-1]: y = y[k]
        k, v = at[-1], y[at[-1]]
        if isinstance(v, bool): y[k] = not v
        elif isinstance(v, int): y[k] = v + r.choice([1, -1, 10])
        elif isinstance(v, str):
            if isinstance(y, dict) and k in ('t', 'c', 'r', 'k'): continue                # names of kinds, which have fields of their own
            i = r.randint(0, len(v))
            y[k] = r.choice([v[:i] + r.choice(' x0"\n') + v[i:], v[:-1] if v else 'a', v.swapcase() if v.swapcase() != v else v + ' '])
        elif isinstance(v, list) and v:
            if len(at) > 2 and at[-2] == 'm': continue                                  # a key and its value
            i = r.randrange(len(v))
            q = r.random()
            if q < .5: del v[i]
            elif q < .75 and v[i] != v[0]: v[i], v[0] = v[0], v[i]
            else: v.insert(i, copy.deepcopy(v[i]))
        else: continue
        return x[0]
    return None


def main(seed=1, n=4000):
    tmp = scratch()
    tot, hit, missed = collections.Counter(), collections.Counter(), []
    try:
        r = random.Random(seed)
        tlc = Tlc(tmp)
        cx = Ctx(r, Harness(), tlc, tmp)
        cases = mc_values(cx, [('bools', 1), ('keys', 1), ('equals', 0), ('parts', 1), ('plain', 1)])
        cases = r.sample(cases, min(len(cases), 300)) + histories(cx, 'general', 300, .1) + histories(cx, 'nested', 300) + rnd(cx, 'errors', 300, .3) + twice(cx, 'tables', 150) + isolated(cx, 'general', 200)
        cases += lookups(cx, 'nested', 200) + lookups(cx, 'tables', 200, kinds=('kids',)) + samekeys(cx, 'nested', 100) + ctors(cx, 100) + parts(cx, 100)
        done = cx.h.run(cases)
        if tlc.judge(done): raise ToolError('there are disagreements without any change')
        bad, what = [], []
        while len(bad) < n:
            c = copy.deepcopy(r.choice(done))
            i = r.randint(0, len(c['obs']))
            if i == 0:
                v = corrupt(r, c['res'])
                if v is None or v == c['res']: continue
                c['res'] = v
                kind = 'res'
            else:
                old = c['obs'][i - 1]['v']
                v = corrupt(r, old)
                if v is None or v == old or c['ops'][i - 1]['op'] == 'walk' and {json.dumps(x) for x in v} == {json.dumps(x) for x in old}: continue   # (their order doesn't matter)
                c['obs'][i - 1]['v'] = v
                kind = c['ops'][i - 1]['op']
                if kind in ('new', 'switch'): continue                                      # nothing is observed
            bad.append(c); what.append((kind, i))
        seen = {(id(m['case']), m['op']) for m in tlc.judge(bad)}
        for c, (kind, i) in zip(bad, what):
            tot[kind] += 1
            if (id(c), i) in seen: hit[kind] += 1
            else: missed.append((kind, i, c))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for k in sorted(tot): print('%-10s %5d changed, %5d noticed' % (k, tot[k], hit[k]))
    for kind, i, c in missed[:10]: print(kind, json.dumps(c['ops'][i - 1] if i else c['doc'])[:300], json.dumps(c['obs'][i - 1] if i else c['res'])[:500])
    return 1 if missed else 0


if __name__ == '__main__': sys.exit(main(*map(int, sys.argv[1:])))
