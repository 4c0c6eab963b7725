"""check.py PROPERTY: decides a property on /repo's working tree."""
import json, os, random, re, shutil, sys, time
from . import props
from .work import *

KNOWN = os.path.join(VERIF, 'known_findings.json')
THOROUGH_SECS = 600


def brief(m):
    c = m['case']
    if 'files' in c: return dict(disk=c['disk'], argv=c['argv'], files=c['files'], aspect=m['asp'], specified=m['want'], out=c['out'], code=c['code'], after=c['after'])
    n = m['op']
    seen = c['res'] if n == 0 else c['obs'][n - 1] if n <= len(c['obs']) else None
    return dict(doc=c['doc'], ops=c['ops'][:n], aspect=m['asp'], context=m['ctx'], specified=m['want'], observed=seen)


def known(pid, m, findings):
    """the listed finding that this is, if it's one: same property, same constructor call"""
    c = m['case']
    if 'files' in c or not m['op']: return None
    op = c['ops'][m['op'] - 1]
    for f in findings:
        if pid in f['properties'] and m['asp'] == f['aspect'] and op.get('op') == 'ctor' and op['f'] == f['f'] and op['a'] == f['a']: return f
    return None


def attributed(cx, mm, fresh):
    """the disagreements that don't occur as well when the same is done alone"""
    done, single, also = [], {}, set()
    for i, m in enumerate(mm):
        a = alone(m['case'], m['op'], fresh)
        if a: single[i] = (len(done), a[1]); done.append(a[0])
    if done:
        done = cx.h.single([dict(c, i=i) for i, c in enumerate(done)])
        also = {(m['case']['i'], m['op'], m['asp']) for m in cx.tlc.judge(done)}
    out = []
    for i, m in enumerate(mm):
        if i not in single or single[i] + (m['asp'],) not in also: out.append(m)
    return out


def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if '--thorough' in sys.argv: tier = 'thorough'
    p = props.P[pid]
    tmp = scratch()
    findings = json.load(open(KNOWN))['findings']
    pat = re.compile(p['pattern'])
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking')
    samples, ncases, nobs, viol, seenknown = [], 0, 0, [], {}
    try:
        tlc = Tlc(tmp)
        cx = Ctx(random.Random(seed * 1000003 + int(pid[1:])), Harness(), tlc, tmp)
        if p['kit']: cx.kitbin = build('tomlkit')
        end = t0 + THOROUGH_SECS
        while True:
            for w in p['quick' if tier == 'quick' else 'thorough']:
                cases = w(cx)
                if not p['kit']: cases = cx.h.run(cases)
                ncases += len(cases)
                nobs += sum(len(c['obs']) + 1 if 'obs' in c else 1 for c in cases)
                if cases:
                    one = dict(random.Random(seed).choice(cases))
                    if len(json.dumps(one)) < 20000: samples.append(one)        # (what's too long or too deep isn't a readable sample)
                mm = []
                for m in tlc.judge(cases, 'TraceKit' if p['kit'] else 'Trace'):
                    # no result at all is not the specified one, whatever the property
                    if m['asp'] != 'panic' and not pat.search(m['ctx'] + ':' + m['asp']): continue
                    f = known(pid, m, findings)
                    if f: seenknown[f['what']] = f
                    else: mm.append(m)
                if mm and p['alone']: mm = attributed(cx, sorted(mm, key=lambda m: len(json.dumps(m['case'])))[:1000], p['alone'] == 'fresh')
                viol += mm
                log('%d traces, %d disagreements, %.0fs' % (ncases, len(viol), time.time() - t0))
                if viol and tier == 'quick': break
                if tier != 'quick' and time.time() > end: break
            if tier == 'quick' or viol or time.time() > end: break
        # findings are looked at on their own input, whatever else is explored
        mine = [f for f in findings if pid in f['properties']]
        if mine:
            cases = cx.h.run([dict(doc='', ops=[dict(op='ctor', f=f['f'], a=f['a'])]) for f in mine])
            for m in tlc.judge(cases):
                f = known(pid, m, mine)
                if f: seenknown[f['what']] = f
                elif pat.search(m['ctx'] + ':' + m['asp']): viol.append(m)
            ncases += len(cases)
        ev['coverage'] = dict(states=tlc.distinct, transitions=tlc.generated, traces_validated_against_impl=ncases, observations_compared=nobs, tlc_runs=tlc.runs, samples=samples[:6])
        ev['assumptions'] = ['nesting of values stays shallow enough for the stack', 'lookups of the key $Root$ itself, the name the library has for the document, are left out']
        ev['violations'] = len(viol)
        ev['wall_s'] = round(time.time() - t0, 1)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for w in sorted(seenknown): print('KNOWN-FINDING: property=%s %s' % (pid, w))
    if viol:
        viol.sort(key=lambda m: len(json.dumps(m['case'])))
        path = os.path.join(VERIF, 'evidence', pid + '.replay.json')
        with open(path, 'w') as f: json.dump([brief(m) for m in viol[:20]], f, indent=1)
        print('first disagreement:', json.dumps(brief(viol[0]))[:1500])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('%s holds on everything explored: %d traces, %.0fs' % (pid, ncases, time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main(sys.argv[1]))
    except ToolError as e:
        print('ERROR', e)
        sys.exit(2)
