"""Running the real code (through the replay harness and the tomlkit binary) and TLC."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
TARGET = os.path.join(VERIF, 'target')
REPO = '/repo'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTUP_TOOLCHAIN='stable', RUSTC_WRAPPER='',
           PATH=os.path.expanduser('~/.cargo/bin') + ':/usr/local/cargo/bin:' + os.environ.get('PATH', ''))


class ToolError(Exception):
    pass


def log(*a):
    print('#', *a, flush=True)


def scratch():
    base = os.path.join(VERIF, 'scratch')
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(dir=base)


def build(what):
    """the harness ('harness') or the tool ('tomlkit') from /repo's working tree"""
    t = time.time()
    if what == 'harness':
        cmd, cwd, out = ['cargo', 'build', '--offline', '--locked'], os.path.join(VERIF, 'harness'), 'debug/tomlharness'
    else:
        cmd, cwd, out = ['cargo', 'build', '--offline', '--locked', '--bin', 'tomlkit'], REPO, 'debug/tomlkit'
    target = os.path.join(TARGET, what)
    p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, CARGO_TARGET_DIR=target, CARGO_PROFILE_DEV_OPT_LEVEL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only'), capture_output=True, text=True)
    if p.returncode != 0:
        raise ToolError('build of %s failed:\n%s' % (what, p.stderr[-3000:]))
    log('built', what, 'in %.1fs' % (time.time() - t))
    return os.path.join(target, out)


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


BROKEN = dict(left='', l=0, e=[])


def depth(x):
    """nesting of JSON, of which the harness reads up to 128 levels (a value in an operation of a case: 4 less)"""
    return 1 + max([depth(y) for y in (x.values() if isinstance(x, dict) else x)] or [0]) if isinstance(x, (dict, list)) else 0


class Harness:
    def __init__(self):
        self.bin = build('harness')
        self.crashes = 0

    def once(self, lines, timeout, threads=8):
        p = subprocess.run([self.bin], input='\n'.join(lines) + '\n', capture_output=True, text=True, preexec_fn=_limits, timeout=timeout,
                           env=dict(os.environ, HARNESS_CASE_SECS='20', HARNESS_THREADS=str(threads)))
        out = p.stdout.split('\n')[:-1]
        if p.returncode == 0 and len(out) == len(lines): return out
        if 'harness: ' in p.stderr and p.returncode == 101: raise ToolError('harness: ' + p.stderr[-500:])
        return None

    def run(self, cases):
        """cases with res and obs; those that were not run are left out"""
        cases = [dict(c, ops=[o for o in c['ops'] if 'val' not in o or depth(o['val']) < 110]) if 'ops' in c else c for c in cases]
        lines = [json.dumps({k: c[k] for k in ('doc', 'ops') if k in c}) for c in cases]
        outs = self._run(lines)
        done = []
        for c, o in zip(cases, outs):
            o = json.loads(o)
            if o['res']['r'] == 'notrun': continue
            done.append(dict(c, **o))
        if not done and cases: raise ToolError('no case could be run')
        return done

    def single(self, cases):
        """each of them in a process of its own"""
        def one(c):
            out = self.once([json.dumps({k: c[k] for k in ('doc', 'ops')})], 60, 1)
            return dict(c, **(json.loads(out[0]) if out else dict(res=dict(BROKEN, r='panic', m='the process died'), obs=[])))
        with ThreadPoolExecutor(8) as ex: return list(ex.map(one, cases))

    def _run(self, lines):
        out = self.once(lines, 800)
        if out is not None: return out
        # the process died of one of them (a stack overflow, say)
        if self.crashes > 3: return [json.dumps(dict(res=dict(BROKEN, r='notrun'), obs=[]))] * len(lines)
        if len(lines) == 1:
            self.crashes += 1
            return [json.dumps(dict(res=dict(BROKEN, r='panic', m='the process died'), obs=[]))]
        h = len(lines) // 2
        return self._run(lines[:h]) + self._run(lines[h:])


STATS = re.compile(r'(\d+) states generated.*?, (\d+) distinct states found')


class Tlc:
    """runs TLC and adds up what it did"""
    def __init__(self, tmp, workers=8):
        self.tmp, self.workers = tmp, workers
        self.generated = self.distinct = self.runs = 0

    def run(self, module, cfg=None, env=None, timeout=850, deque=True, heap=None, workers=None):
        meta = tempfile.mkdtemp(dir=self.tmp)
        cmd = ['java', '-Xss512m', '-Xmx%s' % (heap or '12g'), '-XX:+UseParallelGC', '-Dfile.encoding=UTF-8', '-Dsun.stdout.encoding=UTF-8', '-Djava.io.tmpdir=' + meta]
        if deque: cmd.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
        cmd += ['-cp', JARS, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers or self.workers), '-config', cfg or module + '.cfg', module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), capture_output=True, timeout=timeout)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout.decode('utf-8', 'replace')
        if p.returncode != 0:
            lines = [l for l in out.split('\n') if not l.startswith('"')]
            raise ToolError('TLC on %s ended with %d:\n%s' % (module, p.returncode, '\n'.join(lines)[-4000:]))
        m = STATS.findall(out)
        if m:
            self.generated += int(m[-1][0]); self.distinct += int(m[-1][1])
        self.runs += 1
        return out.split('\n')

    def said(self, lines, tag):
        """what the specification printed with a tag: PrintT("TAG json")"""
        pre = '"' + tag + ' '
        return [json.loads(json.loads(l)[len(tag) + 1:]) for l in lines if l.startswith(pre)]

    def judge(self, cases, module='Trace', chunk=4000):
        """mismatches between the recorded cases and the specification; ids are indices into cases"""
        mm = []
        for at in range(0, len(cases), chunk):
            part = cases[at:at + chunk]
            path = os.path.join(self.tmp, 'trace.ndjson')
            with open(path, 'w') as f:
                for c in part: f.write(json.dumps(c) + '\n')
            lines = self.run(module, env=dict(TRACE_FILE=path))
            done = self.said(lines, 'DONE')
            if sorted(done) != list(range(1, len(part) + 1)):
                miss = sorted(set(range(1, len(part) + 1)) - set(done))
                raise ToolError('%s: %d of %d traces not followed to their end, e.g. %s' % (module, len(miss), len(part), json.dumps(part[miss[0] - 1]) if miss else done[:5]))
            for m in self.said(lines, 'MM'):
                m['case'] = part[m['id'] - 1]
                mm.append(m)
            os.remove(path)
        return mm
