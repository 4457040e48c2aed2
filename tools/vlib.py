"""Common machinery of the checks: building, TLC runs, verdicts, evidence."""
import json, os, re, shutil, subprocess, sys, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 4


class Broken(Exception):
    """The check itself could not do its work (not a verdict)."""


def go_env():
    e = dict(os.environ)
    e.update(GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off')
    return e


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.work = os.path.join(VERIF, '.work', pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.states = self.trans = self.traces = 0
        self.samples = []
        self.cov = {}
        self.viol = []          # (key, why, replay dict)
        self._hx = {}

    thorough = property(lambda self: self.tier == 'thorough')

    def path(self, *a):
        return os.path.join(self.work, *a)

    def log(self, *a):
        print('[%s %5.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---- building -------------------------------------------------------
    def build(self, pkg='./cmd/hx', name='hx', extra=(), env=None, cwd=None):
        out = self.path(name)
        e = go_env()
        if env:
            e.update(env)
        r = subprocess.run(['go', 'build', *extra, '-o', out, pkg], cwd=cwd or os.path.join(VERIF, 'harness'), env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Broken('go build failed:\n' + r.stdout[-3000:])
        return out

    def hx(self, arch=''):
        """The sequential harness, for the native or another architecture."""
        k = 'hx' + arch
        if k not in self._hx:
            self._hx[k] = self.build(name=k, env={'GOARCH': arch, 'CGO_ENABLED': '0'} if arch else None)
        return self._hx[k]

    def hxc(self):
        """The harness with the code under test on the scheduler; None if the
        code synchronises in a way that cannot be controlled."""
        if 'hxc' not in self._hx:
            ov = self.path('overlay')
            os.makedirs(ov)
            mk = self.build('./cmd/mkoverlay', 'mkoverlay')
            r = self.run([mk, REPO, ov])
            why = re.findall(r'uncontrolled: (.*)', r.stdout)
            self._hx['hxc'] = None
            if not why:
                try:
                    self._hx['hxc'] = self.build('./cmd/hxc', 'hxc', ['-tags', 'verifmanaged', '-overlay', os.path.join(ov, 'overlay.json')])
                except Broken as e:
                    why = [str(e)[-300:]]
            if why:
                self.log('schedules are not controlled:', '; '.join(why)[:400])
                self.cov['schedules_not_controlled_because'] = why
        return self._hx['hxc']

    def hxc_free(self, race):
        k = 'hxc-race' if race else 'hxc-free'
        if k not in self._hx:
            self._hx[k] = self.build('./cmd/hxc', k, ['-race'] if race else [], env={'CGO_ENABLED': '1'} if race else None)
        return self._hx[k]

    def run(self, args, timeout=800, env=None, check=True):
        e = dict(os.environ)
        if env:
            e.update(env)
        r = subprocess.run(args, cwd=self.work, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        if check and r.returncode != 0:
            raise Broken('%s failed (%d): %s %s' % (args[:3], r.returncode, r.stdout[-1500:], r.stderr[-1500:]))
        return r

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, timeout=800, heap='10g', workers=None, extra=(), cfgtext=None, expect_ok=True, specdir=SPEC):
        """Runs TLC; returns its output. Counts states and transitions."""
        if cfgtext is not None:
            cfg = self.path(module + '.gen.cfg')
            open(cfg, 'w').write(cfgtext)
        elif cfg is None:
            cfg = os.path.join(specdir, module + '.cfg')
        elif not os.path.isabs(cfg):
            cfg = os.path.join(specdir, cfg)
        meta = self.path('tlc-%s-%d' % (module, int(time.time() * 1e6)))
        e = dict(os.environ)
        if env:
            e.update(env)
        cmd = ['java', '-Xss128m', '-Xmx' + heap, '-XX:+UseParallelGC', '-DTLA-Library=' + SPEC, '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE',
               '-workers', str(workers or NCPU), '-metadir', meta, '-config', cfg, *extra, os.path.join(specdir, module + '.tla')]
        try:
            r = subprocess.run(cmd, cwd=specdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken('TLC timed out on ' + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        gen = dist = 0
        if m:
            gen, dist = int(m[-1][0]), int(m[-1][1])
            self.states += dist
            self.trans += gen
        if expect_ok and 'Model checking completed. No error has been found.' not in out:
            i = out.find('Error:')
            raise Broken('TLC on %s: %s' % (module, out[max(0,(i if i >= 0 else len(out)) - 1500):][:4000]))
        return out, gen, dist

    def modelcheck(self, module, cfg=None, note='', **kw):
        """A model-checking step on a specification alone."""
        t = time.time()
        out, gen, dist = self.tlc(module, cfg, **kw)
        self.cov.setdefault('specifications_model_checked', []).append(
            {'module': module, 'cfg': os.path.basename(cfg) if cfg else module + '.cfg', 'states': dist, 'transitions': gen, 'what': note})
        self.log('model-checked %s %s: %d states, %d transitions (%.1fs)' % (module, cfg or '', dist, gen, time.time() - t))

    def judge(self, module, cases, n, **kw):
        """Runs a trace specification over a file of cases; every case must get
        a verdict.  Returns {id: [reasons]} of the refused ones."""
        if n == 0:
            return {}
        t = time.time()
        out, gen, dist = self.tlc(module, env={'CASES': cases}, expect_ok=False, **kw)
        off = self.outside(module, out, cases)
        if off:
            return off
        verdicts = {}
        for m in re.finditer(r'^"V\|([^|]*)\|(.*)"\s*$', out, re.M):
            verdicts[m.group(1)] = m.group(2)
        if len(verdicts) != n:
            raise Broken('%s judged %d of %d cases\n%s' % (module, len(verdicts), n, out[-1500:]))
        bad = {}
        for k, v in verdicts.items():
            v = v.replace('\\"', '"')
            if v.strip() != '{}':
                bad[k] = re.findall(r'"((?:[^"\\]|\\.)*)"', v) or [v]
        for k, v in bad.items():
            if 'ORACLE' in v and len(v) == 1:
                raise Broken('the Go oracle and the specification disagree on case %s of %s' % (k, cases))
        self.log('%s: %d cases judged, %d refused, %d states (%.1fs)' % (module, n, len(bad), dist, time.time() - t))
        return bad

    def judge_lin(self, module, cases, n, **kw):
        """Like judge, for specifications that search for an explanation of
        each history: one explanation without objections is enough."""
        if n == 0:
            return {}
        t = time.time()
        out, gen, dist = self.tlc(module, env={'CASES': cases}, expect_ok=False, **kw)
        off = self.outside(module, out, cases)
        if off:
            return off
        ok, why = set(), {}
        for m in re.finditer(r'^"V\|([^|]*)\|(.*)"\s*$', out, re.M):
            v = m.group(2).replace('\\"', '"')
            if v.strip() == '{}':
                ok.add(m.group(1))
            else:
                w = re.findall(r'"((?:[^"\\]|\\.)*)"', v)
                if m.group(1) not in why or len(w) < len(why[m.group(1)]):
                    why[m.group(1)] = w
        bad = {}
        with open(cases) as f:
            cnt = 0
            for l in f:
                cnt += 1
                k = re.search(r'"id":"([^"]*)"', l).group(1)
                if k not in ok:
                    bad[k] = why.get(k, ['history-has-no-sequential-explanation'])
        if cnt != n:
            raise Broken('%s: %d histories instead of %d' % (cases, cnt, n))
        self.log('%s: %d histories judged, %d refused, %d states (%.1fs)' % (module, n, len(bad), dist, time.time() - t))
        return bad

    def outside(self, module, out, cases):
        """A recorded trace on which the specification has no value at all (a
        field missing, a text where a number belongs): it is none of the
        specification's behaviours.  Anything else that stops TLC is our own
        failure."""
        if 'Model checking completed. No error has been found.' in out:
            return {}
        i = out.find('Error:')
        why = out[max(0, i):]
        m = re.search(r'^(?:/\\ )?(?:at|tk) = (\d+)$', why, re.M)
        own = re.search(r'StackOverflow|OutOfMemory|heap space|Invariant|Deadlock|Temporal', why)
        if i < 0 or not m or own:
            raise Broken('TLC on %s: %s' % (module, why[:4000]))
        with open(cases) as f:
            d = json.loads(next(l for n, l in enumerate(f, 1) if n == int(m.group(1))))
        t = re.search(r'The exception was.*?\n(.*?)Error: The behavior', why, re.S)
        self.log('%s has no value on case %s:\n%s' % (module, d['id'], why[:3000]))
        return {d['id']: [d['fault'] or 'the trace is outside the specification: ' + re.sub(r'\s+', ' ', t.group(1) if t else why)[:300]]}

    # ---- verdict --------------------------------------------------------
    def violation(self, why, replay):
        self.viol.append((why, replay))

    def finish(self, level='model_checking', assumptions=()):
        known = read_known(self.pid)
        unlisted = []
        for why, rep in self.viol:
            key = rep.get('key') or hashlib.sha1(json.dumps(rep.get('case', rep), sort_keys=True).encode()).hexdigest()[:16]
            hit = [k for k in known if k['key'] == key]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, hit[0]['what']))
            else:
                unlisted.append((key, why, rep))
        cov = {'states': self.states, 'transitions': self.trans, 'traces_validated_against_impl': self.traces, 'samples': self.samples[:5]}
        cov.update(self.cov)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(unlisted)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for i, (key, why, rep) in enumerate(unlisted):
            p = self.path('replay-%d.json' % i)
            rep = dict(rep, property=self.pid, why=why, key=key)
            json.dump(rep, open(p, 'w'), indent=1)
            if i < 5:
                print('VIOLATION property=%s replay=%s' % (self.pid, p))
                print('   %s' % (why,), flush=True)
        if len(unlisted) > 5:
            print('   ... and %d more' % (len(unlisted) - 5))
        self.log('done: %d violations, %d traces, %d states' % (len(unlisted), self.traces, self.states))
        return 1 if unlisted else 0


def read_known(pid):
    """Lines 'open: property=PID key=KEY text'; 'fixed:' lines suppress nothing."""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'open:\s+property=(\S+)\s+key=(\S+)\s+(.*)', l)
            if m and m.group(1) == pid:
                out.append({'key': m.group(2), 'what': m.group(3).strip()})
    return out
