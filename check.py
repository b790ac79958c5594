#!/usr/bin/env python3
"""Runs the check of one property: check.py C01 [--tier quick|thorough] [--seed N]

Exit 0: the property held on everything explored. Exit 1, with a line
"VIOLATION property=<id> replay=<path>": it is broken. Anything else is an
error of the check. See DESIGN.md.
"""
import argparse, json, os, re, shutil, subprocess, sys, time, hashlib, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(V, 'spec')
REPO = '/repo'
OUT = os.path.join(V, 'out')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

SLOW = ('giant', 'gset', 'sched')  # profiles whose histories take long to record


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def sh(cmd, timeout, env=None, cwd=V):
    e = dict(os.environ)
    e.update(env or {})
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        raise CheckError('timeout after %ss: %s' % (timeout, ' '.join(cmd)[:200]))


_goenv = None


def goenv():
    """the go environment that the repository's own build uses"""
    global _goenv
    if _goenv is None:
        r = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], stdout=subprocess.PIPE)
        _goenv = {}
        for kv in r.stdout.decode(errors='replace').split('\0'):
            k, _, v = kv.partition('=')
            if k in ('PATH', 'HOME', 'GOTOOLCHAIN', 'GOFLAGS', 'GOPROXY', 'GOWORK', 'GOMODCACHE', 'GOCACHE'):
                _goenv[k] = v
    return _goenv


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == 'quick'
        self.dir = os.path.join(OUT, pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replays = os.path.join(OUT, 'replay')
        os.makedirs(self.replays, exist_ok=True)
        self.states = self.trans = self.traces = self.events = self.replayed = 0
        self.samples, self.notes, self.known, self.parts = [], [], [], []
        self.actions = {}
        self.deadline = time.time() + (840 if self.quick else 24 * 3600)

    def left(self, cap):
        return max(1, min(cap, self.deadline - time.time()))

    # -- the real code -----------------------------------------------------
    def build(self, cmd, race=False):
        out = os.path.join(self.dir, cmd + ('-race' if race else ''))
        r = sh(['go', 'build'] + (['-race'] if race else []) + ['-o', out, './cmd/' + cmd], self.left(600), goenv(),
               os.path.join(V, 'harness'))
        if r.returncode != 0:
            raise CheckError('the harness does not build against /repo:\n' + r.stderr[-3000:])
        return out

    def build_sched(self):
        """drv with a scheduling point before every statement of the library (an overlay: /repo stays as it is)"""
        d = os.path.join(self.dir, 'overlay')
        os.makedirs(d, exist_ok=True)
        r = sh([self.build('instr'), REPO, d], self.left(60), goenv())
        out = os.path.join(self.dir, 'drv-sched')
        if r.returncode == 0:
            r = sh(['go', 'build', '-overlay', os.path.join(d, 'overlay.json'), '-tags', 'sched', '-o', out, './cmd/drv'],
                   self.left(600), goenv(), os.path.join(V, 'harness'))
        if r.returncode != 0:
            # code that cannot be instrumented is still judged by the other parts of the check
            self.parts.append(dict(kind='sched', skipped=r.stderr[-500:]))
            print('note: no systematic schedules: ' + r.stderr[-500:], file=sys.stderr)
            return None
        return out

    def sched(self, objects, budget, **kw):
        b = self.build_sched()
        if b:
            self.tv([('sched', objects, budget, '0')], module='ConcTrace', drv=b, **kw)

    def replay_file(self, kind, data):
        h = hashlib.sha1(json.dumps(data, sort_keys=True).encode()).hexdigest()[:10]
        p = os.path.join(self.replays, '%s-%s-%s.json' % (self.pid, kind, h))
        with open(p, 'w') as f:
            json.dump(data, f, indent=1)
        return p

    def race(self, rounds):
        """the specification's steps are atomic; watch the accesses of the real code for data races"""
        t0 = time.time()
        b = self.build('drv', race=True)
        argv = [b, '-profile', 'race', '-seed', str(self.seed), '-hist', str(rounds), '-len', '60', '-out',
                os.path.join(self.dir, 'race.out')]
        env = dict(goenv())
        env['GORACE'] = 'halt_on_error=1 exitcode=66'
        r = sh(argv, self.left(900), env)
        if r.returncode == 66 and 'DATA RACE' in r.stderr:
            raise Violation('data race', self.replay_file('race', {'cmd': argv, 'report': r.stderr[:8000]}))
        if r.returncode != 0:
            self.crash(argv, r)
        self.parts.append(dict(kind='race', rounds=rounds * 60, wall_s=round(time.time() - t0, 1)))

    def crash(self, argv, r):
        # a fatal error (stack overflow, concurrent map, out of memory) cannot be caught in the driver
        m = re.search(r'^goroutine \d+.*\[running.*\]:\n((?:.+\n)+)', r.stderr, re.M)
        files = re.findall(r'^\t(/\S+?):\d+', m.group(1), re.M) if m else []
        files = [f for f in files if '/src/runtime/' not in f]
        overflow = 'stack overflow' in r.stderr and any(f.startswith('/repo/') for f in files[:20])
        # the library's own goroutine in one of the driver's callbacks, which are never called at the same time
        created = r'^created by gopkg\.in/addrs'
        spawned = m and re.search(created, m.group(1), re.M) or \
            'concurrent map' in r.stderr and re.search(created, r.stderr, re.M)
        if 'harness:' not in r.stderr and (overflow or spawned or (files and files[0].startswith('/repo/'))):
            raise Violation('the library crashed the process', self.replay_file('crash', {
                'cmd': argv, 'stderr': r.stderr[:6000]}))
        raise CheckError('driver failed (%d): %s\n%s' % (r.returncode, argv, r.stderr[-3000:]))

    def run_real(self, argv, timeout=300):
        """run a driver; a crash inside the library is a violation"""
        env = dict(goenv())
        env['GOTRACEBACK'] = 'all'
        r = sh(argv, self.left(timeout), env)
        if r.returncode != 0:
            self.crash(argv, r)
        return r.stdout

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, timeout=600, workers=8, heap='6g', extra=(), constants=None):
        cfg = cfg or module + '.cfg'
        tag = '%s-%s-%d' % (module, os.path.basename(cfg), len(os.listdir(self.dir)))
        meta = os.path.join(self.dir, 'meta-' + tag)
        os.makedirs(meta, exist_ok=True)
        argv = ['java', '-Xss256m', '-Xmx' + heap, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4',
                '-Djava.io.tmpdir=' + meta, '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
                '-noGenerateSpecTE', '-fp', '71', '-seed', str(self.seed), '-config', cfg] + list(extra) + [module + '.tla']
        r = sh(argv, self.left(timeout), env, SPEC)
        shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout + r.stderr
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        gen, dist = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        res = dict(rc=r.returncode, out=out, gen=gen, distinct=dist,
                   ok='Model checking completed. No error has been found' in out,
                   deadlock='Deadlock reached' in out)
        self.states += dist
        self.trans += gen
        return res

    def mc(self, module, cfg=None, timeout=600, expect_violation=False, sim=0, depth=40, **kw):
        """check the property on the specification itself; sim: that many random behaviours per worker"""
        t0 = time.time()
        if sim:
            kw['extra'] = ('-simulate', 'num=%d' % sim, '-depth', str(depth))
        r = self.tlc(module, cfg, timeout=timeout, **kw)
        if sim:
            m = re.findall(r'The number of states generated: ([\d,]+)', r['out'])
            r['ok'] = bool(m) and 'Error' not in r['out'] and 'violated' not in r['out']
            r['gen'] = r['distinct'] = int(m[-1].replace(',', '')) if m else 0
            self.states += r['gen']
            self.trans += r['gen']
        if expect_violation:
            if 'is violated' not in r['out']:
                raise CheckError('%s/%s: expected a violation\n%s' % (module, cfg, r['out'][-3000:]))
        elif not r['ok']:
            raise CheckError('%s/%s failed on the specification:\n%s' % (module, cfg, r['out'][-3000:]))
        self.parts.append(dict(kind='MC', module=module, cfg=cfg or module + '.cfg', states=r['distinct'],
                               transitions=r['gen'], wall_s=round(time.time() - t0, 1)))

    def validate(self, traces, module='StoreTrace', cfg=None, timeout=600, what='', reproduce=None):
        """every line of the trace file must be a behaviour of the specification"""
        t0 = time.time()
        n = ev = 0
        with open(traces) as f:
            for line in f:
                n += 1
                ev += len(json.loads(line)['ev'])
        r = self.tlc(module, cfg, env={'TRACE': traces}, timeout=timeout)
        part = dict(kind='TV', module=module, traces=n, events=ev, states=r['distinct'], what=what,
                    wall_s=round(time.time() - t0, 1))
        if r['ok']:
            self.traces += n
            self.events += ev
            self.parts.append(part)
            return
        # a result of another kind than the specification compares it with also ends the history, with an error
        odd = 'threw an unexpected exception' in r['out'] and 'The behavior up to this point is' in r['out'] and \
            not re.search(r'OutOfMemory|StackOverflow|heap space|IOException', r['out'])
        if not r['deadlock'] and not odd:
            raise CheckError('TLC did not finish on %s:\n%s' % (traces, r['out'][-4000:]))
        tid = int(re.findall(r'^/\\ tid = (\d+)', r['out'], re.M)[-1])
        pos = int(re.findall(r'^/\\ l = (\d+)', r['out'], re.M)[-1])
        with open(traces) as f:
            for i, line in enumerate(f, 1):
                if i == tid:
                    tr = json.loads(line)
        e = tr['ev'][pos - 1]
        path = self.replay_file('trace', {
            'property': self.pid, 'what': 'the specification has no behaviour with this result at event %d' % pos,
            'module': module, 'trace': tr.get('id'), 'limbs': tr.get('n'), 'rejected_event': e,
            'history': tr['ev'][:pos], 'reproduce': reproduce})
        raise Violation('history %s rejected at event %d: %s' % (tr.get('id'), pos, json.dumps(e)[:600]), path)

    # -- behaviours enumerated by TLC, replayed on the real code -------------------
    def gen(self, module):
        """what TLC enumerates does not depend on the real code: kept in out/gen, named by the specification"""
        h = hashlib.sha1()
        for f in (module + '.tla', module + '.cfg', 'Addr.tla', 'AddrSets.tla', 'Tables.tla'):
            with open(os.path.join(SPEC, f), 'rb') as g:
                h.update(g.read())
        d = os.path.join(OUT, 'gen')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s.json' % (module, h.hexdigest()[:12]))
        if not os.path.exists(p):
            r = self.tlc(module, env={'GEN': p + '.tmp'}, timeout=600, workers=1)
            if not r['ok']:
                raise CheckError('%s failed:\n%s' % (module, r['out'][-3000:]))
            os.rename(p + '.tmp', p)
        return p

    def findings(self):
        """the recorded findings of this property: {key: what}"""
        out = {}
        with open(os.path.join(V, 'KNOWN_FINDINGS.txt')) as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) keys=(\S+) (.*)', line)
                if m and m.group(1) == self.pid:
                    for k in m.group(2).split(','):
                        out[k] = m.group(3)
        return out

    def rep(self, rounds, full=False, fam='0', timeout=900):
        t0 = time.time()
        gt, gs = self.gen('GenTables'), self.gen('GenSets')
        b = self.build('drv')
        argv = [b, '-profile', 'rep:' + self.pid, '-seed', str(self.seed), '-fam', fam, '-hist', str(rounds),
                '-gent', gt, '-gens', gs] + (['-full'] if full else [])
        d = json.loads(self.run_real(argv, timeout).strip().split('\n')[-1])
        if 'violation' in d:
            v = d['violation']
            raise Violation('a behaviour of the specification does not replay: ' + v['what'][:1500],
                            self.replay_file('rep', dict(v, cmd=argv[1:])))
        known = self.findings()
        seen = {}
        for k in d['keyed']:
            if k['key'] not in known:
                raise Violation(k['what'], self.replay_file('rep', dict(k, cmd=argv[1:])))
            seen.setdefault(known[k['key']], []).append(k['what'])
        for what, l in seen.items():
            self.known.append('%s [%d listed inputs seen, such as: %s]' % (what, len(l), l[0]))
        self.replayed += d['replayed']
        self.parts.append(dict(kind='GEN', what='enumerated behaviours replayed at random positions', rounds=rounds,
                               steps=d['replayed'], known_inputs=len(d['keyed']), wall_s=round(time.time() - t0, 1)))

    # -- combinations --------------------------------------------------------
    def tv(self, profiles, timeout=600, module='StoreTrace', cfg=None, drv='drv'):
        """record histories of the real code and validate them: [(profile, histories, length, family)]"""
        b = drv if os.path.isabs(drv) else self.build(drv)
        allf = os.path.join(self.dir, 'traces.ndjson')
        with open(allf, 'w') as w:
            for j, (p, hist, ln, fam) in enumerate(profiles):
                shards = min(hist, 8) if p in SLOW else 1  # recorded in parallel
                files = [os.path.join(self.dir, 't%d.%d.ndjson' % (j, s)) for s in range(shards)]

                def record(s):
                    lo, hi = hist * s // shards, hist * (s + 1) // shards
                    self.run_real([b, '-profile', p, '-seed', str(self.seed), '-fam', fam, '-first', str(lo), '-hist',
                                   str(hi - lo), '-len', str(ln), '-out', files[s]])
                with cf.ThreadPoolExecutor(shards) as pool:
                    for x in [pool.submit(record, s) for s in range(shards)]:
                        x.result()
                for s, f in enumerate(files):
                    with open(f) as g:
                        for k, line in enumerate(g):
                            w.write(line)
                            if s == 0 and k == 0 and len(self.samples) < 3:
                                t = json.loads(line)
                                self.samples.append({'profile': p, 'trace': t.get('id'), 'first_events': t['ev'][1:4]})
                    os.remove(f)
        self.validate(allf, module=module, cfg=cfg, timeout=timeout, what=', '.join('%s x%d' % (p[0], p[1]) for p in profiles),
                      reproduce='VERIF_SEED=%d python3 %s/check.py %s --tier %s' % (self.seed, V, self.pid, self.tier))
        os.remove(allf)


import checks  # noqa: E402  (the table of checks)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    a = ap.parse_args()
    t0 = time.time()
    c = Ctx(a.pid, a.tier, a.seed)
    viol, rc = None, 0
    try:
        checks.CHECKS[a.pid](c)
    except Violation as x:
        viol, rc = x, 1
    except CheckError as x:
        print('CHECK-ERROR: %s' % x, file=sys.stderr)
        rc = 2
    for k in c.known:
        print('KNOWN-FINDING: property=%s %s' % (a.pid, k))
    ev = dict(property=a.pid, tier=a.tier, seed=a.seed, level='model_checking',
              coverage=dict(states=c.states, transitions=c.trans, traces_validated_against_impl=c.traces,
                            events_validated=c.events, spec_behaviours_replayed_on_impl=c.replayed,
                            samples=c.samples or ['none'], parts=c.parts),
              assumptions=checks.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    if rc != 2:
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        with open(os.path.join(V, 'evidence', a.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if viol:
        print(viol.what)
        print('VIOLATION property=%s replay=%s' % (a.pid, viol.replay))
    elif rc == 0:
        print('OK property=%s tier=%s seed=%d states=%d traces=%d events=%d replayed=%d %.1fs' % (
            a.pid, a.tier, a.seed, c.states, c.traces, c.events, c.replayed, time.time() - t0))
    shutil.rmtree(c.dir, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.exit(main())
