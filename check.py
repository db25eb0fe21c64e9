#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

  check.py --property C10 --tier quick|thorough     (VERIF_SEED, VERIF_TIER)
  check.py --replay evidence/replay/C10-0.json      re-runs one recorded witness
  check.py --list

exit 0: nothing the monitors watched for happened
exit 1: VIOLATION line(s)
exit 2: inconclusive / harness error (build failure, nothing observed)
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, threading, time, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import build
from checks import CHECKS

REPLAY_DIR = os.path.join(HERE, 'evidence', 'replay')
WORK = os.path.join(build.OUT, 'work')

ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=0:exitcode=66:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:max_allocation_size_mb=4096',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=66',
    'TSAN_OPTIONS': 'atexit_sleep_ms=20:exitcode=66:halt_on_error=1:second_deadlock_stack=1:history_size=4',
    'G_DEBUG': '', 'G_SLICE': '', 'LC_ALL': 'C.UTF-8', 'GIO_USE_VFS': 'local',
    'GSETTINGS_BACKEND': 'memory',
}


def job_env(job):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('G_', 'DEX_', 'ASAN', 'TSAN', 'UBSAN', 'MALLOC'))}
    e.update(ENV)
    if job.get('leak'):
        e['V_LEAKCHECK'] = '1'
        e['ASAN_OPTIONS'] = e['ASAN_OPTIONS'].replace('detect_leaks=0', 'detect_leaks=1:leak_check_at_exit=0')
        e['LSAN_OPTIONS'] = 'report_objects=0:max_leaks=8:suppressions=' + os.path.join(HERE, 'harness', 'lsan.supp')
    e.update(job.get('env', {}))
    return e


def classify(rc, out):
    """-> (key, detail) of what ended a run"""
    m = re.search(r'^VFAIL key=(\S+) scenario=(\S+) seed=(\d+) iter=(\d+) noise=(\d+) :: (.*)$', out, re.M)
    if m:
        return m.group(1), m.group(0)
    m = re.search(r'^\S*?([\w.-]+):\d+:\d+: runtime error: (.*)$', out, re.M)
    if m:
        return 'ubsan:' + re.sub(r'[^A-Za-z_]+', '-', m.group(2))[:60], m.group(0)
    m = re.search(r'(WARNING: ThreadSanitizer|ERROR: AddressSanitizer|ERROR: LeakSanitizer|ERROR: ThreadSanitizer):? ([^\n]*)', out)
    if m:
        what = re.sub(r'0x[0-9a-f]+|\(pid=\d+\)|\d+', '', m.group(2)).strip().split(' on ')[0]
        frames = re.findall(r'^\s+#\d+ (?:0x[0-9a-f]+ in )?(\S+) [^\n]*?/src/(dex-[\w-]+\.[ch])', out, re.M)
        top = []
        for f, _ in frames:
            if f not in top:
                top.append(f)
        return 'san:%s:%s' % (re.sub(r'[^A-Za-z]+', '-', what).strip('-'), '+'.join(top[:3])), m.group(0)
    if rc is not None and rc < 0:
        m = re.search(r'^.*(assertion failed|code should not be reached|ERROR:|Bail out).*$', out, re.M)
        return 'abort:signal%d%s' % (-rc, ':' + re.sub(r'[^A-Za-z_]+', '-', m.group(0))[-80:] if m else ''), m.group(0) if m else 'killed by signal %d' % -rc
    return None, None


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.stop, self.t0 = threading.Event(), time.time()
        self.results, self.violations, self.errors, self.notes = [], [], [], []
        self.lock = threading.Lock()
        self.known = load_known()

    def watch(self, p, end, progress):
        """waits for the end of a driver: None if there is none, because its time is up, nothing in it moves any more,
        or its main thread has been computing for a minute without getting any further"""
        still, quiet = None, time.time()
        at, spent, busy = None, 0, False
        pause = 0.05
        while True:
            try:
                return p.wait(pause)
            except subprocess.TimeoutExpired:
                pause = min(2.0, pause * 2)
            now = time.time()
            if pause >= 1:
                ticks, asleep = 0, True
                try:
                    for t in os.listdir('/proc/%d/task' % p.pid):
                        f = open('/proc/%d/task/%s/stat' % (p.pid, t)).read().rsplit(')', 1)[1].split()
                        ticks += int(f[11]) + int(f[12])
                        if int(t) == p.pid:
                            cpu, pos = int(f[11]) + int(f[12]), open(progress, 'rb').read(4)
                            if pos != at:
                                at, spent = pos, cpu
                            busy = cpu - spent > 60 * os.sysconf('SC_CLK_TCK')
                        asleep &= f[0] == 'S'
                except OSError:
                    asleep = False
                # every thread asleep and no more than a timer's worth of work: a deadlock, whatever the load
                if not asleep or still is None or ticks > still + 5:
                    still, quiet = ticks, now
            if now > end or now - quiet > 45 or busy or self.stop.is_set():
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
                return None

    def exec_job(self, job, tag):
        out = os.path.join(WORK, '%s-%d-%s.json' % (self.prop, os.getpid(), tag))
        cmd = [job['exe'], '--iters', str(job['iters']), '--noise', str(job['noise']), '--seed', str(job['seed']), '--out', out]
        if job.get('scenario'):
            cmd += ['--scenario', job['scenario']]
        scratch = os.path.join(WORK, 'scratch-%s-%d-%s' % (self.prop, os.getpid(), tag))
        os.makedirs(scratch, exist_ok=True)
        env = job_env(job)
        env['V_SCRATCH'] = scratch
        env['V_PROGRESS'] = out + '.progress'
        with open(env['V_PROGRESS'], 'wb') as f:
            f.write(bytes(4096))
        t = time.time()
        with tempfile.TemporaryFile(dir=WORK) as so:
            p = subprocess.Popen(cmd, stdout=so, stderr=subprocess.STDOUT, env=env, cwd=scratch, stdin=subprocess.DEVNULL, start_new_session=True)
            rc = self.watch(p, t + job.get('timeout', 240), env['V_PROGRESS'])
            so.seek(0)
            o = so.read().decode('utf-8', 'replace')
        shutil.rmtree(scratch, ignore_errors=True)
        res = None
        if rc == 0:
            try:
                res = json.load(open(out, errors='replace'))
            except Exception as ex:
                rc, o = 99, o + '\nno result: %s' % ex
        for f in (out, env['V_PROGRESS']):
            try:
                os.unlink(f)
            except OSError:
                pass
        return rc, o, res, time.time() - t

    def run_job(self, job):
        if self.stop.is_set():
            return
        rc, o, res, dt = self.exec_job(job, job['tag'])
        if rc == 0:
            with self.lock:
                self.results.append((job, res, dt))
            return
        if self.stop.is_set() and rc in (None, -9):
            return  # ended by us, as there is enough to report
        key, detail = classify(rc, o)
        if (rc is None and key is None) or key in ('stall-unconfirmed', 'not-woken'):
            # a hang: run again, it counts only when it comes back
            for n in range(2):
                rc2, o2, res2, dt2 = self.exec_job(job, job['tag'] + '-again%d' % n)
                if self.stop.is_set() and rc2 in (None, -9):
                    return
                if rc2 == 0:
                    continue
                k2, d2 = classify(rc2, o2)
                if rc2 is None or k2:
                    key, detail, o = k2 or 'hang', d2 or 'no end, or no thread moving any more, more than once', o2
                    break
            else:
                with self.lock:
                    self.notes.append('inconclusive: %s ran into its time limit once and finished twice' % job['tag'])
                    if res2:
                        self.results.append((job, res2, dt2))
                return
        if key is None:
            with self.lock:
                self.errors.append('%s: exit %s\n%s' % (job['tag'], rc, o[-3000:]))
            self.stop.set()
            return
        only = CHECKS[self.prop].get('only')
        if only and not re.match(only, key):
            # something else went wrong in this run: the business of another property
            with self.lock:
                self.notes.append('not judged here: %s ended with %s' % (job['tag'], key))
            return
        ident = '%s/%s/%s' % (job['driver'], job.get('scenario') or '*', key)
        k = self.known_match(ident)
        with self.lock:
            if k:
                self.notes.append('known: ' + ident)
                k['hit'] = True
                return
            n = len(self.violations)
            os.makedirs(REPLAY_DIR, exist_ok=True)
            path = os.path.join(REPLAY_DIR, '%s-%d.json' % (self.prop, n))
            j = {k: v for k, v in job.items() if k != 'exe'}
            json.dump(dict(property=self.prop, ident=ident, detail=detail, job=j, output=o[-20000:]), open(path, 'w'), indent=1)
            self.violations.append((path, ident, detail))
            # what hangs takes long: one violation has to do then
            if len(self.violations) >= (3 if time.time() - self.t0 < 240 else 1):
                self.stop.set()

    def known_match(self, ident):
        for k in self.known:
            if k['property'] == self.prop and k['ident'] == ident:
                return k
        return None

    def jobs(self):
        c = CHECKS[self.prop]
        n = 0
        for spec in c['jobs']:
            for v in spec['variants']:
                for noise in spec['noises']:
                    for sc in spec['scenarios']:
                        shards = spec.get('shards', 1) * (c.get('thorough_shards', 4) if self.tier == 'thorough' else 1)
                        it = spec['iters'] * (spec.get('tiers', {}).get(sc, 1))
                        it *= spec.get('vscale', {}).get(v, {'plain': 1.0, 'asan': 0.6, 'noev': 0.6, 'nouring': 0.6, 'tsan': 0.35}[v])
                        if noise == 2:
                            it *= spec.get('heavy', 0.5)
                        if self.tier == 'thorough':
                            it *= c.get('thorough_scale', 4)
                        for sh in range(shards):
                            n += 1
                            j = dict(driver=spec['driver'], variant=v, noise=noise, scenario=sc, iters=max(1, int(it)),
                                     seed=(self.seed * 1000003 + n * 7919) & 0x7fffffff, leak=spec.get('leak', False) and v in ('asan', 'noev', 'nouring'),
                                     env=spec.get('env', {}), timeout=spec.get('timeout', 240) * (4 if self.tier == 'thorough' else 1))
                            j['tag'] = '%s-%s-n%d-%s-%d' % (j['driver'], v, noise, sc, sh)
                            yield j

    def run(self):
        t0 = self.t0 = time.time()
        os.makedirs(WORK, exist_ok=True)
        jobs = list(self.jobs())
        need = sorted({(j['variant'], j['driver']) for j in jobs})
        exes = {}
        with cf.ThreadPoolExecutor(8) as ex:
            futs = {ex.submit(build.build_driver, v, d): (v, d) for v, d in need}
            for f in cf.as_completed(futs):
                exes[futs[f]] = f.result()
        tb = time.time() - t0
        for j in jobs:
            j['exe'] = exes[(j['variant'], j['driver'])]
        with cf.ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS', '7'))) as ex:
            list(ex.map(self.run_job, jobs))
        return self.finish(t0, tb, jobs)

    def finish(self, t0, tb, jobs):
        c = CHECKS[self.prop]
        sigs, edges, samples, counters = set(), set(), [], {}
        ev = events = noise = fin = 0
        for j, r, dt in self.results:
            ev += r['evals']; events += r['events']; noise += r['noise']; fin += r['finalized']
            sigs.update((j['scenario'], s) for s in r['sigs'])
            edges.update((j['variant'], e) for e in r['edges_hit'])
            if r['samples']:
                samples.append('%s noise=%d seed=%d %s' % (j['variant'], j['noise'], j['seed'], r['samples'][-1]))
            for k, v in r['counters'].items():
                counters[k] = counters.get(k, 0) + v
        cov = dict(evaluations=ev, distinct_nontrivial=len(sigs), rule=c['rule'], samples=samples[:12] or ['none'],
                   monitored_events=events, executions=sum(j['iters'] for j, _, _ in self.results), runs=len(self.results), runs_planned=len(jobs),
                   delays_injected=noise, objects_finalized=fin, basic_block_edges_hit=len(edges), counters=counters,
                   variants=sorted({j['variant'] for j, _, _ in self.results}), build_s=round(tb, 1), notes=self.notes[:20])
        doc = dict(property=self.prop, tier=self.tier, seed=self.seed, level='exploration', coverage=cov,
                   assumptions=c.get('assumptions', []) + ['held on the executions counted here, not on all executions'],
                   wall_s=round(time.time() - t0, 1), violations=len(self.violations))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(doc, f, indent=1)
        for k in self.known:
            if k['property'] == self.prop:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['text']))
        for n in self.notes:
            print('note:', n)
        for path, ident, detail in self.violations:
            print('%s: %s' % (ident, detail))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        for e in self.errors:
            print('ERROR', e)
        print('%s %s: %d evaluations, %d distinct, %d events, %d runs, %.1fs (build %.1fs)' % (self.prop, self.tier, ev, len(sigs), events, len(self.results), time.time() - t0, tb))
        if os.environ.get('VERIF_TIMES'):
            for j, r, dt in sorted(self.results, key=lambda x: -x[2])[:12]:
                print('  %.1fs %s iters=%d' % (dt, j['tag'], j['iters']))
        if self.violations:
            return 1
        if self.errors:
            return 2
        if ev == 0 or len(sigs) < c.get('min_distinct', 2):
            print('ERROR inconclusive: the monitors observed nothing')
            return 2
        return 0


def load_known():
    r = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)$', line.strip())
            if m:
                r.append(dict(property=m.group(1), ident=m.group(2), text=m.group(3), hit=False))
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a.list:
        print('\n'.join(CHECKS))
        return 0
    try:
        if a.replay:
            d = json.load(open(a.replay))
            j = d['job']
            j['exe'] = build.build_driver(j['variant'], j['driver'])
            os.makedirs(WORK, exist_ok=True)
            r = Runner(d['property'], 'quick', seed)
            for n in range(5):
                rc, o, res, dt = r.exec_job(j, 'replay')
                if rc != 0:
                    print(o)
                    print('VIOLATION property=%s replay=%s' % (d['property'], a.replay))
                    return 1
            print('not reproduced in 5 runs')
            return 0
        return Runner(a.property, a.tier, seed).run()
    except build.BuildError as e:
        print('ERROR build failed: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
