"""Running one property's check: batches through the driver and TLC, model checking, evidence, verdict."""
import concurrent.futures as cf
import copy, json, os, random, re, shutil, subprocess, sys, time
import conf
from conf import Infra, ROOT

REPLAY = os.environ.get('VERIF_REPLAY', os.path.join(ROOT, 'replay'))


class Batch:
    def __init__(self, tag, images, sessions, driver='driver', env=None, module='SquashTrace', cfg='SquashTrace.cfg', drive=None):
        self.tag, self.images, self.sessions = tag, images, sessions
        self.driver, self.env, self.module, self.cfg = driver, env, module, cfg
        self.drive_fn = drive


class MC:
    """a bounded model to be checked by TLC"""

    def __init__(self, module, cfg, env=None, workers='4', extra=(), expect=None, heap='4g', timeout=800):
        self.module, self.cfg, self.env, self.workers, self.extra, self.expect = module, cfg, env, workers, extra, expect
        self.heap, self.timeout = heap, timeout


class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


def findings(pid):
    """the findings recorded for a property: name -> what fails"""
    d = {}
    with open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')) as f:
        for line in f:
            m = re.match(r'finding: property=(\S+) (\S+) :: (.*)', line)
            if m and m.group(1) == pid:
                d[m.group(2)] = m.group(3)
    return d


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == 'quick'
        self.r = random.Random('%s-%d' % (pid, seed))
        self.batches, self.mcs = [], []
        self.targets = {'driver'}
        self.t0 = time.time()
        self.states = self.trans = 0
        self.traces = self.events = 0
        self.op_counts = {}
        self.samples, self.mc_report, self.notes = [], [], {}
        self.work = conf.Work(pid)
        self.known, self.probes = findings(pid), []
        conf.KNOWN = {'KNOWN_' + k: '1' for k in self.known}
        self.later = []             # callables run after the build that add batches

    def rng(self, tag):
        return random.Random('%s-%d-%s' % (self.pid, self.seed, tag))

    def add(self, *a, **k):
        self.batches.append(Batch(*a, **k))

    def split(self, tag, images, sessions, n, **k):
        """sessions over several batches"""
        for i in range(0, len(sessions), n):
            self.add('%s.%d' % (tag, i // n), images, sessions[i:i + n], **k)

    def again(self, fn, salt=5000):
        """the generated histories once more, from other random choices"""
        keep = len(self.batches), len(self.mcs), len(self.later), len(self.probes)
        seed, r = self.seed, self.r
        self.seed, self.r = seed + salt, random.Random('%s-%d' % (self.pid, seed + salt))
        fn(self)
        self.seed, self.r = seed, r
        for b in self.batches[keep[0]:]:
            b.tag = 'again/' + b.tag
        del self.mcs[keep[1]:], self.later[keep[2]:], self.probes[keep[3]:]    # (these do not depend on the choices)

    # ------------------------------------------------------------------
    def run_batch(self, b):
        w = self.work.sub('b')
        try:
            evs = (b.drive_fn or conf.drive)(w, b.images, b.sessions, driver=b.driver, env=b.env)
            ok, k, out, st = conf.validate(w, b.images, evs, module=b.module, cfg=b.cfg)
            ops = {}
            for e in evs:
                ops[e['x']] = ops.get(e['x'], 0) + 1
            res = dict(batch=b, ok=ok, n=len(evs), st=st, evs=evs, at=k, ops=ops)
            if ok and len(evs) > 4000:
                res['evs'] = evs[:4000]
            return res
        finally:
            w.close()

    def probe(self, name, batch, op):
        """a history in which call number `op` of the only session shows a finding: with the finding not let pass the
        specification has to reject exactly this call, as long as the finding is there"""
        self.probes.append((name, batch, op))

    def run_probe(self, name, b, op):
        w = self.work.sub('p')
        try:
            evs = (b.drive_fn or conf.drive)(w, b.images, b.sessions, driver=b.driver, env=b.env)
            ok, k, out, st = conf.validate(w, b.images, evs, module=b.module, cfg=b.cfg, extra_env={'KNOWN_' + name: '0'})
            if ok:
                return None         # repaired
            if name in self.known and evs[k]['_op'][1] == op:
                return name
            return dict(batch=b, ok=False, n=len(evs), st=st, evs=evs, at=k, ops={})
        finally:
            w.close()

    def confirm(self, res):
        """run the failing session again on its own; save what is needed to replay it"""
        b, evs, k = res['batch'], res['evs'], res['at']
        bad = evs[k]
        si, oi = bad['_op']
        sess = b.sessions[si]
        cut = copy.copy(sess)
        cut.ops = sess.ops[:oi + 1] if oi >= 0 else sess.ops
        again = None
        # (a concurrent scenario is only one as a whole)
        for attempt, s in enumerate((sess,) if b.module == 'LinTrace' else (cut, sess)):
            w = self.work.sub('c')
            try:
                e2 = (b.drive_fn or conf.drive)(w, b.images, [s], driver=b.driver, env=b.env, timeout=120)
                ok, k2, out, st = conf.validate(w, b.images, e2, module=b.module, cfg=b.cfg)
                if not ok:
                    again = (s, e2, k2, w)
                    break
            except conf.Infra:
                continue                # what was seen counts all the same
            finally:
                if again is None:
                    w.close()
        d = os.path.join(REPLAY, '%s-%s-%d' % (self.pid, b.tag.replace('/', '_'), os.getpid()))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        if again:
            s, e2, k2, w = again
            bad = e2[k2]
            subprocess.run(['cp', '-a', '--sparse=always', w.dir, os.path.join(d, 'run')], check=True)
            w.close()
            conf.write_nd(os.path.join(d, 'trace.ndjson'), e2)
            conf.write_nd(os.path.join(d, 'trees.ndjson'), [im.model for im in b.images])
        else:
            conf.write_nd(os.path.join(d, 'trace.ndjson'), evs)
            conf.write_nd(os.path.join(d, 'trees.ndjson'), [im.model for im in b.images])
        line = sess.ops[bad['_op'][1]][0] if 0 <= bad['_op'][1] < len(sess.ops) else ''
        what = 'session %s, call "%s": the specification does not allow %s' % (
            sess.name, line[:200], json.dumps({x: y for x, y in bad.items() if x[0] != '_'})[:600])
        with open(os.path.join(d, 'README'), 'w') as f:
            f.write('property %s, batch %s\n%s\nreproduced alone: %s\n\n' % (self.pid, b.tag, what, bool(again)))
            f.write('run/*.script and run/*-img* are the inputs of the harness (harness/%s.c);\n' % b.driver)
            f.write('trace.ndjson is the recorded trace; check it again with\n')
            f.write('  cd %s/spec && TRACE=%s/trace.ndjson TREES=%s/trees.ndjson java -Xss256m -cp %s tlc2.TLC -config %s %s\n' % (ROOT, d, d, conf.JARS, b.cfg, b.module))
        return what, d

    def negative_control(self, res):
        """a corrupted copy of an accepted trace has to be rejected where it was corrupted"""
        evs = [dict(e) for e in res['evs']]
        cand = []
        for i, e in enumerate(evs):
            if e['x'] in ('open', 'stat', 'lstat', 'read', 'lseek', 'fstat', 'readdir', 'tnext', 'dnext', 'close', 'readlink', 'rr', 'extract', 'opendir', 'scandir') or \
               e['x'] in ('estat', 'elstat', 'echdir', 'efstat', 'eaccess') and e['ret'] == 0 or \
               e['x'] in ('hget', 'hadd', 'spush', 'spop') and not e.get('hit') or \
               e['x'] in ('sat', 'stop') and e['ret'] == 0:
                cand.append(i)
        over = {}                       # a call that another thread made -> where it returned
        for i, e in enumerate(evs):
            if e['x'] == 'call' and e['e']['x'] in ('stat', 'lstat', 'read', 'lseek', 'fstat', 'close', 'readlink'):
                j = next((j for j in range(i + 1, len(evs)) if evs[j]['x'] == 'ret' and evs[j]['th'] == e['th']), None)
                if j:
                    over[i] = j
        cand = list(over) or cand       # (in a concurrent history, corrupt one of those)
        if not cand:
            return None
        i = self.r.choice(cand)
        if i in over:
            e = evs[i]['e'] = dict(evs[i]['e'])
            i = over[i]
        else:
            e = evs[i]
        e['ret'] = e['ret'] + 1 if e.get('ret', 0) >= 0 else 0
        if e['x'] in ('readdir', 'tnext', 'dnext') and e['ret'] == 1:   # an entry out of nothing
            e.update(name='/forged', ino=-5, type='reg', off=-1, next=-1, end=0, path=['/forged'], isdir=0, len=0, terr=0)
        if 'st' not in e:
            e['st'] = dict(mode=-5, nlink=-5, mthi=0, mtlo=0, athi=0, atlo=0, cthi=0, ctlo=0, sizehi=0, sizelo=0, maj=0, min=0, junk=0)
        w = self.work.sub('n')
        try:
            ok, k, out, st = conf.validate(w, res['batch'].images, evs[:i + 1], module=res['batch'].module, cfg=res['batch'].cfg)
        finally:
            w.close()
        if ok or k != i:
            raise Infra('negative control: a corrupted %s (event %d of %s) was %s' % (e['x'], i, res['batch'].tag, 'accepted' if ok else 'rejected at %d' % k))
        return e['x']

    def run_mc(self, m):
        w = self.work.sub('m')
        try:
            rc, out, st, secs = conf.tlc(w, m.module, m.cfg, m.env, workers=m.workers, extra=m.extra, heap=m.heap, timeout=m.timeout)
        finally:
            w.close()
        bad = 'is violated' in out or 'is false' in out or rc in (10, 11, 12, 13)
        if m.expect == 'violation':
            if not bad:
                raise Infra('%s/%s should have a counterexample and has none:\n%s' % (m.module, m.cfg, out[-1500:]))
            return m, st, secs, True
        if rc != 0 or 'Finished in' not in out:
            raise Infra('model %s/%s: TLC ended with %d\n%s' % (m.module, m.cfg, rc, out[-2500:]))
        return m, st, secs, True

    # ------------------------------------------------------------------
    def go(self):
        try:
            conf.build(self.work, *sorted(self.targets))
            self.execute()
            self.evidence(0)
            print('OK property=%s tier=%s traces=%d events=%d states=%d wall=%.1fs' % (
                self.pid, self.tier, self.traces, self.events, self.states, time.time() - self.t0))
            return 0
        except Violation as v:
            self.evidence(1)
            print(v.what)
            print('VIOLATION property=%s replay=%s' % (self.pid, v.replay))
            return 1
        except Infra as e:
            print('ERROR %s: %s' % (self.pid, e))
            return 2
        finally:
            self.work.close()

    def execute(self):
        fails, oks, errs, shown = [], [], [], []
        with cf.ThreadPoolExecutor(max_workers=7) as ex:
            kind = {}
            started = 0
            for f in self.later:
                kind[ex.submit(f)] = ('later', f)
            for p in self.probes:
                kind[ex.submit(self.run_probe, *p)] = ('probe', p)
            for m in self.mcs:
                kind[ex.submit(self.run_mc, m)] = ('mc', m)
            while True:
                while started < len(self.batches):
                    b = self.batches[started]
                    started += 1
                    kind[ex.submit(self.run_batch, b)] = ('batch', b)
                pending = [f for f in kind if kind[f] is not None]
                if not pending:
                    break
                done, _ = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    k, what = kind[f]
                    kind[f] = None
                    try:
                        res = f.result()
                    except Infra as e:
                        errs.append('%s: %s' % (getattr(what, 'tag', k), e))
                        continue
                    if k == 'batch':
                        self.account(res)
                        (oks if res['ok'] else fails).append(res)
                    elif k == 'probe':
                        if isinstance(res, str):
                            shown.append(res)
                        elif res:
                            fails.append(res)
                    elif k == 'mc':
                        m, st, secs, _ = res
                        self.states += st[1]
                        self.trans += st[0]
                        self.mc_report.append(dict(model=m.cfg, distinct_states=st[1], states_generated=st[0], seconds=round(secs, 1),
                                                   expects=m.expect or 'no violation'))
                if fails:
                    for f in kind:
                        f.cancel()
                    break
        if fails:
            what, d = self.confirm(fails[0])
            raise Violation(what, d)
        if errs:
            raise Infra('; '.join(errs)[:3000])
        for name in sorted(shown):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, name, self.known[name]))
        self.notes['known_findings'] = sorted(shown)
        seen = {}
        oks.sort(key=lambda r: r['batch'].tag)
        for r in oks:
            m = r['batch'].module
            if seen.get(m, 0) >= (1 if self.quick else 5):
                continue
            c = self.negative_control(r)
            if c:
                seen[m] = seen.get(m, 0) + 1
                self.notes['negative_control'] = self.notes.get('negative_control', []) + [c]
        for r in oks[:3]:
            e = [x for x in r['evs'] if x['x'] not in ('S', 'warm')]
            if e:
                self.samples.append(dict(batch=r['batch'].tag, call={x: y for x, y in e[len(e) // 2].items() if x[0] != '_'}))

    def account(self, r):
        self.traces += r['ops'].get('S', 0)
        self.events += r['n']
        self.states += r['st'][1]
        self.trans += r['st'][0]
        for k, v in r['ops'].items():
            self.op_counts[k] = self.op_counts.get(k, 0) + v

    def evidence(self, viol):
        cov = dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces,
                   events_validated=self.events, calls_by_kind=self.op_counts, models=self.mc_report,
                   samples=self.samples or ['none'], **self.notes)
        d = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                 assumptions=['images are produced by lib/mksq.py (squashfs 4.0, gzip)', 'TLC, zlib and the C compiler are correct'],
                 wall_s=round(time.time() - self.t0, 2), violations=viol)
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(d, f, indent=1)
