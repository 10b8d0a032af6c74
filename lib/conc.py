"""Concurrent scenarios: the schedule explorer (harness/conc.c) and its histories."""
import json, os, re, subprocess
import conf, mksq
from conf import Session, Infra


class Scenario(Session):
    """calls before, on each thread, and after"""

    def __init__(self, name):
        self.where = []
        self.now = 'M'
        Session.__init__(self, name)

    def raw(self, line, **f):
        self.where.append(self.now)
        return Session.raw(self, line, **f)

    def setup(self): self.now = 'M'
    def thread(self, t): self.now = 'T %d' % t
    def after(self): self.now = 'F'


def enrich(ev, fl):
    """result fields of a call joined with its arguments, in the form the specification reads"""
    e = dict(fl)
    e.update(ev)
    if 'hex' in e:
        e['data'] = mksq.project(bytes.fromhex(e.pop('hex')))
    if e['x'] == 'rlk' and 'target' in e:
        e['target'] = re.findall('%..|.', e['target'])
    if e['x'] == 'readlink' and 'target' in e:
        e['target'] = e['target'].replace('%2F', '/').split('/')
    if e['x'] == 'tnext' and 'path' in e:
        e['path'] = e['path'].replace('%2F', '/').split('/')
    if e['x'] == 'img' and 'ver' in e:
        e['ver'] = e['ver'] + [e['comp']]
    return e


def drive_with(seed, b1, b2, keep, stats=None):
    def drive(work, images, scenarios, driver='conc', env=None, timeout=None):
        script = []
        for i, im in enumerate(images):
            fn = work.path('t-img%d' % i)
            with open(fn, 'wb') as f:
                mksq.store(f, im.data)
            script.append('I %d %s %d' % (i, fn, im.offset))
        for s in scenarios:
            script.append('S ' + s.name)
            for k, (w, (line, _)) in enumerate(zip(s.where, s.ops)):
                script.append('%s %d %s' % (w, k, line))
        sf, ef = work.path('t.script'), work.path('t.raw')
        if os.path.exists(ef):
            os.unlink(ef)
        with open(sf, 'w') as f:
            f.write('\n'.join(script) + '\n')
        with open(work.path('t.err'), 'wb') as err:
            try:
                r = subprocess.run([os.path.join(work.bin, driver), sf, ef, str(seed), str(b1), str(b2), str(keep)],
                                   env=dict(os.environ, TMPDIR=work.tmp, LC_ALL='C.UTF-8'), stdout=subprocess.DEVNULL, stderr=err,
                                   stdin=subprocess.DEVNULL, timeout=timeout or (850 if os.environ.get('VERIF_TIER') == 'quick' else 3000), cwd=work.dir)
            except subprocess.TimeoutExpired:
                raise Infra('schedule explorer timed out')
        if r.returncode != 0:
            raise Infra('schedule explorer failed: %d' % r.returncode)
        return histories(work, scenarios, ef, stats)
    return drive


def histories(work, scenarios, ef, stats):
    by = {s.name: s for s in scenarios}
    idx = {s.name: i for i, s in enumerate(scenarios)}
    out, cur, si, pend = [], None, 0, {}
    with open(ef) as f:
        for line in f:
            try:
                r = json.loads(line)
            except ValueError:
                r = dict(x='garbled')
            x = r['x']
            if x == '#':
                if stats is not None:
                    stats.append(dict(scenario=cur.name, **{k: v for k, v in r.items() if k != 'x'}))
            elif x == 'S':
                cur, si, pend = by[r['name']], idx[r['name']], {}
                out.append(dict(x='S', name=r['name'], sched=r['sched'], _op=(si, -1)))
            elif x == 'seq':
                e = enrich(r['e'], cur.ops[r['k']][1])
                e['_op'] = (si, r['k'])
                out.append(e)
            elif x == 'call':
                e = dict(x='call', th=r['th'], line=cur.ops[r['k']][0], e=dict(x='never'), _op=(si, r['k']))
                pend[r['th']] = e
                out.append(e)
            elif x == 'ret':
                pend.pop(r['th'])['e'] = enrich(r['e'], cur.ops[r['k']][1])
                out.append(dict(x='ret', th=r['th'], _op=(si, r['k'])))
            else:
                r['_op'] = (si, len(cur.ops) - 1)
                out.append(r)
    return out
