"""What a program makes below the mount point: random histories, and behaviours of ShadowGen."""
import json, re
import conf, run, sample, zoo
from mksq import D, L, reg, Builder
from conf import Image, OsTree, MOUNT

M = MOUNT[1:]


def trees(r):
    root = D()
    root.add('top', reg(33, 1))
    m = root.add(M, D(mode=0o755))
    m.add('a', reg(100, r.randrange(255)))
    m.add('f', reg(r.choice([0, 5000, 20000]), r.randrange(255)))
    d = m.add('d', D(mode=r.choice([0o755, 0o555, 0o700])))
    d.add('x', reg(12, 9))
    d.add('y', reg(7000, 10))
    s = d.add('s', D(mode=r.choice([0o755, 0o500])))
    s.add('z', reg(60, 3))
    s.add('u', D()).add('q', reg(3, 3))
    e = m.add('e', D())
    for i in range(r.choice([0, 3, 30])):
        e.add('k%02d' % i, reg(i, 1) if r.random() < .6 else D())
    m.add(r.choice(['g' * 100, 'g']), D()).add('h', D())
    m.add('l', L('d/s'))
    m.add('la', L('a'))
    if r.random() < .3:
        m.add(M, D()).add('a', reg(17, 4))
    if r.random() < .15:          # an image without the mount point: everything below it is made
        root = D()
        root.add('top', reg(33, 1))
    im = Image(Builder(root, 4096, seed=r.randrange(1 << 30), meta=r.choice(['always', 'mix'])))
    o = D(mode=0o755)
    o.add('a', reg(90, 21, mode=0o644))
    od = o.add('d', D(mode=0o755))
    od.add('x', reg(12, 22, mode=0o644))
    od.add('new', D(mode=0o755))
    return im, OsTree(o)


NAMES = [b'n', b'new', b'x', b'a', b'w' * 60, b'z9', b'.h', b'n.txt']


class Gen:
    """keeps a guess of what is there, which only steers the choice of paths"""

    def __init__(self, r, im, ot, s, fault=False):
        self.fault, self.locked = fault, set()
        self.r, self.im, self.ot, self.s = r, im, ot, s
        self.n = 0
        self.dirs = [p for p, n in zoo.all_paths(im, dirs_only=True) if p.startswith(MOUNT)]
        # where the image has no such directory, things are made in the mount point but it is not looked at
        self.bare = not self.dirs
        if self.bare:
            self.dirs = [MOUNT]
        self.files = [p for p, n in zoo.all_paths(im) if p.startswith(MOUNT + b'/') and n.kind == 'reg']
        self.there = set(self.dirs) | {p for p, n in zoo.all_paths(im)}
        self.mdirs, self.mfiles = [], []
        self.cwd = None
        self.slots, self.dslots, self.fdirs = {}, [], []

    def spell(self, p, plain=False):
        """an absolute path, or one relative to the current directory; now and then with superfluous slashes"""
        r = self.r
        if self.cwd is not None and p.startswith(self.cwd + b'/') and r.random() < .7:
            return ('rel', p[len(self.cwd) + 1:])
        if r.random() < .06 and not plain and len(p) > len(MOUNT):
            i = p.index(b'/', len(MOUNT))
            p = p[:i] + b'/' + p[i:]
        return ('img', p)

    def fresh(self, ok=.8):
        """a name to make, in most cases one that can be made"""
        r = self.r
        x = r.random()
        if x < ok:
            d = r.choice(self.mdirs if self.mdirs and r.random() < .5 else self.dirs)
            if self.cwd is not None and r.random() < .3:
                d = self.cwd
            for _ in range(20):
                p = d + b'/' + r.choice(NAMES)
                if p not in self.there or r.random() < .1:
                    return p
            return p
        if x < ok + .06:
            return r.choice(self.mfiles + self.files + [MOUNT + b'/no']) + b'/' + r.choice(NAMES)
        if x < ok + .12:
            return r.choice(self.dirs + self.mdirs) + b'/nope/' + r.choice(NAMES)
        return r.choice(self.look() + self.files + self.mfiles)

    def look(self):
        return (self.mdirs or [MOUNT + b'/none']) if self.bare else self.dirs + self.mdirs

    def any(self):
        r = self.r
        x = r.random()
        made = self.mdirs + self.mfiles
        if x < .55 and made:
            return r.choice(made)
        if x < .65 and made:
            return r.choice(made) + r.choice([b'/n', b'/x', b'z'])
        if x < .75:
            return r.choice(self.dirs + self.mdirs) + b'/' + r.choice(NAMES)
        return r.choice((self.look() if self.bare else self.dirs) + self.files)

    def mkdir(self):
        p = self.fresh()
        par = p.rsplit(b'/', 1)[0]
        m = self.r.choice([0o755, 0o755, 0o777, 0o700, 0o750, 0o555])
        self.s.emkdir(self.spell(p), m)
        if p not in self.there and par in self.there and par not in self.mfiles + self.files and par not in self.locked:
            self.there.add(p)
            self.mdirs.append(p)
            if m == 0o555:
                self.locked.add(p)

    def make(self):
        r, s = self.r, self.s
        p = r.choice(self.mfiles) if self.mfiles and r.random() < .3 else self.fresh(.75)
        par = p.rsplit(b'/', 1)[0]
        self.n += 1
        img = p in self.files and (self.fault or p not in self.mfiles)
        acc = r.choice([0, 1, 1, 2, 2, 2])
        trunc = r.random() < .3
        excl = r.random() < .25
        if img and not excl:
            trunc = acc != 0          # writing to a file of the image without emptying it is not claimed
        if acc == 0:
            trunc = False
        mode = r.choice([0o644, 0o644, 0o600, 0o666, 0o755, 0o444, 0o200])
        s.eopenf(self.n, self.spell(p), acc, 1, excl, trunc, acc != 0 and r.random() < .35, mode, r.random() < .3)
        self.slots[self.n] = p
        if not (img and (excl or acc == 0)) and par in self.there and par not in self.mfiles + self.files and par not in self.locked and p not in self.dirs + self.mdirs:
            if p not in self.mfiles and not (p in self.there and not img):
                self.there.add(p)
                self.mfiles.append(p)
        if r.random() < .8 and acc:
            if r.random() < .2:
                s.elseek(self.n, r.choice([0, 0, 2]), 0)
            s.ewrite(self.n, self.bytes())
        self.trim()

    def bytes(self):
        r = self.r
        return bytes(r.randrange(256) if r.random() < .9 else 0 for _ in range(r.choice([0, 1, 2, 3, 5, 9, 20, 40])))

    def trim(self):
        r = self.r
        while len(self.slots) > 7:
            x = r.choice(sorted(self.slots))
            del self.slots[x]
            self.s.eclose(x)

    def reopen(self):
        r, s = self.r, self.s
        p = self.any()
        self.n += 1
        made = p in self.mfiles and not (self.fault and p in self.files)
        acc = r.choice([0, 0, 1, 2]) if made else 0
        s.eopenf(self.n, self.spell(p), acc, 0, 0, acc != 0 and r.random() < .15, acc != 0 and r.random() < .2, 0, r.random() < .3)
        self.slots[self.n] = p
        self.trim()

    def step(self):
        r, s = self.r, self.s
        k = r.random()
        if k < .12: self.mkdir()
        elif k < .27: self.make()
        elif k < .35: self.reopen()
        elif k < .64 and self.slots:
            x = r.choice(sorted(self.slots))
            q = r.random()
            isdir = self.slots[x] in self.dirs + self.mdirs
            n = r.choice([0, 1, 3, 10, 100, 300])
            if q < .3: s.ewrite(x, self.bytes())
            elif q < .5: s.eread(x, n)
            elif q < .6: s.epread(x, n, r.choice([0, 0, 1, 4, 10, 50, 1 << 30]) if isdir or r.random() < .9 else -1)
            elif q < .68: s.ereadv(x, [r.choice([0, 1, 2, 9, 50]) for _ in range(r.randrange(1, 5))] + [1])
            elif q < .85 and not isdir: s.elseek(x, r.choice([0, 0, 0, 1, 5, 30, -2]), r.choice([0, 0, 0, 1, 2]))
            elif q < .93: s.efstat(x)
            else:
                del self.slots[x]
                s.eclose(x)
        elif k < .74:
            getattr(s, r.choice(['estat', 'elstat']))(self.spell(self.any()))
        elif k < .78:
            s.eaccess(self.spell(self.any()), r.choice([0, 4]))
        elif k < .80:
            s.ereadlink(self.spell(self.any()), 300)
        elif k < .86:
            self.n += 1
            d = self.n
            s.eopendir(d, self.spell(self.any() if r.random() < .4 else r.choice(self.look())))
            self.dslots.append(d)
            if len(self.dslots) > 3:
                s.eclosedir(self.dslots.pop(0))
        elif k < .91 and self.dslots:
            d = r.choice(self.dslots)
            x = r.random()
            if x < .6: s.ereaddirs(d, -1)
            elif x < .75: s.erewinddir(d)
            elif x < .85: s.edirfd(d)
            else:
                self.dslots.remove(d)
                s.eclosedir(d)
        elif k < .94:
            s.escandir(self.spell(self.any() if r.random() < .3 else r.choice(self.look())), r.choice([0, 0, 1, 2]), r.choice([0, 1]))
        elif k < .98:
            if self.fault:        # where it fails nothing is known about where relative names lead
                return
            p = r.choice(self.look()) if r.random() < .85 else self.any()
            s.echdir(self.spell(p))
            if p in self.dirs or p in self.mdirs:
                self.cwd = p
            s.egetcwd(4096, r.choice([0, 1, 2]))
        else:
            # names on the other side that cannot be made, and one that can be opened
            q = r.choice([b'/a', b'/d', b'/d/new', b'/nope/x', b'/a/x'])
            if r.random() < .5: s.emkdir(('os', q), 0o755)
            elif q in (b'/a', b'/d', b'/d/new'):
                self.n += 1
                s.eopenf(self.n, ('os', q), 0, 1, 1)
                self.slots[self.n] = MOUNT
            s.estat(('os', q))


def session(name, im):
    s = sample.session(name, im)
    s.raw_too = 600
    return s


def add(c, tag, im, ot, sessions):
    c.targets.add('sample')
    c.add(tag, [im, ot], sessions, driver='sample', module='ShadowTrace', cfg='ShadowTrace.cfg', drive=conf.drive_sample)


def histories(c, images, per, n, fault=False):
    r = c.rng('hist%d' % fault)
    for k in range(images):
        im, ot = trees(r)
        ss = []
        for j in range(per):
            s = session('h%d' % j, im)
            g = Gen(r, im, ot, s, fault)
            for i in range(n):
                if fault and r.random() < .25:
                    s.fail('alloc', r.choice([1, 1, 2, 3]))
                g.step()
                if fault:
                    s.fail('alloc', 0)
            if r.random() < .6:
                s.quiesce()
            if r.random() < .5:
                s.eexit()
            ss.append(s)
        add(c, ('flt%d' if fault else 'hist%d') % k, im, ot, ss)


def probes(c):
    """the findings of KNOWN_FINDINGS.txt, one history each"""
    im, ot = small_trees(c.rng('probes'))
    for name, make, look in (('beside', b'/d/n', b'/d'), ('mount', b'/n', b'')):
        s = session(name, im)
        s.emkdir(('img', MOUNT + make))
        s.escandir(('img', MOUNT + look), 0, 1)
        c.probe(name, run.Batch('probe-' + name, [im, ot], [s], driver='sample', module='ShadowTrace', cfg='ShadowTrace.cfg', drive=conf.drive_sample), len(s.ops) - 1)
        s.eexit()


def faults(c, deepest):
    """every call that makes something or finds it made, failing at its k-th allocation"""
    im, ot = small_trees(c.rng('faults'))
    I = lambda x: ('img', MOUNT + x)
    ss = []
    for k in range(1, deepest + 1):
        for rel in (0, 1):
            s = session('k%d%s' % (k, 'r' if rel else ''), im)
            P = I
            if rel:
                s.echdir(('img', MOUNT))
                P = lambda x: ('rel', x[1:])
            n = 0

            def failing(f, *a, **b):
                s.fail('alloc', k)
                f(*a, **b)
                s.fail('alloc', 0)
            for p in (b'/d', b'/a', b'/n', b'/n', b'/n/m', b'/no/n', b'/d/x', b'/d/n'):
                failing(s.emkdir, P(p))
                s.estat(P(p))
            for p in (b'/d', b'/a', b'/o', b'/n/o', b'/d/x', b'/a/n', b'/d/n/x', b'/no/o'):
                for f in (dict(acc=1, creat=1, excl=1), dict(acc=0, creat=1), dict(acc=2, creat=1, trunc=1), dict(acc=0)):
                    n += 1
                    failing(s.eopenf, n, P(p), way=n & 1, **f)
                    s.eclose(n)
                    s.elstat(P(p))
            for p in (b'', b'/d', b'/n', b'/n/o', b'/d/x'):
                n += 1
                failing(s.estat, P(p) if p else I(p))
                failing(s.eaccess, P(p) if p else I(p), 4)
                failing(s.escandir, P(p) if p else I(p), 0, 1)
                failing(s.eopendir, n, P(p) if p else I(p))
                s.ereaddirs(n, -1)
                s.eclosedir(n)
                failing(s.echdir, P(p) if p else I(p))
                s.echdir(I(b''))
            s.quiesce()
            s.eexit()
            ss.append(s)
    add(c, 'points', im, ot, ss)


# ------------------------------------------------------------------ behaviours of ShadowGen
SMALL = [('img', MOUNT + b'/n'), ('img', MOUNT + b'/n/m'), ('img', MOUNT + b'/d/n'), ('img', MOUNT + b'/a'), ('img', MOUNT + b'/d'),
         ('img', MOUNT + b'/no/n'), ('img', MOUNT + b'/a/n'), ('rel', b'n'), ('rel', b'm')]


def small_trees(r):
    root = D()
    m = root.add(M, D())
    m.add('a', reg(9000, 11))
    m.add('d', D()).add('x', reg(10, 12))
    im = Image(Builder(root, 4096, seed=r.randrange(1 << 30)))
    o = D(mode=0o755)
    o.add('a', reg(9, 21, mode=0o644))
    return im, OsTree(o)


def play(s, hist, paths):
    for o in hist:
        k = o['o']
        p = paths[o['i'] - 1] if 'i' in o else None
        if k == 'mkdir': s.emkdir(p, 0o755)
        elif k == 'open': s.eopenf(o['s'], p, mode=0o644, **{x: int(v) for x, v in o['f'].items()})
        elif k == 'close': s.eclose(o['s'])
        elif k == 'write': s.ewrite(o['s'], bytes(o['b']))
        elif k == 'read': s.eread(o['s'], o['n'])
        elif k == 'lseek': s.elseek(o['s'], o['off'], o['wh'])
        elif k == 'chdir': s.echdir(p)
        elif k in ('stat', 'lstat'): getattr(s, 'e' + k)(p)
        elif k == 'access': s.eaccess(p, 4)
        elif k == 'readlink': s.ereadlink(p, 100)
        elif k == 'scandir': s.escandir(p, 0, 1)
        elif k == 'list':
            s.eopendir(77, p)
            s.ereaddirs(77, -1)
            s.eclosedir(77)
        elif k == 'opendir': s.eopendir(o['s'], p)
        elif k == 'readdirs': s.ereaddirs(o['s'], -1)
        elif k == 'rewinddir': s.erewinddir(o['s'])
        elif k == 'closedir': s.eclosedir(o['s'])
        else: raise conf.Infra('unknown call in a history: ' + k)


def behaviours(c, tag, alphabet, depth, nsim=0, cap=None, maxfd=4, maxstreams=2, timeout=600, paths=SMALL):
    r = c.rng(tag)
    im, ot = small_trees(r)
    w = c.work.sub('g')
    try:
        conf.write_nd(w.path('trees'), [im.model, ot.model])
        with open(w.path('paths'), 'w') as f:
            for k, p in paths:
                f.write(json.dumps(dict(k=k, cs=conf.comps(p))) + '\n')
        cfg = w.path('gen.cfg')
        with open(cfg, 'w') as f:
            f.write(sample.GEN_CFG.replace('OConsistent', 'SConsistent Kept') % (', '.join('"%s"' % a for a in alphabet), depth, maxfd, maxstreams, 'TRUE' if nsim else 'FALSE'))
        extra = ['-simulate', 'num=%d' % nsim, '-depth', str(depth + 1), '-seed', str(c.seed * 1000 + len(tag))] if nsim else []
        rc, out, st, secs = conf.tlc(w, 'ShadowGen', cfg, dict(TREES=w.path('trees'), PATHS=w.path('paths')), extra=extra, timeout=timeout, workers='1' if nsim else '4')
    finally:
        w.close()
    if rc != 0:
        raise conf.Infra('ShadowGen: TLC ended with %d\n%s' % (rc, out[-2500:]))
    hs, seen = [], set()
    for m in re.finditer(r'<<"HIST", (".*")>>', out):
        h = json.loads(json.loads(m.group(1)))
        key = json.dumps(h[:-1] if nsim else h)
        if key not in seen:
            seen.add(key)
            hs.append(h)
    n = len(hs)
    c.states += st[1]
    c.trans += st[0]
    c.mc_report.append(dict(model='ShadowGen %s, %s behaviours of %d calls' % (tag, 'random' if nsim else 'all', depth), behaviours=n, distinct_states=st[1]))
    if cap and n > cap:
        hs = r.sample(hs, cap)
    c.notes['behaviours_replayed'] = c.notes.get('behaviours_replayed', 0) + len(hs)
    ss = []
    looks = [p for p in paths if p[0] == 'img']
    for i, h in enumerate(hs):
        s = session('%s%d' % (tag, i), im)
        play(s, h, paths)
        for p in looks[:4]:           # what is there in the end
            s.estat(p)
        s.escandir(looks[0][0:1] + (MOUNT,), 0, 1)
        s.escandir(('img', MOUNT + b'/d'), 0, 1)
        s.quiesce()
        if i % 10 == 0:
            s.eexit()
        ss.append(s)
    k = max(1, 4000 // (depth + 9))
    for i in range(0, len(ss), k):
        add(c, '%s.%d' % (tag, i // k), im, ot, ss[i:i + k])
