"""The sample's system-call layer: trees on both sides of the mount point, and histories over them."""
import json, re
import conf, mksq, zoo
from mksq import Node, D, L, reg, Builder
from conf import Image, OsTree, ESession, MOUNT, drive_sample

M = MOUNT[1:]


def os_tree(r):
    root = D(mode=0o755)
    dirs = [root]
    for nm in ['d', 'e', 'd/s', 'd/s/u', 'o' * 60, 'e/' + 'p' * 200, M.decode(), M.decode() + '/d']:
        p = root
        cs = nm.encode().split(b'/')
        for x in cs[:-1]:
            p = p.ents[x]
        dirs.append(p.add(cs[-1], D(mode=r.choice([0o755, 0o711 | 0o444, 0o777, 0o1777]))))
    for i, d in enumerate(dirs):
        for nm in r.sample(['a', 'b', 'x', 'y', 'f0', 'f1', 'z.so', 'only%d' % i], 4):
            d.add(nm, reg(r.choice([0, 1, 10, 4096, 5000, 20000]), r.randrange(255), mode=r.choice([0o644, 0o755, 0o444])))
    root.add('l', L('d/s'))
    root.add('lf', L('d/s/../' + r.choice(sorted(x.decode() for x in root.ents[b'd'].ents))))
    root.ents[b'd'].add('up', L('../e'))
    root.ents[b'e'].add('back', L('../l/u'))
    root.add('dang', L('nope/x'))
    root.add('abs', L('/nope-sqv/x'))
    root.add('loop', L('loop'))
    return OsTree(root)


def img_tree(r, bad=False):
    root = D()
    root.add('top', reg(33, 1))
    o = root.add('d', D())
    o.add('x', reg(12, 9))
    m = root.add(M, D())
    bs = 4096
    for i in range(3):
        z = r.choice([0, 1, 10, 5000, 3 * bs, 4 * bs + 7, 30000])
        m.add('f%d' % i, reg(z, r.randrange(255), holes=zoo.pick_holes(r, z, bs) if r.random() < .6 else (), frag=r.random() < .6))
    m.add('a', reg(100, r.randrange(255)))
    d = m.add('d', D())
    for x in 'xyb':
        d.add(x, reg(r.choice([7, 4096, 9000]), r.randrange(255)))
    s = d.add('s', D())
    s.add('z.so', reg(6000, r.randrange(255)))
    s.add('u', D()).add('q', reg(3, 3))
    e = m.add('e', D())
    e.add('n' * 200, D()).add('w', reg(5, 5))
    e.add(M, D()).add('a', reg(17, 4))
    for i in range(r.choice([0, 5, 40])):
        d.add('k%02d' % i, reg(0, 1) if r.random() < .6 else L('x'))
    m.add('l', L('d/s'))
    m.add('la', L(MOUNT + b'/d/x'))
    m.add('out', L('../d'))
    m.add('lf', L('d/../a'))
    d.add('up', L('../e'))
    m.add('dang', L('nope'))
    m.add('loop', L('loop'))
    m.add('pipe', Node('fifo'))
    kw = {}
    if bad:
        m.add('bad', reg(5 * bs + 100, 200, comp='mix', frag=True, badblk=tuple(sorted(r.sample(range(5), 2)))))
    return Image(Builder(root, bs, seed=r.randrange(1 << 30), meta=r.choice(['always', 'mix'])))


def resolve(root, stk, cs, follow=True, used=0):
    """-> (stack, escaped?) on the operating system's side; stack None if there is no such thing"""
    stk = list(stk)
    cs = list(cs)
    while cs:
        x = cs.pop(0)
        n = stk[-1][1]
        if x in (b'', b'.'):
            if n.kind != 'dir':
                return None, True           # trailing dots and slashes after files are not claimed
            continue
        if n.kind != 'dir':
            return None, any(y in (b'', b'.', b'..') for y in cs + [x])
        if x == b'..':
            if len(stk) == 1:
                return None, True
            stk.pop()
            continue
        c = n.ents.get(x)
        if c is None:
            return None, False
        if c.kind == 'lnk' and (cs or follow):
            used += 1
            if used > 20:
                return None, not (cs == [] or all(y not in (b'', b'.', b'..') for y in cs))
            if c.target[:1] == b'/':
                return None, False
            cs = c.target.split(b'/') + cs
            continue
        if c.kind == 'lnk' and not follow:
            return stk + [(x, c)], False
        stk.append((x, c))
    return stk, False


class Gen:
    """a random history of a session, keeping track of which side the current directory is on"""

    def __init__(self, r, im, ot, s):
        self.r, self.im, self.ot, self.s = r, im, ot, s
        self.ip = [p for p, n in zoo.all_paths(im)]
        self.idirs = [p for p, n in zoo.all_paths(im, dirs_only=True) if p.startswith(MOUNT)] + [MOUNT + b'/l', MOUNT + b'/out', MOUNT + b'/d/up']
        self.op = [p for p, n in zoo.all_paths(OtView(ot))]
        self.odirs = [p for p, n in zoo.all_paths(OtView(ot), dirs_only=True)] + [b'/l', b'/d/up', b'/e/back']
        self.icwd = None                 # path text of an image cwd
        self.ostk = [(b'', ot.root)]
        self.slots = {}                  # slot -> node kind guess
        self.n = 0
        self.t = 0
        self.dslots = {}

    def img_path(self, want=None):
        r = self.r
        p = r.choice(want or self.ip)
        if not p.startswith(MOUNT):
            p = MOUNT + b'/..' + p
        k = r.random()
        if k < .12:
            p = p[:-1] if len(p) > len(MOUNT) + 2 and r.random() < .5 else p + b'z'
        elif k < .2:
            p += b'/' + r.choice([b'x', b'a', b'nope', b'..', b'.', b''])
        elif k < .3:
            cs = p[len(MOUNT):].split(b'/')
            i = r.randrange(1, len(cs)) if len(cs) > 1 else 0
            if i:
                cs[i:i] = r.choice([[b'.'], [b''], [b'no', b'..'], [b'd', b's', b'..', b'..']])
            p = MOUNT + b'/'.join(cs)
        return p

    def os_path(self, want=None):
        r = self.r
        for _ in range(20):
            p = r.choice(want or self.op)
            k = r.random()
            if k < .15:
                p = p + r.choice([b'z', b'/x', b'/nope'])
            elif k < .25:
                cs = p.split(b'/')
                i = r.randrange(1, len(cs))
                cs[i:i] = r.choice([[b'.'], [b''], [b'd', b'..'], [b'l', b'..']])
                p = b'/'.join(cs)
            if self.fine([(b'', self.ot.root)], p):
                return p
        return b'/d'

    def fine(self, stk, p):
        if not p or p[-1:] == b'/' or p.endswith(b'/.') or p in (b'.',) or p.endswith(b'..'):
            st, esc = resolve(self.ot.root, stk, p.split(b'/'), True)
            nd, e2 = resolve(self.ot.root, stk, p.rstrip(b'/.').split(b'/'), False) if p.strip(b'/.') else (st, False)
            return bool(p) and st is not None and not esc and not e2 and nd is not None and nd[-1][1].kind == 'dir'
        return not resolve(self.ot.root, stk, p.split(b'/'), True)[1] and not resolve(self.ot.root, stk, p.split(b'/'), False)[1]

    def rel_path(self, dirs=False):
        r = self.r
        if self.icwd is not None:
            if r.random() < .6:
                here = [x for x in self.icwd.split(b'/') if x]
                there = [x for x in r.choice(self.idirs if dirs else self.ip).split(b'/') if x]
                p = zoo_rel(here, there, r)
            else:
                p = r.choice([b'a', b'd', b'x', b'..', b'.', b'd/x', b'../a', b's/z.so', b'l', b'nope', b'../../d', b'../../../../..', b'./d/', b'f0', b'loop', M + b'/a', b'up'])
            return p or b'.'
        for _ in range(30):
            if r.random() < .6:
                here = [x[0] for x in self.ostk[1:]]
                there = [x for x in r.choice(self.odirs if dirs else self.op).split(b'/') if x]
                p = zoo_rel(here, there, r)
            else:
                p = r.choice([b'a', b'd', b'x', b'..', b'.', b'd/x', b'../a', b's/z.so', b'l', b'nope', b'../../d', b'./d/', b'f0', b'loop', M + b'/a', M, b'up', b'back'])
            if self.fine(self.ostk, p):
                return p
        return b'nope'

    def path(self, dirs=False):
        k = self.r.random()
        if k < .35:
            return ('img', self.img_path(self.idirs if dirs else None))
        if k < .55:
            return ('os', self.os_path(self.odirs if dirs else None))
        return ('rel', self.rel_path(dirs))

    def chdir(self, p=None):
        p = p or self.path(self.r.random() < .85)
        k, t = p
        if k == 'img' or (k == 'rel' and self.icwd is not None):
            full = t if k == 'img' else self.icwd + t
            if len(full) > 1200:
                return
            if img_is_dir(self.im, full):
                self.icwd = full.rstrip(b'/') + b'/'
                # the operating system's directory stays where it was
        else:
            st, esc = resolve(self.ot.root, [(b'', self.ot.root)] if k == 'os' else self.ostk, t.split(b'/'))
            if esc:
                return
            if st is not None and st[-1][1].kind == 'dir':
                self.icwd = None
                self.ostk = st
        self.s.echdir(p)

    def slot(self):
        return self.r.choice(sorted(self.slots)) if self.slots else 90

    def step(self):
        r, s = self.r, self.s
        k = r.random()
        if k < .13:
            self.chdir()
            if r.random() < .5:
                s.egetcwd(4096, r.choice([0, 1, 2]))
        elif k < .17:
            m = r.choice([0, 0, 0, 1, 2])
            cur = len(self.icwd) if self.icwd is not None else 40 + sum(len(x[0]) + 1 for x in self.ostk)
            s.egetcwd(r.choice([0, 1, 2, cur - 2, cur - 1, cur, cur + 1, cur + 2, r.randrange(1, 300), 4096]) if m == 0 else 0, m)
        elif k < .30:
            p = self.path()
            self.n += 1
            if r.random() < .25:
                # openat: from a descriptor of a directory of the operating system, or the current directory
                ds = [x for x, v in self.slots.items() if v is not None]
                if ds and r.random() < .7:
                    d = r.choice(ds)
                    if p[0] == 'rel':
                        stk = self.slots[d]
                        for _ in range(20):
                            q = r.choice([b'a', b'x', b'd', b'..', b'd/x', b'nope', b's', b'.', b'../d', b'up', b'l'])
                            if self.fine(stk, q):
                                break
                        else:
                            q = b'nope'
                        p = ('rel', q)
                    s.eopenat(self.n, p, d)
                else:
                    s.eopenat(self.n, p, -1)
            else:
                s.eopen(self.n, p)
            self.slots[self.n] = None
            if p[0] == 'os' or (p[0] == 'rel' and self.icwd is None):
                stk = [(b'', self.ot.root)] if p[0] == 'os' else self.ostk
                if s.ops[-1][0].startswith('eopen '):
                    st, esc = resolve(self.ot.root, stk, p[1].split(b'/'))
                    if st is not None and st[-1][1].kind == 'dir':
                        self.slots[self.n] = st
            if len(self.slots) > 8:
                x = r.choice(sorted(self.slots))
                del self.slots[x]
                s.eclose(x)
        elif k < .34 and self.slots:
            x = self.slot()
            del self.slots[x]
            s.eclose(x)
        elif k < .42:
            s.eread(self.slot(), r.choice([0, 1, 10, 100, 4096, 5000, 40000]))
        elif k < .50:
            s.epread(self.slot(), r.choice([0, 1, 10, 4095, 4096, 5000, 40000]), r.choice([-1, 0, 0, 1, 9, 4095, 4096, 4097, 8192, 12000, 50000, 1 << 40]))
        elif k < .58:
            s.ereadv(self.slot(), [r.choice([0, 0, 1, 3, 10, 1000, 4096, 5000]) for _ in range(r.randrange(0, 9))])
        elif k < .62:
            x = self.slot()
            if self.slots.get(x) is None:
                s.elseek(x, r.choice([-1, 0, 0, 1, 5, 4096, 9000, 100000, (1 << 32) + 5, (1 << 31) + 1]), 0)
        elif k < .65:
            s.efstat(self.slot())
        elif k < .74:
            getattr(s, r.choice(['estat', 'elstat']))(self.path())
        elif k < .77:
            s.eaccess(self.path(), r.choice([0, 4]))
        elif k < .80:
            s.ereadlink(self.path(), r.choice([400, 1000]))
        elif k < .85:
            self.n += 1
            d = self.n
            s.eopendir(d, self.path(True))
            if r.random() < .3:
                s.edirfd(d)
            self.dslots[d] = [False]
            if len(self.dslots) > 4:
                x = r.choice(sorted(self.dslots))
                del self.dslots[x]
                s.eclosedir(x)
        elif k < .92 and self.dslots:
            d = r.choice(sorted(self.dslots))
            x = r.random()
            if x < .5: s.ereaddirs(d, -1)
            elif x < .65: s.erewinddir(d)
            elif x < .75: s.etelldir(d, self.tell(d))
            elif x < .85 and len(self.dslots[d]) > 1: s.eseekdir(d, self.r.choice(self.dslots[d][1:]))
            elif x < .93: s.edirfd(d)
            else:
                del self.dslots[d]
                s.eclosedir(d)
        elif k < .95:
            s.escandir(self.path(True), r.choice([0, 0, 1, 2]), r.choice([0, 1, 2, 3]))
        elif k < .965:
            s.eifextract(self.path())
        elif k < .975:
            s.edlopen(self.path())
        elif k < .985:
            s.eexec(self.path())
        else:
            s.eif(self.path())

    def tell(self, d):
        self.t += 1
        t = self.t % 60
        for v in self.dslots.values():
            if t in v[1:]:
                v.remove(t)
        self.dslots[d].append(t)
        return t

    def fdopen(self, fault=0):
        """a stream over a descriptor; the descriptor is not closed on its own afterwards"""
        self.n += 1
        f = self.n
        p = self.path(self.r.random() < .7)
        self.s.eopen(f, p)
        if self.r.random() < .3:
            self.s.eread(f, 5)
        self.n += 1
        d = self.n
        if fault:
            self.s.fail('alloc', fault)
        self.s.efdopendir(d, f)
        self.s.edirfd(d)
        self.s.ereaddirs(d, -1)
        if self.r.random() < .5:
            self.s.erewinddir(d)
            self.s.ereaddirs(d, -1)
        self.s.eclosedir(d)


    def stream(self):
        """a stream, read in pieces, with places to come back to"""
        r, s = self.r, self.s
        p = self.path(True)
        image = p[0] == 'img' or (p[0] == 'rel' and self.icwd is not None)
        self.n += 1
        d = self.n
        s.eopendir(d, p)
        self.dslots[d] = [False]
        tells = []
        for _ in range(r.choice([4, 8, 12])):
            x = r.random()
            if x < .45:
                # what the operating system lists has no order to rely on: only all of it
                s.ereaddirs(d, r.choice([1, 1, 2, 5, -1]) if image else -1)
            elif x < .65:
                tells.append(self.tell(d))
                s.etelldir(d, tells[-1])
            elif x < .9 and tells:
                t = r.choice(tells)
                if t in self.dslots[d]:
                    s.eseekdir(d, t)
            elif x < .95:
                s.erewinddir(d)
            else:
                s.edirfd(d)
        s.ereaddirs(d, -1)
        del self.dslots[d]
        s.eclosedir(d)


def zoo_rel(here, there, r):
    i = 0
    while i < len(here) and i < len(there) and here[i] == there[i] and r.random() < .9:
        i += 1
    return b'/'.join([b'..'] * (len(here) - i) + there[i:]) or b'.'


class OtView:
    def __init__(self, ot):
        self.builder = ot.builder


def img_is_dir(im, p):
    """only a guess that steers the generator"""
    cs = []
    for x in p.split(b'/'):
        if x in (b'', b'.'):
            continue
        if x == b'..':
            if not cs:
                return False
            cs.pop()
        else:
            cs.append(x)
    n = im.builder.root
    stk = [n]
    todo = cs
    used = 0
    while todo:
        x = todo.pop(0)
        if x in (b'', b'.'):
            continue
        if x == b'..':
            if len(stk) == 1:
                return False
            stk.pop()
            continue
        if stk[-1].kind != 'dir' or x not in stk[-1].ents:
            return False
        c = stk[-1].ents[x]
        if c.kind == 'lnk':
            used += 1
            if used > 30:
                return False
            if c.target[:1] == b'/':
                stk = stk[:1]
            todo = c.target.split(b'/') + todo
        else:
            stk.append(c)
    return stk[-1].kind == 'dir'


def session(name, im, warm=True):
    s = ESession(name, warm=(0, MOUNT + b'/a') if warm else None)
    s.img(0, 0)
    s.mount(0)
    return s


def add(c, tag, im, ot, sessions):
    c.targets.add('sample')
    c.add(tag, [im, ot], sessions, driver='sample', module='OverlayTrace', cfg='OverlayTrace.cfg', drive=drive_sample)


# ------------------------------------------------------------------ behaviours of OverlayGen
GEN_CFG = '''SPECIFICATION GenSpec
CONSTANTS
  MaxChain = 32
  MaxDepth = 32
  MaxTotal = 1024
  PathMax = 2048
  Alphabet = {%s}
  Depth = %d
  MaxFd = %d
  MaxStreams = %d
  Sim = %s
INVARIANTS OConsistent Printed
CHECK_DEADLOCK FALSE
'''


def small_trees(r):
    root = D()
    root.add('top', reg(3, 1))
    m = root.add(M, D())
    m.add('a', reg(9000, 11))
    d = m.add('d', D())
    d.add('x', reg(10, 12))
    d.add('s', D()).add('y', reg(4096, 13))
    m.add('l', L('d/s'))
    im = Image(Builder(root, 4096, seed=r.randrange(1 << 30)))
    o = D(mode=0o755)
    o.add('a', reg(9000, 21, mode=0o644))
    d = o.add('d', D(mode=0o755))
    d.add('x', reg(12, 22, mode=0o644))
    d.add('s', D(mode=0o755)).add('y', reg(5000, 23, mode=0o644))
    o.add(M, D(mode=0o755)).add('a', reg(7, 24, mode=0o644))
    o.add('l', L('d/s'))
    return im, OsTree(o)


SMALL = [('img', MOUNT), ('img', MOUNT + b'/d'), ('img', MOUNT + b'/d/../a'), ('img', MOUNT + b'/l'), ('img', MOUNT + b'/../top'),
         ('os', b'/d'), ('os', b'/' + M + b'/a'), ('rel', b'd'), ('rel', b'..'), ('rel', b'x'), ('rel', b'../a'), ('rel', b's/y'), ('rel', b'l'), ('rel', M), ('rel', b'no')]


def play(s, hist, paths):
    for o in hist:
        k = o['o']
        p = paths[o['i'] - 1] if 'i' in o else None
        if k == 'chdir': s.echdir(p)
        elif k == 'getcwd': s.egetcwd(4096, o['m'])
        elif k in ('stat', 'lstat', 'ifextract', 'if', 'exec'): getattr(s, 'e' + k)(p)
        elif k == 'readlink': s.ereadlink(p, 500)
        elif k == 'access': s.eaccess(p, 4)
        elif k == 'scandir': s.escandir(p, 0, 1)
        elif k == 'open': s.eopen(o['s'], p)
        elif k == 'close': s.eclose(o['s'])
        elif k == 'read': s.eread(o['s'], o['n'])
        elif k == 'pread': s.epread(o['s'], o['n'], o['off'])
        elif k == 'readv': s.ereadv(o['s'], o['l'])
        elif k == 'lseek': s.elseek(o['s'], o['off'], o['wh'])
        elif k == 'fstat': s.efstat(o['s'])
        elif k == 'opendir': s.eopendir(o['s'], p)
        elif k == 'fdopendir': s.efdopendir(o['s'], o['f'])
        elif k == 'readdirs': s.ereaddirs(o['s'], -1)
        elif k == 'rewinddir': s.erewinddir(o['s'])
        elif k == 'dirfd': s.edirfd(o['s'])
        elif k == 'closedir': s.eclosedir(o['s'])
        else: raise conf.Infra('unknown call in a history: ' + k)


def behaviours(c, tag, alphabet, paths, depth, nsim=0, cap=None, maxfd=4, maxstreams=2, per=1, timeout=600):
    """replay behaviours of OverlayGen: every one of `depth` calls, or nsim random ones of that length"""
    r = c.rng(tag)
    im, ot = small_trees(r)
    w = c.work.sub('g')
    try:
        conf.write_nd(w.path('trees'), [im.model, ot.model])
        with open(w.path('paths'), 'w') as f:
            for k, p in paths:
                f.write(json.dumps(dict(k=k, cs=conf.comps(p))) + '\n')
        cfg = w.path('gen.cfg')
        with open(cfg, 'w') as f:
            f.write(GEN_CFG % (', '.join('"%s"' % a for a in alphabet), depth, maxfd, maxstreams, 'TRUE' if nsim else 'FALSE'))
        extra = ['-simulate', 'num=%d' % nsim, '-depth', str(depth + 1), '-seed', str(c.seed * 1000 + len(tag))] if nsim else []
        rc, out, st, secs = conf.tlc(w, 'OverlayGen', cfg, dict(TREES=w.path('trees'), PATHS=w.path('paths')), extra=extra, timeout=timeout, workers='1' if nsim else '4')
    finally:
        w.close()
    if rc != 0:
        raise conf.Infra('OverlayGen: TLC ended with %d\n%s' % (rc, out[-2500:]))
    hs, seen = [], set()
    for m in re.finditer(r'<<"HIST", (".*")>>', out):
        t = m.group(1)
        if t in seen:
            continue
        seen.add(t)
        h = json.loads(json.loads(t))
        if nsim:
            key = json.dumps(h[:-1])
            if key in seen:
                continue
            seen.add(key)
        hs.append(h)
    n = len(hs)
    c.states += st[1]
    c.trans += st[0]
    c.mc_report.append(dict(model='OverlayGen %s, %s behaviours of %d calls' % (tag, 'random' if nsim else 'all', depth), behaviours=n, distinct_states=st[1]))
    if cap and n > cap:
        hs = r.sample(hs, cap)
    c.notes['behaviours_replayed'] = c.notes.get('behaviours_replayed', 0) + len(hs)
    ss = []
    for i in range(0, len(hs), per):
        s = session('%s%d' % (tag, i), im)
        for h in hs[i:i + per]:
            play(s, h, paths)
            if per > 1:
                s.quiesce()
                s.echdir(('os', b'/'))
                s.img(0, 0)
                s.mount(0)
        s.quiesce()
        ss.append(s)
    k = max(1, 5000 // (per * (depth + 6)))
    for i in range(0, len(ss), k):
        add(c, '%s.%d' % (tag, i // k), im, ot, ss[i:i + k])


# ------------------------------------------------------------------ positions
def io_trees(r, bs, bad=False):
    root = D()
    m = root.add(M, D())
    m.add('a', reg(10, 1))
    for i in range(5):
        z = r.choice([0, 1, bs - 1, bs, 3 * bs, 5 * bs + 77, 9 * bs + 1])
        f = m.add('f%d' % i, zoo.rfile(r, bs, r.randrange(255), size=z))
        if bad and z >= 3 * bs and r.random() < .8:
            f.badblocks = tuple(sorted({r.randrange(z // bs) for _ in range(2)}))
    if r.random() < .4:
        big = m.add('big', reg((5 << 30) // 8 if bs < 131072 else (4 << 30) + 9, 77, holes=[(bs, (5 << 30) // 8 - bs)] if bs < 131072 else [(bs, 4 << 30)], frag=True))
    m.add('d', D()).add('x', reg(3, 3))
    im = Image(Builder(root, bs, seed=r.randrange(1 << 30), meta=r.choice(['always', 'mix'])))
    o = D(mode=0o755)
    for i, z in enumerate([0, 10, 9000, 50000]):
        o.add('f%d' % i, reg(z, r.randrange(255), mode=0o644))
    o.add('d', D(mode=0o755))
    files = [('img', p, n) for p, n in zoo.all_paths(im) if p.startswith(MOUNT + b'/')]
    files += [('os', b'/' + x, n) for x, n in o.ents.items()]
    return im, OsTree(o), files


def io_history(r, s, files, bs, n, faults=False):
    import gen
    open_ = {}
    k = 0
    for i in range(n):
        x = r.random()
        if len(open_) < 3 or (x < .06 and len(open_) < 8):
            k += 1
            f = r.choice(files) if r.random() < .6 else r.choice([f for f in files if f[0] == 'img'])
            s.eopen(k, (f[0], f[1]))
            open_[k] = f
            continue
        if x < .1:
            j = r.choice(sorted(open_))
            s.eclose(j)
            del open_[j]
            if r.random() < .2:
                s.epread(j, 10, 0)          # closed
            continue
        j = r.choice(sorted(open_))
        nd = open_[j][2]
        isreg = nd.kind == 'reg'
        p = gen.pos(r, nd, bs) if isreg else r.choice([0, 1, 100])
        ln = gen.length(r, nd, bs, 1 << 19) if isreg else r.choice([0, 5, 100])
        if r.random() < .06:
            p = r.choice([-1, -4096, 1 << 31, (1 << 31) + 5, 1 << 32, (1 << 32) + 1, 1 << 40])
        if faults and r.random() < .3:
            s.fail('alloc', r.choice([1, 1, 2, 3]))
        if x < .45:
            s.epread(j, gen.vast(r, nd, ln), p)
        elif x < .75:
            m = r.randrange(0, 12)
            lens = []
            for _ in range(m):
                lens.append(r.choice([0, 0, 1, 2, 7, 100, bs - 1, bs, bs + 1, 3 * bs, max(1, ln // 2)]))
            bad = getattr(nd, 'badblocks', ())      # (only regular files of damaged images have some)
            if bad and r.random() < .5:             # up to the block that cannot be decoded, in small pieces
                d = r.choice([1, 1, 2, 5])
                s.elseek(j, max(0, r.choice(bad) * bs - d), 0)
                lens = r.choice([[d, 5], [1] * d + [7], [0, d, 0, 100], [d + 1], [1] * (d + 2)])
            elif r.random() < .5 and isreg:
                s.elseek(j, max(0, p), 0)
            if lens and not bad:
                lens[-1] = gen.vast(r, nd, lens[-1], .1)
            s.ereadv(j, lens)
            if bad:
                s.elseek(j, 0, 1)
        elif x < .85:
            s.eread(j, gen.vast(r, nd, ln))
        elif x < .93 and isreg:
            wh = r.choice([0, 0, 1, 2, 7])
            s.elseek(j, p if wh == 0 else r.choice([-1, 0, 1, -bs, bs, -p, 1 << 32]), wh)
        elif x < .96 and isreg:
            s.elseek(j, 0, 1)
        else:
            s.efstat(j)
    if faults:
        s.fail('alloc', 0)
