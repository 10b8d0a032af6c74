"""What each property's check runs."""
import itertools, json, random, re
import conc, conf, gen, mksq, sample, walks, zoo
from conf import Session, Image, RawImage
from gen import vast, marks, pos, length
from run import MC

CHECKS = {}


def check(pid):
    def f(fn):
        CHECKS[pid] = fn
        return fn
    return f


def warm_of(im, i=0):
    fs = zoo.all_paths(im, files_only=True)
    fs = [p for p, n in fs if n.size() < 100000]
    return (i, fs[0]) if fs else None


# ------------------------------------------------------------------ C01
@check('C01')
def c01(c):
    r = c.rng('main')
    for k in range(6 if c.quick else 60):
        bs = [4096, 4096, 8192, 131072, 16384, None][k % 6]
        im = zoo.content(r, bs=bs)
        read_sessions(c, r, im, 'c%d' % k, 6 if c.quick else 20, 40)
    for k in range(2 if c.quick else 10):
        im = zoo.huge(r)
        read_sessions(c, r, im, 'h%d' % k, 5, 40)
    im = zoo.giant(r)
    read_sessions(c, r, im, 'g', 2, 30)
    q = c.quick
    for k in range(1 if q else 6):
        far_sessions(c, r, zoo.far(r), 'far%d' % k, 2 if q else 6)
    im = zoo.many(r)
    s = Session('seq', warm=warm_of(im))
    s.img(0, 0)
    fs = zoo.all_paths(im, files_only=True)
    for p, n in fs[::2] + r.sample(fs, 300 if q else 2000):
        s.open(0, 0, p)
        s.read(0, 1 << 20)
        s.close(0)
    s.quiesce()
    c.add('many', [im], [s])
    small_world(c, 'BlockWalk', live=True)
    c.later.append(lambda: walks.block_reads(c, c.rng('small'), 'lay', 'sch', positions=30 if q else None))
    c.later.append(lambda: walks.index_files(c, c.rng('index'), 'ix', 48 if q else 1000))


def small_world(c, module, live=False, broken=()):
    c.mcs.append(MC(module, module + '_mc.cfg', workers='3'))
    for v in broken if not c.quick else ():         # the model tells broken protocols from the right one
        c.mcs.append(MC(module, '%s_%s.cfg' % (module, v), workers='2', expect='violation'))
    if not c.quick:
        c.mcs.append(MC(module, module + '_big.cfg', workers='4', heap='8g', timeout=2400))
        if live:
            c.mcs.append(MC(module, module + '_live.cfg', workers='2'))


def far_sessions(c, r, im, tag, nsess):
    """one after the other what lies powers of two apart"""
    files = zoo.all_paths(im, files_only=True)
    top = {p: n for p, n in files if p.count(b'/') == 1}
    out = []
    for j in range(nsess):
        s = Session('x%d' % j, warm=(0, b'/0k3'))
        s.img(0, 0)
        for kind in r.sample([b'k1', b'k2', b'k3', b't0', b't1'], 5):
            ps = [p for p in top if p.endswith(kind)]
            for i, p in enumerate(ps):
                s.open(i, 0, p)
            for _ in range(30):
                a = r.choice([0, 0, 1, 4095, 4096, 4097, 8192, 12288, r.randrange(0, 13000)])
                ln = r.choice([1, 100, 5000, 20000])
                for i in r.sample(range(len(ps)), 2):
                    s.lseek(i, a, 0)
                    s.read(i, ln)
            for i in range(len(ps)):
                s.close(i)
        for p, n in [x for x in top.items() if x[1].at and not x[0].endswith((b'k1', b'k2', b'k3', b't0', b't1'))]:
            s.open(0, 0, p)
            for _ in range(25):
                s.lseek(0, pos(r, n, 4096), 0)
                s.read(0, length(r, n, 4096))
            s.close(0)
        for p, n in r.sample(zoo.all_paths(im), 40):
            use(s, r, im, p, n, 0)
            if r.random() < .3:
                s.export(0, r.randrange(1, len(im.builder.nodes) + 1)); s.owner(0, p)
        s.idget(0, 0)
        s.opendir(0, 0, '/zz')
        s.readdirs(0, -1)
        s.closedir(0)
        s.quiesce()
        out.append(s)
    c.split(tag, [im], out, 2)


def read_sessions(c, r, im, tag, nsess, nops):
    files = zoo.all_paths(im, files_only=True)
    bs = im.builder.bs
    out = []
    # every file once from start to end in steps, on one handle
    s = Session('seq', warm=warm_of(im))
    s.img(0, 0)
    for i, (p, n) in enumerate(files):
        if n.size() > 40 * bs:
            continue
        s.open(0, 0, p)
        step = r.choice([bs, bs - 1, 1000, 3 * bs, 1 << 20])
        for _ in range(min(40, n.size() // step + 2)):
            s.read(0, step)
        s.close(0)
    s.quiesce()
    out.append(s)
    for j in range(nsess):
        s = Session('r%d' % j, warm=warm_of(im))
        s.img(0, 0)
        # a few files only, so that the caches are revisited
        fs = [r.choice(files) for _ in range(4)]
        big = [f for f in files if f[1].size() > 40 * bs]
        if big:
            fs[0] = r.choice(big)
            fs[1] = r.choice(big)
        for i, (p, n) in enumerate(fs):
            s.open(i, 0, p)
        for _ in range(nops):
            i = r.randrange(4)
            p, n = fs[i]
            k = r.random()
            if k < .6:
                s.lseek(i, pos(r, n, bs), 0)
                s.read(i, vast(r, n, length(r, n, bs)))
            elif k < .8:
                s.read(i, vast(r, n, length(r, n, bs)))
            else:
                s.rr(0, p, pos(r, n, bs), vast(r, n, length(r, n, bs)))
        s.quiesce()
        out.append(s)
    c.split(tag, [im], out, 8)


# ------------------------------------------------------------------ C02
@check('C02')
def c02(c):
    r = c.rng('main')
    for k in range(4 if c.quick else 30):
        im = zoo.content(r, nfiles=5, bs=r.choice([4096, 131072])) if k else zoo.giant(r)
        files = zoo.all_paths(im, files_only=True)
        bs = im.builder.bs
        out = []
        for j in range(10):
            s = Session('s%d' % j, warm=warm_of(im))
            s.img(0, 0)
            fs = [r.choice(files) for _ in range(3)]
            fs[2] = fs[0]              # the same file twice: positions are per descriptor
            for i, (p, n) in enumerate(fs):
                s.open(i, 0, p)
            s.opendir(0, 0, '/d' if im.builder.root.ents.get(b'd') else '/')
            for _ in range(50):
                i = r.randrange(3)
                n = fs[i][1]
                k2 = r.random()
                if k2 < .2:
                    s.lseek(i, pos(r, n, bs), 0)
                elif k2 < .4:
                    s.lseek(i, r.choice([-1, 1, 0, -bs, bs, -n.size(), n.size(), r.randrange(-n.size() - 2, n.size() + 2), r.randrange(-20, 20)]), 1)
                elif k2 < .5:
                    s.lseek(i, r.choice([0, 0, -1, 5, -n.size(), 1 << 40]), 2)
                elif k2 < .55:
                    s.lseek(i, r.choice([-1, -(1 << 40), 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) + 1, 1 << 45, 1 << 49]), r.choice([0, 1]))
                elif k2 < .6:
                    s.lseek(i, r.choice([0, 1, 10]), r.choice([3, 4, -1, 100, 1 << 20]))
                elif k2 < .95:
                    s.read(i, vast(r, n, r.choice([0, 0, 1, 1, 3, 100, bs, bs + 1, length(r, n, bs)])))
                elif k2 < .97:
                    s.read(i, r.choice([-1, -5, -(1 << 31), -(1 << 32), 10 - (1 << 32), -(1 << 40)]))
                else:
                    s.fstat(i)
            s.closedir(0)
            s.quiesce()
            out.append(s)
        c.split('k%d' % k, [im], out, 5)
    # a read that fails for a damaged block leaves the position where it was
    for k in range(1 if c.quick else 8):
        im = scarred(r)
        files = zoo.all_paths(im, files_only=True)
        out = []
        for j in range(3):
            s = Session('bad%d' % j, warm=(0, b'/ok'))
            s.img(0, 0)
            for p, n in r.sample(files, 3):
                s.open(0, 0, p); s.open(1, 0, p)
                s.read(0, 1)
                for _ in range(12):
                    i = r.randrange(2)
                    x = r.random()
                    if x < .35:
                        s.lseek(i, r.choice([pos(r, n, 4096), r.randrange(n.size() // 4096 + 1) * 4096 + r.choice([-1, 0, 1, -100])]), 0)
                    s.read(i, r.choice([1, 100, 4096, 4097, 12000, 1 << 20]))
                    s.lseek(i, 0, 1)
                s.close(0); s.close(1)
            s.quiesce()
            out.append(s)
        c.split('bad%d' % k, [im], out, 3)
    c.later.append(lambda: tlc_histories(c, 'seek', ['open', 'close', 'read', 'lseek'], [b'/a', b'/b', b'/l'], 3, 40 if c.quick else 400, 25))


def tlc_histories(c, tag, alphabet, paths, depth, nsim, simdepth, images=None, pre=(0,), maxfd=4, maxstreams=2, per=25, cap=None):
    """replay the specification's own behaviours: every one of length `depth`, and longer random ones"""
    r = c.rng(tag)
    images = images or [zoo.tiny(r), zoo.tiny(r, 40)]
    if depth:
        hs, st = gen.histories(c.work, images, paths, alphabet, depth, pre, maxfd, maxstreams)
        c.states += st[1]
        c.trans += st[0]
        c.mc_report.append(dict(model='SquashGen %s, every behaviour of %d calls' % (tag, depth), distinct_states=st[1], states_generated=st[0], behaviours=len(hs)))
        if cap and len(hs) > cap:
            hs = r.sample(hs, cap)
        c.notes['behaviours_replayed'] = c.notes.get('behaviours_replayed', 0) + len(hs)
        c.split(tag + '-all', images, gen.replayed(hs, images, pre, (0, b'/a'), per, tag), max(1, 6000 // (per * (depth + 3))))
    if nsim:
        hs, st = gen.histories(c.work, images, paths, alphabet, simdepth, pre, maxfd + 6, maxstreams + 3, simulate=nsim, seed=c.seed * 1000 + len(tag))
        c.mc_report.append(dict(model='SquashGen %s, random behaviours of %d calls' % (tag, simdepth), behaviours=len(hs)))
        c.notes['behaviours_replayed'] = c.notes.get('behaviours_replayed', 0) + len(hs)
        c.split(tag + '-sim', images, gen.replayed(hs, images, pre, (0, b'/a'), 1, tag), max(1, 6000 // (simdepth + 5)))


# ------------------------------------------------------------------ C03
@check('C03')
def c03(c):
    r = c.rng('main')
    for k in range(4 if c.quick else 40):
        ims = [zoo.tiny(r), zoo.tiny(r, 60)]
        out = []
        for j in range(4):
            s = Session('s%d' % j, warm=(0, b'/a'))
            s.img(0, 0)
            s.img(1, 1)
            n = 0
            live = []
            lim = r.choice([5, 30, 80, 300 if j == 0 else 40])
            for _ in range(500 if j == 0 else 150):
                x = r.random()
                up = len(live) < lim
                if x < .35 and up:
                    s.open(n, r.randrange(2), r.choice([b'/a', b'/b', b'/d/e1', b'/l', b'/nope', b'/d', b'/loop', b'/a/x']))
                    live.append(('f', n)); n += 1
                elif x < .42 and up:
                    s.opendir(n, r.randrange(2), r.choice([b'/', b'/d', b'/ld', b'/nope', b'/a', b'/dang']))
                    live.append(('d', n)); n += 1
                elif x < .5 and up:
                    s.sysopen(n)
                    live.append(('s', n)); n += 1
                elif x < .75 and live:
                    i = r.randrange(len(live))
                    k2, m = live.pop(i)
                    {'f': s.close, 'd': s.closedir, 's': s.sysclose}[k2](m)
                    if k2 == 'f' and r.random() < .3:
                        s.neg(-1) if r.random() < .2 else s.fstat(m)
                elif x < .8:
                    s.neg(r.choice([-1, -2, -2147483648, 2147483647, 1 << 20, 5000, 0, 1, 2]))
                elif x < .82:
                    s.findent()
                elif live:
                    k2, m = r.choice(live)
                    if k2 == 'f':
                        s.read(m, r.choice([1, 3, 5000])) if r.random() < .5 else s.fstat(m)
                    elif k2 == 'd':
                        s.dirfd(m)
                        s.readdirs(m, 1)
            s.probe()
            s.quiesce()
            out.append(s)
        c.split('k%d' % k, ims, out, 2)
    c.later.append(lambda: tlc_histories(c, 'fd', ['open', 'close', 'sysopen', 'sysclose', 'opendir', 'closedir', 'fstat'], [b'/a', b'/nope', b'/d'],
                                         4 if c.quick else 5, 40 if c.quick else 400, 40, maxfd=3, maxstreams=1))


# ------------------------------------------------------------------ C06
def spell(r, p):
    """another spelling of an absolute path that names the same entry"""
    cs = p.split(b'/')[1:]
    out = []
    for i, x in enumerate(cs):
        k = r.random()
        if k < .12:
            out.append(b'.')
        elif k < .22:
            out.append(b'')
        elif k < .34:
            out += [r.choice([b'no', b'a', b'..x', b'zz', x]), b'..']
        elif k < .4:
            out += [b'q', b'w', b'..', b'.', b'..']
        elif k < .45 and out and i:
            out += [b'..', cs[i - 1]] if out[-1] == cs[i - 1] else []
        out.append(x)
    q = b'/'.join(out)
    if r.random() < .7:
        q = b'/' + q
    if r.random() < .15:
        q = b'//' + q.lstrip(b'/')
    if r.random() < .2:
        q += r.choice([b'/', b'/.', b'//', b'/./', b'/x/..'])
    return q


def misses(r, p):
    d, _, nm = p.rpartition(b'/')
    c = [nm[:-1], nm + b'x', nm + b'\x00'[:0] + b'0', nm.upper(), nm.lower(), b'zzz', b'!', nm[:1], nm + nm, nm[1:], b'\x01', b'\xff\xff']
    x = r.choice([y for y in c if y and y not in (b'.', b'..') and len(y) < 256] or [b'miss'])
    k = r.random()
    if k < .25:
        return p + b'/' + x
    if k < .37:
        # longer than any name, by a round number
        return p + r.choice([b'x', b'0', nm[-1:], nm[:1] or b'y']) * r.choice([256, 256, 512, 256 - len(nm), 257 - len(nm), 300])
    return d + b'/' + x


def probe_path(s, r, p, slot=0):
    k = r.random()
    if k < .35:
        s.stat(0, p)
    elif k < .6:
        s.lstat(0, p)
    elif k < .75:
        s.open(slot, 0, p)
        s.fstat(slot)
        s.close(slot)
    elif k < .85:
        s.opendir(slot, 0, p)
        s.readdirs(slot, 2)
        s.closedir(slot)
    elif k < .92:
        s.owner(0, p)
    else:
        s.scandir(0, p, 0, 0) if r.random() < .3 else s.stat(0, p)


@check('C06')
def c06(c):
    r = c.rng('main')
    for k in range(9 if c.quick else 90):
        if k % 3 == 2:
            im = zoo.wide_dir(r, n=1300, nlen=120, idx=False) if k % 9 == 5 else zoo.wide_dir(r, n=r.choice([256, 257, 600, 900]) if c.quick else None)
        elif k % 4 == 3:
            im = zoo.prefix_dir(r)
        else:
            im = zoo.names_tree(r, depth=r.choice([1, 3, 5]))
        ps = [p for p, n in zoo.all_paths(im)] or [b'/x']
        out = []
        # every entry once under its plain name
        if len(ps) < 400 or not c.quick:
            s = Session('all', warm=warm_of(im))
            s.img(0, 0)
            for p in ps:
                s.lstat(0, p)
            s.quiesce()
            out.append(s)
        for j in range(4):
            s = Session('p%d' % j, warm=warm_of(im))
            s.img(0, 0)
            for _ in range(120):
                p = r.choice(ps)
                k2 = r.random()
                if k2 < .45:
                    q = spell(r, p)
                elif k2 < .75:
                    q = misses(r, p)
                elif k2 < .8:
                    q = spell(r, misses(r, p))
                elif k2 < .85:
                    q = r.choice([b'', b'/', b'.', b'..', b'/..', b'/../', b'//', b'/./.', b'a/../..', b'/a/../../a', b'...', b'/...', b'/.../..', b'/.x'])
                else:
                    q = p
                probe_path(s, r, q)
            s.quiesce()
            out.append(s)
        # the same from entries on, and one directory at a time
        for j in range(2):
            s = Session('a%d' % j, warm=warm_of(im))
            s.img(0, 0)
            for _ in range(100):
                p = r.choice(ps)
                cut = r.choice([i for i in range(len(p)) if p[i:i + 1] == b'/'])
                d, q = p[:cut] or b'/', p[cut + 1:]
                if r.random() < .5:
                    par, nm = p.rsplit(b'/', 1)
                    nm = r.choice([nm, nm, nm[:-1], nm + r.choice([b'0', b'\xff', b'Q', b'x' * 300, b'x' * 256, b'x' * 65536]), nm[:1], b'.', b'..', b'', misses(r, p).rsplit(b'/', 1)[-1], nm + b'/'])
                    s.dlook(0, par or b'/', nm)
                else:
                    q = r.choice([q, spell(r, b'/' + q), misses(r, b'/' + q), b'', b'/', b'..', q + b'/..', b'.'])
                    s.lookat(0, d, q, r.random() < .5)
            s.quiesce()
            out.append(s)
        c.split('k%d' % k, [im], out, 5)
    # depth
    for n in (40, 150) if c.quick else (40, 150, 400, 700):
        root = mksq.D()
        d = root
        for i in range(n):
            d = d.add('d%d' % (i % 3), mksq.D())
        d.add('f', mksq.reg(5, 1))
        im = Image(mksq.Builder(root, 4096))
        full = b'/' + b'/'.join(b'd%d' % (i % 3) for i in range(n))
        s = Session('deep', warm=None)
        s.img(0, 0)
        s.stat(0, full + b'/f'); s.lstat(0, full); s.stat(0, full + b'/nope'); s.open(0, 0, full + b'/f'); s.read(0, 10); s.close(0)
        s.stat(0, full + b'/..' * n); s.stat(0, full + b'/..' * (n + 1)); s.stat(0, (b'/d0/..' * n) + full + b'/f')
        s.quiesce()
        c.add('deep%d' % n, [im], [s])
    c.mcs.append(MC('MC_Resolve', 'MC_Resolve_norm.cfg'))
    small_world(c, 'DirWalk', live=True)
    c.later.append(lambda: walks.dir_lookups(c, c.rng('small'), 'grp'))


# ------------------------------------------------------------------ C07
@check('C07')
def c07(c):
    r = c.rng('main')
    for k in range(14 if c.quick else 150):
        im = zoo.links_tree(r, r.choice([3, 5, 8]), r.choice([6, 14, 25]))
        ps = [p for p, n in zoo.all_paths(im)]
        links = [p for p, n in zoo.all_paths(im) if n.kind == 'lnk']
        out = []
        s = Session('all', warm=warm_of(im))
        s.img(0, 0)
        for p in links:
            s.stat(0, p)
            s.lstat(0, p)
            s.readlink(0, p, r.choice([5, 100, 4096]))
            s.stat(0, p + b'/f%d' % r.randrange(5))
            s.lstat(0, p + b'/')
        s.quiesce()
        out.append(s)
        for j in range(3):
            s = Session('l%d' % j, warm=warm_of(im))
            s.img(0, 0)
            if r.random() < .3:
                s.alias(0, r.choice([1, 2]) if r.random() < .6 else 1, r.choice(['/__enclose_io_memfs__', '/d0', '/d0/d1', '/d1']))
            for _ in range(80):
                p = r.choice(links)
                x = r.random()
                if x < .5:
                    p = p + b'/' + r.choice([q.rsplit(b'/', 1)[1] for q in ps])
                if x < .25:
                    p = p + b'/' + r.choice([q.rsplit(b'/', 1)[1] for q in ps])
                if r.random() < .2:
                    p = spell(r, p)
                y = r.random()
                if y < .1:
                    s.open(0, 0, p, nf=True); s.fstat(0); s.close(0)
                elif y < .15:
                    s.opendir(0, 0, p, nf=True); s.closedir(0)
                elif y < .2:
                    s.readlink(0, p, 4096)
                elif y < .25:
                    s.extract(0, p, 'e')
                elif y < .45:
                    # from an entry of the image on; absolute targets still mean the root
                    d = r.choice([q for q, n in zoo.all_paths(im)]) if r.random() < .8 else r.choice([b'/', b'/nope', b'/d0/..'])
                    if r.random() < .6:
                        d, p = r.choice(links).rsplit(b'/', 1)
                        d = d or b'/'
                        if r.random() < .5:
                            p += r.choice([b'/.', b'/..', b'/f0', b'/f1', b'/d0', b'/d1', b'/d0/..'])
                        s.lookat(0, d, p, r.random() < .7)
                    s.lookat(0, d, p if r.random() < .3 else p[1:] if r.random() < .3 else b'/'.join(q.rsplit(b'/', 1)[1] for q in r.choices(ps, k=r.choice([1, 1, 2, 3]))), r.random() < .5)
                else:
                    probe_path(s, r, p)
            s.quiesce()
            out.append(s)
        c.split('k%d' % k, [im], out, 4)
    im, s = limits(r)
    c.split('limits', [im], s, 1)
    im, s = totals(r)
    c.split('totals', [im], s, 1)
    c.mcs.append(MC('MC_Resolve', 'MC_Resolve.cfg' if c.quick else 'MC_Resolve_big.cfg', workers='6'))


def limits(r):
    """chains, nestings and totals around the bounds; long targets; aliases"""
    root = mksq.D()
    root.add('f', mksq.reg(33, 3))
    d = root.add('d', mksq.D())
    d.add('g', mksq.reg(34, 4))
    # a chain of 40: c0 -> c1 -> ... -> f
    for i in range(45):
        root.add('c%d' % i, mksq.L('c%d' % (i + 1) if i < 44 else 'f'))
    # nesting: n_i's target goes through n_{i+1}
    for i in range(40):
        root.add('n%d' % i, mksq.L('n%d/../d' % (i + 1) if i < 39 else 'd'))
    # breadth: b_i passes b_{i+1} twice
    for i in range(14):
        root.add('b%d' % i, mksq.L('b%d/../b%d' % (i + 1, i + 1) if i < 13 else 'd'))
    for n in (1, 255, 2046, 2047, 2048, 2049, 3000):
        root.add('t%d' % n, mksq.L('./' * ((n - 1) // 2) + ('f' if n % 2 else '/f')[-(1 if n % 2 else 2):] if n > 1 else 'f'))
    root.add('self', mksq.L('self'))
    root.add('p1', mksq.L('p2'))
    root.add('p2', mksq.L('./p1'))
    root.add('al', mksq.L('/__enclose_io_memfs__/d/g'))
    root.add('al2', mksq.L('/__enclose_io_memfs__'))
    root.add('al3', mksq.L('/__enclose_io_memfs__/'))
    root.add('al4', mksq.L('/__enclose_io_memfs__x/d/g'))
    root.add('al5', mksq.L('/mnt/two/d/./g'))
    root.add('dl', mksq.L('d'))
    deep, long_name = root, b'q' * 250
    for i in range(6):
        deep = deep.add(long_name, mksq.D())
    deep.add('up', mksq.L('/d'))
    im = Image(mksq.Builder(root, 4096))
    out = []
    # a link reached far into the caller's path
    s = Session('far', warm=(0, b'/f'))
    s.img(0, 0)
    for n in [500, 1000, 1023, 1024, 1025, 1200, 1500, 1999, 2030, 2043, 2044, 2045, 2046, 2047, 2048, 2049, 2050, 2060, 3000, 4100, 9000]:
        for pre in (b'/' * n, b'/.' * (n // 2) + b'/' * (n % 2), b'/d/..' * (n // 5) + b'/' * (n % 5), b'/dl/..' * (n // 6) + b'/' * (n % 6)):
            x = r.choice([b'/dl/g', b'/t1', b'/dl', b'/dl/../dl/g', b'/c43'])
            for f in r.sample([s.stat, s.lstat], 1):
                f(0, pre + x)
            if r.random() < .2:
                s.open(0, 0, pre + x); s.close(0)
                s.readlink(0, pre + x, 4096)
    for n in (0, 280, 538, 539, 540, 541, 542, 543, 544, 545, 546, 600):
        s.stat(0, (b'/' + long_name) * 6 + b'/' * n + b'/up/g')
    s.quiesce()
    out.append(s)
    for al in (0, 1, 2):
        s = Session('lim%d' % al, warm=(0, b'/f'))
        s.img(0, 0)
        if al:
            s.alias(0, 1, '/__enclose_io_memfs__')
        if al == 2:
            s.alias(0, 2, '/mnt/two')
        for p in [p for p, n in zoo.all_paths(im) if n.kind == 'lnk']:
            s.stat(0, p)
            s.lstat(0, p)
            s.open(0, 0, p); s.read(0, 100); s.close(0)
            s.readlink(0, p, 4096)
            s.stat(0, p + b'/g')
            s.lstat(0, p + b'/g')
        s.quiesce()
        out.append(s)
    return im, out


def totals(r):
    """resolutions that take just as many links as they may, and one more; the last one at every depth"""
    root = mksq.D()
    root.add('f', mksq.reg(33, 3))
    root.add('z', mksq.L('.'))                     # 1 link
    root.add('w', mksq.L('z/z'))                   # 3
    root.add('v', mksq.L('w/w/w/w'))               # 13
    root.add('u', mksq.L('v/v/v/v/v/v/v/v'))       # 105
    root.add('a', mksq.L('/z/v'))                  # 15
    root.add('e', mksq.L('f'))                     # 1, a file
    root.add('g', mksq.L('w/e'))                   # 5, a file
    d = root.add('d', mksq.D())
    d.add('b', mksq.L('..'))                       # 1
    cost = {'z': 1, 'w': 3, 'v': 13, 'u': 105, 'a': 15, 'd/b': 1}
    im = Image(mksq.Builder(root, 4096))
    out = []
    for j in range(4):
        s = Session('tot%d' % j, warm=(0, b'/f'))
        s.img(0, 0)
        for want in [32, 33, 1023, 1024, 1025, 1026]:
            for last, k in (('z', 1), ('w', 3), ('a', 15), ('e', 1), ('g', 5), ('z/f', 1), ('v/g', 18), ('d/b/f', 1)):
                ps, left = [], want - k
                while left > 0:
                    x = r.choice([x for x in cost if cost[x] <= left and (want < 100 or left < 120 or cost[x] > 14)])
                    ps.append(x)
                    left -= cost[x]
                if left == 0 and (r.random() < .25 or k == 1 and want > 1000 and j == 0):
                    r.shuffle(ps)
                    p = '/'.join(ps + [last])
                    s.stat(0, '/' + p)
                    if r.random() < .5:
                        s.lstat(0, '/' + p)
                    if r.random() < .3:
                        s.lookat(0, r.choice(['/', '/d/..', '/']), p, r.random() < .5)
                    if r.random() < .2:
                        s.open(0, 0, '/' + p); s.read(0, 9); s.close(0)
                    if r.random() < .2:
                        s.readlink(0, '/' + p, 100)
        s.quiesce()
        out.append(s)
    return im, out


# ------------------------------------------------------------------ C08
@check('C08')
def c08(c):
    r = c.rng('main')
    for k in range(6 if c.quick else 60):
        if k % 2:
            im = zoo.wide_dir(r, n=[257, 600, 40][k // 2 % 3] if c.quick else None, inode_base=r.choice([1, 65000, 65500, 1 << 16, 1 << 24, (1 << 31) - 2000]) if k > 1 else 65000)
        else:
            im = zoo.names_tree(r, depth=2)
        ds = [p for p, n in zoo.all_paths(im, dirs_only=True)]
        out = []
        for j in range(4):
            s = Session('d%d' % j, warm=warm_of(im))
            s.img(0, 0)
            big = [p for p in ds if p == b'/w'] or ds
            for i in range(3):
                s.opendir(i, 0, r.choice(big) if r.random() < .7 else r.choice(ds))
            nt = 0
            tl = {0: [], 1: [], 2: []}
            for _ in range(60):
                i = r.randrange(3)
                x = r.random()
                if x < .2:
                    s.readdir(i)
                elif x < .5:
                    s.readdirs(i, r.choice([1, 2, 7, 100, 255, 256, 257, 300]))
                elif x < .55:
                    s.readdirs(i, -1)
                elif x < .68:
                    s.telldir(i, nt); tl[i].append(nt); nt += 1
                elif x < .85 and tl[i]:
                    s.seekdir(i, r.choice(tl[i]))
                    if r.random() < .8:
                        s.readdirs(i, r.choice([1, 3, 300]))
                elif x < .9:
                    s.rewinddir(i)
                elif x < .93:
                    s.dirfd(i)
                elif x < .95:
                    s.prior(r.choice([0, 2, 5, 22]))
                elif x < .97:
                    s.closedir(i); s.opendir(i, 0, r.choice(ds)); tl[i] = []
                else:
                    s.lstat(0, r.choice(ds))
            s.quiesce()
            out.append(s)
        c.split('k%d' % k, [im], out, 4)
    c.later.append(lambda: tlc_histories(c, 'dir', ['opendir', 'readdir', 'telldir', 'seekdir', 'rewinddir', 'closedir', 'dirfd'], [b'/d', b'/', b'/empty', b'/ld'],
                                         4 if c.quick else 5, 40 if c.quick else 500, 30, maxstreams=1 if c.quick else 2, cap=2500 if c.quick else None))

    c.later.append(lambda: walks.dir_streams(c, c.rng('small'), 'grp', 500 if c.quick else None))

# ------------------------------------------------------------------ C09
@check('C09')
def c09(c):
    r = c.rng('main')
    for k in range(6 if c.quick else 60):
        im = zoo.wide_dir(r, n=[0, 257, 1023, 1025, 2100, 600][k] if c.quick else r.choice([0, 1, 256, 1023, 1024, 1025, 2048, 2049, 2600, 5000]), nlen=r.choice([6, 20])) if k % 2 else zoo.names_tree(r, depth=3)
        ds = [p for p, n in zoo.all_paths(im)] + [b'/', b'', b'/nope', b'/w/', b'/w/.', b'/w']
        out = []
        for j in range(2):
            s = Session('s%d' % j, warm=warm_of(im))
            s.img(0, 0)
            for sel in range(6):
                for cmp in range(4):
                    if k % 2:
                        if (sel + cmp + j) % (2 if im.n < 700 else 5) == 0:
                            s.scandir(0, b'/w', sel, cmp)
                    else:
                        s.scandir(0, r.choice(ds), sel, cmp)
            for _ in range(20):
                s.scandir(0, r.choice(ds) if not k % 2 else r.choice([b'/nope', b'/z', b'/e', b'/w/x', b'/z/']), r.randrange(6), r.randrange(4))
            for sel, cmp in ((6, 4), (6, 0), (3, 4), (6, 2)):    # callbacks that use the library
                s.scandir(0, r.choice(ds) if not k % 2 else b'/w' if im.n < 300 else b'/', sel, cmp)
            s.probe()
            s.quiesce()
            out.append(s)
        c.split('k%d' % k, [im], out, 1)
    im = zoo.wide_dir(r, n=r.choice([4200, 8300]) if c.quick else r.choice([8300, 17000]), nlen=12)
    s = Session('big', warm=warm_of(im))
    s.img(0, 0)
    s.scandir(0, b'/w', 0, 1)
    s.scandir(0, b'/w', 1, 2)
    s.quiesce()
    c.add('big', [im], [s])
    c.later.append(lambda: tlc_histories(c, 'scan', ['scandir', 'open', 'close'], [b'/d', b'/', b'/a', b'/loop'], 2, 20 if c.quick else 200, 20))


# ------------------------------------------------------------------ C10
@check('C10')
def c10(c):
    r = c.rng('main')
    for k in range(8 if c.quick else 80):
        im = zoo.types(r) if k % 2 == 0 else zoo.names_tree(r, depth=2)
        if k == 1:
            im = zoo.giant(r)
        ps = zoo.all_paths(im)
        s = Session('all', warm=warm_of(im))
        s.img(0, 0)
        for i, (p, n) in enumerate(ps + [(b'/', im.builder.root), (b'', im.builder.root)]):
            s.stat(0, p)
            s.lstat(0, p)
            s.open(0, 0, p); s.fstat(0); s.close(0)
            s.open(0, 0, p, nf=True); s.fstat(0); s.close(0)
            s.owner(0, p)
        s.quiesce()
        c.add('k%d' % k, [im], [s])


# ------------------------------------------------------------------ C11
ALIASES = [(b'/mnt', b'/other'), (b'/mnt/x/y', b'/o/p/q'), (b'/m', b'/other/two/three/four'), (b'/a.b/c', b'/mnt/' + b'k' * 200)]


def alias_targets(a1, a2):
    out = []
    for a in (a1, a2):
        f = a[:a.index(b'/', 1)] if b'/' in a[1:] else a
        out += [a, a + b'/', a + b'/x', a + b'/x/y/z', a + b'x/y', a + a + b'/z', a + b'//x', b'/' + a + b'/x', a[1:] + b'/x', a + b'/x/', f, f + b'/x', f + b'/y',
                a[:-1] + b'/x', a + b'/../x', b'/x' + a + b'/x']
    return sorted(set(out + [b'/', a1 + a2 + b'/x', a2 + a1 + b'/z/x']))


@check('C11')
def c11(c):
    r = c.rng('main')
    lens = [1, 2, 3, 15, 16, 17, 63, 100, 255, 256, 1000, 2047, 2048, 4095, 4096, 5000, 8191, 8192, 8193, 20000, 65535]
    for k in range(4 if c.quick else 30):
        root = mksq.D()
        root.add('f', mksq.reg(3, 1))
        for n in lens:
            t = bytes(r.choice(b'abcdefgh/.-_ \xff\x01') for _ in range(n))
            root.add('l%d' % n, mksq.L(t.decode('latin1').encode('latin1') if False else t, ext=r.random() < .5))
        a1, a2 = ALIASES[k % len(ALIASES)]
        for i, t in enumerate(alias_targets(a1, a2)):
            root.add('a%d' % i, mksq.L(t))
        root.add('x', mksq.D()).add('y', mksq.D()).add('z', mksq.reg(4, 4))
        root.add('z', mksq.D()).add('x', mksq.reg(5, 5))
        im = Image(mksq.Builder(root, 4096, seed=r.randrange(1 << 30), meta=r.choice(['always', 'never', 'mix']), shuffle_inodes=True))
        out = []
        for al in range(3):
            s = Session('al%d' % al, warm=(0, b'/f'))
            s.img(0, 0)
            if al:
                s.alias(0, 1, a1)
            if al == 2:
                s.alias(0, 2, a2)
            ls = [(p, n) for p, n in zoo.all_paths(im) if n.kind == 'lnk']
            for p, n in ls:
                t = len(n.target)
                for bsz in sorted({0, 1, t - 1, t, t + 1, t + 2, 70000} if al == 0 else {0, 1, t, t + 1, 5000}):
                    if bsz >= 0:
                        s.readlink(0, p, bsz)
                s.rlk(0, p, 0)
                s.rlk(0, p, r.choice([1, t, t + 1, t + 2, 4]))
                if t < 60:
                    s.stat(0, p)
            for p in (b'/f', b'/', b'/nope', b'/f/x', b'/l1/x'):
                for bsz in (0, 1, 100):
                    s.readlink(0, p, bsz)
            s.quiesce()
            out.append(s)
        c.split('k%d' % k, [im], out, 1)
    c.later.append(lambda: tlc_histories(c, 'link', ['readlink', 'stat', 'open', 'close'], [b'/l', b'/ld', b'/dang', b'/a', b'/loop', b'/d/e1'], 2, 20, 20))


# ------------------------------------------------------------------ C12
ERRP = [0, 2, 5, 9, 12, 13, 20, 21, 22, 34, 36, 40, 75, 1000]


def failing(s, r, n):
    """a call that fails, or works, on a tiny() image; slots >= 50 were never opened"""
    h = 0
    x = r.randrange(22)
    bad = r.choice([b'/nope', b'/d/nope', b'/a/x', b'/dang', b'/loop', b'/loop/x', b'/dang/y', b'/..', b'/../a', b'/d/../..', b'/l/x', b'/d/e1/.', b'nope', b'/pipe/x'])
    s.prior(r.choice(ERRP))
    if x == 0: s.open(n, h, bad); s.close(n)
    elif x == 1: s.stat(h, bad)
    elif x == 2: s.lstat(h, bad)
    elif x == 3: s.readlink(h, r.choice([bad, b'/a', b'/d', b'/', b'/pipe', b'/empty']), r.choice([0, 1, 10]))
    elif x == 4: s.readlink(h, b'/l', r.choice([0, 1, 2, 3, 4, 5, 6]))
    elif x == 5: s.opendir(n, h, r.choice([bad, b'/a', b'/l', b'/pipe'])); s.closedir(n)
    elif x == 6: s.scandir(h, r.choice([bad, b'/a', b'/l', b'/pipe']), r.randrange(6), r.randrange(4))
    elif x == 7: s.extract(h, r.choice([bad, b'/d', b'/pipe', b'/']), 'e')
    elif x == 8: s.readn(r.choice([-1, 0, 1, 2, 777, 1 << 30]), 5)
    elif x == 9: s.closen(r.choice([-1, 0, 1, 2, 777, -(1 << 31), (1 << 31) - 1]))
    elif x == 10: s.fstatn(r.choice([-1, 0, 777])) if hasattr(s, 'fstatn') else s.neg(777)
    elif x == 11: s.lseekn(r.choice([-1, 0, 777]), 0, 0)
    elif x == 12: s.read(1, r.choice([-1, -100]))
    elif x == 13: s.lseek(1, r.choice([-1, -100000]), 0)
    elif x == 14: s.lseek(1, 0, r.choice([3, 9, -1]))
    elif x == 15: s.lseek(1, -1000000, 1)
    elif x == 16: s.read(2, 10)                        # a directory
    elif x == 17: s.lseek(2, 0, 2)
    elif x == 18: s.read(3, 10)                        # a fifo
    elif x == 19: s.open(n, h, bad, nf=True); s.close(n)
    elif x == 20: s.neg(r.choice([-1, 55, 1 << 20]))
    else: s.opendir(n, h, r.choice([bad, b'/l', b'/ld']), nf=True); s.closedir(n)


@check('C12')
def c12(c):
    r = c.rng('main')
    for k in range(8 if c.quick else 100):
        im = zoo.tiny(r, r.randrange(200))
        out = []
        for j in range(3):
            s = Session('e%d' % j, warm=(0, b'/a'))
            s.img(0, 0)
            s.open(1, 0, '/b'); s.open(2, 0, '/d'); s.open(3, 0, '/pipe'); s.opendir(0, 0, '/d')
            for i in range(120):
                failing(s, r, 50 + i)
                x = r.random()
                if x < .1:
                    s.read(1, r.choice([0, 1, 100, 5000]))
                elif x < .15:
                    s.readdir(0)
                elif x < .2:
                    s.lseek(1, r.choice([0, 4096, 12000, 13000]), 0)
                elif x < .22:
                    s.probe()
                elif x < .24:
                    s.rewinddir(0)
                elif x < .26:
                    s.extract(0, r.choice(['/a', '/b', '/l']), 'x')
            s.quiesce()
            out.append(s)
        c.split('k%d' % k, [im], out, 3)
    # calls that fail because a block cannot be decoded
    for k in range(3 if c.quick else 30):
        dam, ok = damaged(r), zoo.tiny(r)
        ps = zoo.all_paths(dam)
        hurt = [x for x in ps if x[1].kind == 'reg' and x[1].badblocks] or ps
        out = []
        for j in range(2):
            s = Session('dam%d' % j, warm=(1, b'/a'))
            s.img(0, 0); s.img(1, 1)
            s.open(5, 1, '/b')
            for _ in range(25):
                s.prior(r.choice(ERRP))
                use(s, r, dam, *r.choice(hurt if r.random() < .6 else ps))
                if r.random() < .2:
                    s.read(5, 10)
            s.quiesce()
            out.append(s)
        c.split('dam%d' % k, [dam, ok], out, 2)
    # the same failing call over and over: nothing may pile up
    im = zoo.tiny(r)
    s = Session('pile', warm=(0, b'/a'))
    s.img(0, 0)
    s.open(1, 0, '/b'); s.open(2, 0, '/d'); s.open(3, 0, '/pipe')
    rr = c.rng('pile')
    for i in range(400 if c.quick else 3000):
        failing(s, rr, 50)
    s.quiesce()
    c.add('pile', [im], [s])
    c.later.append(lambda: tlc_histories(c, 'err', ['open', 'close', 'read', 'lseek', 'fstat', 'opendir', 'closedir', 'readlink', 'stat', 'extract'],
                                         [b'/nope', b'/a', b'/d', b'/a/x', b'/dang'], 2, 60 if c.quick else 500, 30))


# ------------------------------------------------------------------ C13
def use(s, r, im, p, n, h=0, rep=1):
    """one of the calls that make sense on this entry, some of them more than once"""
    for _ in range(rep):
        x = r.random()
        if x < .2:
            s.stat(h, p)
        elif x < .35:
            s.lstat(h, p)
        elif x < .45:
            s.owner(h, p)
        elif n.kind == 'reg':
            bs = im.builder.bs
            if x < .8:
                s.open(0, h, p)
                for _ in range(r.randrange(1, 5)):
                    s.lseek(0, pos(r, n, bs), 0)
                    k = length(r, n, bs, 1 << 18)
                    s.read(0, k)
                    if r.random() < .5:
                        s.lseek(0, -r.choice([0, 1, k]), 1)
                        s.read(0, k)
                s.close(0)
            elif x < .93:
                s.rr(h, p, pos(r, n, bs), length(r, n, bs, 1 << 18))
            else:
                s.extract(h, p, 'e')
        elif n.kind == 'lnk':
            s.readlink(h, p, 70000) if x < .8 else s.rlk(h, p, 70000)
        elif n.kind == 'dir':
            if x < .6:
                s.opendir(0, h, p)
                s.readdirs(0, r.choice([1, 3, -1, -1, 1000]))
                s.readdir(0)
                s.readdir(0)
                s.rewinddir(0) if r.random() < .3 else None
                s.readdirs(0, r.choice([1, 5, -1]))
                s.closedir(0)
            elif x < .8:
                s.scandir(h, p, r.choice([0, 1, 3]), r.choice([0, 1]))
            elif x < .9:
                s.topen(0, h, p, r.random() < .3)
                for _ in range(r.choice([5, 60])):
                    s.tnext(0)
                s.tclose(0)
            else:
                s.dopen(0, h, p, 0)
                for _ in range(r.choice([3, 40])):
                    s.dnext(0)


def scarred(r):
    """files with undecodable blocks here and there"""
    bs = 4096
    root = mksq.D()
    root.add('ok', mksq.reg(10, 1))
    for i in range(6):
        f = zoo.rfile(r, bs, r.randrange(255), size=r.choice([bs, 3 * bs + 9, 9 * bs + 1, 30 * bs + 77]))
        nblk = max(1, f.size() // bs)
        f.badblocks = tuple(sorted({r.randrange(nblk) for _ in range(r.choice([1, 1, 3]))}))
        if r.random() < .4:
            f.badblocks += ('frag',)
            f.frag = True
        root.add('f%d' % i, f)
    return Image(mksq.Builder(root, bs, seed=r.randrange(1 << 30)))


def damaged(r):
    """an image with undecodable blocks, together with the same image intact"""
    bs = 4096
    root = mksq.D()
    bad = r.choice(['data', 'frag', 'meta', 'meta', 'all'])
    nb = r.choice([3, 6])
    for i in range(nb):
        f = zoo.rfile(r, bs, r.randrange(255), size=r.choice([0, 100, bs, 3 * bs + 9, 9 * bs + 1, 30 * bs + 77]))
        if bad in ('data', 'all') and f.size() > bs and r.random() < .7:
            nblk = f.size() // bs
            f.badblocks = tuple(sorted({r.randrange(nblk) for _ in range(r.choice([1, 1, 3]))}))
        if bad in ('frag', 'all') and r.random() < .4:
            f.badblocks = tuple(f.badblocks) + ('frag',)
            f.frag = True
        root.add('f%d' % i, f)
    w = root.add('w', mksq.D(ext=r.random() < .5))
    for i in range(r.choice([30, 400, 700])):
        k = r.random()
        w.add(b'n%04d' % i + b'x' * r.choice([0, 40]), mksq.reg(r.choice([0, 5]), i % 255) if k < .6 else mksq.L('../f%d' % r.randrange(nb)) if k < .9 else mksq.Node('fifo'))
    d = root.add('d', mksq.D())
    for i in range(4):
        e = d.add('s%d' % i, mksq.D())
        for j in range(r.choice([0, 3, 40])):
            e.add('q%d' % j, mksq.reg(3, j))
        e.add('long', mksq.L(b't' * r.choice([10, 3000, 9000])))
        e.add('up', mksq.L('../s%d' % ((i + 1) % 4)))
    root.add('big', zoo.rfile(r, bs, 9, size=r.choice([2500, 5000]) * bs) if False else mksq.reg(r.choice([10, 2500]) * bs, 9, holes=[(bs, 9 * bs)], comp='always'))
    bm = []
    if bad in ('meta', 'all'):
        for _ in range(r.choice([1, 2, 4])):
            bm.append((r.choice(['i', 'i', 'd', 'd', 'frag', 'export', 'id']), r.randrange(50)))
    b = mksq.Builder(root, bs, meta='always', seed=r.randrange(1 << 30), shuffle_inodes=r.random() < .5, bad_meta=bm,
                     ids=[r.randrange(1 << 32) for _ in range(r.choice([1, 3, 3000]))], hdr_max=r.choice([5, 256]), idx_every=r.choice([1000, 8192]))
    for n in list(root.ents.values()) + list(w.ents.values())[:20]:
        n.uid, n.gid = r.randrange(len(b.ids)), r.randrange(len(b.ids))
    return Image(b)


def torn_index(r):
    """a directory whose name index goes on in a block of the inode table that cannot be decoded"""
    def make(bad):
        q = random.Random(seed)
        root = mksq.D()
        for i in range(q.choice([1, 40, 90])):
            root.add('%03d' % i, mksq.L('t' * q.choice([5, 60])))
        w = root.add('w', mksq.D(ext=True))
        for i in range(300):
            w.add(b'%05d' % (i * 3) + b'm' * q.choice([150, 230]), mksq.reg(0, 1))
        root.add('z', mksq.reg(9, 9))
        return w, mksq.Builder(root, 4096, meta='always', seed=seed, idx_every=900, bad_meta=bad, hdr_max=q.choice([4, 256]))
    seed = r.randrange(1 << 30)
    w, b = make(())
    Image(b)
    blocks = list(range(w._i1 // 8192 + 1, (w._i2 - 1) // 8192 + 1))
    w, b = make([('i', r.choice(blocks))] if blocks else [])
    return Image(b), w


def torn_sessions(c, r, tag, n):
    for k in range(n):
        im, w = torn_index(r)
        s = Session('torn', warm=None)
        s.img(0, 0)
        nx = sorted(w._next.values())
        names = sorted(w.ents)
        for _ in range(120):
            i = r.randrange(len(nx))
            x = r.random()
            if x < .5:
                s.dopen(0, 0, '/w', nx[i] + r.choice([0, 0, 0, 1])); s.dnext(0); s.dnext(0)
            elif x < .7:
                s.dlook(0, '/w', names[i] + r.choice([b'', b'', b'x']))
            elif x < .9:
                s.lstat(0, b'/w/' + names[i][:r.choice([300, 300, -1])])
            else:
                s.open(0, 0, b'/w/' + names[i]); s.read(0, 5); s.close(0)
        s.opendir(0, 0, '/w'); s.readdirs(0, -1); s.closedir(0)
        s.quiesce()
        c.add('%s%d' % (tag, k), [im], [s])


@check('C13')
def c13(c):
    r = c.rng('main')
    torn_sessions(c, c.rng('torn'), 'torn', 3 if c.quick else 20)
    for k in range(14 if c.quick else 150):
        im = damaged(r)
        ok = zoo.tiny(r)
        ps = zoo.all_paths(im) + [(b'/', im.builder.root)]
        tops = [x for x in ps if x[0].count(b'/') == 1]
        out = []
        for j in range(3):
            s = Session('d%d' % j, warm=(1, b'/a'))
            s.img(0, 0); s.img(1, 1)
            s.open(5, 1, '/b')
            for _ in range(30):
                p, n = r.choice(tops) if r.random() < .5 else r.choice(ps)
                q = p
                if n.kind == 'lnk' and r.random() < .5:
                    use(s, r, im, p, n)
                use(s, r, im, q, n, rep=r.choice([1, 2, 3]))
                if r.random() < .2:
                    s.read(5, 10)
                if r.random() < .2 and len(ps) < 3000:
                    m = r.randrange(1, len(im.builder.nodes) + 1)
                    s.export(0, m)
                    s.export(0, m)
                if r.random() < .2:
                    s.idget(0, r.randrange(len(im.builder.ids)))
            s.quiesce()
            out.append(s)
        # a block that cannot be decoded this time only
        s = Session('once', warm=(1, b'/a'))
        s.img(0, 0); s.img(1, 1)
        for _ in range(25):
            p, n = r.choice(ps)
            t = Session('t')
            use(t, r, im, p, n)
            for line, f in t.ops:
                if f is not None and r.random() < .4 and not line.startswith(('readdirs', 'topen', 'close', 'rewinddir')):
                    s.fail('unc', r.choice([1, 1, 2, 3]))
                    s.ops.append((line, f))
                    if line.startswith(('stat', 'lstat', 'readlink', 'extract', 'scandir', 'rr', 'rlk', 'owner')):
                        s.ops.append((line, f))
                    elif line.startswith('open'):       # the handle may not be there
                        s.ops.append(('close 0', {}) if line.startswith('open ') else ('closedir 0', dict(s=0)))
                        s.ops.append((line, f))
                else:
                    s.ops.append((line, f))
        s.quiesce()
        out.append(s)
        c.split('k%d' % k, [im, ok], out, 4)

    c.later.append(lambda: walks.block_reads(c, c.rng('small'), 'lay', 'schx', positions=20 if c.quick else None))
    walks.cache_rings(c, c.rng('rings'), 'ring', 80 if c.quick else 500, fails=True)

# ------------------------------------------------------------------ C14
@check('C14')
def c14(c):
    r = c.rng('main')
    top = 14 if c.quick else 30
    for k in range(4 if c.quick else 40):
        im = zoo.tiny(r, k * 7)
        other = zoo.content(r, nfiles=4, bs=4096)
        files = [p for p, n in zoo.all_paths(other, files_only=True)]
        out = []
        for cold in (False, True):
            for kind, ks in (('alloc', range(1, top)), ('dup', range(1, 4)), ('fopen', range(1, 3)), ('fwrite', range(1, 4)), ('unc', range(1, 4))):
                s = Session('%s-%s' % (kind, 'cold' if cold else 'warm'), warm=(0, b'/a'), cold=cold)
                for j in ks:
                    def f(fn, undo=None):
                        s.fail(kind, j)
                        fn()
                        if undo:
                            undo()
                        fn()
                        if undo:
                            undo()
                    s.fail(kind, j); s.img(0, 0); s.imgclose(0); s.img(0, 0)
                    s.img(1, 1)
                    s.open(9, 0, '/b'); s.open(8, 1, files[0]); s.opendir(9, 0, '/d'); s.read(9, 100); s.readdirs(9, 2)
                    todo = [lambda: f(lambda: s.open(0, 0, '/b'), lambda: s.close(0)),
                            lambda: f(lambda: s.open(0, 0, '/d/s/q'), lambda: s.close(0)),
                            lambda: f(lambda: s.open(0, 0, '/l'), lambda: s.close(0)),
                            lambda: f(lambda: s.open(0, 1, r.choice(files)), lambda: s.close(0)),
                            lambda: f(lambda: s.opendir(0, 0, r.choice(['/d', '/ld', '/'])), lambda: s.closedir(0)),
                            lambda: f(lambda: s.opendir(0, 0, '/a'), lambda: s.closedir(0)),
                            lambda: f(lambda: s.scandir(0, '/d', 0, 1)), lambda: f(lambda: s.scandir(0, '/', r.choice([1, 3, 5]), 2)), lambda: f(lambda: s.scandir(0, '/empty', 0, 0)),
                            lambda: f(lambda: s.stat(0, r.choice(['/ld/s/q', '/l', '/nope', '/loop']))), lambda: f(lambda: s.lstat(0, '/d/s')),
                            lambda: f(lambda: s.readlink(0, '/l', 100)), lambda: f(lambda: s.extract(0, '/b', 'x'), lambda: s.clear()),
                            lambda: f(lambda: s.extract(0, '/a', None)), lambda: f(lambda: s.extract(1, r.choice(files), 'so')), lambda: f(lambda: s.extract(0, '/nope', 'x')),
                            lambda: f(lambda: s.topen(0, 0, '/d', j % 2), lambda: (s.tnext(0), s.tnext(0), s.tclose(0))),
                            lambda: f(lambda: s.rr(0, '/b', 4000, 5000)), lambda: f(lambda: s.rlk(0, '/l', 50)), lambda: f(lambda: s.owner(0, '/d/e1')),
                            lambda: f(lambda: s.export(0, 3)),
                            lambda: f(lambda: s.read(9, 5000)), lambda: f(lambda: s.read(8, 9000)), lambda: f(lambda: s.lseek(9, 0, 0)), lambda: f(lambda: s.fstat(9)),
                            lambda: (f(lambda: s.readdir(9)), s.rewinddir(9)),
                            lambda: f(lambda: s.dopen(0, 0, '/d', 0), lambda: s.dnext(0))]
                    r.shuffle(todo)
                    for t in todo:
                        t()
                    s.topen(3, 0, '/')
                    for i in range(6):
                        s.tnext(3)
                    s.fail(kind, j); s.tnext(3); s.tnext(3); s.tnext(3); s.tclose(3)
                    s.read(9, 100); s.lseek(8, 0, 1); s.readdirs(9, 3); s.probe()
                    s.quiesce()
                out.append(s)
        # the table grows under failures
        for kind in ('alloc', 'dup'):
            s = Session('grow-' + kind, warm=(0, b'/a'), cold=True)
            s.img(0, 0)
            for i in range(200 if c.quick else 400):
                s.fail(kind, r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14]))
                if i % 7 == 3:
                    s.opendir(i, 0, '/d')
                else:
                    s.open(i, 0, '/b')
                if i % 5 == 0:
                    j = r.randrange(i + 1)
                    s.read(j, 10) if r.random() < .5 else s.fstat(j)
                if i % 11 == 0 and i % 7 != 3:
                    s.close(i - i % 7)
                if i % 50 == 0:
                    s.probe()
            s.probe()
            s.extract(0, '/a', 'x')
            s.quiesce()
            s.img(0, 0); s.open(0, 0, '/a'); s.read(0, 100); s.quiesce()
            out.append(s)
        # a deep tree
        root = mksq.D()
        d = root
        names = []
        for i in range(30):
            d.add('f', mksq.reg(3, 1))
            names.append('d%d' % i + 'y' * r.choice([0, 60]))
            d = d.add(names[-1], mksq.D())
        deep = Image(mksq.Builder(root, 4096))
        for j in range(1, 6):
            s = Session('deep%d' % j, warm=(0, b'/a'))
            s.img(2, 2)
            for start in r.sample(range(60), 8):
                s.topen(0, 2, '/')
                for i in range(64):
                    if i == start:
                        s.fail('alloc', j)
                    s.tnext(0)
                s.tclose(0)
            # long paths: the walk grows once and again
            for depth in (7, 8, 9, 16, 17, 29):
                p = '/' + '/'.join(names[:depth])
                for fn in (lambda: s.stat(2, p), lambda: s.lstat(2, p + '/f'), lambda: s.readlink(2, p, 10)):
                    s.fail('alloc', j)
                    fn()
                    fn()
                s.fail('alloc', j); s.open(0, 2, p + '/f'); s.close(0)
                s.fail('alloc', j); s.opendir(0, 2, p); s.closedir(0)
            s.quiesce()
            out.append(s)
        c.split('k%d' % k, [im, other, deep], out, 5)


# ------------------------------------------------------------------ C15
@check('C15')
def c15(c):
    r = c.rng('main')
    for k in range(5 if c.quick else 50):
        bs = r.choice([4096, 131072])
        ims = [zoo.content(r, nfiles=6, bs=bs), zoo.content(r, nfiles=6, bs=4096), zoo.tiny(r, k)]
        # extraction buffers: sizes around 64 KiB and more
        root = mksq.D()
        for i in range(60):
            root.add('f%d' % i, mksq.reg(r.choice([0, 1, 5, 4095, 4096, 65535, 65536, 65537, 200000] if i < 15 else [3, 9]), i))
        root.add('d', mksq.D()).add('f1', mksq.reg(77, 99))
        root.add('l', mksq.L('f1'))
        root.add('dd', mksq.L('d'))
        ims.append(Image(mksq.Builder(root, 4096, seed=k)))
        out = []
        for j in range(3):
            s = Session('x%d' % j, warm=(2, b'/a'))
            hs = {}
            for h in range(4):
                s.img(h, h)
                hs[h] = [p for p, n in zoo.all_paths(ims[h], files_only=True) if n.size() < 400000]
            for i in range(110):
                h = r.randrange(4)
                x = r.random()
                p = r.choice(hs[h])
                if x < .55:
                    s.extract(h, p, r.choice(['so', 'x', 'dll', None, 'tar.gz', 'e' * r.choice([1, 30, 200])]), r.randrange(2))
                elif x < .62:
                    s.extract(h, spell(r, p), 'so', r.randrange(2))
                elif x < .68:
                    s.extract(3, r.choice(['/l', '/dd/f1', '/d/f1', '/f1', 'f1', '//f1']), 'q', r.randrange(2))
                elif x < .74:
                    s.extract(2, r.choice(['/nope', '/d', '/pipe', '/loop', '/', '', '/a/x', '/dang']), 'so', r.randrange(2))
                elif x < .77:
                    s.clear()
                elif x < .8:
                    s.imgclose(h); s.img(h, r.randrange(4) if r.random() < .3 and False else h)
                elif x < .88:
                    s.fail(r.choice(['fopen', 'fwrite', 'alloc', 'unc', 'rand', 'rand']), r.choice([1, 1, 2, 3]))
                    s.extract(h, p, 'so', r.randrange(2))
                    s.extract(h, p, 'so', r.randrange(2))
                elif x < .91:
                    # the number in a name comes up again
                    e = r.choice(['so', 'x', None])
                    h = r.choice([h, 3])
                    z = [q for q, n in zoo.all_paths(ims[h], files_only=True) if n.size() == 0]
                    for q in r.sample(z, min(1, len(z))) + r.sample(hs[h], min(4, len(hs[h]))):
                        s.extract(h, q, e, 1)
                        s.fail('rand', r.choice([1, 1, 2, 5]))
                    s.extract(h, p, e, 1)
                elif x < .95:
                    s.open(0, h, p); s.read(0, 10); s.close(0)
                else:
                    s.probe()
            s.quiesce()
            s.img(0, 3)            # another image under the handle of the first
            s.extract(0, '/f1', 'so')
            s.clear()
            s.extract(0, '/f1', 'so')
            s.imgclose(0); s.img(0, 2)
            s.extract(0, '/a', 'so'); s.extract(0, '/f1', 'so')
            s.imgclose(0); s.img(0, 3)
            s.extract(0, '/f1', 'so'); s.extract(0, '/a', 'so')
            s.quiesce()
            out.append(s)
        # the program ends with files extracted, and with or without descriptors, streams and images open
        for j in range(4):
            s = Session('end%d' % j, warm=(2, b'/a'))
            s.img(3, 3)
            for i in range(r.choice([0, 1, 2, 7])):
                s.extract(3, '/f%d' % r.randrange(20), 'so', 1)
                if i == 3:
                    s.clear()
            if j % 2:
                s.open(0, 3, '/f1'); s.opendir(0, 3, '/d'); s.extract(3, '/none', 'so'); s.readdirs(0, 1)
            if j == 2:
                s.imgclose(3)
            s.halt()
            out.append(s)
        s = Session('many', warm=(2, b'/a'))
        s.img(3, 3); s.img(2, 2)
        for rep in range(2):
            for i in range(60):
                s.extract(3, '/f%d' % i, 'so', i % 2)
            s.extract(2, '/a', 'so')
            for i in range(0, 60, 5):
                s.extract(3, '/f%d' % i, 'so', 1)
            if rep:
                s.clear()
        s.quiesce()
        out.append(s)
        if k == 1:
            # hundreds at a time
            root = mksq.D()
            n = 400 if c.quick else 3000
            for i in range(n):
                root.add('g%d' % i, mksq.reg(1 + i % 49, i % 250))
            ims.append(Image(mksq.Builder(root, 4096, seed=k)))
            s = Session('crowd', warm=(2, b'/a'))
            s.img(0, 4)
            order = list(range(n))
            for rep in range(2):
                r.shuffle(order)
                for i in order:
                    s.extract(0, '/g%d' % i, r.choice(['so', 'x', 'so']), 0)
                for i in r.sample(order, 60):
                    s.extract(0, '/g%d' % i, 'so', 1)
                s.clear()
            s.quiesce()
            out.append(s)
        c.split('k%d' % k, ims, out, 2, env=[{}, dict(TMPMODE='dir'), dict(TMPMODE='slash'), dict(TMPMODE='tmp'), dict(TMPMODE='temp')][k % 5])
    c.later.append(lambda: tlc_histories(c, 'ext', ['extract', 'clear', 'imgclose', 'img'], [b'/a', b'/b', b'/nope', b'/l'], 3 if c.quick else 4, 30 if c.quick else 300, 25,
                                         cap=1500 if c.quick else None))


# ------------------------------------------------------------------ C16
@check('C16')
def c16(c):
    r = c.rng('main')

    def whole(s, t, p, n, prune=0.0, extra=3, stop=None):
        s.topen(t, 0, p, r.random() < .3)
        for i in range(n + extra if stop is None else stop):
            s.tnext(t)
            if r.random() < prune:
                s.tprune(t)
        s.tclose(t)
    for k in range(6 if c.quick else 60):
        im = [lambda: zoo.names_tree(r, depth=r.choice([2, 4])), lambda: zoo.wide_dir(r, n=r.choice([0, 257, 600])), lambda: zoo.links_tree(r, 12, 8)][k % 3]()
        alld = [p for p, n in zoo.all_paths(im, dirs_only=True)]
        tot = 2 * len(zoo.all_paths(im)) + 2
        out = []
        for j in range(3):
            s = Session('t%d' % j, warm=warm_of(im))
            s.img(0, 0)
            if j == 0:
                whole(s, 0, '/', tot)
            for _ in range(8):
                x = r.random()
                if x < .2:
                    whole(s, 0, r.choice(alld), min(tot, 500), prune=r.choice([0, .1, .5]))
                elif x < .4:
                    whole(s, 0, '/', tot, prune=r.choice([.1, .3, 1]), stop=r.randrange(1, min(tot, 400)))
                elif x < .6:
                    # two at once, and other activity
                    s.topen(0, 0, '/'); s.topen(1, 0, r.choice(alld), r.random() < .5)
                    for _ in range(60):
                        s.tnext(r.randrange(2))
                        if r.random() < .1:
                            s.tprune(r.randrange(2))
                        if r.random() < .1:
                            probe_path(s, r, r.choice(alld), 3)
                    s.tclose(0); s.tclose(1)
                elif x < .7:
                    s.topen(2, 0, r.choice(['/nope', '/e/x', alld[0] + b'/zz'] + [p for p, n in zoo.all_paths(im) if n.kind != 'dir'][:4]), r.random() < .5); s.tnext(2); s.tclose(2)
                elif x < .8:
                    s.topen(0, 0, '/'); s.tprune(0) if r.random() < .3 else None; s.tclose(0)
                else:
                    whole(s, 0, '/', tot, stop=r.randrange(0, 30))
            s.quiesce()
            out.append(s)
        c.split('k%d' % k, [im], out, 3)
    # depth and path length
    for n, w in ((60, 3), (30, 255), (12, 200)) if c.quick else ((60, 3), (30, 255), (200, 8), (400, 2), (100, 255)):
        root = mksq.D()
        d = root
        for i in range(n):
            d.add('a%d' % i, mksq.reg(1, 1)) if i % 3 == 0 else None
            if i % 4 == 1:
                d.add('zz', mksq.D()).add('x', mksq.reg(1, 1))
            d = d.add(('d%d-' % i).ljust(r.choice([w, w, 5]), 'k'), mksq.D())
        im = Image(mksq.Builder(root, 4096))
        s = Session('deep', warm=None)
        s.img(0, 0)
        whole(s, 0, '/', 6 * n)
        whole(s, 0, '/', 6 * n, prune=.02)
        for _ in range(3):
            whole(s, 0, '/', 0, stop=r.randrange(2 * n))
        s.quiesce()
        s.img(0, 0); whole(s, 0, '/', 3 * n); s.quiesce()
        c.add('deep%d' % n, [im], [s])
    # a step that fails this once: in the middle of a listing, at its end, on the way into a directory
    for k in range(1 if c.quick else 10):
        root = mksq.D()
        for i in range(4):
            d = root.add('d%d' % i, mksq.D())
            for j in range(r.choice([0, 60, 130])):
                e = d.add(b'%03d' % j + b'n' * r.choice([100, 200]), mksq.D() if j % 11 == 5 else mksq.reg(0, 1))
                if j % 22 == 5:
                    e.add('in', mksq.reg(0, 1))
        im = Image(mksq.Builder(root, 4096, meta='always', seed=r.randrange(1 << 30), shuffle_inodes=True))
        out = []
        for j in range(12 if c.quick else 30):
            s = Session('err%d' % j, warm=(0, b'/d0'))
            s.img(0, 0)
            for _ in range(4):
                s.topen(0, 0, r.choice([b'/', b'/', b'/d0', b'/d1', b'/d2']), r.random() < .5)
                quiet = r.choice([0, 0, 3, 30, 60, 100, 150])
                for i in range(quiet):
                    s.tnext(0)
                for i in range(r.choice([20, 90])):
                    s.fail(r.choice(['unc', 'unc', 'unc', 'alloc']), r.choice([1, 1, 2]))
                    s.tnext(0)
                for i in range(5):
                    if r.random() < .2:
                        s.tprune(0)
                    s.tnext(0)
                s.tclose(0)
            s.quiesce()
            out.append(s)
        c.split('err%d' % k, [im], out, 4)
    # directories and listings that cannot be read, met again and again, and callers that go on asking
    for k in range(6 if c.quick else 40):
        root = mksq.D()
        for i in range(r.choice([8, 30])):
            d = root.add('d%02d' % i, mksq.D(ext=r.random() < .3))
            root.add('l%02d' % i, mksq.L('t' * r.choice([5, 400, 900])))
            for j in range(r.choice([0, 1, 5])):
                d.add('%d' % j + 'n' * r.choice([1, 200]), mksq.L('t' * r.choice([5, 900])))
            if r.random() < .3:
                d.add('in', mksq.D()).add('x', mksq.reg(1, 1))
        seed = r.randrange(1 << 30)
        if k % 3 == 2:
            bad = [('d', 0)] if r.random() < .3 else [('d', 1)]
        else:
            bad = [('i', r.choice([0, 1, 1, 2, 3]))]
        im = Image(mksq.Builder(root, 4096, meta='always', seed=seed, shuffle_inodes=k % 2 == 0, bad_meta=bad))
        alld = [p for p, n in zoo.all_paths(im, dirs_only=True)]
        s = Session('torn', warm=None)
        s.img(0, 0)
        for j in range(8):
            s.topen(0, 0, b'/' if j < 3 else r.choice(alld), r.random() < .5)
            for i in range(r.choice([30, 150, 400])):
                s.tnext(0)
                if r.random() < (.05, .4, 1)[j % 3]:
                    s.tprune(0)
            s.tclose(0)
        s.quiesce()
        c.add('torn%d' % k, [im], [s])
    c.later.append(lambda: tlc_histories(c, 'trav', ['topen', 'tnext', 'tprune', 'tclose'], [b'/', b'/d', b'/empty'],
                                         7 if c.quick else 9, 40 if c.quick else 500, 50, maxstreams=1, cap=1500 if c.quick else 20000))

    small_world(c, 'TreeWalk', live=True)
    c.later.append(lambda: walks.tree_walks(c, c.rng('small'), 'shape', 1600 if c.quick else None))

# ------------------------------------------------------------------ C17
@check('C17')
def c17(c):
    import struct
    r = c.rng('main')
    base = zoo.tiny(r)
    ims = [base]
    exp = []

    def var(off, fmt, v, ret, name):
        d = bytearray(base.data)
        struct.pack_into(fmt, d, off, v)
        ims.append(RawImage(base, bytes(d), offset=0, open_ret=ret))
    for v in (0, 0x68737173, 0x73717367, 0x73717369, 0x73717300, 0xffffffff, 0x71736873, 0x73716873):
        if v != 0x73717368:
            var(0, '<I', v, 2, 'magic')
    for v in (0, 1, 2, 3, 5, 6, 255, 256 + 4, 0x0404, 65535):
        var(28, '<H', v, 3, 'major')
    for v in (1, 2, 256, 65535):
        var(30, '<H', v, 3, 'minor')
    for v in (0, 2, 3, 4, 5, 6, 7, 256, 257, 65535):
        var(20, '<H', v, 4, 'comp')
    out = []
    for j in range(2):
        s = Session('hdr%d' % j, warm=(0, b'/a'))
        s.img(0, 0)
        s.open(0, 0, '/b')
        for i in range(1, len(ims)):
            s.img(1, i, j)
            s.read(0, 100)
        s.img(1, 0, j); s.stat(1, '/a'); s.imgclose(1)
        s.quiesce()
        out.append(s)
    c.add('hdr', ims, out)
    # offsets, and many images at once
    for k in range(4 if c.quick else 40):
        ims = []
        for i in range(8):
            bs = r.choice([4096, 8192, 65536, 131072, 1 << 20])
            x = r.randrange(4)
            b = zoo.tiny(r, i * 11).builder if x < 2 else zoo.names_tree(r, depth=2).builder if x == 2 else zoo.content(r, nfiles=3, bs=4096).builder
            ims.append(Image(b, offset=r.choice([0, 1, 3, 7, 8, 96, 100, 4096, 4097, 131072, 100001])))
        out = []
        for j in range(3):
            s = Session('m%d' % j, warm=warm_of(ims[0]))
            openh = {}
            fdn = 0
            held = {}
            for _ in range(160):
                x = r.random()
                if x < .2 or not openh:
                    h = r.randrange(12)
                    if h not in openh:
                        i = r.randrange(8)
                        s.img(h, i, r.randrange(2)); openh[h] = i; held[h] = []
                    continue
                h = r.choice(list(openh))
                im = ims[openh[h]]
                ps = zoo.all_paths(im) or [(b'/', im.builder.root)]
                p, n = r.choice(ps)
                if x < .3:
                    for f in held.pop(h):
                        s.close(f)
                    s.imgclose(h); del openh[h]
                elif x < .5:
                    s.open(fdn, h, p); held[h].append(fdn); fdn += 1
                elif x < .65 and held[h]:
                    s.read(r.choice(held[h]), r.choice([1, 100, 5000]))
                elif x < .7:
                    if im.builder.export:
                        s.export(h, r.randrange(1, len(im.builder.nodes) + 1))
                    s.idget(h, r.randrange(len(im.builder.ids)))
                    s.owner(h, p)
                else:
                    use(s, r, im, p, n, h)
            s.quiesce()
            out.append(s)
        c.split('m%d' % k, ims, out, 3)
    for k in range(1 if c.quick else 10):
        twins(c, c.rng('twins%d' % k), 'tw%d' % k, 6 if c.quick else 12)
    c.later.append(lambda: tlc_histories(c, 'img', ['img', 'imgclose', 'open', 'close', 'read'], [b'/a', b'/b'], 3 if c.quick else 4, 40 if c.quick else 400, 30, cap=1500 if c.quick else 20000))


def twins(c, r, tag, nsess):
    """images in which the same paths, inode numbers and positions stand for other things, asked the same question
    one right after the other: by two handles, and by one handle that is closed and opened with the other"""
    names = [b'a', b'b', b'c', b'd', b'dd/x', b'dd/y', b'dd', b'l']
    ims = []
    for v in range(4):
        root = mksq.D()
        dd = root.add('dd', mksq.D())
        kinds = ['reg', 'reg', 'dir', 'lnk', 'fifo', 'none']
        for i, nm in enumerate(x for x in names if x not in (b'dd', b'l')):
            d, n = (dd, nm[3:]) if nm.startswith(b'dd/') else (root, nm)
            k = kinds[(i + v * r.choice([1, 2, 5])) % 6]
            if k == 'reg':
                d.add(n, mksq.reg(r.choice([0, 5, 5, 4096, 9000]), v * 50 + i + 1))
            elif k == 'dir':
                e = d.add(n, mksq.D())
                for j in range(r.choice([0, 3, 3])):
                    e.add('%c%d' % (97 + (j + v) % 3, j), mksq.reg(1, 1))
            elif k == 'lnk':
                d.add(n, mksq.L(['/dd', '/a', 'zz', '/l'][v]))
            elif k == 'fifo':
                d.add(n, mksq.Node('fifo'))
        root.add('l', mksq.L('abcd'[(v + r.randrange(2)) % 4]))
        root.add('t', mksq.L('same%d' % v))
        b = mksq.Builder(root, 4096, seed=r.randrange(1 << 30), ids=[r.randrange(1 << 32) for _ in range(3)], meta='never')
        for n in root.ents.values():
            n.uid, n.gid = r.randrange(3), r.randrange(3)
        ims.append(Image(b, offset=r.choice([0, 0, 16])))

    def ask(s, k, h, p):
        if k == 0: s.stat(h, p)
        elif k == 1: s.lstat(h, p)
        elif k == 2: s.owner(h, p)
        elif k == 3: s.open(0, h, p); s.fstat(0); s.read(0, 9000); s.close(0)
        elif k == 4: s.opendir(0, h, p); s.readdirs(0, -1); s.closedir(0)
        elif k == 5: s.readlink(h, p, 100)
        elif k == 6: s.scandir(h, p, 0, 0)
        elif k == 7: s.topen(0, h, p); s.tnext(0); s.tnext(0); s.tclose(0)
        elif k == 8: s.rr(h, p, 0, 9000)
        elif k == 9: s.rlk(h, p, 100)
        elif k == 10: s.dlook(h, b'/' + p.rsplit(b'/', 1)[0].strip(b'/'), p.rsplit(b'/', 1)[1])
        elif k == 11: s.lookat(h, '/dd', p.rsplit(b'/', 1)[1], 1)
        elif k == 12: s.export(h, r.choice([1, 2, 3, 4]))
        elif k == 13: s.idget(h, r.randrange(3))
        elif k == 14: s.dopen(0, h, p, 0); s.dnext(0); s.dnext(0)
        elif k == 15: s.extract(h, p, 'x', 1)
        elif k == 16: s.opendir(0, h, p, True); s.readdirs(0, -1); s.closedir(0)
    out = []
    for j in range(nsess):
        s = Session('t%d' % j, warm=(0, b'/a'))
        at = {}
        for h in range(2):
            at[h] = r.randrange(4); s.img(h, at[h])
        for p in [b'/' + x for x in names] + [b'/t']:
            for k in r.sample(range(17), 9):
                how = r.random()
                ask(s, k, 0, p)
                if how < .6:
                    s.imgclose(0)
                    at[0] = (at[0] + r.choice([1, 1, 2, 3])) % 4
                    s.img(0, at[0])
                    ask(s, k, 0, p)
                elif how < .8:
                    ask(s, k, 1, p); ask(s, k, 0, p)
                else:
                    ask(s, k, 0, b'/' + r.choice(names)); ask(s, k, 0, p)
        s.quiesce()
        out.append(s)
    c.split(tag, ims, out, 3)


# ------------------------------------------------------------------ C18
@check('C18')
def c18(c):
    r = c.rng('main')
    for k in range(1 if c.quick else 6):
        far_sessions(c, r, zoo.far(r), 'far%d' % k, 2 if c.quick else 6)
    for k in range(5 if c.quick else 50):
        # the same layout with other content: every block sits at the same offset
        seed = r.randrange(1 << 30)
        ims = []
        bs = r.choice([4096, 8192])
        for v in range(3):
            rr = random.Random(seed)
            root = mksq.D()
            for i in range(7):
                size = rr.choice([10, bs - 1, 5 * bs + 100, 40 * bs, 2100 * bs + 3, 4200 * bs + 5])
                root.add('f%d' % i, mksq.reg(size, v * 80 + i * 3 + 1, comp='never', frag=True))
            # files without a block of their own start where the next file starts
            for i in range(rr.choice([1, 3])):
                n = rr.choice([2100, 4300]) * bs
                root.add('f%dh' % i, mksq.reg(n, 1, holes=[(0, n)], comp='never', frag=True))
                n = rr.choice([2200, 4200]) * bs + 9
                root.add('f%di' % i, mksq.reg(n, v * 80 + i * 3 + 40, holes=[(rr.choice([0, bs, 3 * bs]), 2050 * bs)], comp='never', frag=True))
            for i in range(3):
                d = root.add('d%d' % i, mksq.D(ext=i == 1))
                for j in range(rr.choice([5, 300, 700])):
                    d.add('n%04d' % (j * 2 + (v % 2)), mksq.reg(0, 1) if j % 3 else mksq.L('../f%d' % ((j + v) % 7)))
            b = mksq.Builder(root, bs, meta='never', seed=seed)
            ims.append(Image(b, offset=r.choice([0, 0, 7])))
        out = []
        for j in range(3):
            s = Session('h%d' % j, warm=(0, b'/f0'))
            lists = [zoo.all_paths(im) for im in ims]
            cur = {}
            for h in range(3):
                s.img(h, h); cur[h] = h
            pool = [(h, lists[h][r.randrange(len(lists[h]))]) for h in range(3) for _ in range(4)] + [(h, x) for h in range(3) for x in lists[h] if x[0].count(b'/') == 1]
            for _ in range(110):
                h, (p, n) = r.choice(pool)
                h2 = [a for a in cur if cur[a] == h]
                if not h2:
                    continue
                use(s, r, ims[h], p, n, h2[0])
                if r.random() < .04:
                    a, b2 = r.sample(list(cur), 2)
                    s.imgclose(a); s.imgclose(b2)
                    s.img(a, cur[b2]); s.img(b2, cur[a])
                    cur[a], cur[b2] = cur[b2], cur[a]
            s.quiesce()
            out.append(s)
        # sweep over everything: far more blocks than any cache holds
        s = Session('sweep', warm=(0, b'/f0'))
        s.img(0, 0); s.img(1, 1)
        big = [(h, p, n) for h in range(2) for p, n in zoo.all_paths(ims[h], files_only=True) if n.size() > 1000 * bs][:2]
        for h, p, n in big:
            s.open(h, h, p)
            for x in range(0, n.size(), 97 * bs):
                s.lseek(h, x, 0); s.read(h, 50)
            for x in range(n.size() - 1, 0, -211 * bs):
                s.lseek(h, x, 0); s.read(h, bs)
        for p, n in zoo.all_paths(ims[0])[::9]:
            s.lstat(0, p)
        s.quiesce()
        out.append(s)
        c.split('k%d' % k, ims, out, 2)
    # every block size: cache slots of any size
    for k in range(1 if c.quick else 6):
        ims = [zoo.content(r, nfiles=8, bs=b) for b in (4096, 65536, 1 << 20)]
        s = Session('mix', warm=None)
        for h in range(3):
            s.img(h, h)
        for _ in range(150):
            h = r.randrange(3)
            p, n = r.choice(zoo.all_paths(ims[h]))
            use(s, r, ims[h], p, n, h)
        s.quiesce()
        c.add('mix%d' % k, ims, [s])
    for k in range(1 if c.quick else 10):
        twins(c, c.rng('twins%d' % k), 'tw%d' % k, 6 if c.quick else 12)
    small_world(c, 'BlockCache', live=True, broken=['earlyunlock', 'addfirst', 'nolock', 'keepfailed'])
    walks.cache_rings(c, c.rng('rings'), 'ring', 120 if c.quick else 900)


# ------------------------------------------------------------------ C21
@check('C21')
def c21(c):
    r = c.rng('main')
    for k in range(7 if c.quick else 80):
        im = zoo.wide_dir(r, n=r.choice([0, 1, 256, 257, 600, 1100]) if c.quick else None) if k % 3 else zoo.names_tree(r, depth=2)
        ds = zoo.all_paths(im, dirs_only=True)
        out = []
        for j in range(3):
            s = Session('c%d' % j, warm=warm_of(im))
            s.img(0, 0)
            for _ in range(60):
                p, n = r.choice(ds)
                if r.random() < .6 and b'w' in im.builder.root.ents:
                    p, n = b'/w', im.builder.root.ents[b'w']
                nx = sorted(n._next.values()) if n.ents else [0]
                x = r.random()
                if x < .5:
                    off = r.choice([0] + nx)
                elif x < .7:
                    off = r.choice(nx) + r.choice([-1, 1, -3, 2, 8, -12, 12])
                elif x < .8:
                    off = r.choice([1, 2, 11, 12, 13, nx[-1] + 1, nx[-1] + 3, 1 << 20])
                elif x < .9 and len(nx) > 257:
                    off = nx[r.choice([254, 255, 256])]
                else:
                    off = r.choice(nx)
                s.dopen(0, 0, p, max(0, off))
                for _ in range(r.choice([1, 3, 3, 300 if x < .05 else 4])):
                    s.dnext(0)
                if r.random() < .2:
                    s.dopen(1, 0, r.choice(ds)[0], 0); s.dnext(1); s.dnext(0); s.dnext(1)
            q = [p for p, n in zoo.all_paths(im) if n.kind != 'dir'][:2] + [b'/nope']
            for p in q:
                s.dopen(2, 0, p, 0)
            for _ in range(40):
                s.export(0, r.randrange(1, len(im.builder.nodes) + 1))
            for _ in range(15):
                s.idget(0, r.randrange(len(im.builder.ids)))
                s.owner(0, r.choice(zoo.all_paths(im) or [(b'/', 0)])[0])
            s.quiesce()
            out.append(s)
        c.split('k%d' % k, [im], out, 3)
    torn_sessions(c, c.rng('torn'), 'torn', 3 if c.quick else 20)
    im = zoo.many(r)
    s = Session('exp', warm=warm_of(im))
    s.img(0, 0)
    n = len(im.builder.nodes)
    for i in list(range(1, n + 1, 3)) + [n]:
        s.export(0, i)
    ps = zoo.all_paths(im)
    for i in range(0, 5000, 7):
        s.idget(0, i)
    for p, _ in r.sample(ps, 300):
        s.owner(0, p)
    s.quiesce()
    c.add('many', [im], [s])
    for ex in (True, False):
        for nid in (1, 2047, 2048, 2049, 4097):
            root = mksq.D()
            for i in range(1030 if nid > 1 else 30):
                root.add('f%d' % i, mksq.reg(0, 1, uid=r.randrange(nid), gid=r.randrange(nid)))
            im = Image(mksq.Builder(root, 4096, export=ex, shuffle_inodes=True, seed=nid, ids=[r.randrange(1 << 32) for _ in range(nid)], meta=r.choice(['always', 'never'])))
            s = Session('exp', warm=(0, b'/f0'))
            s.img(0, 0)
            n = len(im.builder.nodes)
            for i in {1, 2, n, n - 1, 1023, 1024, 1025, 1026} | {r.randrange(1, n + 1) for _ in range(40)}:
                if 1 <= i <= n:
                    s.export(0, i)
            for i in {0, nid - 1, 2047, 2048, 2046, 4095, 4096} | {r.randrange(nid) for _ in range(30)}:
                if i < nid:
                    s.idget(0, i)
            for i in range(40):
                s.owner(0, '/f%d' % r.randrange(len(root.ents)))
            s.quiesce()
            c.add('exp%d-%d' % (ex, nid), [im], [s])
    c.later.append(lambda: walks.dir_cursors(c, c.rng('small'), 'grp', 700 if c.quick else None))


# ------------------------------------------------------------------ C22
CONT = dict(module='ContTrace', cfg='ContTrace.cfg')


def hist_of(c, cfg, simulate=0, depth=60, timeout=300):
    """behaviours of HashImpl"""
    w = c.work.sub('g')
    try:
        extra = ['-simulate', 'num=%d' % simulate, '-depth', str(depth + 2), '-seed', str(c.seed + 1)] if simulate else []
        rc, out, st, secs = conf.tlc(w, 'HashImpl', cfg, extra=extra, workers='1' if simulate else '4', timeout=timeout)
        if rc != 0:
            raise conf.Infra('HashImpl: TLC ended with %d\n%s' % (rc, out[-1500:]))
        hs, seen = [], set()
        for m in re.finditer(r'<<"HIST", (".*")>>', out):
            h = json.loads(json.loads(m.group(1)))
            key = json.dumps(h[:-1] if simulate else h)
            if key not in seen:
                seen.add(key)
                hs.append(h)
        c.states += st[1]
        c.trans += st[0]
        return hs
    finally:
        w.close()


class Con:
    """calls on one table and one stack"""

    def __init__(self, s, t):
        self.s, self.t = s, t

    def hinit(self, cap, vs=4): self.s.raw('hinit %d %d %d' % (self.t, cap, vs), t=self.t, cap=cap)
    def hadd(self, k, v): self.s.raw('hadd %d %d %d' % (self.t, k, v), t=self.t, k=str(k), val=v)
    def hget(self, k): self.s.raw('hget %d %d' % (self.t, k), t=self.t, k=str(k))
    def hput(self, k, v): self.s.raw('hput %d %d %d' % (self.t, k, v), t=self.t, k=str(k), val=v)
    def hdel(self, k): self.s.raw('hdel %d %d' % (self.t, k), t=self.t, k=str(k))
    def hfree(self): self.s.raw('hfree %d' % self.t, t=self.t)
    def sinit(self, cap, vs=4, fr=1): self.s.raw('sinit %d %d %d %d' % (self.t, cap, vs, fr), t=self.t, cap=cap, fr=bool(fr) and cap >= 0)
    def spush(self, v): self.s.raw('spush %d %d' % (self.t, v), t=self.t, val=v)
    def spop(self): self.s.raw('spop %d' % self.t, t=self.t)
    def stop(self): self.s.raw('stop %d' % self.t, t=self.t)
    def sat(self, i): self.s.raw('sat %d %d' % (self.t, i), t=self.t, i=i)
    def sfree(self): self.s.raw('sfree %d' % self.t, t=self.t)


@check('C22')
def c22(c):
    r = c.rng('main')
    c.mcs.append(MC('HashImpl', 'HashImpl_mc.cfg', workers='2'))

    def replay():
        out = []
        hs = hist_of(c, 'HashImpl_gen.cfg')
        r.shuffle(hs)
        for tag, hl, per in (('x', hs[:1500 if c.quick else 10 ** 6], 25),
                             ('y', hist_of(c, 'HashImpl_sim.cfg', 12 if c.quick else 200), 1)):
            for i in range(0, len(hl), per):
                s = Session('%s%d' % (tag, i))
                for h in hl[i:i + per]:
                    t = Con(s, r.randrange(8))
                    vs, keys = r.choice([4, 4, 8, 13, 40]), sorted({o['k'] for o in h if 'k' in o})
                    st = any(o['o'] in ('push', 'pop') for o in h)
                    for o in h:
                        if o['o'] == 'init':
                            t.hinit(o['c'], vs)
                            if st:
                                t.sinit(o['s'], vs, r.randrange(2))
                        elif o['o'] == 'add': t.hadd(o['k'], o['v'])
                        elif o['o'] == 'del': t.hdel(o['k'])
                        elif o['o'] == 'push': t.spush(o['v'])
                        elif o['o'] == 'pop': t.spop()
                        for k in keys if len(keys) < 6 else r.sample(keys, 3):
                            t.hget(k)
                        if st and o['o'] in ('push', 'pop'):
                            t.stop(); t.sat(r.randrange(40))
                    for k in keys:
                        t.hget(k)
                    t.hfree()
                    if st:
                        t.sfree()
                out.append(s)
        c.split('replay', [], out, 40, **CONT)
    c.later.append(replay)

    out = []
    for j in range(12 if c.quick else 150):
        s = Session('r%d' % j)
        con = {}
        for _ in range(250 if c.quick else 600):
            i = r.randrange(3)
            if i not in con:
                t = con[i] = Con(s, i)
                t.m, t.n, t.k0 = {}, 0, r.choice([1, 7, 16, 1 << 20, 0x10001])
                t.hinit(1 << r.randrange(0, 6), r.choice([1, 4, 12, 100]) if r.random() < .0 else r.choice([4, 12, 100]))
                t.sinit(r.choice([-1] if r.random() < .1 else [0, 1, 2, 7, 20]), r.choice([4, 20, 64]), r.randrange(2))
                t.raw = s.ops[-1][1]['cap'] == -1
            t = con[i]
            key = lambda: r.choice([r.randrange(40) * t.k0 & 0xFFFFFFFF, r.randrange(40) * t.k0 & 0xFFFFFFFF, 0xFFFFFFFF - r.randrange(20), 1 << r.randrange(32)])
            x = r.random()
            if r.random() < .05:
                s.fail('alloc', r.randrange(1, 3))
                fault = True
            else:
                fault = False
            if x < .33:
                k = key()
                if k not in t.m and not fault:
                    t.m[k] = 1
                    t.hadd(k, r.randrange(1 << 31))
                elif k not in t.m:
                    # failed: it may or may not be there, take it out again
                    t.hadd(k, 5); t.hget(k); t.hdel(k)
            elif x < .5:
                k = r.choice(list(t.m) + [key()]); t.m.pop(k, None); t.hdel(k)
            elif x < .7:
                k = r.choice(list(t.m) + [key()]); t.hget(k)
            elif x < .75:
                k = r.choice(list(t.m) + [key()]); t.hput(k, r.randrange(1 << 31))
            elif x < .88 and not t.raw:
                for _ in range(r.choice([1, 1, 2, 9])):
                    t.spush(r.randrange(1 << 31))
            elif x < .94:
                for _ in range(r.choice([1, 1, 2, 9])):
                    t.spop()
            elif x < .98:
                t.stop(); t.sat(r.randrange(12))
            elif x < .985:
                for k in sorted(t.m):
                    t.hget(k)
                t.hfree(); t.sfree(); del con[i]
        for i in sorted(con):
            for k in sorted(con[i].m):
                con[i].hget(k)
            con[i].hfree(); con[i].sfree()
        out.append(s)
    # growth far beyond the first capacity, then emptied
    for cap, step in ((1, 1), (4, 64), (16, 65537)):
        s = Session('grow%d' % cap)
        t = Con(s, 0)
        n = 300 if c.quick else 2000
        t.hinit(cap, 8); t.sinit(cap, 8, 1)
        for i in range(n):
            t.hadd(i * step & 0xFFFFFFFF, i); t.spush(i)
            t.hget(r.randrange(n) * step & 0xFFFFFFFF)
        for i in range(n):
            t.hget(i * step & 0xFFFFFFFF); t.sat(i)
        for i in range(0, n, 2):
            t.hdel(i * step & 0xFFFFFFFF); t.spop()
        for i in range(n):
            t.hget(i * step & 0xFFFFFFFF)
        t.hfree(); t.sfree()
        out.append(s)
    # capacities that are not powers of two are refused; empty containers
    s = Session('odd')
    t = Con(s, 0)
    for cap in (3, 5, 6, 7, 9, 12, 100, 1023):
        t.hinit(cap, 4); t.hget(1); t.hadd(1, 1)
    t.sinit(0, 4, 1); t.stop(); t.spop(); t.sat(0); t.sfree()
    t.sinit(-1, 4, 1); t.stop(); t.spop(); t.sat(0); t.sfree()
    t.hinit(1, 4); t.hget(0); t.hdel(0); t.hget(0); t.hfree()
    out.append(s)
    c.split('ops', [], out, 4, **CONT)


# ------------------------------------------------------------------ C04 / C05
CONC = dict(driver='conc', module='LinTrace', cfg='LinTrace.cfg')


def add_conc(c, tag, images, scen, b1, b2, keep):
    c.targets.add('conc')
    c.targets.discard('driver')
    stats = c.notes.setdefault('schedules', [])
    for i, s in enumerate(scen):
        c.add('%s.%d' % (tag, i), images, [s], drive=conc.drive_with(c.seed + 7 * i, b1, b2, keep, stats), **CONC)


def conc_image(r):
    root = zoo.D()
    bs = 4096
    for i in range(5):
        root.add('f%d' % i, zoo.reg(bs * 2 + 100 + 500 * i, 10 + i, comp=['always', 'never'][i % 2], frag=True))
    root.add('s', zoo.reg(300, 77, frag=True))
    d = root.add('d', zoo.D())
    for i in range(7):
        d.add('e%d' % i, zoo.reg(10 * i, 30 + i, frag=True))
    e = root.add('e', zoo.D())
    e.add('x', zoo.D())
    e.add('y', zoo.L('../f1'))
    root.add('l', zoo.L('d/e2'))
    root.add('ld', zoo.L('d'))
    root.add('loop', zoo.L('loop'))
    return Image(zoo.Builder(root, bs, meta='mix', seed=r.randrange(1 << 30)))


def thread_ops(r, s, t, n, files, dirs, fdmix=True):
    """n calls of thread t on descriptors and streams of its own (slots 10*t ...)"""
    base = 10 * t
    op, dr = {}, {}
    for _ in range(n):
        k = r.random()
        if not op and not dr or k < .22 and len(op) < 4:
            i = base + len(op) if base + len(op) not in op else next(x for x in range(base, base + 8) if x not in op)
            op[i] = r.choice(files)
            s.open(i, 0, op[i])
        elif k < .3 and len(dr) < 2:
            i = next(x for x in range(base, base + 8) if x not in dr)
            dr[i] = r.choice(dirs)
            s.opendir(i, 0, dr[i])
        elif k < .38 and dr:
            s.readdirs(r.choice(list(dr)), r.choice([1, 2, 9]))
        elif k < .44 and dr:
            i = r.choice(list(dr)); del dr[i]; s.closedir(i)
        elif k < .62 and op:
            i = r.choice(list(op)); del op[i]; s.close(i)
        elif k < .8 and op:
            s.read(r.choice(list(op)), r.choice([1, 100, 4096, 5000]))
        elif k < .87 and op:
            s.lseek(r.choice(list(op)), r.choice([0, 1, 4000, 8192]), r.choice([0, 1, 2]))
        elif k < .93 and op:
            s.fstat(r.choice(list(op)))
        elif k < .96:
            s.open(base + 9, 0, r.choice(['/none', '/f0/x', '/loop', '/d/none']))
        else:
            r.choice([s.stat, s.lstat])(0, r.choice(files + dirs + ['/none']))


def after(s, nthr):
    """what the threads left behind still works, then is released"""
    ops = [ln.split() for ln, _ in s.ops]
    fds = sorted({int(o[1]) for o in ops if o[0] in ('open', 'opennf')})
    drs = sorted({int(o[1]) for o in ops if o[0] == 'opendir'})
    s.after()
    s.probe()
    for i in fds:
        s.read(i, 50)
    for i in drs:
        s.readdirs(i, 3)
        s.closedir(i)
    for i in fds:
        s.close(i)
    s.probe()
    s.quiesce()


def fd_programs(c, r, start):
    """FdTable's programs: two threads, two or three of its calls each"""
    def call(s, t, pre, x, i):
        if x == 'open':
            s.open(10 * t + i, 0, '/f%d' % t); return [10 * t + i]
        if x == 'dir':
            s.opendir(10 * t + i, 0, '/e'); s.closedir(10 * t + i); return []
        if x == 'fail':
            s.open(10 * t + i, 0, '/none'); return []
        if x == 'close':
            s.close(pre); return []
        if x == 'get':
            s.fstat(pre); return []
        if x == 'sys':
            s.sysopen(50 + 10 * t + i); s.sysclose(50 + 10 * t + i); return []
        s.scandir(0, '/e'); return []
    vocabulary = ['open', 'dir', 'fail', 'close', 'get', 'sys']
    progs = list(itertools.product(vocabulary, repeat=2)) + [('close', 'open', 'close2'), ('open', 'close2', 'open'), ('open', 'open', 'close2'), ('dir', 'close', 'open')]
    pairs = [(a, b) for i, a in enumerate(progs) for b in progs[i:]]
    todo = r.sample(pairs, 24 if c.quick else 300)
    out = []
    for j, pq in enumerate(todo):
        s = start('prog%d' % j, pre=2)
        for t, p in enumerate(pq, 1):
            s.thread(t)
            mine = []
            for i, x in enumerate(p):
                if x in ('close', 'get') and 'close' in p[:i]:
                    # The thread has closed its descriptor: the number may be the other thread's by now, even one
                    # its directory stream holds, and closing or using it would be the caller's mistake.
                    continue
                elif x == 'close2':
                    s.close(mine.pop())
                else:
                    mine += call(s, t, t - 1, x, i)
        after(s, 2)
        out.append(s)
    c.notes.setdefault('small_worlds', []).append(dict(world='FdTable programs', of=len(pairs), replayed=len(todo)))
    return out


@check('C04')
def c04(c):
    r = c.rng('main')
    im = conc_image(r)
    files = ['/f0', '/f1', '/f2', '/f3', '/f4', '/s', '/d/e3', '/l', '/e/y']
    dirs = ['/', '/d', '/e', '/ld']
    scen = []

    def start(name, pre=0, predir=0):
        s = conc.Scenario(name)
        s.setup()
        s.img(0, 0)
        for i in range(pre):
            s.open(i, 0, r.choice(files))
        for i in range(predir):
            s.opendir(i, 0, r.choice(dirs))
        return s
    # each thread opens, uses and closes
    s = start('openclose')
    for t in (1, 2):
        s.thread(t)
        s.open(10 * t, 0, '/f%d' % t); s.read(10 * t, 100); s.close(10 * t)
    after(s, 2); scen.append(s)
    # numbers handed over from a closing to an opening thread
    s = start('reuse', pre=2)
    s.thread(1); s.open(10, 0, '/f1'); s.close(10); s.open(11, 0, '/f2'); s.read(11, 40)
    s.thread(2); s.open(20, 0, '/f3'); s.close(20); s.open(20, 0, '/f4'); s.read(20, 40); s.close(20)
    after(s, 2); scen.append(s)
    # closing the highest number while another thread opens a higher or a lower one
    s = start('shrink', pre=3)
    s.thread(1)
    s.open(10, 0, '/f1'); s.open(11, 0, '/f2'); s.close(11); s.close(10); s.open(12, 0, '/s'); s.read(12, 30)
    s.thread(2)
    s.open(20, 0, '/f3'); s.close(20); s.open(21, 0, '/f4'); s.read(21, 30)
    after(s, 2); scen.append(s)
    # the table grows while the other thread works on its descriptors
    s = start('grow')
    s.thread(1)
    s.open(10, 0, '/f1')
    s.read(10, 4000); s.lseek(10, 7, 0); s.fstat(10); s.read(10, 10)
    s.thread(2)
    for i in range(3):
        s.open(20 + i, 0, '/d/e%d' % i)
    after(s, 2); scen.append(s)
    # the table has room for 40 once number 3 is in it: it is moved when a number reaches 40
    for fill in ((33, 34, 35, 36) if c.quick else range(31, 38)):
        s = start('grow%d' % fill)
        s.open(0, 0, '/f1')
        for i in range(fill):
            s.sysopen(100 + i)
        s.thread(1); s.read(0, 400) if fill % 2 else s.fstat(0); s.open(11, 0, '/d/e5'); s.read(11, 9); s.opendir(12, 0, '/e') if fill == 34 else s.close(11)
        s.thread(2); s.open(20, 0, '/f2'); s.open(21, 0, '/f3'); s.read(21, 30); s.close(20)
        after(s, 2)
        for i in range(fill):
            s.sysclose(100 + i)
        scen.append(s)
    # streams against opens and closes
    s = start('streams', pre=1)
    s.thread(1); s.opendir(10, 0, '/d'); s.readdirs(10, 2); s.readdirs(10, 9); s.closedir(10)
    s.thread(2); s.open(20, 0, '/f2'); s.close(20); s.opendir(20, 0, '/e'); s.readdirs(20, 5); s.closedir(20)
    after(s, 2); scen.append(s)
    s = start('tell', predir=0)
    s.thread(1); s.opendir(10, 0, '/d'); s.readdirs(10, 2); s.telldir(10, 10); s.readdirs(10, 3); s.seekdir(10, 10); s.readdirs(10, 9); s.closedir(10)
    s.thread(2); s.opendir(20, 0, '/d'); s.readdirs(20, 1); s.rewinddir(20); s.readdirs(20, 9); s.dirfd(20); s.closedir(20)
    after(s, 2); scen.append(s)
    # failing calls
    s = start('fails', pre=1)
    s.thread(1); s.open(10, 0, '/none'); s.open(10, 0, '/f1'); s.readn(-1, 5); s.close(10)
    s.thread(2); s.opendir(20, 0, '/f1'); s.open(20, 0, '/loop'); s.open(20, 0, '/f3'); s.closen(500); s.fstat(20); s.lseekn(-2, 0, 0)
    after(s, 2); scen.append(s)
    # scanning opens and closes a stream of its own
    s = start('scan', pre=1)
    s.thread(1); s.scandir(0, '/d', 0, 1); s.open(10, 0, '/f1'); s.scandir(0, '/e')
    s.thread(2); s.open(20, 0, '/f2'); s.close(20); s.scandir(0, '/f1'); s.open(21, 0, '/s'); s.read(21, 5)
    after(s, 2); scen.append(s)
    for j in range(5 if c.quick else 60):
        n = 2 if j % 3 else 3
        s = start('rnd%d' % j, pre=r.randrange(0, 3))
        for t in range(1, n + 1):
            s.thread(t)
            thread_ops(r, s, t, r.randrange(4, 9) if n == 2 else r.randrange(2, 5), files, dirs)
        after(s, n); scen.append(s)
    scen += fd_programs(c, r, start)
    small_world(c, 'FdTable', live=True, broken=['closefirst', 'nogrow', 'unlockedget', 'noend', 'nofree'])
    add_conc(c, 'fd', [im], scen, 1200 if c.quick else 30000, 900 if c.quick else 40000, 250 if c.quick else 3000)


def share_image(r, bad=False):
    """more data, fragment, metadata and index blocks than the caches hold"""
    bs = 4096
    root = zoo.D()
    for i in range(7):
        f = zoo.reg(bs * 3 + 3000, 20 + i, comp=['always', 'never', 'mix'][i % 3], frag=True, holes=[(bs, 2 * bs)] if i == 3 else ())
        if bad and i in (2, 5):
            f.badblocks = (1,) if i == 2 else ('frag',)
        root.add('f%d' % i, f)
    for i in range(6):
        d = root.add('d%d' % i, zoo.D(ext=i % 2 == 1))
        for j in range(30):
            nm = b'n%02d' % j + b'y' * 220
            d.add(nm, [lambda: zoo.reg(5 * j, j, frag=True), lambda: zoo.L('../f%d' % (j % 7)), zoo.D, lambda: zoo.Node('fifo')][j % 4]())
        d.add('long', zoo.L(b'q' * 3000))
        d.add('up', zoo.L('../d%d/n01' % ((i + 1) % 6) + 'y' * 220))
    b = zoo.Builder(root, bs, meta='always' if bad else 'mix', seed=r.randrange(1 << 30), shuffle_inodes=True, hdr_max=20, idx_every=1500,
                    bad_meta=[('d', 1), ('i', 2)] if bad else [])
    return Image(b)


def index_image(r):
    bs = 4096
    root = zoo.D()
    for i in range(10):
        nb = 2050 + 7 * i
        root.add('b%d' % i, zoo.reg(nb * bs + 9, 40 + i, holes=[(bs, (2046 - i) * bs)], frag=True, comp='always'))
    return Image(zoo.Builder(root, bs, meta='always', seed=r.randrange(1 << 30)))


@check('C05')
def c05(c):
    r = c.rng('main')
    im, dam, idx = share_image(r), share_image(r, True), index_image(r)
    tin = zoo.tiny(r)
    name = lambda i, j: b'/d%d/n%02d' % (i, j) + b'y' * 220
    scen = []

    def start(nm, i=0, files=(), nthr=2):
        s = conc.Scenario(nm)
        s.setup()
        s.img(0, i)
        for k, p in enumerate(files):
            s.open(k, 0, p)
        return s

    def add(tag, ims, s, done=True):
        after(s, 0)
        scen.append((tag, ims, s))
    # one cached data block, wanted by both
    s = start('data', files=['/f0', '/f1', '/f0', '/f2'])
    s.thread(1); s.read(0, 100); s.lseek(0, 4090, 0); s.read(0, 100); s.lseek(0, 0, 0); s.read(0, 50); s.read(1, 10)
    s.thread(2); s.read(2, 4000); s.lseek(2, 8192, 0); s.read(2, 60); s.lseek(3, 4096, 0); s.read(3, 60)
    add('a', [im], s)
    s = start('stored', files=['/f1', '/f4', '/f1', '/f3'])
    s.thread(1); s.read(0, 5000); s.read(1, 3000); s.read(1, 3000)
    s.thread(2); s.read(2, 100); s.lseek(3, 4000, 0); s.read(3, 5000); s.read(2, 9000)
    add('a', [im], s)
    # fragments: more blocks than the cache keeps
    s = start('frag', files=['/f%d' % k for k in range(7)])
    s.read(0, 1)
    for k in range(7):
        s.lseek(k, 3 * 4096 + 10, 0)
    s.thread(1)
    for k in (0, 1, 2):
        s.read(k, 50)
    s.lseek(0, 12290, 0); s.read(0, 700)
    s.thread(2)
    for k in (3, 4, 5, 6):
        s.read(k, 50)
    add('a', [im], s)
    # inode and directory blocks
    for q in range(2 if c.quick else 12):
        s = start('meta%d' % q)
        for t in (1, 2):
            s.thread(t)
            for _ in range(4):
                p = name(r.randrange(6), r.randrange(30))
                r.choice([s.stat, s.lstat])(0, p if r.random() < .8 else p + b'z')
        add('a', [im], s)
    s = start('dirs')
    s.thread(1); s.opendir(10, 0, '/d0'); s.readdirs(10, 20); s.readdirs(10, 30)
    s.thread(2); s.opendir(20, 0, '/d3'); s.readdirs(20, 5); s.stat(0, name(5, 3)); s.readdirs(20, 40); s.scandir(0, '/d1', 0, 1)
    add('a', [im], s)
    s = start('links')
    s.thread(1); s.readlink(0, '/d0/long', 4000); s.stat(0, '/d1/up'); s.readlink(0, '/d2/up', 300)
    s.thread(2); s.readlink(0, '/d3/long', 4000); s.readlink(0, '/d4/up', 10); s.stat(0, '/d5/up'); s.lstat(0, '/d5/up')
    add('a', [im], s)
    s = start('walk')
    s.thread(1); s.topen(10, 0, '/d2')
    for _ in range(9): s.tnext(10)
    s.tclose(10)
    s.thread(2); s.export(0, 5); s.export(0, 60); s.idget(0, 0); s.owner(0, name(4, 4)); s.dopen(20, 0, '/d1', 0)
    for _ in range(6): s.dnext(20)
    add('a', [im], s)
    # entries of the tables while the blocks they are in leave the cache
    for q in range(1 if c.quick else 6):
        s = start('tables%d' % q, files=['/f3'])
        s.lseek(0, 3 * 4096 + 10, 0)
        s.thread(1)
        for x in r.sample([lambda: s.export(0, r.randrange(1, 150)), lambda: s.idget(0, 0), lambda: s.read(0, 50), lambda: s.owner(0, '/f1')], 3):
            x()
        s.thread(2)
        for i in r.sample(range(6), 6):
            s.readlink(0, b'/d%d/long' % i, 4000)
            s.stat(0, name(i, 29))
        add('a', [im], s)
    # several images at once, opened and closed beside one another
    s = start('images', files=['/f0'])
    s.img(1, 1)
    s.thread(1); s.read(0, 40); s.stat(1, '/d/e3'); s.lseek(0, 9000, 0); s.read(0, 40)
    s.thread(2); s.img(2, 1); s.stat(2, '/ld/e1'); s.open(20, 2, '/b'); s.read(20, 30); s.close(20); s.imgclose(2); s.stat(0, '/f3')
    add('two', [im, tin], s)
    # index slots: eight files' indexes are kept
    s = start('index', files=['/b%d' % k for k in range(10)])
    for k in range(8):
        s.lseek(k, 2048 * 4096, 0); s.read(k, 5)
    for k in range(10):
        s.lseek(k, 2047 * 4096 + 10, 0)
    s.thread(1); s.read(0, 50); s.read(1, 50); s.read(0, 40)
    s.thread(2); s.read(8, 50); s.read(9, 50)
    add('idx', [idx], s)
    # blocks that cannot be decoded fail for their users only
    s = start('bad', files=['/f0', '/f2', '/f5', '/f2'])
    s.lseek(1, 4000, 0); s.lseek(2, 3 * 4096, 0); s.lseek(3, 4096, 0)
    s.thread(1); s.read(0, 50); s.read(1, 50); s.read(1, 300); s.read(0, 5000)
    s.thread(2); s.read(2, 10); s.read(3, 10); s.read(3, 10); s.read(2, 10)
    add('bad', [dam], s)
    s = start('badmeta')
    s.thread(1); s.stat(0, name(1, 3)); s.stat(0, name(2, 3)); s.scandir(0, '/d1')
    s.thread(2); s.stat(0, name(3, 3)); s.stat(0, name(1, 4)); s.stat(0, name(5, 20))
    add('bad', [dam], s)

    def ops(s, t, n, im, ps):
        b = 10 * t
        op = {}
        for _ in range(n):
            p, nd = r.choice(ps)
            x = r.random()
            if x < .3:
                i = b + r.randrange(3)
                if i in op:
                    s.close(i)
                q, f = r.choice([y for y in ps if y[1].kind == 'reg'])
                s.open(i, 0, q); op[i] = f
                s.lseek(i, pos(r, f, 4096), 0); s.read(i, r.choice([1, 100, 4096, 5000]))
            elif x < .5 and op:
                i = r.choice(list(op))
                s.read(i, r.choice([1, 100, 4096]))
            elif nd.kind == 'dir':
                r.choice([lambda: s.scandir(0, p, r.choice([0, 1, 3]), r.choice([0, 1, 2])),
                          lambda: (s.opendir(b + 5, 0, p), s.readdirs(b + 5, r.choice([1, 7, -1])), s.closedir(b + 5))])()
            elif nd.kind == 'lnk':
                r.choice([lambda: s.readlink(0, p, 4000), lambda: s.stat(0, p), lambda: s.lstat(0, p)])()
            else:
                r.choice([lambda: s.stat(0, p), lambda: s.lstat(0, p + b'/..'), lambda: s.rr(0, p, 0, 100) if nd.kind == 'reg' else s.stat(0, p + b'/')])()
        for i in op:
            s.close(i)
    for j in range(6 if c.quick else 80):
        m = [im, dam, im][j % 3]
        n = 3 if j % 4 == 3 else 2
        ps = zoo.all_paths(m)
        ps = r.sample(ps, 60) + [x for x in ps if x[0].count(b'/') == 1]
        s = start('rnd%d' % j)
        for t in range(1, n + 1):
            s.thread(t)
            ops(s, t, r.randrange(2, 6) if n == 2 else r.randrange(2, 4), m, ps)
        add('rnd', [m], s)
    for i, (tag, ims, s) in enumerate(scen):
        add_conc(c, '%s-%s' % (tag, s.name), ims, [s], 1000 if c.quick else 30000, 700 if c.quick else 40000, 200 if c.quick else 3000)


# ------------------------------------------------------------------ C19
@check('C19')
def c19(c):
    r = c.rng('main')
    for k in range(10 if c.quick else 150):
        im, ot = sample.img_tree(r), sample.os_tree(r)
        ss = []
        for j in range(6):
            s = sample.session('s%d' % j, im)
            g = sample.Gen(r, im, ot, s)
            for i in range(90):
                g.step()
                if r.random() < .03:
                    g.fdopen()
                if r.random() < .04:
                    g.stream()
            s.quiesce()
            ss.append(s)
        sample.add(c, 'mix%d' % k, im, ot, ss)
    # allocations that fail, somewhere in the middle
    for k in range(4 if c.quick else 40):
        im, ot = sample.img_tree(r), sample.os_tree(r)
        ss = []
        for j in range(12):
            s = sample.session('f%d' % j, im)
            g = sample.Gen(r, im, ot, s)
            for i in range(30):
                if r.random() < .3:
                    s.fail(r.choice(['alloc', 'alloc', 'dup']), r.choice([1, 1, 2, 3, 4, 6]))
                n = len(s.ops)
                if r.random() < .1:
                    g.fdopen(r.choice([0, 1, 1, 2, 3, 4, 5, 6]))
                g.step()
                # where it failed the guess about the current directory may be wrong: go to a known one
                if any(x[0].startswith('echdir') for x in s.ops[n:]):
                    s.fail('alloc', 0)
                    s.echdir(('os', b'/d'))
                    g.icwd, g.ostk = None, sample.resolve(ot.root, [(b'', ot.root)], [b'd'])[0]
            s.fail('alloc', 0)
            s.quiesce()
            ss.append(s)
        sample.add(c, 'fault%d' % k, im, ot, ss)
    B = sample.behaviours
    q = c.quick
    c.later.append(lambda: B(c, 'cd', ['chdir', 'getcwd'], sample.SMALL, 3, cap=None if not q else 1500, per=30))
    c.later.append(lambda: B(c, 'cdo', ['chdir', 'open'], sample.SMALL, 2, per=30))
    c.later.append(lambda: B(c, 'cdp', ['chdir', 'path', 'stat', 'lstat', 'readlink', 'access', 'scandir', 'if', 'exec', 'ifextract'], sample.SMALL, 2, per=30, cap=2500 if q else None))
    c.later.append(lambda: B(c, 'long', ['chdir', 'getcwd', 'open', 'close', 'read', 'pread', 'readv', 'lseek', 'fstat', 'opendir', 'fdopendir', 'readdirs', 'closedir', 'path', 'stat', 'access', 'exec'],
                             sample.SMALL, 25, nsim=60 if q else 600, maxfd=8, maxstreams=4))


# ------------------------------------------------------------------ C20
@check('C20')
def c20(c):
    r = c.rng('main')
    for k in range(8 if c.quick else 120):
        bs = r.choice([4096, 4096, 8192, 131072])
        im, ot, files = sample.io_trees(r, bs, bad=k % 4 == 3)
        ss = []
        for j in range(6):
            s = sample.session('r%d' % j, im)
            sample.io_history(r, s, files, bs, 110, faults=j == 5)
            s.quiesce()
            ss.append(s)
        sample.add(c, 'io%d' % k, im, ot, ss)
    B = sample.behaviours
    q = c.quick
    P = [('img', sample.MOUNT + b'/a'), ('os', b'/a')]
    c.later.append(lambda: B(c, 'io', ['open', 'pread', 'readv', 'lseek', 'read'], P, 3, per=20, maxfd=1, cap=3000 if q else None))
    c.later.append(lambda: B(c, 'iolong', ['open', 'close', 'pread', 'readv', 'lseek', 'read', 'fstat'], P + [('img', sample.MOUNT + b'/d'), ('os', b'/d')], 30, nsim=60 if q else 800, maxfd=5))


# ------------------------------------------------------------------ C23
import shadow


@check('C23')
def c23(c):
    q = c.quick
    shadow.histories(c, 8 if q else 120, 8, 70)
    shadow.histories(c, 2 if q else 30, 8, 40, fault=True)
    shadow.faults(c, 10)
    shadow.probes(c)
    B = shadow.behaviours
    c.later.append(lambda: B(c, 'mk', ['mkdir', 'open'], 2, cap=1500 if q else None))
    c.later.append(lambda: B(c, 'mkl', ['mkdir', 'open', 'opendir', 'readdirs', 'path', 'list', 'stat'], 3, cap=1200 if q else 20000, paths=shadow.SMALL[:4]))
    c.later.append(lambda: B(c, 'mkc', ['mkdir', 'open', 'chdir'], 3, cap=1200 if q else 20000, paths=[shadow.SMALL[i] for i in (0, 2, 4, 7, 8)]))
    c.later.append(lambda: B(c, 'io', ['open', 'write', 'read', 'lseek'], 3, cap=1200 if q else 20000, paths=[shadow.SMALL[0], shadow.SMALL[3]]))
    c.later.append(lambda: B(c, 'long', ['mkdir', 'open', 'close', 'write', 'read', 'lseek', 'chdir', 'opendir', 'readdirs', 'rewinddir', 'closedir', 'path', 'stat', 'lstat', 'access', 'readlink', 'scandir', 'list'],
                             25, nsim=60 if q else 1000, maxfd=6, maxstreams=3))
