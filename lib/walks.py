"""Replaying the small worlds of BlockWalk, DirWalk and TreeWalk on the real code."""
import json, re
import conf, mksq
from conf import Session, Image
from mksq import D, L, Node, Builder, reg


def printed(c, module, cfg, tag):
    """the initial states TLC prints"""
    w = c.work.sub('g')
    try:
        rc, out, st, secs = conf.tlc(w, module, cfg, workers='2', timeout=600)
    finally:
        w.close()
    if rc != 0:
        raise conf.Infra('%s: TLC ended with %d\n%s' % (module, rc, out[-1500:]))
    res = [json.loads(json.loads(m)) for m in re.findall(r'<<"%s", (".*")>>' % tag, out)]
    if not res:
        raise conf.Infra('%s printed nothing' % cfg)
    res.sort(key=lambda x: json.dumps(x, sort_keys=True))
    c.states += st[1]
    c.trans += st[0]
    return res


def note(c, tag, n, total):
    c.notes.setdefault('small_worlds', []).append(dict(world=tag, of=total, replayed=n))


# ------------------------------------------------------------------ files
def block_images(c, r, kinds='schx', per=110, cap=None):
    """every layout of up to three blocks -> (image, [(path, node, layout)])"""
    ls = [l for l in printed(c, 'BlockWalk', 'BlockWalk_gen.cfg', 'LAYOUT') if set(l['kinds']) <= set(kinds) and (l['frag'] != 'bad' or 'x' in kinds)]
    total = len(ls)
    if cap and len(ls) > cap:
        ls = r.sample(ls, cap)
    note(c, 'BlockWalk', len(ls), total)
    out = []
    for k in range(0, len(ls), per):
        bs = r.choice([4096, 4096, 8192])
        root = D()
        root.add('zz', reg(5, 1))
        fs = []
        for j, l in enumerate(ls[k:k + per]):
            full, tail = l['size'] // 2, l['size'] % 2
            t = r.choice([1, 2, 7, bs // 2, bs - 1]) if tail else 0
            size = full * bs + t
            kd = l['kinds']
            n = reg(size, r.randrange(255), holes=[(i * bs, min(size, (i + 1) * bs)) for i, x in enumerate(kd) if x == 'h'], off=r.randrange(1 << 18),
                    comp=[{'s': 'never', 'c': 'always'}.get(x, 'mix') for x in kd] or 'mix', frag=l['frag'] != 'no', ext=r.random() < .3)
            n.badblocks = tuple([i for i, x in enumerate(kd) if x == 'x'] + (['frag'] if l['frag'] == 'bad' else []))
            nm = '%s%03d' % ({'no': 'n', 'ok': 'k', 'bad': 'x'}[l['frag']], j)
            root.add(nm, n)
            fs.append((('/' + nm).encode(), n, l))
        out.append((Image(Builder(root, bs, meta='mix', seed=r.randrange(1 << 30))), fs))
    return out


def block_reads(c, r, tag, kinds='schx', cap=None, positions=None):
    """every range of every layout, cut at cells give or take a byte"""
    for k, (im, fs) in enumerate(block_images(c, r, kinds, cap=cap)):
        bs = im.builder.bs
        ss = []
        for j in range(0, len(fs), 20):
            s = Session('%s%d' % (tag, j), warm=(0, b'/zz'))
            s.img(0, 0)
            for p, n, l in fs[j:j + 20]:
                cells = [i * bs // 2 for i in range(l['size'] + 2)]
                rs = [(a, b) for a in cells for b in cells[1:] + [cells[-1] + bs // 2]]
                if positions and len(rs) > positions:
                    rs = r.sample(rs, positions)
                s.open(0, 0, p)
                for a, b in rs:
                    a = max(0, a + r.choice([-1, 0, 0, 1]))
                    b = max(1, b + r.choice([-1, 0, 0, 1]))
                    if r.random() < .5:
                        s.rr(0, p, a, b)
                    else:
                        s.lseek(0, a, 0)
                        s.read(0, b)
                        if r.random() < .3:
                            s.read(0, r.choice([1, bs, b]))
                s.close(0)
            s.quiesce()
            ss.append(s)
        c.split('%s%d' % (tag, k), [im], ss, 2)


def index_files(c, r, tag, cap):
    """BlockWalk's layouts with an index: an entry of the model's list is 1024 real ones, a unit is 2048 bytes"""
    ls = printed(c, 'BlockWalk', 'BlockWalk_gen2.cfg', 'LAYOUT')
    ls = [l for l in ls if l['size'] >= 3]
    total = len(ls)
    ls = r.sample(ls, min(cap, len(ls)))
    note(c, 'BlockWalk index', len(ls), total)
    bs = 4096
    for k in range(0, len(ls), 12):
        part = ls[k:k + 12]
        root = D()
        root.add('zz', reg(5, 1))
        fs = []
        for j, l in enumerate(part):
            full, tail = l['size'] // 2, l['size'] % 2
            nb = full * 1024 + r.choice([-1, 0, 0, 1])
            size = nb * bs + (r.choice([1, 100, bs - 1]) if tail else 0)
            holes, a = [], 0
            for i in range(0, nb + 1, 1024):        # what is kept of each run: a few blocks, or none
                kind = l['kinds'][i // 1024] if i // 1024 < len(l['kinds']) else 'c'
                keep = sorted({i, i + 1, i + 511, i + 1022, i + 1023}) if kind == 'c' else []
                for b in keep:
                    if b > nb:
                        break
                    if b * bs > a:
                        holes.append((a, b * bs))
                    a = (b + 1) * bs
            if a < size:
                holes.append((a, size))
            d = root.add('d%02d' % j, D())
            d.add('a', L('x'))                      # its length moves the file's inode
            n = d.add('f', reg(size, r.randrange(255), holes=holes, comp='always', frag=l['frag'] != 'no', ext=r.random() < .4))
            fs.append((('/d%02d/f' % j).encode(), n, l))
        mk = dict(bs=bs, meta='always', seed=r.randrange(1 << 30))
        Builder(root, **mk).build()
        moved = 0
        for p, n, l in fs:                          # where the block list of each is to begin
            want = (l['off'] * 2048 + r.choice([0, 0, 1, 2, 3, 4, 2044, 2045, 2047])) % 8192
            d = (want - n._i1 - moved) % 8192
            moved += d
            root.ents[p[1:4]].ents[b'a'].target = b't' * (1 + d)
        root2 = root
        im = Image(Builder(root2, **mk))
        for p, n, l in fs:
            n.at = n._i1 % 8192
        s = Session('%s%d' % (tag, k), warm=(0, b'/zz'))
        s.img(0, 0)
        todo = []
        for i, (p, n, l) in enumerate(fs):
            nb = n.size() // bs
            md = [((8192 * m - n.at) // 4) for m in range(1, 7)]
            marks = {0, 1, 511, 1023, 1024, 2047, 2048, nb - 1, nb} | {x + y for x in md for y in (-1, 0, 1)}
            marks = [x for x in marks if 0 <= x <= nb]
            for x in r.sample(marks, min(14, len(marks))):
                todo.append((i, max(0, x * bs + r.choice([-1, 0, 5, bs // 2])), r.choice([1, 10, bs, 2 * bs + 1, 5 * bs])))
        r.shuffle(todo)
        for i, (p, n, l) in enumerate(fs):
            s.open(i, 0, p)
        for i, a, b in todo:
            s.lseek(i, a, 0)
            s.read(i, b)
            if r.random() < .2:
                s.rr(0, fs[i][0], a, b)
        s.quiesce()
        c.add('%s%d' % (tag, k // 12), [im], [s])


# ------------------------------------------------------------------ directories
NAMES = [b'a', b'aa', b'ab', b'b', b'ba', b'\xc8']      # DirWalk's six


def dir_images(c, r, cap=None, per=190):
    ds = printed(c, 'DirWalk', 'DirWalk_gen.cfg', 'DIR')
    total = len(ds)
    if cap and len(ds) > cap:
        ds = r.sample(ds, cap)
    note(c, 'DirWalk', len(ds), total)
    out = []
    for k in range(0, len(ds), per):
        root = D()
        root.add('zz', reg(5, 1))
        top = []
        for j, x in enumerate(ds[k:k + per]):
            d = D(ext=bool(x['ix']) or r.random() < .2)
            d.groups = ({h - 1 for h in x['hd']}, {h - 1 for h in x['ix']})
            for u in x['ents']:
                kind = r.choice(['fifo', 'reg', 'sock', 'dir'])
                d.add(NAMES[u - 1], Node(kind) if kind != 'dir' else D())
            nm = b'd%03d' % j
            root.add(nm, d)
            top.append((b'/' + nm, d))
        out.append((Image(Builder(root, 4096, meta='mix', seed=r.randrange(1 << 30), shuffle_inodes=r.random() < .5)), top))
    return out


def dir_lookups(c, r, tag, cap=None):
    for k, (im, top) in enumerate(dir_images(c, r, cap)):
        s = Session('%s%d' % (tag, k), warm=(0, b'/zz'))
        s.img(0, 0)
        for p, d in top:
            for nm in r.sample(NAMES, 6):
                s.lstat(0, p + b'/' + nm)
            s.lstat(0, p + b'/' + r.choice([b'A', b'aaa', b'abb', b'b\x01', b'bb', b'\xc7', b'\xc8\xff', b'\x01']))
        s.quiesce()
        c.add('%s%d' % (tag, k), [im], [s])


def dir_cursors(c, r, tag, cap=None):
    for k, (im, top) in enumerate(dir_images(c, r, cap)):
        s = Session('%s%d' % (tag, k), warm=(0, b'/zz'))
        s.img(0, 0)
        for p, d in top:
            ends = [d._next[x] for x in sorted(d.ents)]
            offs = [0] + ends
            odd = {x + y for x in offs for y in (-1, 1, 12)} | {12, 20, ends[-1] + 2 if ends else 3}
            for o in offs:
                s.dopen(0, 0, p, o)
                for _ in range(len([e for e in ends if e > o]) + 1):
                    s.dnext(0)
            for o in r.sample(sorted(x for x in odd if x > 0 and x not in offs), 3):
                s.dopen(0, 0, p, o)
        s.quiesce()
        c.add('%s%d' % (tag, k), [im], [s])


def dir_streams(c, r, tag, cap=None):
    for k, (im, top) in enumerate(dir_images(c, r, cap)):
        s = Session('%s%d' % (tag, k), warm=(0, b'/zz'))
        s.img(0, 0)
        for p, d in top:
            n = len(d.ents)
            s.opendir(0, 0, p)
            t = list(range(n + 1))
            for i in range(n + 1):
                s.telldir(0, i)
                s.readdir(0)
            for i in r.sample(t, len(t)):
                s.seekdir(0, i)
                s.readdirs(0, r.choice([1, 2, -1]))
            s.closedir(0)
            s.scandir(0, p, r.choice([0, 1, 3]), r.choice([0, 1, 2]))
        s.quiesce()
        c.add('%s%d' % (tag, k), [im], [s])


# ------------------------------------------------------------------ trees
def tree_walks(c, r, tag, cap=None, per=400):
    ts = printed(c, 'TreeWalk', 'TreeWalk_gen.cfg', 'TREE')
    total = len(ts)
    if cap and len(ts) > cap:
        ts = r.sample(ts, cap)
    note(c, 'TreeWalk', len(ts), total)
    for k in range(0, len(ts), per):
        part = ts[k:k + per]
        root = D()
        root.add('zz', reg(5, 1))
        shapes = {}
        s = Session('%s%d' % (tag, k), warm=(0, b'/zz'))
        s.img(0, 0)
        for x in part:
            key = json.dumps(x['tree'])
            if key not in shapes:
                nm = b's%04d' % len(shapes)
                nodes = [root.add(nm, D())]
                for i, y in enumerate(x['tree'][1:], 2):
                    name = bytes([96 + i]) * (1 + i % 3) if r.random() < .7 else bytes([96 + i]) * r.choice([15, 31, 32, 200, 255])
                    nodes.append(nodes[y['up'] - 1].add(name, D() if y['dir'] else Node(r.choice(['fifo', 'reg']))))
                shapes[key] = (b'/' + nm, nodes)
            p, nodes = shapes[key]
            cuts = {id(nodes[i - 1]) for i in x['cuts']}
            s.topen(0, 0, p)

            def go(d):
                for nm in sorted(d.ents):
                    e = d.ents[nm]
                    s.tnext(0)
                    if id(e) in cuts:
                        s.tprune(0)
                        if r.random() < .2:
                            s.tprune(0)
                    elif e.kind == 'dir':
                        go(e)
                        s.tnext(0)
                        if r.random() < .1:
                            s.tprune(0)             # the end of a directory: nothing to skip
                    elif r.random() < .1:
                        s.tprune(0)
            go(nodes[0])
            s.tnext(0)
            if r.random() < .3:
                s.tprune(0) if r.random() < .5 else None
                s.tnext(0)
            s.tclose(0)
        s.quiesce()
        c.add('%s%d' % (tag, k // per), [Image(Builder(root, 4096, meta='mix', seed=r.randrange(1 << 30)))], [s])


# ------------------------------------------------------------------ caches
def rings(n, k, pre=()):
    """request sequences of length n over k blocks, up to renaming the blocks"""
    if len(pre) == n:
        yield pre
        return
    m = max(pre, default=-1) + 1
    for x in range(min(m + 1, k)):
        yield from rings(n, k, pre + (x,))


def cache_rings(c, r, tag, cap, fails=False):
    """BlockCache's request sequences on each cache: data (1 block), fragments (3), metadata and indexes (8)"""
    bs = 4096
    root = D()
    root.add('zz', reg(5, 1))
    for i in range(6):
        root.add('t%d' % i, reg(3000, 20 + i, frag=True, comp='always'))          # a fragment block each
        root.add('w%d' % i, reg(2 * bs, 40 + i, frag=False, comp=r.choice(['always', 'never'])))
    nm = 2100
    for i in range(10):
        root.add('x%d' % i, reg((nm + i) * bs, 60 + i, holes=[(bs, 2049 * bs)], frag=False, comp='always', off=i * 90000))
        root.add('l%d' % i, L(b'%d' % i * 4090))
    im = Image(Builder(root, bs, meta='always', seed=r.randrange(1 << 30)))
    kinds = [('t', 6, 7, 'read'), ('w', 3, 6, 'read'), ('x', 10, 12, 'far'), ('l', 10, 12, 'link')]
    for pre, k, n, how in kinds:
        if n <= 7:
            seqs = list(rings(n, k))
            total = len(seqs)
            seqs = r.sample(seqs, min(cap, total))
        else:                        # too many: draw them, favouring what was asked for k or so requests ago
            seqs, total = [], 'drawn'
            for _ in range(cap // 4):
                q = []
                for _ in range(n):
                    q.append(r.choice(q[-9:]) if q and r.random() < .4 else r.randrange(k))
                seqs.append(tuple(q))
        note(c, 'BlockCache on ' + pre, len(seqs), total)
        for j in range(0, len(seqs), 60):
            s = Session('%s%s%d' % (tag, pre, j), warm=(0, b'/zz'))

            def up():
                s.img(0, 0)
                if how != 'link':
                    for i in range(k):
                        s.open(i, 0, '/%s%d' % (pre, i))
            up()
            for q in seqs[j:j + 60]:
                if r.random() < .3:
                    if how != 'link':
                        for i in range(k):
                            s.close(i)
                    s.imgclose(0)
                    up()
                ren = r.sample(range(k), k)
                for x in q:
                    x = ren[x]
                    hurt = fails and r.random() < .3
                    if how == 'link':
                        if hurt:
                            s.fail('unc', r.choice([1, 1, 2, 3]))
                        s.readlink(0, '/l%d' % x, r.choice([10, 4095, 5000]))
                        continue
                    p = r.choice([0, 100, 2900]) if how == 'read' else r.choice([2049, 2060, nm - 1]) * bs + r.choice([0, 9])
                    if how == 'read' and pre == 'w':
                        p += r.choice([0, bs])
                    s.lseek(x, p, 0)
                    if hurt:
                        s.fail('unc', r.choice([1, 1, 1, 2]))
                    s.read(x, r.choice([1, 90]))
            s.quiesce()
            c.split('%s%s%d' % (tag, pre, j), [im], [s], 1)
