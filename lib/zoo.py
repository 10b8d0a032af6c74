"""Families of images.  Every function takes a random.Random and returns conf.Image objects."""
from mksq import Node, D, L, reg, Builder
from conf import Image

LONG = b'n' * 255


def pad_links(r, d, k=0):
    """symlinks whose inodes have odd lengths, so that what follows them in the inode table is not aligned"""
    for i in range(r.choice([1, 2, 3])):
        d.add(('a%d' if r.random() < .5 else 'm%d') % (k * 10 + i) + 'zz', L('t' * r.randrange(1, 40)))


def pick_size(r, bs):
    k = r.randrange(10)
    if k == 0:
        return r.choice([0, 1, 2, bs - 1, bs, bs + 1])
    if k < 4:
        return max(0, r.randrange(1, 6) * bs + r.choice([-1, 0, 1]))
    if k < 8:
        return r.randrange(0, 12 * bs)
    return r.randrange(0, 3 * bs)


def pick_holes(r, size, bs):
    out = []
    p = 0
    for _ in range(r.randrange(0, 4)):
        if p >= size:
            break
        a = r.randrange(p, size)
        if r.random() < .6:
            a = a // bs * bs
        ln = r.choice([1, bs // 2, bs, 2 * bs, 3 * bs, r.randrange(1, 4 * bs)])
        b = min(size, a + ln)
        if a >= p and b > a:
            out.append((a, b))
            p = b + r.randrange(1, bs)
    return out


def rfile(r, bs, s, size=None, **kw):
    size = pick_size(r, bs) if size is None else size
    kw.setdefault('comp', r.choice(['always', 'never', 'mix']))
    kw.setdefault('frag', r.random() < .7)
    kw.setdefault('ext', r.random() < .4)
    return reg(size, s, holes=pick_holes(r, size, bs) if r.random() < .6 else (), off=r.randrange(0, 1 << 18), **kw)


def content(r, nfiles=14, bs=None):
    """files of every shape of block list"""
    bs = bs or r.choice([4096, 4096, 8192, 16384, 131072])
    root = D()
    for i in range(nfiles):
        root.add('f%d' % i, rfile(r, bs, r.randrange(255)))
    # one fragment block shared by several tails, and tails alone in theirs
    for i in range(4):
        root.add('t%d' % i, reg(bs + r.randrange(1, bs // 3), r.randrange(255), frag=True))
    d = root.add('d', D())
    d.add('l', L('../f0'))
    d.add('same', root.ents[b'f1'])            # a hard link
    pad_links(r, d)
    return Image(Builder(root, bs, meta=r.choice(['always', 'never', 'mix']), seed=r.randrange(1 << 30)))


def huge(r, bs=4096):
    """block lists long enough for the block index and for several metadata blocks; > 4 GiB"""
    root = D()
    G = 1 << 30
    nb = r.choice([2048, 4096, 2049, 6000])
    size = nb * bs + r.choice([0, 1, 100])
    # data islands in a sea of zeros, with islands at the index boundaries
    for name, size in (('a', size), ('b', 5000 * bs + 17)):
        holes = []
        p = 0
        marks = sorted(set([r.randrange(0, size // bs) for _ in range(6)] + [k * 2048 + d for k in range(0, 4) for d in (-1, 0, 1)]))
        for m in marks:
            a, b = m * bs, (m + 1) * bs
            if a < p or b > size:
                continue
            if a > p:
                holes.append((p, a))
            p = b
        if p < size // bs * bs:
            holes.append((p, size // bs * bs))
        root.add(name, reg(size, r.randrange(255), holes=holes, frag=r.random() < .5))
    # more than 2^32 bytes: zeros in 1 MiB blocks
    bs2 = bs
    root.add('plain', reg(2100 * bs + 5, r.randrange(255), frag=True))
    pad_links(r, root)
    return Image(Builder(root, bs2, meta=r.choice(['always', 'mix']), seed=r.randrange(1 << 30)))


def giant(r):
    """more than 2^32 bytes of content, mostly zeros"""
    bs = 1 << 20
    root = D()
    size = (7 << 30) + r.choice([1, 12345, bs + 1])     # an index entry stands for more than 2^32 bytes
    holes = [(bs, (2 << 30) - bs), (2 << 30, (4 << 30) - bs), (4 << 30, (7 << 30) - 2 * bs)]
    root.add('g', reg(size, 7, holes=holes, frag=r.random() < .5))
    root.add('s', reg(10, 8))
    pad_links(r, root)
    return Image(Builder(root, bs, seed=r.randrange(1 << 30)))


def far(r):
    """an image of some tens of GiB, mostly gaps: blocks whose positions differ by powers of two only"""
    bs = 4096
    root = D()
    at = {}
    bases = [0, 1 << 24, 1 << 31, 1 << 32, 3 << 32]
    for g, b in enumerate(bases):
        if b == 1 << 32:
            root.add('%d' % g, reg(5 * bs - 10, r.randrange(255), comp='never', frag=False, at=b - 2 * bs - 100))
        for k in range(1, 4):
            root.add('%dk%d' % (g, k), reg([3 * bs + 5, 2 * bs, 700][k - 1], 20 * g + k, comp=r.choice(['never', 'never', 'always']), frag=False,
                                           at=b + (k << 16), ext=r.random() < .5, off=r.randrange(1 << 18)))
        root.add('%dt0' % g, reg(2900, 20 * g + 10, frag=True))
        root.add('%dt1' % g, reg(bs + 2800, 20 * g + 11, frag=True))
        at[2 * g] = b + (8 << 16)
        pad_links(r, root, g)
    marks = [(0, 3), (2040, 2060), (2100, 2103)]
    holes = [(a * bs, b * bs) for a, b in zip([m[1] for m in marks], [m[0] for m in marks[1:]])]
    root.add('zi', reg(2103 * bs, r.randrange(255), holes=holes, frag=False, at=5 << 32))
    d = root.add('zz', D())
    for i in range(300):
        d.add('e%03d' % i, L('../%d' % i) if i % 3 else reg(i, i % 255))
    for k, t in enumerate(['i', 'd', 'frag', 'export', 'id']):
        at[t] = (6 + k) << 32
    return Image(Builder(root, bs, meta=r.choice(['never', 'mix']), at=at, seed=r.randrange(1 << 30)), offset=r.choice([0, 4096]))


def many(r, n=2300):
    """tables of several blocks: each small file has a fragment block to itself, owners from thousands"""
    bs = 4096
    root = D()
    for i in range(n):
        d = root.ents.get(b'd%d' % (i // 500)) or root.add('d%d' % (i // 500), D())
        d.add('f%d' % i, reg(bs // 2 + 1 + r.randrange(100), i % 255, frag=True, off=r.randrange(1 << 18), uid=r.randrange(5000), gid=r.randrange(5000)))
    ids = list(range(5000))
    r.shuffle(ids)
    return Image(Builder(root, bs, meta='mix', ids=ids, shuffle_inodes=True, seed=r.randrange(1 << 30)))


NAMES = [b'a', b'ab', b'abc', b'b', b'B', b'a.b', b'...', b'..a', b'a ', b'\xff\xfe', b'\xc3\xa9', b'-', b'~', b'%', b'a%2F', b'x' * 255, b'x' * 254,
         b'x' * 128, b'Z9', b'0', b'.hidden', b'\x01', b'a\nb', b'a\\b', b'"q"']


def names_tree(r, depth=3, meta=None):
    """strange names, shared prefixes, all types, several levels"""
    root = D(ext=r.random() < .3)
    types = ['reg', 'lnk', 'fifo', 'sock', 'chr', 'blk']

    def fill(d, lev):
        for nm in r.sample(NAMES, r.randrange(3, 12)):
            k = r.random()
            if k < .35 and lev < depth:
                c = d.add(nm, D(ext=r.random() < .3, mode=r.randrange(0o10000)))
                fill(c, lev + 1)
            else:
                d.add(nm, leaf(r, r.choice(types)))
    fill(root, 0)
    b = Builder(root, r.choice([4096, 131072]), meta=meta or r.choice(['always', 'never', 'mix']), seed=r.randrange(1 << 30), shuffle_inodes=r.random() < .7,
                hdr_max=r.choice([1, 2, 7, 256]), export=r.random() < .8, ids=[r.randrange(1 << 32) for _ in range(r.choice([1, 2, 5]))])
    return Image(b)


def leaf(r, k):
    m = r.randrange(0o10000)
    e = r.random() < .5
    if k == 'reg':
        n = reg(r.choice([0, 1, 100, 5000]), r.randrange(255), mode=m, ext=e)
    elif k == 'lnk':
        n = L('t' * r.choice([1, 2, 60, 255]), mode=m, ext=e)
    elif k in ('chr', 'blk'):
        n = Node(k, mode=m, ext=e, rdev=(r.randrange(1 << 12), r.randrange(1 << 20)), nlink=r.randrange(1, 1000))
    else:
        n = Node(k, mode=m, ext=e, nlink=r.randrange(1, 1000))
    return n


def types(r):
    root = D(mode=r.randrange(0o10000))
    i = 0
    for k in ('reg', 'lnk', 'fifo', 'sock', 'chr', 'blk'):
        for e in (False, True):
            for _ in range(3):
                n = leaf(r, k)
                n.ext = e
                if k in ('chr', 'blk'):
                    n.rdev = r.choice([(0, 0), (4095, 1048575), (1, 255), (8, 256), (255, 65536), (r.randrange(4096), r.randrange(1 << 20))])
                if k == 'reg' and e:
                    n.nlink = r.choice([1, 2, 65535, 70000])
                n.mtime = r.choice([None, None, 0, 1, 0x7fffffff, 0x80000000, 0xffffffff]) if not any(x.mtime is not None for x in root.ents.values()) else None
                root.add('%s%d' % (k, i), n)
                i += 1
    for e in (False, True):
        d = root.add('dir%d' % e, D(ext=e, mode=r.randrange(0o10000), nlink=r.choice([2, 3, 40000])))
        d.add('x', reg(3, 1))
    root.add('hard', root.ents[b'reg0'])
    root.add('tolink', L('reg0'))
    root.add('todir', L('dir1'))
    nid = r.choice([1, 3, 2049, 5000])
    ids = [r.randrange(1 << 32) for _ in range(min(nid, 65535))]
    for n in root.ents.values():
        n.uid, n.gid = r.randrange(len(ids)), r.randrange(len(ids))
    return Image(Builder(root, 4096, seed=r.randrange(1 << 30), shuffle_inodes=True, ids=ids, meta=r.choice(['always', 'mix'])))


def wide_dir(r, n=None, nlen=None, idx=True, extra=True, mixed=None, inode_base=1):
    """a directory whose listing covers many headers, metadata blocks and index entries"""
    root = D()
    d = root.add('w', D(ext=r.random() < .5))
    n = n or r.choice([0, 1, 255, 256, 257, 512, 900, 1300])
    w = nlen or r.choice([6, 30, 120])
    pres = [b'p' * (w - 6)]
    if mixed is None:
        mixed = r.random() < .6
    if mixed:
        # first bytes on both sides of 0x80: names are compared as unsigned bytes
        pres = [x.ljust(w - 6, x[-1:]) for x in r.sample([b'A', b'a', b'p', b'z', b'\x7f', b'\x80', b'\xc3\xa9', b'\xe2\x82', b'\xff'], 4)]
    pre = pres[0]
    for i in range(n):
        nm = pres[i * len(pres) // max(n, 1)] + b'%06d' % (i * 2)
        k = r.random()
        if k < .7:
            c = reg(0, 1) if k < .5 else reg(7, i % 255)
        elif k < .8:
            c = D()
        elif k < .9:
            c = L('x')
        else:
            c = Node('fifo')
        d.add(nm, c)
    if extra:
        root.add('e', D())
        root.add('z', reg(9, 9))
    b = Builder(root, 4096, meta=r.choice(['always', 'never', 'mix']), seed=r.randrange(1 << 30), shuffle_inodes=r.random() < .3,
                hdr_max=r.choice([3, 100, 256, 256]), idx_every=(r.choice([600, 2000, 8192]) if idx else 1 << 40),
                inode_base=inode_base, export=inode_base == 1)
    im = Image(b)
    im.pre = pre
    im.n = n
    return im


def prefix_dir(r):
    """names that begin with other names, with the start of an index part between them"""
    root = D()
    d = root.add('w', D(ext=True))
    stems = [b'%s%02d' % (c, i) for i in range(r.choice([8, 20])) for c in r.sample([b'a', b'm', b'\x80', b'Z'], 2)]
    for i, st in enumerate(stems):
        nm = st
        for j in range(r.choice([2, 5, 9])):
            if len(nm) > 255:
                break
            d.add(nm, r.choice([lambda: reg(i % 9, 1 + i), lambda: L('x'), lambda: Node('fifo'), D])())
            nm = nm + r.choice([b'a', b'b0', b'\xff', b'\x01', b'long' * r.choice([5, 20])])
    root.add('z', reg(9, 9))
    return Image(Builder(root, 4096, meta=r.choice(['always', 'never', 'mix']), seed=r.randrange(1 << 30), shuffle_inodes=r.random() < .3,
                         hdr_max=r.choice([1, 1, 2, 3]), idx_every=r.choice([301, 310, 330, 400])))


def links_tree(r, ndirs=5, nlinks=14, loops=True):
    root = D()
    dirs = [root]
    paths = {id(root): ''}
    for i in range(ndirs):
        p = r.choice(dirs)
        d = p.add('d%d' % i, D())
        paths[id(d)] = paths[id(p)] + '/d%d' % i
        dirs.append(d)
    files = []
    for i in range(5):
        p = r.choice(dirs)
        files.append((p.add('f%d' % i, reg(10 + i, i)), paths[id(p)] + '/f%d' % i))
    allp = [paths[id(d)] for d in dirs if paths[id(d)]] + [f[1] for f in files]
    for i in range(nlinks):
        p = r.choice(dirs)
        here = paths[id(p)].split('/')[1:]
        k = r.random()
        if k < .25:
            t = r.choice(allp)
        elif k < .7:
            t = rel(here, r.choice(allp).split('/')[1:], r)
        elif k < .75:
            t = r.choice(['.', '..', '/', './', '../', '/.', '//'])
        elif k < .9 and loops:
            t = 'k%d' % r.randrange(nlinks)
        else:
            t = r.choice(['nope', '../nope/x', 'f0/x', '../../../../../..', '/d0/../d0/.', './/d1//'])
        nm = 'k%d' % i
        p.add(nm, L(t))
        allp.append(paths[id(p)] + '/' + nm)
        if r.random() < .4:
            allp.append(paths[id(p)] + '/' + nm + '/' + r.choice(['..', 'd1', 'f0', 'k0', '../k1']))
    im = Image(Builder(root, 4096, seed=r.randrange(1 << 30)))
    im.allp = allp
    return im


def rel(here, there, r):
    i = 0
    while i < len(here) and i < len(there) and here[i] == there[i] and r.random() < .8:
        i += 1
    out = ['..'] * (len(here) - i) + there[i:]
    return '/'.join(out) or '.'


def tiny(r, s0=0, meta='mix'):
    """small image with a bit of everything, for long histories"""
    root = D()
    root.add('a', reg(10, s0 + 1))
    root.add('b', reg(3 * 4096 + 5, s0 + 2, holes=[(4096, 8192)]))
    d = root.add('d', D())
    for i in range(5):
        d.add('e%d' % i, reg(20 + i, s0 + 3 + i))
    e = d.add('s', D())
    e.add('q', reg(4096, s0 + 9))
    root.add('empty', D())
    root.add('l', L('d/e1'))
    root.add('ld', L('d'))
    root.add('dang', L('nope'))
    root.add('loop', L('loop'))
    root.add('pipe', Node('fifo'))
    return Image(Builder(root, 4096, seed=r.randrange(1 << 30), meta=meta))


def all_paths(im, dirs_only=False, files_only=False):
    """(path bytes, node) of every entry of the builder's tree"""
    out = []

    def go(n, p):
        for nm, c in sorted(n.ents.items()):
            q = p + b'/' + nm
            if (not dirs_only or c.kind == 'dir') and (not files_only or c.kind == 'reg'):
                out.append((q, c))
            if c.kind == 'dir':
                go(c, q)
    if dirs_only:
        out.append((b'/', im.builder.root))
    go(im.builder.root, b'')
    return out
