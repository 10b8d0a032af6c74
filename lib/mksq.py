"""A squashfs 4.0 image writer, independent of the code under test.

Input: a tree of Node objects.  Output: the image bytes and the *abstract model*
of the image (a JSON value read by the TLA+ specifications): what an ideal reader
must observe, with no trace of the physical layout.

Content: file bytes are cut into 4-byte cells; cell k of stream s is an injective
code of (s, k), has no zero byte, and is also defined in TLA+ (Content.tla), so
that the specification itself says what the bytes are.
"""
import struct, zlib, random
import numpy as np

MD = 8192
NOFRAG = 0xffffffff
INVALID = 0xffffffffffffffff
BASE = 1 << 20
KINDS = {'dir': 1, 'reg': 2, 'lnk': 3, 'blk': 4, 'chr': 5, 'fifo': 6, 'sock': 7}
IFMT = {'dir': 0o040000, 'reg': 0o100000, 'lnk': 0o120000, 'blk': 0o060000,
        'chr': 0o020000, 'fifo': 0o010000, 'sock': 0o140000}


def wide(x):
    return [x >> 20, x & (BASE - 1)]


# ---------------------------------------------------------------- content
def cells(s, k0, n):
    """bytes of cells k0 .. k0+n-1 of stream s"""
    k = np.arange(k0, k0 + n, dtype=np.int64)
    d0 = k % 255
    d1 = (k // 255) % 255
    d2 = (k // 65025) % 255
    out = np.empty((n, 4), dtype=np.uint8)
    out[:, 0] = 1 + (d0 + 7 * s) % 255
    out[:, 1] = 1 + (d1 + 3 * d0 + 31 * s) % 255
    out[:, 2] = 1 + (d2 + 5 * d0 + 13 * s) % 255
    out[:, 3] = 1 + (3 * s + 11 * d0 + 17 * d1) % 255
    return out.tobytes()


def stream(s, off, n):
    if n <= 0:
        return b''
    k0 = off // 4
    k1 = (off + n + 3) // 4
    return cells(s, k0, k1 - k0)[off - 4 * k0: off - 4 * k0 + n]


INV11 = pow(11, -1, 255)


def decode_cell(b):
    """(s, k) of a 4-byte cell; every 4 non-zero bytes decode to something"""
    b0, b1, b2, b3 = b[0] - 1, b[1] - 1, b[2] - 1, b[3] - 1
    # b3 = 3s + 11 d0 + 17 d1,  d0 = b0 - 7s,  d1 = b1 - 3 d0 - 31 s
    #    = 3s + 11 b0 - 77 s + 17 b1 - 51 b0 + 357 s - 527 s = -244 s - 40 b0 + 17 b1
    # -244 = 11 (mod 255)
    s = ((b3 + 40 * b0 - 17 * b1) * INV11) % 255
    d0 = (b0 - 7 * s) % 255
    d1 = (b1 - 3 * d0 - 31 * s) % 255
    d2 = (b2 - 5 * d0 - 13 * s) % 255
    return s, d0 + 255 * d1 + 65025 * d2


# pieces shorter than this are logged as raw bytes
RAWMAX = 8


def project(buf):
    """bytes -> list of pieces: ["z", len] | ["d", stream, offset, len] | ["r", [bytes]] | ["?", len]

    A piece is a maximal run of zero bytes, or a maximal run of non-zero bytes that is
    one contiguous slice of one stream; runs shorter than RAWMAX are given raw."""
    out = []
    n = len(buf)
    i = 0
    if n == 0:
        return out
    a = np.frombuffer(buf, dtype=np.uint8)
    nz = a != 0
    edges = np.flatnonzero(nz[1:] != nz[:-1]) + 1
    bounds = [0] + edges.tolist() + [n]
    for lo, hi in zip(bounds, bounds[1:]):
        if not nz[lo]:
            out.append(['z', hi - lo])
            continue
        while lo < hi:
            if hi - lo < RAWMAX:
                out.append(['r', list(buf[lo:hi])])
                break
            best = None
            for al in range(4):
                s, k = decode_cell(buf[lo + al:lo + al + 4])
                off = 4 * k - al
                if off < 0:
                    continue
                # how far does the stream agree?
                step = min(hi - lo, 64)
                w = stream(s, off, step)
                if w[:RAWMAX] != buf[lo:lo + RAWMAX]:
                    continue
                m = 0
                pos = 0
                while pos < hi - lo:
                    c = min(1 << 16, hi - lo - pos)
                    w = stream(s, off + pos, c)
                    if w == buf[lo + pos:lo + pos + c]:
                        pos += c
                    else:
                        x = np.frombuffer(w, dtype=np.uint8) != a[lo + pos:lo + pos + c]
                        pos += int(np.argmax(x))
                        break
                if best is None or pos > best[2]:
                    best = (s, off, pos)
            if best is None:
                out.append(['?', hi - lo])
                break
            out.append(['d', best[0], best[1], best[2]])
            lo += best[2]
    return out


# ---------------------------------------------------------------- tree
class Node:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.mode = kw.pop('mode', 0o755 if kind == 'dir' else 0o644)
        self.ext = kw.pop('ext', False)          # use the extended inode form
        self.mtime = kw.pop('mtime', None)
        self.uid = kw.pop('uid', 0)
        self.gid = kw.pop('gid', 0)
        self.nlink = kw.pop('nlink', None)
        self.rdev = kw.pop('rdev', (0, 0))
        self.ents = {}                           # name(bytes) -> Node
        self.target = kw.pop('target', None)     # bytes
        self.segs = kw.pop('segs', [])           # [("d",len,stream,off) | ("h",len)]
        self.comp = kw.pop('comp', 'mix')        # data blocks: always|never|mix
        self.frag = kw.pop('frag', True)
        self.at = kw.pop('at', 0)                # its data begins there at the earliest
        self.badblocks = kw.pop('badblocks', ())  # indexes of data blocks to damage ('frag' too)
        self.groups = None                       # directories: (where groups begin, which of them are indexed)
        self.extfrag = None
        self.id = None
        assert not kw, kw

    def size(self):
        return sum(s[1] for s in self.segs)

    def add(self, name, node):
        if isinstance(name, str):
            name = name.encode('utf-8', 'surrogateescape')
        assert name not in self.ents, name
        self.ents[name] = node
        return node

    def bytes_at(self, off, n):
        out = []
        p = 0
        for s in self.segs:
            l = s[1]
            if p + l > off and p < off + n:
                a = max(off, p) - p
                b = min(off + n, p + l) - p
                if s[0] == 'h':
                    out.append(bytes(b - a))
                else:
                    out.append(stream(s[2], s[3] + a, b - a))
            p += l
            if p >= off + n:
                break
        return b''.join(out)


def D(**kw): return Node('dir', **kw)
def L(target, **kw): return Node('lnk', target=target.encode('utf-8', 'surrogateescape') if isinstance(target, str) else target, mode=kw.pop('mode', 0o777), **kw)


class MetaWriter:
    def __init__(self, comp, rng):
        self.out = bytearray()
        self.buf = bytearray()
        self.comp = comp
        self.rng = rng
        self.starts = []       # disk offset of each block

    def pos(self):
        return len(self.out), len(self.buf)

    def bindex(self):
        return len(self.starts)

    def write(self, data):
        while data:
            room = MD - len(self.buf)
            self.buf += data[:room]
            data = data[room:]
            if len(self.buf) == MD:
                self.flush()

    def flush(self):
        if not self.buf:
            return
        raw = bytes(self.buf)
        self.starts.append(len(self.out))
        c = self.comp
        if c == 'mix':
            c = self.rng.choice(['always', 'never'])
        z = zlib.compress(raw, 6) if c == 'always' else None
        if z is not None and len(z) < len(raw):
            self.out += struct.pack('<H', len(z)) + z
        else:
            # size 0x8000 of an uncompressed block would be stored as 0x8000|8192
            self.out += struct.pack('<H', len(raw) | 0x8000) + raw
        self.buf = bytearray()


def enc(name):
    """names/paths as ASCII tokens"""
    if isinstance(name, str):
        name = name.encode('utf-8', 'surrogateescape')
    ok = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789._-'
    return ''.join(chr(c) if c in ok else '%%%02X' % c for c in name)


class Sparse:
    """bytes with gaps nobody looks at; only the first piece can be indexed"""
    def __init__(self, first):
        self.parts = [(0, bytearray(first))]

    def __len__(self):
        return self.parts[-1][0] + len(self.parts[-1][1])

    def extend(self, b):
        self.parts[-1][1].extend(b)

    def __iadd__(self, b):
        self.extend(b)
        return self

    def seek(self, pos):
        if pos > len(self):
            self.parts.append((pos, bytearray()))

    def __setitem__(self, k, v):
        assert len(self.parts) == 1 or isinstance(k, slice) and k.stop <= len(self.parts[0][1])
        self.parts[0][1][k] = v

    def __getitem__(self, k):
        assert len(self.parts) == 1
        return self.parts[0][1][k]

    def result(self):
        return bytes(self.parts[0][1]) if len(self.parts) == 1 else self


def store(f, data):
    """write an image into an empty file"""
    if isinstance(data, Sparse):
        for pos, b in data.parts:
            f.seek(pos)
            f.write(b)
    else:
        f.write(data)


class Builder:
    def __init__(self, root, bs=131072, meta='mix', seed=0, export=True, ids=(0,), hdr_max=256,
                 idx_every=MD, inode_base=1, shuffle_inodes=False, bad_meta=(), major=4, minor=0, comp=1,
                 always_frag=False, magic=0x73717368, dedupe=True, zero_holes=True, at={}):
        self.root = root
        self.bs = bs
        self.rng = random.Random(seed)
        self.meta = meta
        self.export = export
        self.ids = list(ids)
        self.hdr_max = hdr_max
        self.idx_every = idx_every
        self.shuffle = shuffle_inodes
        self.bad_meta = bad_meta
        self.major, self.minor, self.compid, self.magic = major, minor, comp, magic
        self.always_frag = always_frag
        self.inode_base = inode_base
        assert inode_base == 1 or not export
        self.at = dict(at)     # where things begin at the earliest: a fragment's number, 'i', 'd', 'frag', 'export', 'id'; files: Node.at
        self.nodes = []

    # -- numbering
    def number(self):
        seen = {}
        order = []

        def visit(n, parent):
            if id(n) in seen:
                n._refs += 1
                return
            seen[id(n)] = n
            n._refs = 1
            n._parent = parent
            order.append(n)
            for name in sorted(n.ents):
                visit(n.ents[name], n)
        import sys
        sys.setrecursionlimit(100000)
        visit(self.root, None)
        nums = list(range(self.inode_base, self.inode_base + len(order)))
        if self.shuffle:
            self.rng.shuffle(nums)
        self.nodes = order
        used = set(n.mtime for n in order if n.mtime is not None)
        for i, n in enumerate(order):
            n.id = i + 1
            n.inum = nums[i]
            if n.mtime is None:
                t = self.rng.randrange(1, 1 << 32)
                while t in used:
                    t = self.rng.randrange(1, 1 << 32)
                used.add(t)
                n.mtime = t
            if n.nlink is None:
                if n.kind == 'dir':
                    n.nlink = 2 + sum(1 for c in n.ents.values() if c.kind == 'dir')
                else:
                    n.nlink = n._refs
            if n.kind == 'reg' and n.nlink > 1:
                n.ext = True
        assert len(used) >= len(order)

    # -- data
    def compress_block(self, raw, how, bad, cut=None):
        """the block as stored, and its header word; a bad one cannot be decoded, or (if cut is given, which is
        called with the number of bytes that are left) decodes to another number of bytes than it should"""
        if how == 'mix':
            how = self.rng.choice(['always', 'never'])
        if bad and cut and self.rng.random() < .4:
            if len(raw) < self.bs and cut(len(raw) + 1) and self.rng.random() < .4:
                raw = raw + b'L' * self.rng.choice([1, self.bs - len(raw)])
            else:
                n = self.rng.choice([x for x in {0 if how == 'always' else 1, 1, len(raw) // 2, len(raw) - 4, len(raw) - 1} if 0 <= x < len(raw) and (x or how == 'always')] or [-1])
                if n < 0 or not cut(n):
                    return self.compress_block(raw, how, True)
                raw = raw[:n]
            if how == 'always':
                z = zlib.compress(raw, 6)
                return z, len(z)
            return raw, len(raw) | (1 << 24)
        if bad:
            how = 'always'
        if how == 'always':
            z = zlib.compress(raw, 6)
            if bad:
                # broken so that it cannot be decoded: the header, the checksum, the middle, the end,
                # or more content than a block may have
                k = self.rng.choice(['head', 'sum', 'mid', 'trunc', 'long', 'long'])
                if k == 'long':
                    z = zlib.compress(raw + b'L' * (self.bs - len(raw) + self.rng.choice([1, 1000])), 6)
                elif k == 'trunc':
                    z = z[:-self.rng.choice([1, 4, 5])]
                else:
                    z = bytearray(z)
                    z[0 if k == 'head' else -1 if k == 'sum' else len(z) // 2] ^= 0xff
                    z = bytes(z)
                    try:
                        zlib.decompress(z)
                        z = b'\0' + z[1:]
                    except zlib.error:
                        pass
                return z, len(z)
            if len(z) < len(raw):
                return z, len(z)
        return raw, len(raw) | (1 << 24)

    def build(self):
        self.number()
        bs = self.bs
        data = Sparse(bytes(96))
        frags = []           # (start, size)
        fragbuf = bytearray()
        fragbad = [False]
        fraglimit = {}       # damaged fragment blocks: how much can be decoded, or -1

        def flush_frag():
            nonlocal fragbuf
            if not fragbuf:
                return
            raw = bytes(fragbuf)
            lim = [-1]

            def cut(n):
                if n > len(raw):
                    return False                  # more than is needed does no harm
                lim[0] = n
                return True
            blk, hdr = self.compress_block(raw, 'mix', fragbad[0], cut)
            if fragbad[0]:
                fraglimit[len(frags)] = lim[0]
            data.seek(self.at.get(len(frags), 0))
            frags.append((len(data), hdr))
            data.extend(blk)
            fragbuf = bytearray()
            fragbad[0] = False

        fragusers = {}
        for n in self.nodes:
            if n.kind != 'reg':
                continue
            size = n.size()
            n._bl = []
            n._frag = (NOFRAG, 0)
            data.seek(n.at)
            n._start = len(data) if size else 0
            full = size // bs
            tail = size % bs
            use_frag = tail and (n.frag if n.frag in (True, False) else False) and (full == 0 or n.frag)
            nblocks = full if use_frag else full + (1 if tail else 0)
            # walk the segments so that long holes cost nothing
            n._sparse = 0
            segs = n.segs
            pos = 0
            holes = []
            p = 0
            for s in segs:
                if s[0] == 'h':
                    holes.append((p, p + s[1]))
                p += s[1]
            hi = 0
            i = 0
            bl = n._bl
            n._bad = []
            while i < nblocks:
                a = i * bs
                b = min(size, a + bs)
                while hi < len(holes) and holes[hi][1] <= a:
                    hi += 1
                if hi < len(holes) and holes[hi][0] <= a and b <= holes[hi][1]:
                    # whole blocks inside a hole
                    cnt = (min(holes[hi][1], size) - a) // bs
                    if cnt < 1:
                        cnt = 1
                    cnt = min(cnt, nblocks - i)
                    bl.append(('run', cnt))
                    n._sparse += cnt * bs
                    i += cnt
                    continue
                raw = n.bytes_at(a, b - a)
                assert len(raw) == b - a
                if raw.count(0) == len(raw):
                    bl.append(('run', 1))
                    n._sparse += bs
                    i += 1
                    continue
                blk, hdr = self.compress_block(raw, n.comp if isinstance(n.comp, str) else n.comp[i % len(n.comp)], i in n.badblocks, lambda k: True)
                if i in n.badblocks:
                    n._bad.append(i)             # a hole cannot be damaged
                bl.append(hdr)
                data.extend(blk)
                i += 1
            if use_frag:
                raw = n.bytes_at(full * bs, tail)
                if len(fragbuf) + len(raw) > bs:
                    flush_frag()
                n._frag = (len(frags), len(fragbuf))
                fragusers.setdefault(len(frags), []).append(n)
                fragbuf.extend(raw)
                if 'frag' in n.badblocks:
                    fragbad[0] = True
            elif n.frag == 'own':
                pass
        flush_frag()
        # whose fragments are bad
        self.badfrag = {id(u) for fi, users in fragusers.items() if fi in fraglimit for u in users
                        if fraglimit[fi] < u._frag[1] + u.size() % bs}

        # -- inodes and directories, children first
        itab = MetaWriter(self.meta, self.rng)
        dtab = MetaWriter(self.meta, self.rng)
        done = set()
        stack = [(self.root, False)]
        while stack:
            n, ready = stack.pop()
            if id(n) in done:
                continue
            if n.kind == 'dir' and not ready:
                stack.append((n, True))
                for name in sorted(n.ents, reverse=True):
                    c = n.ents[name]
                    if id(c) not in done:
                        stack.append((c, False))
                continue
            done.add(id(n))
            if n.kind == 'dir':
                self.write_dir(n, dtab)
            self.write_inode(n, itab)
        itab.flush()
        dtab.flush()

        out = data
        out.seek(self.at.get('i', 0))
        inode_start = len(out)
        out += itab.out
        out.seek(self.at.get('d', 0))
        dir_start = len(out)
        out += dtab.out

        def table(entries, comp, at=0):
            w = MetaWriter(comp, self.rng)
            w.write(entries)
            w.flush()
            out.seek(at)
            base = len(out)
            out.extend(w.out)
            start = len(out)
            for s in w.starts:
                out.extend(struct.pack('<Q', base + s))
            return start, [base + s for s in w.starts]
        self.table_blocks = {}
        frag_start, self.table_blocks['frag'] = table(
            b''.join(struct.pack('<QII', s, z, 0) for s, z in frags), self.meta, self.at.get('frag', 0))
        if self.export:
            byn = sorted(self.nodes, key=lambda x: x.inum)
            exp_start, self.table_blocks['export'] = table(
                b''.join(struct.pack('<Q', x.ref) for x in byn), self.meta, self.at.get('export', 0))
        else:
            exp_start = INVALID
        id_start, self.table_blocks['id'] = table(
            b''.join(struct.pack('<I', x) for x in self.ids), self.meta, self.at.get('id', 0))
        log = bs.bit_length() - 1
        sb = struct.pack('<IIIIIHHHHHHQQQQQQQQ', self.magic, len(self.nodes), 1, bs, len(frags),
                         self.compid, log, 0x80 if self.export else 0, len(self.ids), self.major, self.minor,
                         self.root.ref, len(out), id_start, INVALID, inode_start, dir_start,
                         frag_start if frags else frag_start, exp_start)
        assert len(sb) == 96
        out[0:96] = sb
        self.itab_start, self.dtab_start = inode_start, dir_start
        self.itab_blocks = [inode_start + s for s in itab.starts]
        self.dtab_blocks = [dir_start + s for s in dtab.starts]
        # damaged metadata blocks: list of ("i"|"d"|table, index)
        hurt = set()
        if self.bad_meta:
            assert len(out.parts) == 1
            whole, out = out, out.parts[0][1]
        for tab, ix in self.bad_meta:
            lst = {'i': self.itab_blocks, 'd': self.dtab_blocks}.get(tab) or self.table_blocks[tab]
            off = lst[ix % len(lst)]
            if off in hurt:
                continue
            hurt.add(off)
            h = struct.unpack_from('<H', out, off)[0]
            if h & 0x8000:                      # stored raw: claim that it is compressed
                struct.pack_into('<H', out, off, h & 0x7fff)
            else:
                k = self.rng.choice(['head', 'sum', 'mid', 'trunc'])
                if k == 'trunc':                # the checksum is cut off
                    struct.pack_into('<H', out, off, h - self.rng.choice([1, 4]))
                else:
                    out[off + 2 + (0 if k == 'head' else h - 1 if k == 'sum' else h // 2)] ^= 0xff
            h = struct.unpack_from('<H', out, off)[0]
            try:
                zlib.decompress(bytes(out[off + 2:off + 2 + h]))
                raise AssertionError('still decodable')
            except zlib.error:
                pass
        self.image = bytes(out) if self.bad_meta else out.result()
        return self.image

    def write_dir(self, n, w):
        ents = sorted(n.ents.items())
        start = w.pos()
        n._dstart, n._doff = start
        b0 = w.bindex()
        listing = 0
        index = []
        i = 0
        last_idx = 0
        n._next = {}
        n._espan = {}

        def lin():
            return len(w.starts) * MD + len(w.buf)
        nents = len(ents)
        while i < nents:
            c0 = ents[i][1]
            hdr_blk = c0.ref >> 16
            base = c0.inum
            j = i
            size_here = 12
            grp = []
            while j < nents and len(grp) < self.hdr_max:
                c = ents[j][1]
                d = c.inum - base
                if (c.ref >> 16) != hdr_blk or not (-32768 <= d <= 32767):
                    break
                # new header at an index boundary, like mksquashfs
                if grp and (j in n.groups[0] if n.groups else listing + size_here - last_idx > self.idx_every):
                    break
                grp.append((ents[j][0], c))
                size_here += 8 + len(ents[j][0])
                j += 1
            # index entry?
            if (i in n.groups[1]) if n.groups else (listing - last_idx > self.idx_every - 300 and listing > 0 and self.idx_every):
                index.append((listing, w.pos()[0], grp[0][0]))
                last_idx = listing
            h0 = lin()
            w.write(struct.pack('<III', len(grp) - 1, hdr_blk, base))
            h1 = lin()
            listing += 12
            for name, c in grp:
                e0 = lin()
                w.write(struct.pack('<HhHH', c.ref & 0xffff, c.inum - base, KINDS[c.kind], len(name) - 1) + name)
                listing += 8 + len(name)
                n._next[name] = listing
                n._espan[name] = (h0, h1, e0, lin())
            i = j
        n._dsize = listing + 3
        n._index = index
        n._dblocks = (b0, w.bindex())
        if index or n._dsize > 0xffff:
            n.ext = True

    def write_inode(self, n, w):
        blk, off = w.pos()
        n.ref = (blk << 16) | off
        n._i0 = len(w.starts) * MD + off
        fixed = {'reg': (32, 56), 'dir': (32, 40), 'lnk': (24, 24), 'blk': (24, 28), 'chr': (24, 28), 'fifo': (20, 24), 'sock': (20, 24)}[n.kind]
        base = struct.pack('<HHHHII', 0, n.mode, n.uid, n.gid, n.mtime, n.inum)

        def hdr(t):
            return struct.pack('<HHHHII', t, n.mode, n.uid, n.gid, n.mtime, n.inum)
        t = KINDS[n.kind]
        if n.kind == 'reg':
            size = n.size()
            if size >= 1 << 32 or n._start >= 1 << 32 or n.nlink > 1:
                n.ext = True
            if n.ext:
                w.write(hdr(9) + struct.pack('<QQQIIII', n._start, size, n._sparse, n.nlink, n._frag[0], n._frag[1], NOFRAG))
            else:
                w.write(hdr(2) + struct.pack('<IIII', n._start, n._frag[0], n._frag[1], size))
            for b in n._bl:
                if isinstance(b, tuple):
                    w.write(bytes(4 * b[1]))
                else:
                    w.write(struct.pack('<I', b))
        elif n.kind == 'dir':
            par = n._parent.inum if n._parent is not None else len(self.nodes) + self.inode_base
            if n.ext:
                w.write(hdr(8) + struct.pack('<IIIIHHI', n.nlink, n._dsize, n._dstart, par, len(n._index), n._doff, NOFRAG))
                for ix, sb, name in n._index:
                    w.write(struct.pack('<III', ix, sb, len(name) - 1) + name)
            else:
                w.write(hdr(1) + struct.pack('<IIHHI', n._dstart, n.nlink, n._dsize, n._doff, par))
        elif n.kind == 'lnk':
            w.write(hdr(10 if n.ext else 3) + struct.pack('<II', n.nlink, len(n.target)) + n.target)
            if n.ext:
                w.write(struct.pack('<I', NOFRAG))
        elif n.kind in ('blk', 'chr'):
            ma, mi = n.rdev
            rdev = ((ma & 0xfff) << 8) | (mi & 0xff) | ((mi & 0xfff00) << 12)
            w.write(hdr(t + 7 if n.ext else t) + struct.pack('<II', n.nlink, rdev) + (struct.pack('<I', NOFRAG) if n.ext else b''))
        else:
            w.write(hdr(t + 7 if n.ext else t) + struct.pack('<I', n.nlink) + (struct.pack('<I', NOFRAG) if n.ext else b''))
        n._i2 = len(w.starts) * MD + len(w.buf)
        n._i1 = n._i0 + fixed[1 if n.ext else 0]

    # -- abstract model
    def model(self):
        nodes = []
        bads = {}
        for tab, ix in self.bad_meta:
            m = len({'i': self.itab_blocks, 'd': self.dtab_blocks}.get(tab) or self.table_blocks[tab])
            bads.setdefault(tab, set()).add(ix % m)

        def hurt(tab, a, b):
            return any(x in bads.get(tab, ()) for x in range(a // MD, (b - 1) // MD + 1)) if b > a else False
        for n in self.nodes:
            d = dict(kind=n.kind, mode=n.mode | IFMT[n.kind], mtime=wide(n.mtime), ino=n.inum,
                     nlink=n.nlink if not (n.kind == 'reg' and not n.ext) else 1,
                     uid=n.uid, gid=n.gid)
            if n.kind == 'reg':
                d['size'] = wide(n.size())
                segs = []
                p = 0
                for s in n.segs:
                    if s[0] == 'h':
                        segs.append(dict(k='z', at=wide(p), len=wide(s[1]), s=0, off=0))
                    else:
                        segs.append(dict(k='d', at=wide(p), len=wide(s[1]), s=s[2], off=s[3]))
                    p += s[1]
                d['segs'] = segs
                bad = []
                size = n.size()
                for b in n._bad:
                    if b * self.bs < size:
                        bad.append([wide(b * self.bs), wide(min(size, (b + 1) * self.bs))])
                if id(n) in self.badfrag or (n._frag[0] != NOFRAG and hurt('frag', n._frag[0] * 16, n._frag[0] * 16 + 16)):
                    bad.append([wide(size - size % self.bs), wide(size)])
                d['bad'] = bad
            elif n.kind == 'lnk':
                d['size'] = wide(len(n.target))
                d['tbytes'] = [enc(bytes([c])) for c in n.target]
                d['tlen'] = len(n.target)
                d['tabs'] = n.target[:1] == b'/'
                d['tcomps'] = [enc(c) for c in n.target.split(b'/')]
            elif n.kind in ('blk', 'chr'):
                d['rdev'] = list(n.rdev)
            elif n.kind == 'dir':
                names = sorted(n.ents)
                d['names'] = [enc(x) for x in names]
                d['kids'] = [n.ents[x].id for x in names]
                d['ents'] = {enc(x): n.ents[x].id for x in names} if names else {'/none': 0}
                d['next'] = [n._next[x] for x in names]
            if bads:
                d['it'] = 'must' if hurt('i', n._i0, n._i1) else 'no'
                if n.kind == 'lnk':
                    d['bl'] = 'must' if hurt('i', n._i1, n._i1 + len(n.target)) else 'no'
                elif n.kind in ('reg', 'dir'):
                    d['bl'] = 'may' if hurt('i', n._i1, n._i2) else 'no'
                if n.kind == 'dir':
                    d['lt'] = [enc(x) for x in names if hurt('d', *n._espan[x][:2]) or hurt('d', *n._espan[x][2:])]
                    d['fb'] = 1 + min([i for i, x in enumerate(names) if d['names'][i] in d['lt']], default=len(names))
            nodes.append(d)
        byinum = [0] * len(self.nodes)
        for n in self.nodes:
            byinum[n.inum - self.inode_base] = n.id
        m = dict(nodes=nodes, byino=byinum, export=self.export, ids=[wide(x) for x in self.ids], bs=self.bs)
        if 'export' in bads:
            m['xbad'] = [i + 1 for i in range(len(self.nodes)) if hurt('export', 8 * i, 8 * i + 8)]
        if 'id' in bads:
            m['idbad'] = [i for i in range(len(self.ids)) if hurt('id', 4 * i, 4 * i + 4)]
        return m


def reg(size, s, holes=(), off=0, **kw):
    """regular file of `size` bytes from stream s with holes [(a,b)] (content there is zero)"""
    segs = []
    p = 0
    for a, b in sorted(holes):
        b = min(b, size)
        if a >= b:
            continue
        if a > p:
            segs.append(('d', a - p, s, off))
            off += a - p
        a = max(a, p)
        if b > a:
            if segs and segs[-1][0] == 'h':         # one piece for adjacent holes
                segs[-1] = ('h', segs[-1][1] + b - a)
            else:
                segs.append(('h', b - a))
        p = max(p, b)
    if size > p:
        segs.append(('d', size - p, s, off))
    return Node('reg', segs=segs, **kw)
