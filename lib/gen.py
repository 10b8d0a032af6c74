"""Op sequences: from TLC behaviours of SquashGen and from seeded generators."""
import json, os, re
import conf, mksq, zoo
from conf import Session, b

GEN_CFG = '''SPECIFICATION GenSpec
CONSTANTS
  MaxChain = 32
  MaxDepth = 32
  MaxTotal = 1024
  PathMax = 2048
  Alphabet = {%s}
  PreOpen = {%s}
  Depth = %d
  MaxFd = %d
  MaxStreams = %d
  Sim = %s
INVARIANTS Consistent Printed
CHECK_DEADLOCK FALSE
'''


def histories(work, images, paths, alphabet, depth, preopen=(0,), maxfd=4, maxstreams=2, simulate=0, seed=1, timeout=600):
    """behaviours of SquashGen: all of length `depth`, or `simulate` random ones; -> (list of histories, states)"""
    w = work.sub('g')
    try:
        conf.write_nd(w.path('trees'), [im.model for im in images])
        with open(w.path('paths'), 'w') as f:
            for p in paths:
                f.write(json.dumps(conf.comps(p)) + '\n')
        cfg = w.path('gen.cfg')
        with open(cfg, 'w') as f:
            f.write(GEN_CFG % (', '.join('"%s"' % a for a in alphabet), ', '.join(map(str, preopen)), depth, maxfd, maxstreams, 'TRUE' if simulate else 'FALSE'))
        extra = ['-simulate', 'num=%d' % simulate, '-depth', str(depth + 1), '-seed', str(seed)] if simulate else []
        rc, out, st, secs = conf.tlc(w, 'SquashGen', cfg, dict(TREES=w.path('trees'), PATHS=w.path('paths')), extra=extra, timeout=timeout,
                                     workers='1' if simulate else '4')
        if rc != 0:
            raise conf.Infra('SquashGen: TLC ended with %d\n%s' % (rc, out[-2500:]))
        hs = []
        seen = set()
        for m in re.finditer(r'<<"HIST", (".*")>>', out):
            t = m.group(1)
            if t not in seen:
                seen.add(t)
                h = json.loads(json.loads(t))
                if simulate:              # TLC prints every last step of a behaviour: keep one
                    key = json.dumps(h[:-1])
                    if key in seen:
                        continue
                    seen.add(key)
                hs.append(h)
        if simulate:
            m = re.search(r'(\d+) states checked', out.replace(',', ''))
            st = (int(m.group(1)),) * 2 if m else st
        return hs, st
    finally:
        w.close()


def unenc(cs):
    out = []
    for c in cs:
        out.append(re.sub(rb'%([0-9A-F]{2})', lambda m: bytes([int(m.group(1), 16)]), c.encode()))
    return b'/'.join(out)


def play(s, hist):
    """a history as calls of session s"""
    for o in hist:
        k = o['o']
        p = unenc(o['p']) if 'p' in o else None
        if k == 'open': s.open(o['s'], o['h'], p)
        elif k == 'close': s.close(o['s'])
        elif k == 'read': s.read(o['s'], o['n'])
        elif k == 'lseek': s.lseek(o['s'], o['off'], o['wh'])
        elif k == 'fstat': s.fstat(o['s'])
        elif k == 'stat': s.stat(o['h'], p)
        elif k == 'lstat': s.lstat(o['h'], p)
        elif k == 'readlink': s.readlink(o['h'], p, o['n'])
        elif k == 'scandir': s.scandir(o['h'], p, o['sel'], o['cmp'])
        elif k == 'sysopen': s.sysopen(o['s'])
        elif k == 'sysclose': s.sysclose(o['s'])
        elif k == 'opendir': s.opendir(o['s'], o['h'], p)
        elif k == 'readdirs': s.readdirs(o['s'], o['k'])
        elif k == 'telldir': s.telldir(o['s'], o['t'])
        elif k == 'seekdir': s.seekdir(o['s'], o['t'])
        elif k == 'rewinddir': s.rewinddir(o['s'])
        elif k == 'dirfd': s.dirfd(o['s'])
        elif k == 'closedir': s.closedir(o['s'])
        elif k == 'extract': s.extract(o['h'], p, 'x', o['m'])
        elif k == 'clear': s.clear()
        elif k == 'topen': s.topen(o['s'], o['h'], p)
        elif k == 'tnext': s.tnext(o['s'])
        elif k == 'tprune': s.tprune(o['s'])
        elif k == 'tclose': s.tclose(o['s'])
        elif k == 'img': s.img(o['h'], o['i'] - 1)
        elif k == 'imgclose': s.imgclose(o['h'])
        else: raise conf.Infra('unknown call in a history: ' + k)


def replayed(hists, images, pre=(0,), warm=None, per=1, tag='h'):
    """sessions that replay histories; `per` histories per process are kept apart by a quiesce"""
    out = []
    for i in range(0, len(hists), per):
        s = Session('%s%d' % (tag, i), warm=warm)
        for h in hists[i:i + per]:
            for x in pre:
                s.img(x, x)
            play(s, h)
            s.quiesce()
        out.append(s)
    return out


# ------------------------------------------------------------------ positions
def marks(node, bs):
    """interesting offsets of a regular file"""
    size = node.size()
    m = {0, size}
    p = 0
    for sg in node.segs:
        m.add(p)
        p += sg[1]
    k = size // bs
    for x in ([0, 1, 2, 3] + [k - 1, k, k + 1] + [2047, 2048, 2049, 4095, 4096, 4097]):
        if 0 <= x * bs <= size + bs:
            m.add(x * bs)
    return sorted(m)


def pos(r, node, bs):
    size = node.size()
    if r.random() < .75:
        return max(0, r.choice(marks(node, bs)) + r.choice([-2, -1, 0, 0, 1, 2, 4095]))
    return r.randrange(0, size + bs)


def vast(r, node, n, chance=.06):
    """n, or sometimes a length that no 32-bit number holds"""
    if r.random() < chance and node.kind == 'reg' and node.size() <= 1 << 20:
        return r.choice([(1 << 31) - 1, 1 << 31, (1 << 31) + 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 4096, 1 << 33, 1 << 36])
    return n


def length(r, node, bs, cap=1 << 20):
    k = r.random()
    if k < .15:
        return r.choice([0, 1, 2, 3, 7, 8, 9])
    if k < .4:
        return r.choice([bs - 1, bs, bs + 1, 2 * bs, 3 * bs + 1])
    if k < .5:
        return min(cap, node.size() + r.choice([0, 1, bs]))
    return min(cap, r.randrange(1, 4 * bs))
