"""Conformance plumbing: op scripts -> real library -> events -> TLC trace validation."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mksq
from mksq import enc, wide

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Infra(Exception):
    pass


def b(p):
    return p if isinstance(p, bytes) else p.encode('utf-8', 'surrogateescape')


def comps(p):
    return [enc(c) for c in b(p).split(b'/')]


def small(n):
    # what exceeds TLC's numbers also exceeds every file it is used with
    return max(-(1 << 31), min(n, 1 << 30))


def tok(p):
    return '~' + enc(p)


class Session:
    """One forked process: a list of calls with the fields the specification needs."""

    def __init__(self, name, warm=None, cold=False):
        self.name = name
        self.ops = []          # (line, fields or None)
        self.warmed = warm
        if warm is not None:
            self.ops.append(('%s %d %s' % ('coldwarm' if cold else 'warm', warm[0], tok(warm[1])), {}))

    def raw(self, line, **f):
        self.ops.append((line, f))
        return self

    def prior(self, e):
        self.ops.append(('prior %d' % e, None))

    def fail(self, kind, k):
        self.ops.append(('fail %s %d' % (kind, k), None))

    def img(self, h, i, raw=0): self.raw('img %d %d %d' % (h, i, raw), h=h, img=i + 1)
    def imgclose(self, h): self.raw('imgclose %d' % h, h=h)
    def alias(self, h, which, prefix):
        prefix = b(prefix).rstrip(b'/') + b'/'      # an alias ends with its slash
        cs = [enc(c) for c in prefix.split(b'/') if c]
        self.raw('alias %d %d %s' % (h, which, tok(prefix)), h=h, comps=cs)

    def open(self, s, h, p, nf=False): self.raw('%s %d %d %s' % ('opennf' if nf else 'open', s, h, tok(p)), h=h, path=comps(p))
    def close(self, s): self.raw('close %d' % s)
    def closen(self, n): self.raw('closen %d' % n)
    def read(self, s, n): self.raw('read %d %d' % (s, n), n=small(n))
    def readn(self, fd, n): self.raw('readn %d %d' % (fd, n), n=n)
    def lseek(self, s, off, wh): self.raw('lseek %d %d %d' % (s, off, wh), off=wide(off), whence=wh)
    def lseekn(self, fd, off, wh): self.raw('lseekn %d %d %d' % (fd, off, wh), off=wide(off), whence=wh)
    def fstat(self, s): self.raw('fstat %d' % s)
    def fstatn(self, fd): self.raw('fstatn %d' % fd)
    def stat(self, h, p): self.raw('stat %d %s' % (h, tok(p)), h=h, path=comps(p))
    def lstat(self, h, p): self.raw('lstat %d %s' % (h, tok(p)), h=h, path=comps(p))
    def readlink(self, h, p, n): self.raw('readlink %d %s %d' % (h, tok(p), n), h=h, path=comps(p), bufsize=n)
    def opendir(self, s, h, p, nf=False): self.raw('%s %d %d %s' % ('opendirnf' if nf else 'opendir', s, h, tok(p)), s=s, h=h, path=comps(p))
    def readdir(self, s): self.raw('readdir %d' % s, s=s)
    def readdirs(self, s, k): self.raw('readdirs %d %d' % (s, k), s=s, k=k)
    def telldir(self, s, t): self.raw('telldir %d %d' % (s, t), s=s, t=t)
    def seekdir(self, s, t): self.raw('seekdir %d %d' % (s, t), s=s, t=t)
    def rewinddir(self, s): self.raw('rewinddir %d' % s, s=s)
    def dirfd(self, s): self.raw('dirfd %d' % s, s=s)
    def closedir(self, s): self.raw('closedir %d' % s, s=s)
    def scandir(self, h, p, sel=0, cmp=0): self.raw('scandir %d %s %d %d' % (h, tok(p), sel, cmp), h=h, path=comps(p), sel=sel, cmp=cmp)
    def extract(self, h, p, ext=None, mode=0):
        self.raw('extract %d %s %s %d' % (h, tok(p), tok(ext) if ext is not None else '-', mode), h=h, p=enc(p), path=comps(p))
    def clear(self): self.raw('clear')
    def halt(self): self.raw('halt')
    def topen(self, t, h, p, byid=0): self.raw('topen %d %d %s %d' % (t, h, tok(p), int(byid)), t=t, h=h, path=comps(p))
    def tnext(self, t): self.raw('tnext %d' % t, t=t)
    def tprune(self, t): self.raw('tprune %d' % t, t=t)
    def tclose(self, t): self.raw('tclose %d' % t, t=t)
    def dopen(self, c, h, p, off): self.raw('dopen %d %d %s %d' % (c, h, tok(p), off), c=c, h=h, path=comps(p), off=off)
    def dnext(self, c): self.raw('dnext %d' % c, c=c)
    def export(self, h, n): self.raw('export %d %d' % (h, n), h=h, num=n)
    def idget(self, h, i): self.raw('idget %d %d' % (h, i), h=h, ix=i)
    def owner(self, h, p): self.raw('owner %d %s' % (h, tok(p)), h=h, path=comps(p))
    def lookat(self, h, d, p, follow=0): self.raw('lookat %d %s %s %d' % (h, tok(d), tok(p), follow), h=h, dir=comps(d), path=comps(p), follow=bool(follow))
    def dlook(self, h, d, nm): self.raw('dlook %d %s %s' % (h, tok(d), tok(nm)), h=h, dir=comps(d), nm=enc(nm))
    def rr(self, h, p, off, n): self.raw('rr %d %s %d %d' % (h, tok(p), off, n), h=h, path=comps(p), off=wide(off), n=small(n))
    def rlk(self, h, p, n): self.raw('rlk %d %s %d' % (h, tok(p), n), h=h, path=comps(p), size=n)
    def sysopen(self, s): self.raw('sysopen %d' % s, s=s)
    def sysclose(self, s): self.raw('sysclose %d' % s, s=s)
    def neg(self, fd): self.raw('neg %d' % fd)
    def probe(self): self.raw('probe')
    def findent(self): self.raw('findent')
    def quiesce(self): self.raw('quiesce')


def finish_model(m, ver=(4, 0), comp=1, open_ret=0):
    """fields the specification expects on every tree"""
    for n in m['nodes']:
        n.setdefault('bl', 'no')
        if n['kind'] == 'dir':
            n['nlens'] = [len(re.sub('%..', 'x', x)) for x in n['names']]
    m['open'] = open_ret
    m['ver'] = [ver[0], ver[1], comp]
    return m


class Image:
    def __init__(self, builder, offset=0, open_ret=0, mutate=None):
        self.data = builder.build()
        self.builder = builder
        self.offset = offset
        if mutate:
            self.data = mutate(self.data)
        self.model = finish_model(builder.model(), (builder.major, builder.minor), builder.compid, open_ret)


class RawImage:
    """header variants: an existing image with other bytes; same tree"""

    def __init__(self, img, data, offset=0, open_ret=0, ver=None):
        self.data = data
        self.offset = offset
        self.model = dict(img.model)
        self.model['open'] = open_ret
        if ver:
            self.model['ver'] = list(ver)


class Work:
    """scratch directory of one check run; sub() gives a batch its own corner"""

    def __init__(self, name, parent=None):
        base = parent.dir if parent else os.environ.get('VERIF_SCRATCH', '/tmp')
        self.dir = tempfile.mkdtemp(prefix='sqv-%s-' % name, dir=base)
        self.bin = parent.bin if parent else os.path.join(self.dir, 'bin')
        self.tmp = os.path.join(self.dir, 'tmp')
        os.mkdir(self.tmp)

    def sub(self, name):
        return Work(name, self)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, n):
        return os.path.join(self.dir, n)


def build(work, *targets):
    r = subprocess.run(['bash', os.path.join(ROOT, 'harness', 'build.sh'), work.bin] + list(targets),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if r.returncode != 0:
        raise Infra('harness does not build:\n' + r.stdout.decode(errors='replace')[-3000:])
    return work.path('bin')


def drive(work, images, sessions, tag='t', driver='driver', timeout=600, env=None):
    """run the driver; returns the list of merged events (dicts), '_op' = (session, index)"""
    script = []
    for i, im in enumerate(images):
        fn = work.path('%s-img%d' % (tag, i))
        with open(fn, 'wb') as f:
            mksq.store(f, im.data)
        script.append('I %d %s %d' % (i, fn, im.offset))
    for s in sessions:
        script.append('S ' + s.name)
        for line, _ in s.ops:
            script.append(line)
    sf, ef, bf = work.path(tag + '.script'), work.path(tag + '.raw'), work.path(tag + '.bytes')
    for f in (ef, bf):
        if os.path.exists(f):
            os.unlink(f)
    with open(sf, 'w') as f:
        f.write('\n'.join(script) + '\n')
    e = dict(os.environ, TMPDIR=work.tmp, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:exitcode=66:detect_stack_use_after_return=0',
             LC_ALL='C.UTF-8')
    e.pop('TMP', None)
    e.pop('TEMP', None)
    env = dict(env or {})
    mode = env.pop('TMPMODE', None)
    if mode:
        # a long way down, and said in every way there is
        d = os.path.join(work.tmp, 'd' * 180, 'e' * 170)
        os.makedirs(d, exist_ok=True)
        e.pop('TMPDIR')
        e['VTMP'] = d
        e.update({'dir': dict(TMPDIR=d, TMP='/nonexistent', TEMP='/nonexistent'), 'slash': dict(TMPDIR=d + '/'),
                  'tmp': dict(TMP=d, TEMP='/nonexistent'), 'temp': dict(TEMP=d)}[mode])
    e.update(env)
    with open(work.path(tag + '.err'), 'wb') as err:
        try:
            r = subprocess.run([os.path.join(work.bin, driver), sf, ef, bf], env=e, stdout=subprocess.DEVNULL,
                               stderr=err, stdin=subprocess.DEVNULL, timeout=timeout, cwd=work.dir)
        except subprocess.TimeoutExpired:
            raise Infra('driver timed out')
    if r.returncode != 0:
        raise Infra('driver failed: %d' % r.returncode)
    return merge(work, sessions, tag)


def merge(work, sessions, tag):
    ef, bf = work.path(tag + '.raw'), work.path(tag + '.bytes')
    data = open(bf, 'rb').read() if os.path.exists(bf) else b''
    out = []
    si = -1
    oi = 0
    cur = None
    with open(ef) as f:
        for line in f:
            line = line.strip()
            if not line:
                continue
            try:
                r = json.loads(line)
            except ValueError:
                r = dict(x='garbled')     # output cut by a crash
            if r['x'] == 'S':
                si += 1
                cur = sessions[si]
                live = [(k, fl) for k, (ln, fl) in enumerate(cur.ops) if fl is not None]
                oi = 0
                out.append(dict(x='S', name=r['name'], _op=(si, -1)))
                continue
            if r['x'] in ('crash', 'deadlock', 'garbled'):
                k = live[oi][0] if oi < len(live) else len(cur.ops) - 1
                r['line'] = cur.ops[k][0] if cur.ops else ''
                r['_op'] = (si, k)
                out.append(r)
                continue
            k, fl = live[oi]
            oi += 1
            ev = dict(fl)
            ev.update(r)
            if 'b' in ev:
                o, n = ev.pop('b')
                ev['data'] = mksq.project(data[o:o + n])
                if getattr(cur, 'raw_too', 0) >= n:
                    ev['raw'] = list(data[o:o + n])
            if ev['x'] == 'rlk' and 'target' in ev:
                ev['target'] = re.findall('%..|.', ev['target'])
            if ev['x'] == 'readlink' and 'target' in ev:
                ev['target'] = ev['target'].replace('%2F', '/').split('/')
            if ev['x'] == 'tnext' and 'path' in ev:
                ev['path'] = ev['path'].replace('%2F', '/').split('/')
            if ev['x'] == 'img' and 'ver' in ev:
                ev['ver'] = ev['ver'] + [ev['comp']]
            ev['_op'] = (si, k)
            out.append(ev)
    return out


def write_nd(path, evs):
    with open(path, 'w') as f:
        for e in evs:
            f.write(json.dumps({k: v for k, v in e.items() if k[0] != '_'}) + '\n')


def tlc(work, module, cfg, env=None, timeout=800, workers='1', extra=(), heap='4g', short=False):
    meta = tempfile.mkdtemp(prefix='tlc-', dir=work.dir)
    cmd = ['java'] + (['-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1'] if short else ['-XX:+UseParallelGC', '-XX:ParallelGCThreads=4']) + [ '-Xss256m', '-Xmx' + heap, '-cp', JARS, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE',
           '-workers', workers, '-config', cfg] + list(extra) + [module]
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra('TLC timed out on ' + module)
    out = r.stdout.decode(errors='replace')
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    st = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return r.returncode, out, st, time.time() - t


# findings of KNOWN_FINDINGS.txt that the specifications let pass: KNOWN_<name> -> '1' (set by run.Check)
KNOWN = {}


def validate(work, images, events, tag='t', module='SquashTrace', cfg='SquashTrace.cfg', extra_env=None):
    """-> (accepted?, matched count, output, states)"""
    tf, mf = work.path(tag + '.nd'), work.path(tag + '.trees')
    write_nd(tf, events)
    write_nd(mf, [im.model for im in images])
    env = dict(TRACE=tf, TREES=mf, **KNOWN)
    env.update(extra_env or {})
    rc, out, st, secs = tlc(work, module, cfg, env, short=len(events) < 20000)
    m = re.search(r'<<"MATCHED", (\d+), (\d+)>>', out)
    if not m:
        # an event of a shape that the specification cannot even evaluate is no behaviour of it
        at = re.findall(r'^State (\d+): <TraceNext', out, re.M)
        if at and 'The error occurred when TLC was evaluating' in out and len(events) >= int(at[-1]):
            return False, int(at[-1]) - 1, out, st
        raise Infra('TLC gave no verdict on the trace (tag %s):\n%s\n%s' % (tag, '\n'.join(re.findall(r'(?s)Error: .{0,600}', out)[:2]), out[-1500:]))
    k, n = int(m.group(1)), int(m.group(2))
    if n != len(events):
        raise Infra('TLC read %d of %d events' % (n, len(events)))
    return k == n, k, out, st


# ---------------------------------------------------------------- the sample's layer
MOUNT = b'/__enclose_io_memfs__'


def etok(k, p):
    return '^' + enc(p) if k == 'os' else tok(p)


class ESession(Session):
    """calls of the sample's system-call layer; a path is (kind, bytes): "img" with the mount point,
    "os" below the scratch directory, "rel" relative"""

    def _p(self, op, pth, *rest, pre=(), **f):
        k, p = pth
        f.update(pk=k, path=comps(p), _txt=b(p))
        self.raw(' '.join([op] + [str(x) for x in pre] + [etok(k, p)] + [str(x) for x in rest]), **f)

    def mount(self, h=0): self.raw('emount %d' % h, h=h)
    def eopen(self, s, p): self._p('eopen', p, pre=(s,))
    def eopenat(self, s, p, d): self._p('eopenat', p, d, pre=(s,))
    def eclose(self, s): self.raw('eclose %d' % s)
    def eread(self, s, n): self.raw('eread %d %d' % (s, n), n=small(n))
    def epread(self, s, n, off): self.raw('epread %d %d %d' % (s, n, off), n=small(n), off=wide(off))
    def ereadv(self, s, lens): self.raw('ereadv %d %d %s' % (s, len(lens), ' '.join(map(str, lens))), lens=[small(x) for x in lens], n=small(sum(lens)))
    def elseek(self, s, off, wh): self.raw('elseek %d %d %d' % (s, off, wh), off=wide(off), whence=wh)
    def efstat(self, s): self.raw('efstat %d' % s)
    def estat(self, p): self._p('estat', p)
    def elstat(self, p): self._p('elstat', p)
    def eaccess(self, p, mode): self._p('eaccess', p, mode, mode=mode)
    def ereadlink(self, p, n): self._p('ereadlink', p, n, bufsize=n)
    def eopendir(self, d, p): self._p('eopendir', p, pre=(d,), s=d)
    def efdopendir(self, d, s): self.raw('efdopendir %d %d' % (d, s), s=d)
    def ereaddirs(self, d, k): self.raw('ereaddirs %d %d' % (d, k), s=d, k=k)
    def etelldir(self, d, t): self.raw('etelldir %d %d' % (d, t), s=d, t=t)
    def eseekdir(self, d, t): self.raw('eseekdir %d %d' % (d, t), s=d, t=t)
    def erewinddir(self, d): self.raw('erewinddir %d' % d, s=d)
    def edirfd(self, d): self.raw('edirfd %d' % d, s=d)
    def eclosedir(self, d): self.raw('eclosedir %d' % d, s=d)
    def escandir(self, p, sel=0, cmp=0): self._p('escandir', p, sel, cmp, sel=sel, cmp=cmp)
    def echdir(self, p): self._p('echdir', p)
    def egetcwd(self, size, mode=0): self.raw('egetcwd %d %d' % (size, mode), size=size, mode=mode)
    def emkdir(self, p, mode=0o755): self._p('emkdir', p, mode, mode=mode & ~0o022)

    def eopenf(self, s, p, acc=0, creat=0, excl=0, trunc=0, app=0, mode=0o644, way=0):
        f = acc | (creat and os.O_CREAT) | (excl and os.O_EXCL) | (trunc and os.O_TRUNC) | (app and os.O_APPEND)
        self._p('eopenf', p, f, mode, way, pre=(s,), acc=acc, creat=int(creat), excl=int(excl), trunc=int(trunc), app=int(app), mode=mode & ~0o022)

    def ewrite(self, s, data): self.raw('ewrite %d %s' % (s, data.hex() or '-'), bytes=list(data))
    def eexit(self): self.raw('eexit', )
    def eif(self, p): self._p('eif', p)
    def eifextract(self, p): self._p('eifextract', p)
    def edlopen(self, p): self._p('edlopen', p)
    def eexec(self, p): self._p('eexec', p)


class OsTree:
    """a plain directory tree, as the last of the trees of a batch; root is a mksq directory node"""

    def __init__(self, root, mtime=1500000000):
        for i, n in enumerate(self.walk(root)):
            n.mtime = n.mtime or mtime + i
        self.builder = mksq.Builder(root, 4096)
        self.builder.build()
        self.model = finish_model(self.builder.model())
        self.root = root

    @staticmethod
    def walk(n):
        yield n
        for c in n.ents.values() if n.kind == 'dir' else ():
            yield from OsTree.walk(c)

    def put(self, d):
        def go(n, p):
            for nm, c in n.ents.items():
                q = p + b'/' + nm
                if c.kind == 'dir':
                    os.mkdir(q)
                    go(c, q)
                elif c.kind == 'reg':
                    with open(q, 'wb') as f:
                        f.write(c.bytes_at(0, c.size()))
                elif c.kind == 'lnk':
                    os.symlink(c.target, q)
                    continue
                else:
                    raise Infra('no such file in an OS tree')
                os.chmod(q, c.mode)
                os.utime(q, (c.mtime, c.mtime))
        go(self.root, os.fsencode(d))
        os.chmod(d, self.root.mode)
        os.utime(d, (self.root.mtime, self.root.mtime))


def drive_sample(work, images, sessions, tag='t', driver='sample', timeout=600, env=None):
    root = os.path.join(os.path.realpath(work.dir), 'root')
    if os.path.isdir(root):
        shutil.rmtree(root)
    os.mkdir(root)
    images[-1].put(root)
    os.chmod(work.dir, 0o755)
    os.chmod(work.tmp, 0o777)
    p = os.path.realpath(work.dir)
    while os.path.basename(os.path.dirname(p)).startswith('sqv-'):
        p = os.path.dirname(p)
        os.chmod(p, 0o711)
    evs = drive(work, images[:-1], sessions, tag, driver, timeout, dict(env or {}, SAMPLE_ROOT=root))
    text = b''
    for e in evs:
        if e['x'] in ('S', 'crash', 'deadlock'):
            text = b'' if e['x'] == 'S' else text
            continue
        for key in ('cwd', 'got', 'a1'):
            if e['x'] in ('egetcwd', 'eifextract', 'edlopen', 'eexec') and isinstance(e.get(key), str):
                kind = e.get('k' + key)
                v = e[key].replace('%2F', '/')
                e[key] = v if kind == 'tmp' else (v.split('/') if v else [''])
        if e['x'] == 'ereadlink' and 'target' in e:
            e['target'] = e['target'].replace('%2F', '/').split('/')
        if e['x'] == 'egetcwd':
            e['base'] = len(os.fsencode(root))
        if '_txt' in e:
            inside = e['pk'] == 'img' or (e['pk'] == 'rel' and text)
            full = text + e['_txt'] if inside and e['pk'] == 'rel' else e['_txt']
            if e['x'] == 'echdir' and e.get('ret') == 0:
                text = full.rstrip(b'/') + b'/' if inside else b''
            e['spelt'] = enc(full)
    return evs
