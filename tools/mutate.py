#!/usr/bin/env python3
"""mutate.py OUT.jsonl N SEED [file...]: N random one-place changes of /repo's sources; for each one that
compiles and passes the tests, the checks of its file are run until one notices.  Works on scratch copies
under /tmp only.  For finding out what the checks miss; no check uses it."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = {
    'cache.c': 'C18 C13 C01 C14 C05 C17',
    'decompress.c': 'C13 C17 C14 C01',
    'dir.c': 'C06 C08 C21 C16 C10 C13 C09 C14 C18 C07 C12',
    'dirent.c': 'C08 C12 C02 C09 C03 C14 C13 C04',
    'extract.c': 'C15 C14 C12 C13',
    'fd.c': 'C03 C02 C12 C14 C10 C04 C01',
    'file.c': 'C01 C13 C02 C18 C14 C05 C15',
    'fs.c': 'C17 C10 C07 C13 C01 C11 C21 C14 C18 C12 C05 C06 C16',
    'hash.c': 'C22 C14 C15',
    'mutex.c': 'C04 C05',
    'nonstd-makedev.c': 'C10',
    'nonstd-stat.c': 'C10',
    'private.c': 'C10 C12',
    'readlink.c': 'C11 C12 C07 C14',
    'scandir.c': 'C09 C12 C14 C13',
    'stack.c': 'C22 C16 C14',
    'stat.c': 'C10 C12 C07 C14',
    'table.c': 'C21 C17 C01 C13 C14 C05',
    'traverse.c': 'C16 C14 C13',
    'util.c': 'C17 C01 C15',
    'enclose_io_unix.c': 'C19 C20 C23 C15',
}
REL = {'<': ['<=', '>'], '<=': ['<', '=='], '>': ['>=', '<'], '>=': ['>', '<'], '==': ['!='], '!=': ['==']}


def mutants(text):
    lines = text.split('\n')
    out = []
    skip = 0
    win = False
    for i, l in enumerate(lines):
        st = l.strip()
        if st.startswith('#'):
            if '_WIN32' in st:
                win = True
            elif st.startswith('#else') or st.startswith('#endif'):
                win = False
            continue
        if win or st.startswith(('//', '*', '/*')) or not st:
            continue
        code = l.split('//')[0]
        for m in re.finditer(r'(?<![-<>=!+*/&|])(<=|>=|==|!=|<|>)(?![<>=])', code):
            if m.group(1) in '<>' and (code[m.start() - 1] != ' ' and code[m.end():m.end() + 1] != ' '):
                continue
            for r in REL[m.group(1)]:
                out.append((i, code[:m.start()] + r + code[m.end():], '%s -> %s' % (m.group(1), r)))
        for m in re.finditer(r'&&|\|\|', code):
            out.append((i, code[:m.start()] + {'&&': '||', '||': '&&'}[m.group()] + code[m.end():], m.group()))
        for m in re.finditer(r' ([+-]) ?(1|sizeof\([^)]*\))(?![0-9])', code):
            out.append((i, code[:m.start()] + code[m.end():], 'drop ' + m.group()))
        for m in re.finditer(r'(?<=[\w\])]) ([+*/%&|-]) (?=[\w(])', code):
            out.append((i, code[:m.start()] + {'+': ' - ', '-': ' + ', '*': ' + ', '/': ' * ', '%': ' / ', '&': ' | ', '|': ' & '}[m.group(1)] + code[m.end():], 'op ' + m.group()))
        for m in re.finditer(r'\b(\d+|0x[0-9a-f]+)\b', code):
            v = m.group(1)
            out.append((i, code[:m.start()] + ('1' if v == '0' else '0' if v == '1' else '(%s+1)' % v) + code[m.end():], 'const ' + v))
        m = re.match(r'^(\s*(?:\} else )?if ?)\((.*)\)(\s*\{?\s*)$', code)
        if m:
            out.append((i, m.group(1) + '(0 && (' + m.group(2) + '))' + m.group(3), 'if 0'))
            out.append((i, m.group(1) + '(1 || (' + m.group(2) + '))' + m.group(3), 'if 1'))
        if re.match(r'^\s*[\w*>.\[\]()& +-]+( ?[-+|&]?= ?.*|\(.*\)|\+\+|--);\s*$', code) and not re.match(r'^\s*(return|static|const|struct|unsigned|int|char|size_t|sqfs_err|short)\b(?!.*\w\()', code):
            ind = re.match(r'\s*', code).group()
            if not re.match(r'^\s*(int|char|size_t|sqfs_\w+|struct|short|void|uint\w+|unsigned|const|static)\s[^=(]*[=;]', code):
                out.append((i, ind + ';', 'delete'))
        m = re.match(r'^(\s*)(goto \w+|continue|break);\s*$', code)
        if m:
            out.append((i, m.group(1) + ';', 'delete'))
    if os.environ.get('MUT') == 'names':        # another kind: order and names
        out = []
        word = r'(?<![\w"])[a-z_]\w*(?![\w"]|\s*\()'
        kw = set('if else while for return goto break continue struct static const int char size_t short void sizeof unsigned long case switch default do'.split())
        for i, l in enumerate(lines):
            st = l.strip()
            if not st or st.startswith(('#', '//', '*', '/*')) or not l.startswith(('\t', ' ')):
                continue
            code = l.split('//')[0]
            if i + 1 < len(lines) and re.match(r'^\s*[^{}]*;\s*$', code) and re.match(r'^\s*[^{}]*;\s*$', lines[i + 1]) and \
               re.match(r'\s*', code).group() == re.match(r'\s*', lines[i + 1]).group() and '(' in code + lines[i + 1] or '=' in code and i + 1 < len(lines) and '=' in lines[i + 1]:
                out.append((i, lines[i + 1] + '\n' + code, 'swap'))
            near = [x for k in range(max(0, i - 12), min(len(lines), i + 8)) for x in re.findall(word, lines[k].split('//')[0]) if x not in kw]
            fields = [x for k in lines for x in re.findall(r'(?:->|\.)(\w+)', k)]
            for m in re.finditer(word, code):
                if m.group() in kw or re.match(r'^\s*\w+[ *]+%s\b' % m.group(), code):
                    continue
                member = code[:m.start()].endswith(('->', '.'))
                for x in random.Random(i * 1000 + m.start()).sample(sorted(set(fields if member else near) - {m.group()}), min(2, len(set(fields if member else near)) - 1)):
                    out.append((i, code[:m.start()] + x + code[m.end():], 'name ' + m.group()))
    res = []
    for i, new, why in out:
        n = list(lines)
        n[i] = new
        if why == 'swap':
            del n[i + 1]
        res.append((i + 1, lines[i].strip(), new.strip(), why, '\n'.join(n)))
    return res


def run(cmd, cwd, env=None, t=300):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t, env=dict(os.environ, **(env or {})))
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ''


def main():
    outf, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or sorted('src/' + f if f != 'enclose_io_unix.c' else 'sample/' + f for f in ORDER)
    r = random.Random(seed)
    pool = []
    for f in files:
        for m in mutants(open('/repo/' + f).read()):
            pool.append((f, m))
    r.shuffle(pool)
    print(len(pool), 'possible')
    w = tempfile.mkdtemp(prefix='mut-')
    t = w + '/repo'
    shutil.copytree('/repo', t, symlinks=True, ignore=shutil.ignore_patterns('_build', '.git'))
    ver = w + '/verif'
    shutil.copytree(ROOT, ver, symlinks=True, ignore=shutil.ignore_patterns('.git', 'replay', 'evidence', 'seeded'))
    cc = ('cmake -S . -B _build -G Ninja -DCMAKE_C_COMPILER=gcc -DCMAKE_BUILD_TYPE=Debug -DCMAKE_POLICY_VERSION_MINIMUM=3.5 '
          '-DBUILD_TESTS=ON -DBUILD_SAMPLE=ON -DCMAKE_C_FLAGS=-w -Wno-dev')
    rc, o = run(cc, t)
    assert rc == 0, o
    try:
        for f, (ln, old, new, why, text) in pool[:n]:
            orig = open('/repo/' + f).read()
            open(t + '/' + f, 'w').write(text)
            d = dict(file=f, line=ln, old=old, new=new, why=why)
            rc, o = run('ninja -C _build', t)
            if rc:
                d['res'] = 'no build'
            else:
                rc, o = run('cd _build && timeout 20 ./squash_tests', t)
                if rc:
                    d['res'] = 'tests'
                else:
                    d['res'] = 'SURVIVED'
                    t0 = time.time()
                    d['rc'] = {}
                    for p in ORDER[os.path.basename(f)].split():
                        rc, o = run('python3-vt check.py ' + p, ver, dict(VERIF_REPO=t, VERIF_REPLAY=w + '/replay', VERIF_SEED='1', VERIF_TIER='quick'), 600)
                        d['rc'][p] = rc
                        if rc == 1:
                            d['res'] = 'caught ' + p
                            break
                        if rc:
                            d['msg'] = o[-300:]
                    d['secs'] = round(time.time() - t0)
                    shutil.rmtree(w + '/replay', ignore_errors=True)
            open(t + '/' + f, 'w').write(orig)
            with open(outf, 'a') as g:
                g.write(json.dumps(d) + '\n')
    finally:
        shutil.rmtree(w)


main()
