"""Constants that appear in the tree under test but not in the tree the harness
was written against. They only steer workload generation (a value that code
newly compares with is worth trying as an input); no verdict depends on them."""
import glob, hashlib, os, re

TOK = re.compile(r'''
  (?P<lc>//[^\n]*)|(?P<bc>/\*.*?\*/)
 |(?P<rs>b?r(\#*)".*?"\4)
 |(?P<st>b?"(?:\\.|[^"\\])*")
 |(?P<ch>b?'(?:\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F]+\}|\\.|[^'\\])')
 |(?P<nm>(?<![A-Za-z0-9_.])(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<pu>[\[\],;])
 |(?P<ot>\S)
''', re.X | re.S)
ESC = {'n': 10, 't': 9, 'r': 13, '0': 0, '\\': 92, "'": 39, '"': 34}


def num(t):
    t = re.sub(r'(?<=[0-9a-fA-F_])[iu](8|16|32|64|128|size)$', '', t).replace('_', '')
    try:
        if t[:2] == '0x':
            return int(t, 16)
        if t[:2] == '0b':
            return int(t, 2)
        if t[:2] == '0o':
            return int(t, 8)
        return int(t)
    except ValueError:
        return None


def text(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\' and i + 1 < len(s):
            d = s[i + 1]
            if d == 'x':
                try:
                    out.append(int(s[i + 2:i + 4], 16))
                except ValueError:
                    pass
                i += 4
                continue
            if d in ESC:
                out.append(ESC[d])
            i += 2
            continue
        out += c.encode()
        i += 1
    return bytes(out)


def products(src):
    """values of 4 << 20, 64 * 1024 * 1024 and the like"""
    n = r'(?:0x[0-9a-fA-F_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?'
    for m in re.finditer(r'(?<![\w.])' + n + r'(?:\s*(?:<<|\*)\s*' + n + r')+', src):
        f = re.split(r'(<<|\*)', m.group(0))
        v = num(f[0].strip())
        for o, t in zip(f[1::2], f[2::2]):
            w = num(t.strip())
            if v is None or w is None or o == '<<' and w > 63:
                v = None
                break
            v = v << w if o == '<<' else v * w
        if v is not None and v < 1 << 64:
            yield v


def scan(src):
    ints, strs = set(products(src)), set()
    runs = []
    run = None
    for m in TOK.finditer(src):
        k = m.lastgroup
        t = m.group(0)
        if k in ('lc', 'bc'):
            continue
        if k == 'nm':
            v = num(t)
            if v is not None and v < 1 << 64:
                ints.add(v)
                if run is not None:
                    run.append(v)
            continue
        if k == 'pu':
            if t == '[':
                run = []
            elif t == ']':
                if run and len(run) >= 2 and all(x < 256 for x in run):
                    runs.append(bytes(run))
                run = None
            elif t == ';':
                run = None
            continue
        if k in ('st',):
            strs.add(text(t[t.index('"') + 1:-1]))
        elif k == 'rs' or t.startswith(('r"', 'r#', 'br')) and '"' in t:
            strs.add(t[t.index('"') + 1:t.rindex('"')].encode())
        elif k == 'ch':
            b = text(t[t.index("'") + 1:-1])
            if b:
                ints.add(b[0])
        if k != 'ot' or t not in '-':
            run = None
    strs |= set(runs)
    for s in list(strs):
        try:
            h = bytes.fromhex(s.decode())
            if h:
                strs.add(h)
        except (ValueError, UnicodeDecodeError):
            pass
    return ints, {s for s in strs if 0 < len(s) <= 4096}


def lines(repo):
    for f in sorted(glob.glob(os.path.join(repo, 'src', '**', '*.rs'), recursive=True)):
        try:
            t = open(f, encoding='utf-8', errors='replace').read()
        except OSError:
            continue
        for l in t.splitlines():
            l = re.sub(r'\s+', '', l)
            if l:
                yield l


def digest(l):
    return hashlib.sha256(l.encode()).hexdigest()[:12]


def new_constants(repo, baseline):
    """literals on source lines the baseline tree does not have"""
    known = set(open(baseline).read().split())
    src = []
    for f in sorted(glob.glob(os.path.join(repo, 'src', '**', '*.rs'), recursive=True)):
        try:
            t = open(f, encoding='utf-8', errors='replace').read()
        except OSError:
            continue
        src += [l for l in t.splitlines() if re.sub(r'\s+', '', l) and digest(re.sub(r'\s+', '', l)) not in known]
    ints, strs = scan('\n'.join(src))
    # 0..2 are no information
    ni = sorted(i for i in ints if i > 2)
    return {'ints': ni[:400], 'strs': sorted(x.hex() for x in strs)[:100]}


if __name__ == '__main__':
    import sys
    open(sys.argv[1], 'w').write('\n'.join(sorted({digest(l) for l in lines('/repo')})) + '\n')
