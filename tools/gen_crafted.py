#!/usr/bin/env python3
"""Development-time generator of harness/vectors/crafted.txt (committed).

Finds 57-byte point encodings whose *curve-check residue inside the decoder* is
a single 28-bit limb k*2^(28*i): on-curve points whose internal projective Z has
one non-zero limb, and off-curve y whose curve-equation residue has one.  A field
comparison that forgets a limb answers wrongly on them; random inputs never get
there (probability 2^-420).  Root finding over GF(p), degree 4..8."""
import random, sys
p = 2**448 - 2**224 - 1
d = -39081 % p
random.seed(448)

def trim(a):
    while a and a[-1] == 0: a.pop()
    return a
def padd(a, b):
    n = max(len(a), len(b)); return trim([((a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0)) % p for i in range(n)])
def psub(a, b): return padd(a, [(-x) % p for x in b])
def pmul(a, b):
    if not a or not b: return []
    r = [0]*(len(a)+len(b)-1)
    for i, x in enumerate(a):
        for j, y in enumerate(b): r[i+j] += x*y
    return trim([x % p for x in r])
def pdivmod(a, m):
    a = a[:]; q = [0]*max(0, len(a)-len(m)+1); inv = pow(m[-1], -1, p)
    while len(a) >= len(m):
        c = a[-1]*inv % p; s = len(a)-len(m); q[s] = c
        for i, x in enumerate(m): a[s+i] = (a[s+i]-c*x) % p
        trim(a)
    return trim(q), a
def pmod(a, m): return pdivmod(a, m)[1]
def pgcd(a, b):
    while b: a, b = b, pmod(a, b)
    inv = pow(a[-1], -1, p); return [x*inv % p for x in a]
def ppow(base, e, m):
    r = [1]; base = pmod(base, m)
    while e:
        if e & 1: r = pmod(pmul(r, base), m)
        base = pmod(pmul(base, base), m); e >>= 1
    return r
def roots(f):
    f = trim(f[:]); g = pgcd(f, psub(ppow([0, 1], p, f), [0, 1]))
    out = []
    def split(g):
        if len(g) == 1: return
        if len(g) == 2: out.append((-g[0]*pow(g[1], -1, p)) % p); return
        while True:
            h = ppow([random.randrange(p), 1], (p-1)//2, g)
            k = pgcd(g, psub(h, [1])) if psub(h, [1]) else g
            if 1 < len(k) < len(g): split(k); split(pdivmod(g, k)[0]); return
    split(g); return out
def sqrt(a):
    r = pow(a, (p+1)//4, p); return r if r*r % p == a % p else None

V = [1, (-d) % p]                   # 1-dY
# on-curve: x^2 = (1-Y)/V.  tn = t*V, an = a*V
def on_curve_poly(c):
    U = [1, p-1]
    t = psub(pmul([0, 1], V), U); a = psub(pmul([2, p-1], V), U)
    return psub(pmul(t, a), pmul([c], pmul(V, V)))
def off_curve_poly(c):
    U = [p-1, 1]                     # x^2 = -(1-Y)/V
    Y = [0, 1]
    X2 = U                           # x^2 * V
    YV = pmul(Y, V)
    dd = padd(X2, YV); t = psub(YV, X2); a = psub(pmul([2], V), dd)
    b2 = pmul([4], pmul(X2, YV))     # b^2 * V^2
    D2, T2, A2 = pmul(dd, dd), pmul(t, t), pmul(a, a)
    res = psub(psub(pmul(T2, D2), pmul(A2, b2)), psub(pmul(T2, A2), pmul([39082], pmul(b2, D2))))
    V4 = pmul(pmul(V, V), pmul(V, V))
    return psub(res, pmul([c], V4))
def enc(y, s): return (y.to_bytes(56, 'little') + bytes([s << 7])).hex()

out = []
for i in range(16):
    for kind, poly in (('on', on_curve_poly), ('off', off_curve_poly)):
        got = 0
        for k in [1, 0xfffffff, 2, 0x8000000] + [random.randrange(1, 1 << 28) for _ in range(40)]:
            for neg in (0, 1):
                c = k << (28*i)
                c = (p-c) % p if neg else c % p
                for Yr in roots(poly(c)):
                    y = sqrt(Yr)
                    if y is None: continue
                    x2 = (1-Yr)*pow(1-d*Yr, -1, p) % p
                    oncurve = sqrt(x2) is not None
                    if oncurve != (kind == 'on'): continue
                    for yy in (y, p-y):
                        out.append((kind, i, enc(yy, 0))); out.append((kind, i, enc(yy, 1))); got += 1
            if got >= 4: break
        print(kind, i, got, file=sys.stderr)
with open(sys.argv[1], 'w') as f:
    f.write('# kind limb encoding -- generated by tools/gen_crafted.py\n')
    for k, i, e in out: f.write(f'{k} {i} {e}\n')
