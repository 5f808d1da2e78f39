#!/usr/bin/env python3
"""Development-time generator of harness/vectors/kats.txt (committed): Ed448
known answers produced by OpenSSL's independent implementation (libcrypto via
ctypes), used to validate the reference model at the start of every run."""
import ctypes, random, sys
c = ctypes.CDLL('libcrypto.so.3')
V = ctypes.c_void_p
for n in ('EVP_PKEY_new_raw_private_key','EVP_PKEY_new_raw_public_key','EVP_MD_CTX_new'):
    getattr(c, n).restype = V
ED448 = 1088
def sign(seed, m):
    k = V(c.EVP_PKEY_new_raw_private_key(ED448, None, seed, ctypes.c_size_t(57)))
    pub = ctypes.create_string_buffer(57); n = ctypes.c_size_t(57)
    assert c.EVP_PKEY_get_raw_public_key(k, pub, ctypes.byref(n)) == 1
    ctx = V(c.EVP_MD_CTX_new())
    assert c.EVP_DigestSignInit(ctx, None, None, None, k) == 1
    s = ctypes.create_string_buffer(114); n = ctypes.c_size_t(114)
    assert c.EVP_DigestSign(ctx, s, ctypes.byref(n), m, ctypes.c_size_t(len(m))) == 1
    c.EVP_MD_CTX_free(ctx); c.EVP_PKEY_free(k)
    return pub.raw, s.raw
def verify(pub, s, m):
    k = c.EVP_PKEY_new_raw_public_key(ED448, None, pub, ctypes.c_size_t(57))
    if not k: return False
    k = V(k); ctx = V(c.EVP_MD_CTX_new())
    assert c.EVP_DigestVerifyInit(ctx, None, None, None, k) == 1
    r = c.EVP_DigestVerify(ctx, s, ctypes.c_size_t(len(s)), m, ctypes.c_size_t(len(m)))
    c.EVP_MD_CTX_free(ctx); c.EVP_PKEY_free(k)
    return r == 1
if __name__ == '__main__':
    random.seed(8032)
    rb = lambda n: bytes(random.randrange(256) for _ in range(n))
    with open(sys.argv[1], 'w') as f:
        f.write('# seed pub msg sig verdict -- generated by tools/gen_kats.py with OpenSSL\n')
        for n in [0, 1, 11, 12, 13, 64, 69, 70, 255, 256, 1023] + [random.randrange(300) for _ in range(21)]:
            seed, m = rb(57), rb(n)
            pub, s = sign(seed, m)
            assert verify(pub, s, m)
            f.write(f'{seed.hex()} {pub.hex()} {m.hex() or "-"} {s.hex()} 1\n')
            bad = bytearray(s); i = random.randrange(114); bad[i] ^= 1 << random.randrange(8)
            f.write(f'{seed.hex()} {pub.hex()} {m.hex() or "-"} {bytes(bad).hex()} {int(verify(pub, bytes(bad), m))}\n')
            L = 2**446 - 13818066809895115352007386748515426880336692474882178609894547503885
            S = int.from_bytes(s[57:], 'little') + L * random.randrange(1, 900)
            mal = s[:57] + S.to_bytes(57, 'little')
            f.write(f'{seed.hex()} {pub.hex()} {m.hex() or "-"} {mal.hex()} {int(verify(pub, mal, m))}\n')
