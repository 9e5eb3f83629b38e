"""Tasks for the CRC properties C11-C15."""
import random
from native_check import Group
ISAS = (0, 7, 8)
def C11(quick):
    t = []
    for isa in ISAS:
        hi = (80 if isa == 0 else 200) if quick else 420
        for n in range(0, hi):
            als = sorted({n * 5 % 16, n * 11 % 32}) if quick else range(0, 32, 1 if n < 80 else 5)
            for al in als: t.append(dict(isa=isa, mode=0, n=n, al=al))
        for n in (255, 256, 257, 300, 511, 1000) if quick else (511, 512, 513, 1000, 1024, 1037, 2048, 3001):
            for al in ((3,) if quick else (0, 3, 17)): t.append(dict(isa=isa, mode=0, n=n, al=al))
        for al in range(32):
            for n in ((33, 70) if quick else (16, 33, 47, 70, 100)): t.append(dict(isa=isa, mode=0, n=n, al=al))
        for n in (0, 1, 5, 40): t.append(dict(isa=isa, mode=0, n=n, al=1, init=0))
        for na, nb in ((0, 7), (5, 30), (33, 65)): t.append(dict(isa=isa, mode=5, na=na, nb=nb))
    t.sort(key=lambda x: -x.get('n', 90))
    return [Group('crc', t, anf=True, reach=('crc',))]
def C14(quick):
    return [Group('crc', [dict(isa=i, mode=1) for i in ISAS], anf=True, reach=('product',))]
def windows(mode, quick, limit, negs, **kw):
    """windows of adjacent arbitrary bits of n at every position, on several backgrounds"""
    rnd = random.Random(11 + mode); t = []
    w = 6 if quick else 8
    for isa in ISAS:
        for neg in negs:
            top = limit.bit_length()
            for pos in list(range(0, top - w, 3 if quick else 2)) + [top - w]:
                for base in (0, None) if quick else (0, None, None, None, None, -1):
                    mask = ((1 << w) - 1) << pos
                    b = 0 if base == 0 else (limit & ~mask) if base == -1 else rnd.getrandbits(top) & limit & ~mask
                    t.append(dict(isa=isa, mode=mode, pos=pos, bits=w, base=b, neg=neg, **kw))
            t.append(dict(isa=isa, mode=mode, pos=0, bits=w, base=limit & ~((1 << w) - 1), neg=neg, **kw))
        for v in (-limit - 1,) if 1 in negs else (): t.append(dict(isa=isa, mode=mode, bits=-1, base=v, **kw))
    return t
I31 = (1 << 31) - 1
def exps(apis): return [dict(isa=0, mode=6, api=a, neg=n) for a, n in apis]
def C15(quick):
    t = windows(2, quick, I31, (0, 1)) + [dict(isa=i, mode=2, pos=0, bits=6, base=0, neg=g, dflt=1) for i in ISAS for g in (0, 1)]
    return [Group('crc', t, anf=True, reach=('shifted',)), Group('crc', exps([(0, 0), (0, 1)]), name='exponent', weight=0.3)]
def C13(quick):
    t = windows(3, quick, I31, (0, 1)) + [dict(isa=i, mode=3, pos=0, bits=6, base=0, neg=g, dflt=1) for i in ISAS for g in (0, 1)]
    t += [dict(isa=i, mode=3, pos=p, bits=4, base=1, undo=1) for i in ISAS for p in (0, 9, 20)]
    return [Group('crc', t, anf=True, reach=('zeroes',)), Group('crc', exps([(1, 0), (1, 1)]), name='exponent', weight=0.3)]
def C12(quick):
    t = windows(4, quick, (1 << 53) - 1, (0,))
    if quick: t = [x for k, x in enumerate(t) if k % 3 != 1 or x['base'] == 0]
    for isa in ISAS:
        for base in ((1 << 32) - 8, (1 << 33) - 9, (3 << 32) - 16, (1 << 29) - 8, (1 << 52) + (1 << 32) - 6): t.append(dict(isa=isa, mode=4, pos=0, bits=4, base=base))
        for na, nb in ((0, 0), (0, 9), (3, 0), (1, 1), (7, 20), (40, 33), (2, 100), (64, 16)): t.append(dict(isa=isa, mode=5, na=na, nb=nb))
    return [Group('crc', t, anf=True, reach=('combined', 'pieces')), Group('crc', exps([(2, 0)]), name='exponent', weight=0.3)]
def C26(quick):
    t = []
    for isa in ISAS:
        for n in list(range(0, 100 if quick else 300)) + [127, 128, 129, 191, 192, 193, 255, 256, 257, 319, 511, 4095, 4096, 4097]:
            if isa == 0 and n > 4000 and quick: continue
            t.append(dict(isa=isa, mode=7, n=n, low=0)); t.append(dict(isa=isa, mode=7, n=n, low=1))
            for al in ((1, 5, 15, 16, 31) if not quick else (n % 31 + 1,)): t.append(dict(isa=isa, mode=7, n=n, low=0, al=al)); t.append(dict(isa=isa, mode=7, n=n, low=1, al=al))
        for al in range(64) if not quick else (): t += [dict(isa=isa, mode=7, n=n, low=l, al=al) for n in (17, 33, 65, 100, 130) for l in (0, 1)]
        t += [dict(isa=isa, mode=7, n=n, low=0, init=0) for n in (0, 3, 20)] + [dict(isa=isa, mode=8, low=l) for l in (0, 1)]
    t.sort(key=lambda x: -x.get('n', 300))
    return [Group('crc', t, anf=True, reach=('hashed', 'computed'))]
COMMON = ['clang 18 -O1 IR of the kernels and of src/yencode.cc stands for the gcc -O3 build (sampled paths are replayed on the gcc build)',
          'V8 and Buffer API replaced by stand-ins (values are tagged structs)',
          'PCLMULQDQ, VPCLMULQDQ, AArch64 CRC32 and PMULL, portable (slice-by-4) and crcutil code; RISC-V kernels are not encoded']
BOUNDS = dict(data='lengths 0..199 (portable 0..79) and a few up to 1000 at sampled alignments; all alignments 0..31 at chosen lengths; every byte and the initial CRC arbitrary', multiply='all 2^64 pairs', exponents='CRC arbitrary, n over 6-bit (thorough 8-bit) windows of adjacent bits at every position on zero and random backgrounds; distance passed to the shift kernel checked for every n at once')
BOUNDS['C26'] = dict(data='lengths 0..99 (thorough 0..299) and sampled lengths up to 4097; the data ends, or begins, 0..31 bytes away from a page boundary; contents up to 199 bytes arbitrary, of longer data the first and last 8 bytes', arguments='CRC arguments arbitrary and at a page boundary; shift distances sampled')
