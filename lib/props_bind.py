"""Tasks for the binding, memory, dispatch and sharing properties C09 C16 C18 C19."""
import random
from native_check import Group
from props_encode import OFF, W, LINES, COMMON as ENC_COMMON
SIMD = (1, 2, 3, 4, 5)

def C16(quick):
    t = [dict(isa=0, mode=0, api=a, argc=c) for a in range(11) for c in range(0, 5)]                                # kinds and counts
    ns = (0, 1, 2, 3) if quick else (0, 1, 2, 3, 4, 6)
    for a, c, o in ((0, 1, -1), (0, 2, -1), (0, 3, -1), (2, 1, -1), (2, 2, -1), (2, 3, -1)): t += [dict(isa=0, mode=1, api=a, argc=c, n=n, out=o) for n in ns]
    for a, c in ((1, 2), (1, 3), (1, 4), (2, 2), (2, 3), (2, 4)):
        for n in ns: t += [dict(isa=0, mode=1, api=a, argc=c, n=n, out=o) for o in (range(64 + n, 72 + 6 * n, 3) if quick else range(60, 80 + 6 * n)) if c > 2 or o in (68, 70, 72, 74, 76, 82)]
    for isa in SIMD:                                                                                                    # long inputs, real kernels, default and given lines
        n = OFF(isa) + 40
        for line in (128, 64, 40): t += [dict(isa=isa, mode=1, api=a, argc=3 + (a == 1), n=n, out=2 * n + 66 + 2 * (2 * n // line) if a == 1 else -1, line=line) for a in (0, 1)] if not quick else []
        t += [dict(isa=isa, mode=1, api=a, argc=1 + (a == 1), n=n, out=2 * n + 66 + 2 * (2 * n // 128) if a == 1 else -1) for a in (0, 1, 2)]
    k = 5 if quick else 7
    t += [dict(isa=0, mode=2, api=3, argc=c, n=n, raw=r) for n in range(k) for c, r in ((1, 0), (2, 0), (2, 1))]
    t += [dict(isa=0, mode=2, api=4, argc=c, n=n, raw=r, place=p, spare=n % 3) for n in range(k) for c, r in ((2, 0), (3, 0), (3, 1)) for p in (0, 1)]
    t += [dict(isa=0, mode=2, api=5, argc=c, n=n, st=s, place=p, spare=n % 2) for n in range(k - 1) for c in (1, 2, 3) for s in range(7) for p in (0, 1)]
    rec = [dict(isa=0, mode=0, argc=c, line=l) for l in (0, 1, 2, 3, 64, 127, 128, 129, 255, 256, 1000, 65536, 2147483647) for c in (2, 3, 4)] + [dict(isa=0, mode=0, argc=c, lbits=14, lmax=m) for c in (3, 4) for m in (256, 512)]
    rec += [dict(isa=0, mode=m, argc=c, flag=f) for m, c, f in ((2, 2, 0), (2, 3, 0), (2, 3, 1), (3, 3, 0), (4, 1, 0), (4, 2, 0))]
    rec += [dict(isa=0, mode=1, n=n, line=l, col=c) for n in (1, 3, 128, 1000) for l in (1, 2, 3, 64, 128, 1000) for c in sorted({0, l - 1})]
    return [Group('bind_api', t, reach=('rejected', 'accepted', 'encoded', 'decoded')), Group('bind_rec', rec, weight=0.3)]

def C09(quick):
    t = []; rnd = random.Random(5)
    t += [dict(isa=0, mode=3, n=n, line=l, col=-1, w0=0, w1=n, dm=1) for n in range(1, 5 if quick else 7) for l in (1, 2, 3, 4, 7)]
    for isa in (0,) + SIMD + (6,):
        w = W(isa); off = OFF(isa)
        for k in range(60 if quick else 600):                # the output as long as it can get, last bytes arbitrary
            line = LINES[rnd.randrange(len(LINES))] if k % 3 else (128, 64, 1, 2, 3, 16, 12)[k // 3 % 7]
            n = off - 3 + rnd.randrange(3 * w) if k % 4 else 1 + rnd.randrange(off)
            col = (0, 0, line - 1, rnd.randrange(line))[k % 4]
            t.append(dict(isa=isa, mode=3, n=n, line=line, col=col, w0=max(0, n - 4), w1=n, dm=1, bg=1 if k % 5 else 2 + k % 9, al=rnd.randrange(64), dal=rnd.randrange(64)))
        for k in range(24 if quick else 200):                # sparse escapes, arbitrary bytes somewhere in the middle
            n = off + 1 + rnd.randrange(3 * w); line = LINES[rnd.randrange(len(LINES))]; p = rnd.randrange(0, n - 5)
            t.append(dict(isa=isa, mode=3, n=n, line=line, col=rnd.randrange(line), w0=p, w1=p + 4, dm=0, bg=k % 4 * 3, al=rnd.randrange(64), dal=rnd.randrange(64)))
        for al in range(0, 64, 4 if quick else 1): t.append(dict(isa=isa, mode=3, n=off + 1 + al, line=128, col=0, w0=off - 2, w1=off + 1, dm=1, bg=1, al=al, dal=(al * 7) % 64))
    b = []
    for isa in (0,) + SIMD:                                 # the memory the binding allocates itself
        for n in (1, 3, 64, 127, 128, 129, 200, 300, 700, 5000):
            for line, col in ((128, 0), (128, 127), (64, 0), (1, 0), (3, 1), (1000, 999)): b += [dict(isa=isa, mode=3, api=a, n=n, w0=n - min(n, 2), w1=n, line=line, col=col, esc=1, al=n % 64) for a in ((0,) if n > 200 else (0, 1, 2))]
    rec = [dict(isa=0, mode=1, n=n, line=l, col=c) for n in (1, 2, 3, 10, 63, 64, 65, 127, 128, 129, 300, 1000, 5000, 100000, 1000003) for l in (1, 2, 3, 4, 5, 63, 64, 65, 127, 128, 129, 255, 256, 1000) for c in sorted({0, l // 2, l - 1})]
    return [Group('encode', sorted(t, key=lambda x: -x['n'] * (x['w1'] - x['w0'])), reach=('memory',)), Group('bind_api', b, name='allocation', reach=('returned',), weight=0.4, validate=False), Group('bind_rec', rec, name='worst case', weight=0.2, validate=False)]

def C18(quick): return [Group('dispatch', [dict(isa=0, all=a) for a in (0, 1, 2)], reach=('selected', 'capable', 'bare'), extra=('--instr-limit', '4000000000'))]

def C19(quick):
    t = [dict(isa=i, mode=3, api=a, n=n, w0=n - 4 if n > 4 else 0, again=g, line=l, raw=n & 1, st=(n + a) % 7) for i in range(9) for a in range(11) for n, l in ((5, 128), (150, 64), (300, 128), (1100, 40)) for g in ((1,) if n == 5 else (0,))]
    if not quick: t += [dict(isa=i, mode=3, api=a, n=n, w0=p, w1=p + 5, line=l, raw=r, st=s) for i in range(9) for a in range(7) for n, l in ((260, 128), (333, 33)) for p in (0, 60, 100) for r in (0, 1) for s in ((0, 1, 4) if a == 5 else (0,))]
    return [Group('bind_api', t, reach=('returned', 'loaded again'), validate=False)]

def C25(quick):
    t = [dict(isa=0, mode=0, api=a, argc=c) for a in range(11) for c in range(0, 5)]
    for a in (0, 1, 2):
        for n in ((0, 1, 2, 3) if quick else (0, 1, 2, 3, 4, 5)):
            for line in (1, 2, 3, 128): t += [dict(isa=0, mode=1, api=a, argc=4, n=n, line=line, col=c, out=o) for c in sorted({0, line - 1, line}) for o in ((-1,) if a == 0 else (60, 66 + 8 * n) if a == 1 else (-1, 60, 66 + 8 * n))]
    for n in (range(6) if quick else range(8)):
        t += [dict(isa=0, mode=1, api=3, argc=c, n=n, raw=r) for c, r in ((1, 0), (2, 1))] + [dict(isa=0, mode=1, api=4, argc=3, n=n, out=n - k, raw=1) for k in (0, 1) if n >= k]
        t += [dict(isa=0, mode=1, api=5, argc=c, n=n, st=s, out=o) for c, o in ((1, -1), (2, -1), (3, n), (3, n + 1), (3, max(0, n - 1))) for s in range(7) if s == 0 or n < 5]
    for isa in SIMD + (7, 8):
        n = OFF(min(isa, 5)) + 40
        t += [dict(isa=isa, mode=1, api=a, argc=3, n=n, w0=n - 3, out=o, line=64) for a, o in ((0, -1), (1, 3 * n + 80), (2, -1), (2, 3 * n + 80), (3, -1), (4, n), (5, -1), (5, n))]
        t += [dict(isa=isa, mode=1, api=a, argc=3, n=5, line=l) for a in (6, 7, 8, 9, 10) for l in (0, 1, 77, -77)]
    return [Group('bind_own', t, reach=('threw', 'released'))]

COMMON = ['clang 18 -O1 IR of the kernels and of src/yencode.cc stands for the gcc -O3 build (sampled paths are replayed on the gcc build)',
          'V8 and Buffer API replaced by stand-ins (values are tagged structs); integer arguments are 32-bit ints',
          'x86 and AArch64 kernels and portable code; 32-bit ARM and RISC-V are not encoded']
BOUNDS = dict(
    C16=dict(kinds='every combination of up to 4 arguments out of 11 kinds for all 11 entry points', integers='every 32-bit line size and column with inputs of 0..3 bytes; buffer lengths up to 2^46 at 13 line sizes (recorded kernels), 2^14 for every line size below 512', decode='every byte string up to 4 bytes through decode, decodeTo, decodeIncr'),
    C09=dict(sizes='inputs up to 3 kernel iterations beyond the threshold, exactly maxSize bytes of output, last 4 or 4 other bytes arbitrary, escape densities 0..100%', allocation='up to 5000 bytes all escaped through the binding; the allocated size up to 10^6'),
    C18=dict(registers='CPUID leaves 1, 7.0, 7.1, 24h, 80000001h and XCR0 entirely arbitrary', features='taken from the code generation attributes of every executed function'),
    C25=dict(kinds='every combination of up to 4 arguments out of 8 kinds for all 11 entry points', data='every byte string up to 3 (encoding) and 5 (decoding) bytes; longer inputs on every CPU path with 3 arbitrary bytes; each call made twice, the results released in either order'),
    C19=dict(calls='all entry points on all CPU paths, inputs of 5..1100 bytes with 4 arbitrary bytes; every store checked against the objects existing before the call'))
