"""Tasks for the encoder properties C01 C02 C03 C09."""
import random
from native_check import Group
SIMD = (1, 2, 3, 4, 5)
def W(isa): return 64 if isa in (4, 5, 6, 31) else 32   # bytes per kernel iteration
def OFF(isa): return 128 if isa in (4, 5, 6, 31) else 64  # the kernel runs for longer inputs only

LINES = (16, 17, 20, 24, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 66, 80, 95, 96, 100, 126, 127, 128, 129, 130, 192, 255, 256, 257, 300, 512)
def eol_positions(line, col, n):
    """input positions (for escape-free data) before which a line break falls"""
    p = line - col; out = []
    while p < n: out.append(p); p += line
    return out

def windows(isa, mode, quick, rnd, count, **kw):
    """arbitrary bytes around line ends, vector and block boundaries, for many line sizes and columns"""
    out = []; w = W(isa); off = OFF(isa)
    size = 5 if quick else 6
    for k in range(count):
        line = (128, 64, 128, 256)[k % 4] if k % 3 == 0 else LINES[rnd.randrange(len(LINES))]
        col = (0, 0, 1, line - 1, line - 2, rnd.randrange(line))[rnd.randrange(6)]
        n = off + 1 + rnd.randrange(2 * w)
        if line > n: col = max(col, line - rnd.randrange(20, n - 8)) if line - n < 400 else col
        col = min(col, line - 1)
        eols = eol_positions(line, col, n)
        kind = rnd.randrange(8)
        if kind < 5 and eols:
            p = eols[rnd.randrange(min(len(eols), 3))] - rnd.randrange(size + 1)
        elif kind < 6: p = 0
        elif kind < 7: p = n - size - rnd.randrange(3)
        else: p = (w // 2) * rnd.randrange(1, 5) + (1 if col == 0 else 0) - 3
        p = max(0, min(p, n - size))
        t = dict(isa=isa, mode=mode, n=n, line=line, col=col, w0=p, w1=p + size, dm=0, al=rnd.randrange(64), dal=rnd.randrange(64), **kw)
        if k % 5 == 4: t['bg'] = 2 + rnd.randrange(9)
        if k % 4 == 3 and eols: # second window so that escapes on both sides of a line end vary together
            t['w1'] = p + 3; q = max(0, p - 4 - rnd.randrange(w)); t['w2'] = q; t['w3'] = q + 3; t['dm'] = 1 if k % 8 == 3 else 0
        out.append(t)
    return out

HUGE = (1000, 4096, 32767, 32770, 65535, 65540, 131072 + 3, 16777216 + 1, 2147483647)
def huge(isa, mode, quick, **kw):
    """very long lines, entered near their end (or at their start, then nothing breaks)"""
    out = []; off = OFF(isa) if isa else 24
    for k, line in enumerate(HUGE):
        for left in ((9, off + 3) if quick else (0, 1, 2, 9, off // 2, off + 3, 5 * off)):
            n = off + 10 + k; col = line - left if left < n else 0
            p = min(max(0, left - 3), n - 4) if left < n else n - 4
            out.append(dict(isa=isa, mode=mode, n=n, line=line, col=min(col, line - 1), w0=p, w1=p + 4, dm=0, al=k % 7, **kw))
    return out

def ends(isa, mode, quick, **kw):
    out = []; off = OFF(isa)
    for n in range(off - 2, off + 12, 4 if quick else 1):
        for line in (128, 17) if quick else (128, 64, 40, 17, 16):
            out.append(dict(isa=isa, mode=mode, n=n, line=line, col=n % line if n % 2 else 0, w0=n - 4, w1=n, dm=0, al=n % 7, **kw))
    return out

def masks(isa, mode, quick, rnd, **kw):
    """escape patterns: adjacent lanes free, the lanes after them fixed to a pattern; free lanes sweep through the vector"""
    out = []; off = OFF(isa); lanes = 7 if quick else 8
    reps = 3 if quick else 256
    for k in range(reps):
        base = (1 + 16 * (k % 4) + (0 if k % 3 else 5)) if quick else 1 + 16 * (k % 4)
        v = rnd.getrandbits(16 - lanes) | (0x1ff if k % 3 == 0 else 0) if quick else k
        out.append(dict(isa=isa, mode=mode, n=off + 8, line=256 if k % 2 else 64, col=0, w0=base, w1=base + lanes, fxn=16 - lanes, fxv=v & ((1 << (16 - lanes)) - 1), dm=3, **kw))
    return out

def alleol(isa, mode, quick, **kw):
    """line end at every offset of a kernel iteration; one arbitrary byte before, at and after it"""
    out = []; off = OFF(isa); w = W(isa); line = 128
    for k in range(0, w + 2, 1):
        col = line - 5 - k
        out.append(dict(isa=isa, mode=mode, n=off + 5 + k % 9, line=line, col=col, w0=3 + k, w1=7 + k, dm=1 if quick else 0, al=k % 64, **kw))
    return out

def short(isa, mode, quick, **kw):
    """the scalar path of the wrapper: inputs below the kernel threshold and short lines"""
    out = []
    for line in (12, 13, 15, 16, 128):
        n = 20 + line % 5
        for p in (0, 4, line - 4, n - 4):
            if 0 <= p <= n - 4: out.append(dict(isa=isa, mode=mode, n=n, line=line, col=0 if p != 4 else line - 6, w0=p, w1=p + 4, dm=0, **kw))
    return out

def scalar(mode, quick, nmax, lines, **kw):
    return [dict(isa=0, mode=mode, n=n, line=l, col=-1, w0=0, w1=n, dm=0, **kw) for n in range(1, nmax + 1) for l in lines]

def unrolled(mode, quick, **kw):
    """portable encoder, eight-byte unrolled loop and its revert at the line end"""
    out = []
    for line in (20, 24, 33, 128):
        for n in (17, 26, 40):
            for p in ((0, 7, 12) if quick else range(0, n - 6, 2)):
                for col in (0, max(0, line - 21), max(0, line - 14), line - 10):
                    out.append(dict(isa=0, mode=mode, n=n, line=line, col=min(col, line - 1), w0=p, w1=min(n, p + 6), dm=0, **kw))
    return out

def group(mode, quick, reach, simd=SIMD, scale=1.0, end=1):
    rnd = random.Random(7 + mode); t = []
    t += scalar(mode, quick, 6 if quick else 9, (1, 2, 3, 4, 5, 7) if quick else (1, 2, 3, 4, 5, 6, 7, 8, 12, 20))
    u = unrolled(mode, quick); t += u if not quick else u[::2]
    t += huge(0, mode, quick)
    for i in simd:
        c = int((110 if i <= 3 else 60) * scale) if quick else 1500
        t += windows(i, mode, quick, rnd, c)
        t += ends(i, mode, quick) + short(i, mode, quick)
        h = huge(i, mode, quick); t += h if not quick else h[i % 2::2]
        a = alleol(i, mode, quick); t += a if not quick else a[::2 if scale < 1 else 1]
        t += masks(i, mode, quick, rnd)
        t.append(dict(isa=i, mode=mode, n=OFF(i) + 40, line=128, col=0, w0=30, w1=34, bg=1, dm=0))
    t += windows(6, mode, True, rnd, 12)
    if mode == 0: # incremental encoding: the last byte gets no end-of-data treatment
        t += [dict(x, end=0) for x in scalar(0, quick, 3, (1, 2, 3, 7))]
        for i in simd: t += [dict(x, end=0) for x in ends(i, mode, True)[:4]]
    return [Group('encode', sorted(t, key=lambda x: -(x['w1'] - x['w0'] + x.get('w3', 0) - x.get('w2', 0)) * x['n']), reach=reach)]

COMMON = ['clang 18 -O1 IR of the kernels stands for the gcc -O3 build (sampled paths are replayed on the gcc build)',
          'x86 and AArch64 (NEON) kernels and portable code; 32-bit ARM and RISC-V are not encoded',
          'bytes outside the arbitrary windows are arbitrary bytes that need no escaping, or (tasks with "bg") a fixed mixture of critical and harmless bytes']
BOUNDS = dict(scalar='all byte strings up to n bytes, line sizes as listed, every column', simd='inputs up to kernel threshold + 2 iterations (256 bytes AVX2/VBMI2, 128 SSE); windows of 3-6 fully arbitrary bytes at line ends, block and vector boundaries, start and end; line ends at every offset within an iteration', line_sizes='1..7 and ' + ','.join(map(str, LINES)) + '; lines of ' + ','.join(map(str, HUGE)) + ' entered near their end or start', masks='escape patterns of 7-8 adjacent lanes free at a time')
def C01(quick): return group(0, quick, ('encoded',))
def C02(quick): return group(1, quick, ('text', 'break'), scale=0.8)
def C03(quick): return group(2, quick, ('roundtrip',), scale=0.5)
