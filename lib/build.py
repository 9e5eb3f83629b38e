"""Builds of /repo's current sources: LLVM bitcode for the symbolic engine and native objects for replay."""
import os, subprocess, hashlib, glob, shutil, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('YREPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
ENGINE = os.path.join(BUILD, 'ysym')

def flags_for(name):
    n = name
    if n.endswith('_sse2.cc'): return ['-msse2']
    if n.endswith('_ssse3.cc'): return ['-mssse3']
    if n.endswith('_avx.cc'): return ['-mavx', '-mpopcnt']
    if n.endswith('_avx2.cc'): return ['-mavx2', '-mpopcnt', '-mbmi', '-mbmi2', '-mlzcnt']
    if n.endswith('_vbmi2.cc'): return ['-mavx512vbmi2', '-mavx512vl', '-mavx512bw', '-mpopcnt', '-mbmi', '-mbmi2', '-mlzcnt']
    if n.endswith('crc_folding.cc'): return ['-mssse3', '-msse4.1', '-mpclmul']
    if n.endswith('crc_folding_256.cc'): return ['-mavx2', '-mvpclmulqdq', '-mpclmul']
    return []

INC = ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'crcutil-1.0/code'), '-I' + os.path.join(REPO, 'crcutil-1.0/examples'), '-I' + os.path.join(REPO, 'crcutil-1.0/tests')]
STUBS = ['-I' + os.path.join(VERIF, 'stubs')]

CLANG = ['clang++-18', '-U__tune_k8__', '-DNDEBUG', '-std=c++03', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-exceptions', '-fno-omit-frame-pointer', '-Wno-everything']
GXX = ['g++', '-std=c++03', '-O3', '-fomit-frame-pointer', '-w', '-fno-exceptions']
HCLANG = ['clang++-18', '-DNDEBUG', '-std=c++17', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-exceptions', '-fno-rtti', '-Wno-everything', '-fno-builtin-memcmp', '-fno-threadsafe-statics']

# Other targets: the same clang compiles for them; counterexamples and sampled paths run under qemu-user without a C library.
TARGETS = {'aarch64': dict(triple='aarch64-linux-gnu', qemu=['qemu-aarch64', '-cpu', 'max'], ld='aarch64linux', base=[]),
           'riscv64': dict(triple='riscv64-linux-gnu', qemu=['qemu-riscv64', '-cpu', 'rv64,v=true,vlen=%(vlen)d,zbc=true,zbkc=true,vext_spec=v1.0'], ld='elf64lriscv', base=['-mabi=lp64d'])}
def cross(target):
    t = TARGETS[target]
    return ['--target=' + t['triple'], '-I' + os.path.join(VERIF, 'arch/inc'), '-I/usr/include/x86_64-linux-gnu', '-I/usr/include/c++/13', '-I/usr/include/x86_64-linux-gnu/c++/13'] + t['base']
def cross_flags(target, f):
    b = os.path.basename(f)
    if target == 'aarch64': return {'crc_arm.cc': ['-march=armv8-a+crc'], 'crc_arm_pmull.cc': ['-march=armv8-a+crc+crypto']}.get(b, [])
    return ['-march=rv64gcv'] if b.endswith('_rvv.cc') else ['-march=rv64gc_zbkc'] if b == 'crc_riscv.cc' else ['-march=rv64gc']
def cross_native(name, variant):
    t = variant['target']; d0 = keydir('nat', tree_hash(['cross', sorted(variant.items())])); exe = os.path.join(d0, name + '-' + harness_hash() + '.' + t)
    base = ['clang++-18'] + cross(t) + ['-w', '-fno-exceptions', '-fno-rtti', '-fno-stack-protector', '-fno-threadsafe-statics', '-fno-pic'] + list(variant.get('defs', [])) + INC + STUBS + ['-I' + os.path.join(VERIF, 'harness')]
    with Lock('nat'):
        if os.path.exists(exe): os.utime(d0); return exe
        if not os.path.exists(d0):
            tmp = d0 + '.tmp'; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
            jobs = [base + ['-std=c++03', '-O2'] + cross_flags(t, f) + ['-c', f, '-o', os.path.join(tmp, os.path.basename(f) + '.o')] for f in sources(t) + list(variant.get('extra', []))]
            jobs.append(base + ['-std=c++17', '-O1', '-fno-builtin'] + cross_flags(t, '') + ['-c', os.path.join(VERIF, 'replay', 'bare.cc'), '-o', os.path.join(tmp, 'bare.o')])
            _parallel(jobs); os.rename(tmp, d0); prune('nat', [d0])
        ho = os.path.join(d0, name + '.h.obj')
        sh(base + ['-std=c++17', '-O1'] + cross_flags(t, '') + ['-c', os.path.join(VERIF, 'harness', name + '.cc'), '-o', ho])
        sh(['ld.lld-18', '-m', TARGETS[t]['ld'], '-static', '--gc-sections', '-o', exe + '.tmp', ho] + glob.glob(os.path.join(d0, '*.o')))
        os.rename(exe + '.tmp', exe)
    return exe

def crcutil():
    """The default x86 build: crcutil instead of the portable slice code."""
    return {'defs': ['-DCRCUTIL_USE_MM_CRC32=0'], 'extra': sorted(glob.glob(os.path.join(REPO, 'crcutil-1.0/code/*.cc'))) + [os.path.join(REPO, 'crcutil-1.0/examples/interface.cc')]}

class BuildError(Exception):
    pass

def command(exe, j):
    t = exe.rsplit('.', 1)[-1]
    return [c % dict(vlen=128 << (j['params'].get('isa', 30) & 1)) for c in TARGETS[t]['qemu']] + [exe] if t in TARGETS else [exe]

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout.decode(errors='replace')[-4000:])
    return r.stdout

def sources(target=None):
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, 'src', '*.cc'))):
        b = os.path.basename(f)
        if b in ('yencode.cc', 'test_alignalloc.cc', 'decoder_neon.cc' if target == 'aarch64' else 'decoder_neon64.cc'): continue
        out.append(f)
    return out

def tree_hash(extra=()):
    h = hashlib.sha256()
    fl = []
    for d in ('src', 'crcutil-1.0/code', 'crcutil-1.0/examples', 'crcutil-1.0/tests'):
        for root, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            fl += [os.path.join(root, f) for f in sorted(fs)]
    for d in ('replay', 'stubs'):
        fl += sorted(glob.glob(os.path.join(VERIF, d, '*')))
    for root, ds, fs in os.walk(os.path.join(VERIF, 'arch')): ds.sort(); fl += [os.path.join(root, f) for f in sorted(fs)]
    fl.append(os.path.abspath(__file__))
    for f in fl:
        if os.path.isfile(f):
            h.update(f.encode() + b'\0'); h.update(open(f, 'rb').read()); h.update(b'\0')
    for e in extra: h.update(repr(e).encode())
    return h.hexdigest()[:24]

def harness_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(VERIF, 'harness', '*.*'))): h.update(f.encode() + b'\0' + open(f, 'rb').read())
    return h.hexdigest()[:12]

def ensure_engine():
    os.makedirs(BUILD, exist_ok=True)
    sh(['flock', os.path.join(BUILD, 'engine.lock'), 'make', '-s', '-C', os.path.join(VERIF, 'engine')])

def _parallel(jobs):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda c: sh(c), jobs): pass

def keydir(kind, key):
    d = os.path.join(BUILD, kind)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, key)
    return p

def prune(kind, keep):
    d = os.path.join(BUILD, kind)
    ents = sorted((os.path.join(d, x) for x in os.listdir(d)), key=os.path.getmtime)
    ents = [e for e in ents if os.path.isdir(e) and e not in keep]
    for e in ents[:-6]: shutil.rmtree(e, ignore_errors=True)

class Lock:
    def __init__(self, name): self.name = os.path.join(BUILD, name + '.lock')
    def __enter__(self):
        import fcntl
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(self.name, 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def lib_bitcode(variant):
    """Link every kernel source of /repo/src into one bitcode module. variant: dict of options."""
    defs = list(variant.get('defs', []))
    key = tree_hash(['bc', sorted(variant.items()), CLANG])
    d = keydir('bc', key); out = os.path.join(d, 'lib.bc')
    with Lock('bc'):
        if os.path.exists(out): os.utime(d); return out, key
        tmp = d + '.tmp'; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        jobs, objs = [], []
        t = variant.get('target'); x = cross(t) if t else []
        for f in sources(t):
            o = os.path.join(tmp, os.path.basename(f) + '.bc'); objs.append(o)
            jobs.append(CLANG + x + defs + INC + (cross_flags(t, f) if t else flags_for(f)) + ['-c', '-emit-llvm', f, '-o', o])
        for f in variant.get('extra', []):
            o = os.path.join(tmp, os.path.basename(f) + '.bc'); objs.append(o)
            jobs.append(CLANG + x + (cross_flags(t, f) if t else []) + defs + INC + ['-c', '-emit-llvm', f, '-o', o])
        _parallel(jobs)
        sh(['llvm-link-18', '-o', os.path.join(tmp, 'lib.bc')] + objs)
        os.rename(tmp, d)
        prune('bc', [d])
    return out, key

def harness_bitcode(name, variant):
    lib, key = lib_bitcode(variant)
    d = os.path.dirname(lib); name0, name = name, name + '-' + harness_hash(); out = os.path.join(d, name + '.h.bc')
    with Lock('hbc'):
        if os.path.exists(out): return out
        ob = os.path.join(d, name + '.o.bc')
        defs = list(variant.get('defs', []))
        t = variant.get('target')
        sh(HCLANG + (cross(t) + cross_flags(t, '') if t else []) + defs + INC + STUBS + ['-I' + os.path.join(VERIF, 'harness'), '-c', '-emit-llvm', os.path.join(VERIF, 'harness', name0 + '.cc'), '-o', ob])
        sh(['llvm-link-18', '-o', out + '.tmp', lib, ob])
        os.rename(out + '.tmp', out)
    return out

ASMSTUB = r'''
	.text
	.globl ys_asm_cpuid
ys_asm_cpuid:
	pushq %rsi; pushq %rdi; pushq %r8; pushq %r9; pushq %r10; pushq %r11; pushq %rbp
	movq %rsp, %rbp
	subq $1600, %rsp
	andq $-64, %rsp
	leaq 64(%rsp), %rdx
	pushq %rdx; pushq %rdx
	movl %eax, %edi
	movl %ecx, %esi
	call ys_native_cpuid
	popq %rdx; popq %rdx
	movl 0(%rdx), %eax
	movl 4(%rdx), %ebx
	movl 8(%rdx), %ecx
	movl 12(%rdx), %edx
	movq %rbp, %rsp
	popq %rbp; popq %r11; popq %r10; popq %r9; popq %r8; popq %rdi; popq %rsi
	ret
	.globl ys_asm_xgetbv
ys_asm_xgetbv:
	pushq %rsi; pushq %rdi; pushq %r8; pushq %r9; pushq %r10; pushq %r11; pushq %rbp; pushq %rcx
	movq %rsp, %rbp
	subq $256, %rsp
	andq $-64, %rsp
	call ys_native_xgetbv
	movq %rax, %rdx
	shrq $32, %rdx
	movl %eax, %eax
	movq %rbp, %rsp
	popq %rcx; popq %rbp; popq %r11; popq %r10; popq %r9; popq %r8; popq %rdi; popq %rsi
	ret
	.section .note.GNU-stack,"",@progbits
'''

def native(name, variant, san=False):
    """Native build (g++ as in the real build) of the same harness for replay; CPUID/XGETBV go to the replay runtime."""
    if variant.get('target'): return cross_native(name, variant)
    defs = list(variant.get('defs', []))
    key = tree_hash(['nat', sorted(variant.items()), GXX, san, ASMSTUB])
    d = keydir('nat', key)
    lib = os.path.join(d, 'objs'); exe = os.path.join(d, name + '-' + harness_hash())
    opt = (['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'] if san else [])
    with Lock('nat'):
        if os.path.exists(exe): os.utime(d); return exe
        if not os.path.exists(d):
            tmp = d + '.tmp'; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(os.path.join(tmp, 'objs'))
            jobs = []; asm = []
            for f in sources() + list(variant.get('extra', [])):
                b = os.path.basename(f)
                asm.append((b, GXX + opt + defs + INC + flags_for(f) + ['-mno-red-zone', '-S', f, '-o', os.path.join(tmp, b + '.s')]))
            _parallel([c for _, c in asm])
            for b, _ in asm:
                s = os.path.join(tmp, b + '.s'); t = open(s).read()
                t2 = re.sub(r'(^|[\s;])xgetbv\b', r'\1call ys_asm_xgetbv', re.sub(r'(^|[\s;])cpuid\b', r'\1call ys_asm_cpuid', t))
                if t2 != t: open(s, 'w').write(t2)
                jobs.append(['g++', '-c', s, '-o', os.path.join(tmp, 'objs', b + '.o')])
            st = os.path.join(tmp, 'stub.s'); open(st, 'w').write(ASMSTUB)
            jobs.append(['g++', '-c', st, '-o', os.path.join(tmp, 'objs', 'stub.o')])
            jobs.append(['g++', '-std=c++17', '-O1', '-g', '-w'] + (['-fsanitize=address'] if san else []) + (['-DYS_SAN'] if san else []) + ['-I' + os.path.join(VERIF, 'harness'), '-c', os.path.join(VERIF, 'replay', 'replay.cc'), '-o', os.path.join(tmp, 'objs', 'replay.o')])
            _parallel(jobs)
            os.rename(tmp, d)
            prune('nat', [d])
        sh(['g++', '-std=c++17', '-O1', '-g', '-w'] + (['-fsanitize=address'] if san else []) + defs + INC + STUBS + ['-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(VERIF, 'replay'), os.path.join(VERIF, 'harness', name + '.cc')] + glob.glob(os.path.join(lib, '*.o')) + ['-no-pie', '-Wl,-Map,' + exe + '.map', '-o', exe + '.tmp'])
        os.rename(exe + '.tmp', exe)
    return exe
