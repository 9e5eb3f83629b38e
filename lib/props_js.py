"""Tasks for the properties of the JavaScript layer: C17 and C20-C24."""
from js_check import JsGroup
from native_check import Group
import props_encode as E

def C17_native(quick):
    t = E.scalar(4, quick, 5 if quick else 7, (1, 2, 3, 4, 7))
    for i in E.SIMD:
        off = E.OFF(i)
        for n, line, col in ((off + 40, 128, 0), (off + 7, 64, 63), (off + 30, 33, 5), (off + 64, 16, 0)):
            t += [dict(isa=i, mode=4, n=n, line=line, col=col, w0=n - 4, w1=n, dm=1, bg=b) for b in (0, 1, 3)]
            t.append(dict(isa=i, mode=4, n=n, line=line, col=col, w0=max(0, line - col - 4), w1=line - col + 1, dm=0))
    rec = [dict(isa=0, mode=0, argc=c, line=l) for l in (0, 1, 2, 3, 64, 127, 128, 129, 255, 256, 1000, 65536, 2147483647) for c in (2, 3)] + [dict(isa=0, mode=0, argc=3, lbits=14, lmax=m) for m in (256, 512)]
    return [Group('encode', sorted(t, key=lambda x: -x['n']), name='length', reach=('length',)), Group('bind_rec', rec, name='demanded space', reach=('accepted', 'rejected'), weight=0.3)]

def C17(quick):
    t = [dict(mode='max', ls=l) for l in ('sym', 'none', 128, 0, 1, 2, 127, 256, 64, 1000)] + [dict(mode='min', ls=l) for l in ('sym', 'none', 0, 1, 2, 64, 128, 256)]
    t += [dict(mode='ratio', len=n, ls=l) for n, l in ((100, 128), (1, 1), (3, 2), (1000000, 64))] + [dict(mode='ratio1', ls=l) for l in (128, 1, 64, 3)]
    return [JsGroup(['c17'], t, reach=('max', 'min', 'ratio1', 'accepted', 'rejected'))]

def C20(quick):
    t = []; N = 8 if quick else 11
    for ln in (0, 5):
        t.append(dict(kind='none', args='data', len=ln, n=0))
        for arg in ('undef', 'null'):
            for args in ('data-state', 'data-out', 'data-out-state', 'data-state-out', 'data-undef-state'):
                if (arg, args) != ('undef', 'data-state-out'): t.append(dict(kind='none', arg=arg, args=args, len=ln, n=0))
        for args in ('data-state', 'data-out-state', 'data-state-out', 'data-undef-state'):
            t.append(dict(kind='table', args=args, len=ln, n=0, again=1))
            for n in range(0, N): t.append(dict(kind='str', args=args, len=ln, n=n))
        for n in range(0, N): t.append(dict(kind='buf', args='data-out-state', len=ln, n=n))
    return [JsGroup(['c20'], t, reach=('empty', 'decoded', 'continued'))]

def C21(quick):
    t = [dict(pre='', n=0, suf='a.bin', data='opaque', line='sym')]
    t += [dict(pre='', n=n, suf='', data='opaque', line='sym') for n in ((1, 2, 3) if quick else (1, 2, 3, 4))]
    t += [dict(pre='f', n=1, suf='.b', data=d, line=l) for d, l in (('opaque', 'none'), ('opaque', 0), ('opaque', 1), ('opaque', 128), ('array', 'none'), ('string', 'none'))]
    t += [dict(pre='x' * k, n=n, suf='yz', data='bytes', len=2, line='none') for k in (254, 255) for n in ((0, 1, 2, 3) if k == 254 else (1, 2))]
    t += [dict(pre='a', n=n, suf='yz', data='bytes', len=0, line='none', enc=e) for n in (0, 1, 2) for e in ('latin1', 'ascii')]
    if not quick: t += [dict(pre='a', n=1, suf='b\ud83d', data='bytes', len=k, line='none') for k in range(4)] + [dict(pre='x' * k, n=3, suf='\r\n\0yz' * 2, data='opaque', line='sym') for k in (0, 250, 253, 300)]
    return [JsGroup(['native', 'c21'], t, reach=('posted',))]

def C22(quick):
    t = []
    for c in range(0, 4 if quick else 6):
        for p in ('sym', 1, 0): t.append(dict(pre='f.bin', n=0, parts=p, calls=c, line='sym'))
    for p in ('sym', 1): t.append(dict(pre='f', n=2 if quick else 3, parts=p, calls=1, line='none'))
    for d in ('array', 'string'):
        t += [dict(pre='f', n=0, parts='sym', calls=2, data=d, line=0), dict(pre='f', n=0, parts=1, calls=2, data=d, line=0, enc='latin1')]
    t += [dict(pre='f', n=1, parts='sym', calls=1, line='none', enc='latin1'), dict(pre='x' * 255, n=2, parts='sym', calls=1, line='none')]
    return [JsGroup(['native', 'c22'], t, reach=('refused', 'accepted', 'complete'))]

def _c23_round():
    T = []
    def a(**k): T.append({x: y for x, y in k.items() if y is not None})
    for by in ('post', 'single'):
        for e in (0, 1, 2, 3, 'big'): a(mode='round', by=by, e=e, pre='a b.bin', n=0, after=0)
    a(mode='round', by='post', e='big', pre='a', n=2, after=0); a(mode='round', by='post', e='big', pre='a\ud83d', n=1, after=0); a(mode='round', by='post', e='big', pre='', n=1, suf='=b name=x size=3', after=0, line=64)
    a(mode='round', by='post', e=2, pre='', n=2, enc='latin1', after=0); a(mode='round', by='multi', parts=1, e=2, pre='x', n=1, enc='latin1'); a(mode='round', by='post', e=1, pre='x' * 255, n=2, after=0)
    for p in (1, 2, 3):
        for e in (1, 'big'): a(mode='round', by='multi', parts=p, e=e, pre='f', n=0, after=1 if p == 2 else 0, line=64 if p == 3 else None)
    for bf in (2, 3, 5, 'blob'):
        for af in (None, 0, 1, 3, 'blob'): a(mode='round', by='post', e='big', pre='f', n=0, before=bf, after=af, raw=True if af == 0 else False if af == 1 else None)
    for fb in ('=ybegin\r\n', '=ybeginline=1\r\r\n', 'x=ybegin size=3 line=2 name=3\r\n', '\r\n=yend size=4\r\n', '=ypart begin=1 end=2\r\n'): a(mode='round', by='multi', parts=1, e='big', pre='f', n=0, fixedBefore=fb, after=0)
    for fa in ('\r\n=ybegin line=1 size=1 name=x\r\n', '\r\n\r\n=yend\r\n', '\r\n=ypart begin=1 end=3\r\n', '\r\nabc=yend size=3\r\n'): a(mode='round', by='multi', parts=1, e='big', pre='f', n=0, fixedAfter=fa)
    for d in list(T):
        if d['e'] in (2, 3, 'big') and d.get('before') in (None, 2): T.append(dict(d, first='='))
    return T
ART = ['=ybegin line=128 size=5 name=a b.c\r\nabcde\r\n=yend size=5 crc32=01234567\r\n',
       'x\r\n=ybegin part=2 total=3 line=128 size=50 name=z\r\n=ypart begin=11 end=15\r\nabcde\r\n=yend size=5 part=2 pcrc32=01234567',
       '=ybegin line=128 size=0 name=a\r\n=yend size=0 crc32=00000000',
       '=ybegin line=128 size=0 name=a\r\n\r\n=yend size=0\r\n']
def C23(quick):
    t = _c23_round()
    for x in ART:
        for at in range(len(x) + 1): t.append(dict(mode='text', text=x, at=at, n=1, **{'del': 1}))
        for cut in range(len(x)): t.append(dict(mode='text', text=x[:cut], at=cut, n=0, **{'del': 0}))
        if not quick:
            for at in range(len(x) + 1): t += [dict(mode='text', text=x, at=at, n=2, **{'del': d}) for d in (0, 2)]
    return [JsGroup(['native', 'ref', 'c23'], t, reach=('parsed', 'error no_start_found', 'error no_end_found', 'error missing_required_properties'))]

def C24(quick):
    T = []
    def a(**k): T.append({x: y for x, y in k.items() if y is not None})
    for bp in (0, 1):
        for ep in (0, 1):
            for to in (0, 1):
                for yp in ('none', 'line', 'begin', 'end', 'both'):
                    has = ['bpart'] * bp + ['epart'] * ep + ['total'] * to + {'none': [], 'line': ['ypart'], 'begin': ['ypart', 'pbegin'], 'end': ['ypart', 'pend'], 'both': ['ypart', 'pbegin', 'pend']}[yp]
                    n = len([h for h in has if h != 'ypart'])
                    a(mode='fields', has=has, pcrc='same' if bp else None, crc=None if bp else 'same', pos=1 if n >= (3 if quick else 5) else None)
    for yp in ([], ['ypart', 'pbegin', 'pend']):
        for p in (None, 'same', 'other', 'upper', 'short', 'long', 'bad'):
            for c in (None, 'same', 'other', 'upper', 'bad'): a(mode='fields', has=yp, pcrc=p, crc=c, same=1, pos=1 if quick and yp else None)
    for has in ([], ['line'], ['bpart', 'total'], ['bpart', 'epart'], ['total', 'epart'], ['ypart', 'pbegin', 'pend'], ['bpart', 'total', 'ypart', 'pbegin', 'pend']):
        a(mode='fields', has=has, digits=1)
        if len(has) <= 2: a(mode='fields', has=has, digits=2)
    for e in ('line', 'crlf'):
        for has in ([], ['bpart', 'total', 'epart', 'ypart', 'pbegin', 'pend']):
            for p, c in ((None, None), ('same', 'same'), ('other', 'same'), ('same', 'other'), ('bad', 'same')): a(mode='fields', has=has, empty=e, pcrc=p, crc=c, pos=1 if quick and has else None)
    for at in range(8):
        for fld in ('pcrc32', 'crc32'): a(mode='crc', at=at, field=fld)
        a(mode='crc', at=at, field='crc32', upper=1)
    for x in [ART[0], ART[1][3:] + '\r\n', ART[2], '=ybegin line=128 size=5 constructor=2 name=a\r\n=ytoString __proto__=3\r\n=y__proto__ part=a\r\nabcde\r\n=yend size=5 size=5\r\n']:
        for at in range(len(x) + 1):
            T.append(dict(mode='text', text=x, at=at, n=1, **{'del': 1}))
            if not quick or at % 2: T.append(dict(mode='text', text=x, at=at, n=1, **{'del': 0}))
            if not quick: T.append(dict(mode='text', text=x, at=at, n=2, **{'del': 1}))
    return [JsGroup(['native', 'ref', 'c24'], T, reach=('parsed', 'consistent', 'inconsistent', 'checksum same', 'checksum other', 'checksum bad'))]

COMMON = ['the interpreter of /verif/jsym stands for V8 (sampled paths and every counterexample are replayed under node)',
          'the native module is a stand-in recording its arguments; encodings and decodings are opaque Buffers of arbitrary length, checksums arbitrary 4 bytes that differ for different data (what the native calls compute is the subject of C01-C16)']
BOUNDS = dict(
    C17=dict(javascript='every length up to 2^40, every line size up to 2^31-1, every double as escape ratio; floor(a/b) of the doubles is taken as the exact quotient, which holds for a+b < 2^53', native='length of the real encoding of short inputs (all contents) and of longer ones with 4-5 arbitrary bytes; demanded output space for lengths up to 2^46'),
    C20=dict(states='every string of up to 7 (thorough 10) UTF-16 units and every Buffer of that many ASCII bytes as state; all native results', excluded='a state ending in a run of two or more "=" (not decided by the last characters alone); (data, undefined, Buffer), which is ambiguous'),
    C21=dict(names='up to 3 (thorough 4) arbitrary UTF-16 units in an otherwise fixed name, also across the cut at 256 units', data='any data up to 2^40 bytes, any line size; encodings utf8, latin1, ascii'),
    C22=dict(calls='every sequence of up to 3 (thorough 5) encode() calls, accepted or refused, with any data lengths, declared size and number of parts', names='up to 2 arbitrary UTF-16 units'),
    C23=dict(articles='single and multi-part articles of up to three parts, any sizes; encodings of 1..3 arbitrary bytes or any number of bytes with the first two and last two arbitrary', surroundings='up to 5 arbitrary bytes or any text without CR, LF and "=" before or after', malformed='one (thorough two) arbitrary bytes at every position of four articles, every truncation'),
    C24=dict(numbers='every combination of present fields, each any number up to 10^12 (where 3 or more are free, from 1); all one and two digit fields', checksums='any one character at any position, same, other, upper case, too short, too long', text='one arbitrary byte replaced or inserted at every position of four articles'))
