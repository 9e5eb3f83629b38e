"""A JavaScript interpreter over symbolic values (ESTree from acorn), compiled to Python closures."""
import math, sys
import numpy as np, z3
from core import *
from seq import *
from regex import Regex
sys.setrecursionlimit(20000)

class JSThrow(Exception):
    def __init__(s, v): s.v = v
class Obj:
    cls = 'Object'
    __slots__ = ('p', 'proto', 'sym', 'frozen', '__dict__')
    def __init__(s, proto): s.p = {}; s.proto = proto; s.sym = False; s.frozen = False
class Arr(Obj):
    cls = 'Array'
    def __init__(s, a, proto): Obj.__init__(s, proto); s.a = a
class Buf(Obj):
    cls = 'Buffer'
    def __init__(s, e, proto): Obj.__init__(s, proto); s.e = e; s.base = None; s.off = 0; s.ident = None
class Fun(Obj):
    cls = 'Function'
    def __init__(s, proto, call, name='', ctor=None): Obj.__init__(s, proto); s.call = call; s.name = name; s.ctor = ctor; s.isclass = False; s.this = None; s.fields = ()
class RegObj(Obj):
    cls = 'RegExp'
class MapObj(Obj):
    cls = 'Map'
class Acc:
    __slots__ = ('get', 'set')
    def __init__(s): s.get = s.set = UNDEF
class SymKey:
    __slots__ = ('e',)
    def __init__(s, e): s.e = e

class Scope:
    __slots__ = ('v', 'up', 'const')
    def __init__(s, up): s.v = {}; s.up = up; s.const = None
TDZ = object()
class Brk:
    __slots__ = ('l',)
    def __init__(s, l=None): s.l = l
class Cont:
    __slots__ = ('l',)
    def __init__(s, l=None): s.l = l
class Ret:
    __slots__ = ('v',)
    def __init__(s, v): s.v = v

NUM = (int, float, T, SN, Rat, FP)
def isnum(x): return isinstance(x, NUM) and not isinstance(x, bool)
def isint(x): return isinstance(x, (int, T, SN)) and not isinstance(x, bool)

class Interp:
    def __init__(s, ctx):
        s.c = ctx; s.depth = 0; s.line = 0; s.file = ''
        s.OP = Obj(None); s.FP_ = Obj(s.OP); s.AP = Obj(s.OP); s.SP = Obj(s.OP); s.NP = Obj(s.OP); s.BP = Obj(s.OP); s.RP = Obj(s.OP); s.EP = Obj(s.OP); s.BoolP = Obj(s.OP); s.MP = Obj(s.OP); s.SetP = Obj(s.OP)
        s.g = Scope(None); s.covered = set()
        import builtins_js; builtins_js.install(s)
    # ---------- helpers
    def obj(s, **kw):
        o = Obj(s.OP); o.p.update(kw); return o
    def arr(s, a): return Arr(list(a), s.AP)
    def buf(s, e): return Buf(list(e), s.BP)
    def fn(s, f, name=''): return Fun(s.FP_, f, name)
    def err(s, kind, msg):
        ctor = s.g.v[kind]; e = Obj(ctor.p['prototype']); e.cls = 'Error'; e.p['message'] = msg if isstr(msg) else str(msg); e.line = s.line; return e
    def throw(s, kind, msg): raise JSThrow(s.err(kind, msg))
    # ---------- conversions
    def truth(s, v):
        if v is True or v is False: return v
        if v is UNDEF or v is None: return False
        if isinstance(v, int): return v != 0
        if isinstance(v, float): return v == v and v != 0
        if isinstance(v, str): return v != ''
        if isinstance(v, SStr):
            if any(not isinstance(x, Blob) for x in v.e): return True
            return not s.c.cmp('==', seqlen(s.c, v.e), 0)
        if isinstance(v, FP): return not s.c.decide_z(z3.Or(z3.fpIsNaN(v.e), z3.fpIsZero(v.e)))
        if isinstance(v, Rat): return not s.c.cmp('==', v.a, 0)
        if isnum(v): return not s.c.cmp('==', v, 0)
        return True
    def typeof(s, v):
        if v is UNDEF: return 'undefined'
        if v is None: return 'object'
        if isinstance(v, bool): return 'boolean'
        if isnum(v): return 'number'
        if isstr(v): return 'string'
        if isinstance(v, Fun): return 'function'
        return 'object'
    def tonum(s, v):
        if isinstance(v, bool): return int(v)
        if isnum(v): return v
        if v is UNDEF: return float('nan')
        if v is None: return 0
        if isstr(v): return tonum(s.c, v)
        return s.tonum(s.toprim(v, 'number'))
    def toprim(s, v, hint='default'):
        if not isinstance(v, Obj): return v
        for m in (('toString', 'valueOf') if hint == 'string' else ('valueOf', 'toString')):
            f = s.get(v, m)
            if isinstance(f, Fun):
                r = f.call(v, [])
                if not isinstance(r, Obj): return r
        s.throw('TypeError', 'Cannot convert object to primitive value')
    def numstr(s, v):
        if isinstance(v, bool): return 'true' if v else 'false'
        if isinstance(v, int): return str(v)
        if isinstance(v, float):
            if v != v: return 'NaN'
            if v in (float('inf'), float('-inf')): return 'Infinity' if v > 0 else '-Infinity'
            if v == 0: return '0'
            if v == int(v) and abs(v) < 1e21: return str(int(v))
            r = repr(v)
            if 'e' in r:
                m, e = r.split('e'); e = int(e)
                if m.endswith('.0'): m = m[:-2]
                if -7 <= e < 0: d = m.replace('.', '').lstrip('-'); return ('-' if v < 0 else '') + '0.' + '0' * (-e - 1) + d
                return m + 'e' + ('+' if e > 0 else '-') + str(abs(e))
            return r
        if isinstance(v, (T, SN)):
            if s.c.cmp('<', v, 0): return mk([45] + tok(s.c, s.c.neg(v)))
            return mk(tok(s.c, v))
        raise Unsupported('string of a symbolic fraction')
    def tostr(s, v):
        if isstr(v): return v
        if v is UNDEF: return 'undefined'
        if v is None: return 'null'
        if isinstance(v, bool): return 'true' if v else 'false'
        if isnum(v): return s.numstr(v)
        return s.tostr(s.toprim(v, 'string'))
    def key(s, k):
        """property key: str (concrete) or SStr"""
        if isinstance(k, str): return k
        k = s.tostr(k)
        if isinstance(k, SStr):
            e = chars(s.c, k.e); return mk(e)
        return k
    def toint(s, v):
        """ToIntegerOrInfinity"""
        v = s.tonum(v)
        if isinstance(v, float):
            if v != v: return 0
            if v in (float('inf'), float('-inf')): return v
            return int(v)
        if isinstance(v, Rat):
            if s.c.cmp('<', v.a, 0): return s.c.neg(s.c.floor(Rat(s.c.neg(v.a), v.b)))
            return s.c.floor(v)
        if isinstance(v, FP): raise Unsupported('integer part of a symbolic double')
        return v
    def toobj_proto(s, v):
        if isstr(v): return s.SP
        if isinstance(v, bool): return s.BoolP
        return s.NP
    # ---------- properties
    def own(s, o, k):
        """own property slot value or None"""
        if isinstance(k, str):
            if not o.sym: return o.p.get(k)
            r = None
            for kk, val in o.p.items():
                if isinstance(kk, str):
                    if kk == k: return val
                elif eqseq(s.c, kk.e, [ord(x) for x in k]): return val
            return r
        for kk, val in o.p.items():
            if eqseq(s.c, kk.e if isinstance(kk, SymKey) else [ord(x) for x in kk], k.e): return val
        return None
    def ownkey(s, o, k):
        ke = elems(k)
        if isinstance(k, str) and not o.sym: return k if k in o.p else None
        for kk in list(o.p):
            if isinstance(kk, str) and isinstance(k, str):
                if kk == k: return kk
            elif eqseq(s.c, kk.e if isinstance(kk, SymKey) else [ord(x) for x in kk], ke): return kk
        return None
    def idx(s, k):
        """array index as int / symbolic int, or None"""
        if isinstance(k, bool): return None
        if isinstance(k, int): return k if k >= 0 else None
        if isinstance(k, (T, SN)): return k
        if isinstance(k, str) and k.isdigit() and (k == '0' or k[0] != '0'): return int(k)
        return None
    def get(s, o, k, this=None):
        if type(k) is int and k >= 0:
            if type(o) is str:
                if k < len(o): return o[k]
            elif type(o) is Arr: return o.a[k] if k < len(o.a) else UNDEF
        if not isinstance(o, Obj):
            if o is UNDEF or o is None:
                s.throw('TypeError', 'Cannot read properties of %s (reading %r)' % (s.tostr(o), k if isinstance(k, str) else '?'))
            if isstr(o):
                if k == 'length': return len(o) if isinstance(o, str) else seqlen(s.c, o.e)
                i = s.idx(k)
                if i is not None:
                    x = getat(s.c, elems(o), i)
                    return UNDEF if x is None else mk([x])
            return s.getp(s.toobj_proto(o), s.key(k), o)
        if isinstance(o, Arr):
            if k == 'length': return len(o.a)
            i = s.idx(k)
            if i is not None:
                if isinstance(i, int): return o.a[i] if i < len(o.a) else UNDEF
                for j in range(len(o.a)):
                    if s.c.cmp('==', i, j): return o.a[j]
                if s.c.cmp('>=', i, 0): return UNDEF
                return UNDEF
        elif isinstance(o, Buf):
            if k in ('length', 'byteLength'): return seqlen(s.c, o.e)
            i = s.idx(k)
            if i is not None:
                x = getat(s.c, o.e, i); return UNDEF if x is None else x
        elif isinstance(o, Fun):
            if k == 'name' and 'name' not in o.p: return o.name
            if k == 'length' and 'length' not in o.p: return getattr(o, 'nargs', 0)
        elif isinstance(o, MapObj) and k == 'size': return len(o.m)
        return s.getp(o, s.key(k), this if this is not None else o)
    def getp(s, o, k, this):
        while o is not None:
            v = s.own(o, k)
            if v is not None or (v is None and isinstance(k, str) and not o.sym and k in o.p):
                if isinstance(v, Acc): return v.get.call(this, []) if v.get is not UNDEF else UNDEF
                return v
            if v is None and (o.sym or not isinstance(k, str)) and s.ownkey(o, k) is not None: return None
            if isinstance(k, str) and k in getattr(o, 'real', ()) and k != '__proto__': raise Unsupported('library function %s' % k)
            o = o.proto
        if not s.inherits(this): return UNDEF
        if k == '__proto__': return this.proto if isinstance(this, Obj) else UNDEF
        if not isinstance(k, str) and eqseq(s.c, k.e, [ord(x) for x in '__proto__']): return this.proto if isinstance(this, Obj) else UNDEF
        return UNDEF
    def inherits(s, o):
        """is Object.prototype in its prototype chain?"""
        while isinstance(o, Obj):
            if o is s.OP: return True
            o = o.proto
        return o is not None
    def has(s, o, k):
        k0 = k; k = s.key(k); o0 = o
        if isinstance(o, (Arr, Buf)):
            i = s.idx(k0)
            if isinstance(i, int): return i < len(o.a if isinstance(o, Arr) else o.e)
            if k == 'length': return True
        while o is not None:
            if s.ownkey(o, k) is not None: return True
            o = o.proto
        if not s.inherits(o0): return False
        if isinstance(k, str): return k == '__proto__'
        return eqseq(s.c, k.e, [ord(x) for x in '__proto__'])
    def hasown(s, o, k):
        if isinstance(o, (Arr, Buf)):
            i = s.idx(k)
            if isinstance(i, int): return i < len(o.a if isinstance(o, Arr) else o.e)
            if k == 'length': return True
        if isstr(o): i = s.idx(k); return k == 'length' or (isinstance(i, int) and i < len(elems(o)))
        return s.ownkey(o, s.key(k)) is not None
    def put(s, o, k, v):
        if not isinstance(o, Obj):
            if o is UNDEF or o is None: s.throw('TypeError', 'Cannot set properties of %s' % s.tostr(o))
            s.throw('TypeError', 'Cannot create property on a primitive')
        if o.frozen: s.throw('TypeError', 'Cannot assign to read only property')
        if isinstance(o, Arr):
            if k == 'length':
                n = s.toint(v); o.a = o.a[:n] + [UNDEF] * (n - len(o.a)); return
            i = s.idx(k)
            if i is not None:
                if not isinstance(i, int):
                    for j in range(len(o.a)):
                        if s.c.cmp('==', i, j): o.a[j] = v; return
                    raise Unsupported('store at a symbolic index')
                while len(o.a) <= i: o.a.append(UNDEF)
                o.a[i] = v; return
        elif isinstance(o, Buf):
            i = s.idx(k)
            if i is not None: s.bufset(o, i, v); return
        k = s.key(k)
        if not isinstance(k, str): 
            if eqseq(s.c, k.e, [ord(x) for x in '__proto__']): k = '__proto__'
        if k == '__proto__' and s.inherits(o) and not s.hasown(o, k):
            if v is None or isinstance(v, Obj): o.proto = v
            return
        # accessor on the chain
        q = o
        while q is not None:
            if isinstance(k, str) and not q.sym:
                cur = q.p.get(k)
                if isinstance(cur, Acc):
                    if cur.set is UNDEF: s.throw('TypeError', 'Cannot set property which has only a getter')
                    cur.set.call(o, [v]); return
            q = q.proto
        kk = s.ownkey(o, k)
        if kk is None:
            if isinstance(k, str): kk = k
            else: kk = SymKey(k.e); o.sym = True
        o.p[kk] = v
    def byteval(s, v):
        v = s.tonum(v)
        if isinstance(v, float): return 0 if v != v or v in (float('inf'), float('-inf')) else int(v) & 255
        if isinstance(v, int): return v & 255
        if isinstance(v, T): return T(v.v, v.tab & 255)
        raise Unsupported('byte from a symbolic integer')
    def bufset(s, o, i, v):
        v = s.byteval(v)
        if not isinstance(i, int): raise Unsupported('store at a symbolic index')
        if anylong(o.e): raise Unsupported('store into opaque data')
        if i >= len(o.e): return
        if o.base is not None or getattr(o, 'views', None):
            root = o.base or o; off = i + o.off
            root.e[off] = v
            for w in root.views:
                if 0 <= off - w.off < len(w.e): w.e[off - w.off] = v
        else: o.e[i] = v
    def view(s, b, i, j):
        """subarray"""
        e = cut(s.c, b.e, i, j); n = s.buf(e)
        if isinstance(i, int) and not anylong(b.e):
            root = b.base or b; n.base = root; n.off = b.off + i
            if not hasattr(root, 'views'): root.views = []
            root.views.append(n)
            if root is not b and b not in root.views: root.views.append(b)
        return n
    def delete(s, o, k):
        if isinstance(o, Arr):
            i = s.idx(k)
            if isinstance(i, int) and i < len(o.a): o.a[i] = UNDEF
            return True
        kk = s.ownkey(o, s.key(k))
        if kk is not None: del o.p[kk]
        return True
    def keys(s, o):
        if isinstance(o, Arr): return [str(i) for i in range(len(o.a))] + [k for k in o.p]
        if isinstance(o, Buf): return [str(i) for i in range(len(o.e))]
        if isstr(o): return [str(i) for i in range(len(elems(o)))]
        hid = getattr(o, 'hidden', ())
        ks = [k if isinstance(k, str) else SStr(k.e) for k in o.p if k not in hid]
        ints = sorted([k for k in ks if isinstance(k, str) and k.isdigit()], key=int)
        return ints + [k for k in ks if not (isinstance(k, str) and k.isdigit())]
    # ---------- operators
    def seq_eq(s, a, b):
        """strict equality"""
        if isinstance(a, bool) or isinstance(b, bool): return a is b
        if isnum(a):
            if not isnum(b): return False
            if isinstance(a, (int, float)) and isinstance(b, (int, float)): return a == b
            return s.c.cmp('==', a, b)
        if isstr(a):
            if not isstr(b): return False
            if isinstance(a, str) and isinstance(b, str): return a == b
            return eqseq(s.c, elems(a), elems(b))
        return a is b
    def loose(s, a, b):
        if (a is UNDEF or a is None): return b is UNDEF or b is None
        if b is UNDEF or b is None: return False
        if isinstance(a, Obj) and isinstance(b, Obj): return a is b
        if isinstance(a, Obj): return s.loose(s.toprim(a), b)
        if isinstance(b, Obj): return s.loose(a, s.toprim(b))
        if isstr(a) and isstr(b): return s.seq_eq(a, b)
        return s.seq_eq(s.tonum(a), s.tonum(b))
    def less(s, op, a, b):
        a, b = s.toprim(a, 'number'), s.toprim(b, 'number')
        if isstr(a) and isstr(b):
            x, y = chars(s.c, elems(a)), chars(s.c, elems(b))
            r = 0
            for p, q in zip(x, y):
                if eqel(s.c, p, q): continue
                r = -1 if (p < q if isinstance(p, int) and isinstance(q, int) else s.c.cmp('<', p, q)) else 1; break
            else: r = (len(x) > len(y)) - (len(x) < len(y))
            return {'<': r < 0, '<=': r <= 0, '>': r > 0, '>=': r >= 0}[op]
        a, b = s.tonum(a), s.tonum(b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if a != a or b != b: return False
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        return s.c.cmp(op, a, b)
    def add(s, a, b):
        if isinstance(a, str) and isinstance(b, str): return a + b
        if type(a) is int and type(b) is int and -MAXSAFE < a < MAXSAFE and -MAXSAFE < b < MAXSAFE: return a + b
        a, b = s.toprim(a), s.toprim(b)
        if isstr(a) or isstr(b):
            a, b = s.tostr(a), s.tostr(b)
            if isinstance(a, str) and isinstance(b, str): return a + b
            return mk(elems(a) + elems(b))
        return s.arith('+', a, b)
    def i32(s, v):
        v = s.tonum(v)
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')): return 0
            v = int(v)
        if isinstance(v, int): v &= 0xffffffff; return v - (1 << 32) if v >> 31 else v
        if isinstance(v, T): t = v.tab & 0xffffffff; return T(v.v, np.where(t >> 31, t - (1 << 32), t))
        if isinstance(v, Rat): v = s.toint(v)
        if isinstance(v, SN):
            if s.c.decide_z(z3.And(s.c.z(v) >= -(1 << 31), s.c.z(v) < 1 << 31)): return v
            z = (s.c.z(v) + (1 << 31)) % (1 << 32) - (1 << 31); return s.c.atom(z)
        raise Unsupported('bit operation on a symbolic double')
    def arith(s, op, a, b):
        a, b = s.tonum(a), s.tonum(b)
        conc = isinstance(a, (int, float)) and isinstance(b, (int, float))
        if op in ('&', '|', '^', '<<', '>>', '>>>'):
            a, b = s.i32(a), s.i32(b)
            if isinstance(a, int) and isinstance(b, int):
                if op == '&': r = a & b
                elif op == '|': r = a | b
                elif op == '^': r = a ^ b
                elif op == '<<': r = a << (b & 31)
                elif op == '>>': r = a >> (b & 31)
                else: return (a & 0xffffffff) >> (b & 31)
                r &= 0xffffffff; return r - (1 << 32) if r >> 31 else r
            if isinstance(a, T) or isinstance(b, T):
                v = a.v if isinstance(a, T) else b.v
                if all(isinstance(x, int) or (isinstance(x, T) and x.v is v) for x in (a, b)):
                    x = a.tab if isinstance(a, T) else np.int64(a); y = b.tab if isinstance(b, T) else np.int64(b)
                    x = np.broadcast_to(x, (v.size,)).astype(np.int64); y = np.broadcast_to(y, (v.size,)).astype(np.int64)
                    if op == '&': r = x & y
                    elif op == '|': r = x | y
                    elif op == '^': r = x ^ y
                    elif op == '<<': r = x << (y & 31)
                    elif op == '>>': r = x >> (y & 31)
                    else: return T(v, (x & 0xffffffff) >> (y & 31))
                    r = r & 0xffffffff; return T(v, np.where(r >> 31, r - (1 << 32), r))
            if isinstance(b, int):
                if op in ('|', '^') and b == 0: return a
                if op == '>>' : return s.c.atom(s.c.z(a) / (1 << (b & 31)))
                if op == '>>>':
                    if s.c.cmp('<', a, 0): a = s.c.addn(a, 1 << 32)
                    return a if b & 31 == 0 else s.c.atom(s.c.z(a) / (1 << (b & 31)))
                if op == '<<': return s.i32(s.c.mul(a, 1 << (b & 31)))
                if op == '&' and b >= 0 and (b & (b + 1)) == 0: return s.c.atom(s.c.z(a) % (b + 1))
            raise Unsupported('bit operation on symbolic integers')
        if conc:
            try:
                if op == '+': return normnum(a + b)
                if op == '-': return normnum(a - b)
                if op == '*':
                    r = a * b
                    if r == 0 and (str(float(a))[0] == '-') != (str(float(b))[0] == '-'): return -0.0
                    return normnum(r)
                if op == '/':
                    if b == 0:
                        if a == 0 or a != a: return float('nan')
                        neg = (a < 0) != (str(float(b))[0] == '-'); return float('-inf') if neg else float('inf')
                    r = float(a) / float(b)
                    return normnum(r)
                if op == '%':
                    if b == 0 or a != a or b != b or a in (float('inf'), float('-inf')): return float('nan')
                    return normnum(math.fmod(a, b))
                if op == '**': return normnum(float(a) ** float(b)) if not (isinstance(a, int) and isinstance(b, int) and b >= 0) else normnum(a ** b)
            except OverflowError: return float('inf')
        c = s.c
        if op == '+': return c.addn(a, b)
        if op == '-': return c.sub(a, b)
        if op == '*': return c.mul(a, b)
        if op == '/': return c.div(a, b)
        if op == '%': return c.mod(a, b)
        raise Unsupported('operator ' + op)
    def binop(s, op, a, b):
        if op == '+': return s.add(a, b)
        if op == '===': return s.seq_eq(a, b)
        if op == '!==': return not s.seq_eq(a, b)
        if op == '==': return s.loose(a, b)
        if op == '!=': return not s.loose(a, b)
        if op in ('<', '<=', '>', '>='): return s.less(op, a, b)
        if op == 'in':
            if not isinstance(b, Obj): s.throw('TypeError', "Cannot use 'in' operator")
            return s.has(b, a)
        if op == 'instanceof':
            if not isinstance(b, Fun): s.throw('TypeError', 'Right-hand side of instanceof is not callable')
            pr = s.get(b, 'prototype'); o = a.proto if isinstance(a, Obj) else None
            while o is not None:
                if o is pr: return True
                o = o.proto
            return False
        return s.arith(op, a, b)
    def iterate(s, v):
        if isinstance(v, Arr): return list(v.a)
        if isstr(v): return [mk([x]) for x in chars(s.c, elems(v))]
        if isinstance(v, Buf): return chars(s.c, v.e)
        if isinstance(v, MapObj): return [s.arr([k, w]) for k, w in v.m] if v.ismap else [k for k, w in v.m]
        s.throw('TypeError', 'object is not iterable')
    def call(s, f, this, args):
        if not isinstance(f, Fun): s.throw('TypeError', 'not a function')
        return f.call(this, args)
    def construct(s, f, args):
        if not isinstance(f, Fun) or (f.ctor is None): s.throw('TypeError', 'not a constructor')
        return f.ctor(args)
    # ---------- compilation
    def load(s, ast, fname=''):
        return Comp(s, fname).function(dict(type='FunctionExpression', id=None, params=[dict(type='Identifier', name=n) for n in ('exports', 'require', 'module', '__filename', '__dirname', 'sym', 'P', 'loadModule')], body=dict(type='BlockStatement', body=ast['body'])))(s.g)

def pat_names(p, o):
    t = p['type']
    if t == 'Identifier': o.append(p['name'])
    elif t == 'ObjectPattern':
        for q in p['properties']: pat_names(q['value'] if q['type'] == 'Property' else q['argument'], o)
    elif t == 'ArrayPattern':
        for q in p['elements']:
            if q: pat_names(q, o)
    elif t == 'AssignmentPattern': pat_names(p['left'], o)
    elif t == 'RestElement': pat_names(p['argument'], o)
def var_names(n, o):
    """names declared with var in a statement (not entering functions)"""
    if isinstance(n, list):
        for x in n: var_names(x, o)
        return
    if not isinstance(n, dict) or 'type' not in n: return
    t = n['type']
    if t == 'VariableDeclaration':
        if n['kind'] == 'var':
            for d in n['declarations']: pat_names(d['id'], o)
        return
    if t in ('FunctionDeclaration', 'FunctionExpression', 'ArrowFunctionExpression', 'ClassDeclaration', 'ClassExpression', 'ExpressionStatement'): return
    for k, v in n.items():
        if isinstance(v, (dict, list)): var_names(v, o)
def lexical(body):
    o = []
    for x in body:
        if x['type'] == 'VariableDeclaration' and x['kind'] != 'var':
            q = []
            for d in x['declarations']: pat_names(d['id'], q)
            o += [(n, x['kind']) for n in q]
        elif x['type'] == 'ClassDeclaration': o.append((x['id']['name'], 'let'))
    return o

class Comp:
    def __init__(s, it, fname): s.it = it; s.f = fname
    def lookup(s, sc, n):
        while sc is not None:
            if n in sc.v: return sc
            sc = sc.up
        return None
    # ----- functions
    def function(s, n, arrow=False, klass=None):
        it = s.it
        body = n['body']; params = n['params']
        if n.get('generator') or n.get('async'): raise Unsupported('generator or async function')
        names = []; vn = []
        for p in params: pat_names(p, names)
        simple = all(p['type'] == 'Identifier' for p in params)
        pn = [p['name'] for p in params] if simple else None
        bind = None if simple else [s.param(p) for p in params]
        expr = arrow and n.get('expression') and body['type'] != 'BlockStatement'
        if expr: ex = s.expr(body); stmts = None; funs = []
        else:
            var_names(body['body'], vn); funs, stmts, lex = s.body(body['body'])
        vn = [x for x in dict.fromkeys(vn) if x not in names]
        fname = (n.get('id') or {}).get('name', '')
        isdecl = n['type'] == 'FunctionDeclaration'
        def make(sc):
            def enter(this, args, fobj):
                it.depth += 1
                if it.depth > 400: it.depth -= 1; it.throw('RangeError', 'Maximum call stack size exceeded')
                try:
                    e = Scope(sc)
                    if not arrow: e.v['this'] = this; e.v['arguments'] = None; e.v['%args'] = args; e.v['%fun'] = fobj
                    if simple:
                        for i, p in enumerate(pn): e.v[p] = args[i] if i < len(args) else UNDEF
                    else:
                        for i, b in enumerate(bind): b(e, args, i)
                    if expr: return ex(e)
                    for x in vn: e.v[x] = UNDEF
                    for x, k in lex: e.v[x] = TDZ; k == 'const' and s.mkconst(e, x)
                    for nm, mkf in funs: e.v[nm] = mkf(e)
                    r = stmts(e)
                    return r.v if r.__class__ is Ret else UNDEF
                finally: it.depth -= 1
            f = Fun(it.FP_, None, fname); f.nargs = len(params)
            if fname and not isdecl and not arrow and not klass:
                up = Scope(sc); up.v[fname] = f; sc2 = up
            else: sc2 = sc
            sc = sc2
            f.call = lambda this, args: enter(this, args, f)
            if not arrow and not klass == 'method':
                pr = Obj(it.OP); pr.p['constructor'] = f; pr.hidden = ('constructor',); f.p['prototype'] = pr
                def ctor(args, proto=None):
                    p = proto or f.p['prototype']
                    o = Obj(p if isinstance(p, Obj) else it.OP); r = enter(o, args, f)
                    return r if isinstance(r, Obj) else o
                f.ctor = ctor
            f.hidden = ('prototype',); f.enter = enter
            return f
        return make
    def mkconst(s, e, x):
        if e.const is None: e.const = set()
        e.const.add(x)
    def param(s, p):
        it = s.it
        if p['type'] == 'RestElement':
            b = s.pattern(p['argument'], True)
            return lambda e, args, i: b(e, it.arr(args[i:]))
        b = s.pattern(p, True)
        return lambda e, args, i: b(e, args[i] if i < len(args) else UNDEF)
    def pattern(s, p, declare):
        """returns f(scope, value) binding/assigning the pattern"""
        it = s.it; t = p['type']
        if t == 'Identifier':
            n = p['name']
            if declare:
                def f(e, v): e.v[n] = v
                return f
            return s.assign_to(p)
        if t == 'AssignmentPattern':
            b = s.pattern(p['left'], declare); d = s.expr(p['right']); nm = p['left'].get('name')
            return lambda e, v: b(e, d(e) if v is UNDEF else v)
        if t == 'ObjectPattern':
            parts = []
            for q in p['properties']:
                if q['type'] == 'RestElement': parts.append((None, s.pattern(q['argument'], declare)))
                else: parts.append((s.expr(q['key']) if q['computed'] else (lambda k: lambda e: k)(s.keyname(q['key'])), s.pattern(q['value'], declare)))
            def f(e, v):
                if v is UNDEF or v is None: it.throw('TypeError', 'Cannot destructure')
                used = []
                for k, b in parts:
                    if k is None:
                        o = Obj(it.OP)
                        for kk in it.keys(v):
                            if kk not in used: it.put(o, kk, it.get(v, kk))
                        b(e, o)
                    else: kk = k(e); used.append(kk); b(e, it.get(v, kk))
            return f
        if t == 'ArrayPattern':
            parts = [None if q is None else (q['type'] == 'RestElement', s.pattern(q['argument'] if q['type'] == 'RestElement' else q, declare)) for q in p['elements']]
            def f(e, v):
                a = it.iterate(v)
                for i, q in enumerate(parts):
                    if q is None: continue
                    if q[0]: q[1](e, it.arr(a[i:]))
                    else: q[1](e, a[i] if i < len(a) else UNDEF)
            return f
        return s.assign_to(p)
    def keyname(s, k):
        return k['name'] if k['type'] in ('Identifier', 'PrivateIdentifier') else s.it.numstr(k['value']) if isinstance(k['value'], (int, float)) else u16(k['value'])
    # ----- statements
    def body(s, lst):
        funs = [(x['id']['name'], s.function(x)) for x in lst if x['type'] == 'FunctionDeclaration']
        st = [s.stmt(x) for x in lst if x['type'] != 'FunctionDeclaration']; lex = lexical(lst)
        def run(e):
            for f in st:
                r = f(e)
                if r is not None: return r
        return funs, run, lex
    def block(s, lst):
        funs, run, lex = s.body(lst)
        if not funs and not lex: return run
        def f(e):
            e = Scope(e)
            for x, k in lex: e.v[x] = TDZ; k == 'const' and s.mkconst(e, x)
            for nm, mkf in funs: e.v[nm] = mkf(e)
            return run(e)
        return f
    def stmt(s, n, labels=()):
        f = getattr(s, 's_' + n['type'], None)
        if f is None: raise Unsupported('statement ' + n['type'])
        g = f(n, labels) if n['type'] in ('ForStatement', 'WhileStatement', 'DoWhileStatement', 'ForInStatement', 'ForOfStatement', 'LabeledStatement') else f(n)
        it = s.it; line = n.get('start', 0); c = it.c; key = (s.f, line)
        def h(e):
            it.line = line; c.tick(); it.covered.add(key)
            return g(e)
        return h
    def s_ExpressionStatement(s, n):
        x = s.expr(n['expression'])
        def f(e): x(e)
        return f
    def s_EmptyStatement(s, n): return lambda e: None
    def s_DebuggerStatement(s, n): return lambda e: None
    def s_BlockStatement(s, n): return s.block(n['body'])
    def s_FunctionDeclaration(s, n):
        mkf = s.function(n)
        def f(e): e.v[n['id']['name']] = mkf(e)
        return f
    def s_ClassDeclaration(s, n):
        k = s.klass(n)
        def f(e): e.v[n['id']['name']] = k(e)
        return f
    def s_VariableDeclaration(s, n):
        ds = []
        for d in n['declarations']:
            if n['kind'] == 'var':
                if d['init'] is None: continue
                ds.append((s.pattern(d['id'], False), s.named(d['init'], d['id'])))
            else: ds.append((s.pattern(d['id'], True), s.named(d['init'], d['id']) if d['init'] else (lambda e: UNDEF)))
        def f(e):
            for b, x in ds: b(e, x(e))
        return f
    def named(s, x, target):
        g = s.expr(x)
        if target['type'] == 'Identifier' and x['type'] in ('FunctionExpression', 'ArrowFunctionExpression', 'ClassExpression') and not x.get('id'):
            nm = target['name']
            def f(e):
                v = g(e)
                if isinstance(v, Fun) and not v.name: v.name = nm
                return v
            return f
        return g
    def s_ReturnStatement(s, n):
        if n['argument'] is None: return lambda e: Ret(UNDEF)
        x = s.expr(n['argument']); return lambda e: Ret(x(e))
    def s_IfStatement(s, n):
        t = s.expr(n['test']); a = s.stmt(n['consequent']); b = s.stmt(n['alternate']) if n['alternate'] else None; tr = s.it.truth
        if b is None: return lambda e: a(e) if tr(t(e)) else None
        return lambda e: a(e) if tr(t(e)) else b(e)
    def s_ThrowStatement(s, n):
        x = s.expr(n['argument']); it = s.it; line = n.get('start')
        def f(e):
            v = x(e)
            if isinstance(v, Obj): v.line = line
            raise JSThrow(v)
        return f
    def s_TryStatement(s, n):
        b = s.block(n['block']['body']); h = n['handler']; it = s.it
        hb = s.block(h['body']['body']) if h else None; hp = s.pattern(h['param'], True) if h and h['param'] else None
        fb = s.block(n['finalizer']['body']) if n['finalizer'] else None
        def f(e):
            d = it.depth
            try:
                try: r = b(e)
                except JSThrow as ex:
                    if hb is None: raise
                    it.depth = d; e2 = Scope(e); hp and hp(e2, ex.v); r = hb(e2)
            except JSThrow:
                if fb:
                    it.depth = d; r2 = fb(e)
                    if r2 is not None: return r2
                raise
            if fb:
                r2 = fb(e)
                if r2 is not None: return r2
            return r
        return f
    def s_BreakStatement(s, n): b = Brk(n['label']['name'] if n['label'] else None); return lambda e: b
    def s_ContinueStatement(s, n): b = Cont(n['label']['name'] if n['label'] else None); return lambda e: b
    def s_LabeledStatement(s, n, labels=()):
        nm = n['label']['name']; b = s.stmt(n['body'], labels + (nm,))
        def f(e):
            r = b(e)
            return None if r.__class__ is Brk and r.l == nm else r
        return f
    def loopctl(s, r, labels):
        """(stop, result)"""
        if r is None: return False, None
        k = r.__class__
        if k is Brk: return True, (None if r.l is None or r.l in labels else r)
        if k is Cont: return (False, None) if r.l is None or r.l in labels else (True, r)
        return True, r
    def s_WhileStatement(s, n, labels=()):
        t = s.expr(n['test']); b = s.stmt(n['body']); tr = s.it.truth; c = s.it.c
        def f(e):
            while tr(t(e)):
                c.tick(); st, r = s.loopctl(b(e), labels)
                if st: return r
        return f
    def s_DoWhileStatement(s, n, labels=()):
        t = s.expr(n['test']); b = s.stmt(n['body']); tr = s.it.truth
        def f(e):
            while True:
                st, r = s.loopctl(b(e), labels)
                if st: return r
                if not tr(t(e)): return None
        return f
    def s_ForStatement(s, n, labels=()):
        init = None; per = []
        if n['init']:
            if n['init']['type'] == 'VariableDeclaration':
                init = s.s_VariableDeclaration(n['init'])
                if n['init']['kind'] != 'var': per = [x for x, k in lexical([n['init']])]
            else: init = s.expr(n['init'])
        t = s.expr(n['test']) if n['test'] else None; u = s.expr(n['update']) if n['update'] else None; b = s.stmt(n['body']); tr = s.it.truth; c = s.it.c
        def f(e):
            if per: e = Scope(e)
            if init: init(e)
            while True:
                c.tick()
                if t is not None and not tr(t(e)): return None
                if per: e2 = Scope(e.up); e2.v.update(e.v); e = e2
                st, r = s.loopctl(b(e), labels)
                if st: return r
                if per: e2 = Scope(e.up); e2.v.update(e.v); e = e2
                if u: u(e)
        return f
    def forx(s, n, labels, values):
        l = n['left']; b = s.stmt(n['body']); x = s.expr(n['right'])
        if l['type'] == 'VariableDeclaration': decl = l['kind'] != 'var'; bind = s.pattern(l['declarations'][0]['id'], decl)
        else: decl = False; bind = s.pattern(l, False)
        def f(e):
            for v in values(x(e)):
                e2 = Scope(e) if decl else e
                bind(e2, v); st, r = s.loopctl(b(e2), labels)
                if st: return r
        return f
    def s_ForInStatement(s, n, labels=()):
        it = s.it
        def vals(v):
            if v is UNDEF or v is None: return []
            o = []; q = v
            if not isinstance(q, Obj): return it.keys(q)
            while q is not None and not getattr(q, 'builtin', False):
                for k in it.keys(q):
                    if isinstance(k, str) and k in o: continue
                    o.append(k)
                q = q.proto
            return o
        return s.forx(n, labels, vals)
    def s_ForOfStatement(s, n, labels=()): return s.forx(n, labels, s.it.iterate)
    def s_SwitchStatement(s, n):
        it = s.it; d = s.expr(n['discriminant']); cs = [(s.expr(c['test']) if c['test'] else None, s.block(c['consequent'])) for c in n['cases']]
        allst = [x for c in n['cases'] for x in c['consequent']]; lex = lexical(allst)
        def f(e):
            v = d(e); e = Scope(e); start = None
            for x, k in lex: e.v[x] = TDZ
            for i, (t, b) in enumerate(cs):
                if t is not None and it.seq_eq(v, t(e)): start = i; break
            if start is None:
                for i, (t, b) in enumerate(cs):
                    if t is None: start = i
            if start is None: return None
            for t, b in cs[start:]:
                r = b(e)
                if r is not None:
                    if r.__class__ is Brk and r.l is None: return None
                    return r
        return f
    # ----- expressions
    def expr(s, n):
        f = getattr(s, 'e_' + n['type'], None)
        if f is None: raise Unsupported('expression ' + n['type'])
        return f(n)
    def e_Literal(s, n):
        it = s.it
        if 'regex' in n:
            r = Regex(n['regex']['pattern'], n['regex']['flags']); return lambda e: it.regobj(r)
        v = n['value']
        if isinstance(v, dict): v = int(v['bigint'])
        if isinstance(v, str): v = u16(v)
        v = normnum(v)
        return lambda e: v
    def e_TemplateLiteral(s, n):
        it = s.it; q = [u16(x['value']['cooked']) for x in n['quasis']]; xs = [s.expr(x) for x in n['expressions']]
        def f(e):
            r = q[0]
            for a, b in zip(xs, q[1:]): r = it.add(it.add(r, it.tostr(a(e))), b)
            return r
        return f
    def e_Identifier(s, n):
        nm = n['name']; it = s.it
        if nm == 'undefined': return lambda e: UNDEF
        if nm == 'arguments':
            def f(e):
                q = e
                while q is not None:
                    if '%args' in q.v:
                        if q.v['arguments'] is None: q.v['arguments'] = it.arr(q.v['%args'])
                        return q.v['arguments']
                    q = q.up
                it.throw('ReferenceError', 'arguments is not defined')
            return f
        def f(e):
            q = e
            while q is not None:
                v = q.v
                if nm in v:
                    r = v[nm]
                    if r is TDZ: it.throw('ReferenceError', "Cannot access '%s' before initialization" % nm)
                    return r
                q = q.up
            it.throw('ReferenceError', nm + ' is not defined')
        return f
    def e_ThisExpression(s, n):
        def f(e):
            while e is not None:
                if 'this' in e.v: return e.v['this']
                e = e.up
            return UNDEF
        return f
    def e_ArrayExpression(s, n):
        it = s.it; xs = [None if x is None else (x['type'] == 'SpreadElement', s.expr(x['argument'] if x['type'] == 'SpreadElement' else x)) for x in n['elements']]
        def f(e):
            o = []
            for x in xs:
                if x is None: o.append(UNDEF)
                elif x[0]: o += it.iterate(x[1](e))
                else: o.append(x[1](e))
            return it.arr(o)
        return f
    def e_ObjectExpression(s, n):
        it = s.it; ps = []
        for p in n['properties']:
            if p['type'] == 'SpreadElement': ps.append(('spread', None, s.expr(p['argument']))); continue
            k = s.expr(p['key']) if p['computed'] else (lambda k: lambda e: k)(s.keyname(p['key']))
            v = s.function(p['value'], klass='method') if p.get('method') or p['kind'] != 'init' else s.expr(p['value'])
            isf = p['value']['type'] in ('FunctionExpression', 'ArrowFunctionExpression')
            ps.append((p['kind'], k, v, isf))
        def f(e):
            o = Obj(it.OP)
            for p in ps:
                if p[0] == 'spread':
                    src = p[2](e)
                    if src is UNDEF or src is None: continue
                    for k in it.keys(src): o.p[k if isinstance(k, str) else SymKey(k.e)] = it.get(src, k)
                    continue
                k = it.key(p[1](e)); v = p[2](e)
                if p[3] and isinstance(v, Fun) and not v.name and isinstance(k, str): v.name = k
                if p[0] == 'init':
                    if k == '__proto__':
                        if v is None or isinstance(v, Obj): o.proto = v
                    elif isinstance(k, str): o.p[k] = v
                    else: it.put(o, k, v)
                else:
                    a = o.p.get(k)
                    if not isinstance(a, Acc): a = o.p[k] = Acc()
                    setattr(a, p[0], v)
            return o
        return f
    def e_FunctionExpression(s, n): return s.function(n)
    def e_ArrowFunctionExpression(s, n): return s.function(n, arrow=True)
    def e_ClassExpression(s, n): return s.klass(n)
    def klass(s, n):
        it = s.it; sup = s.expr(n['superClass']) if n['superClass'] else None
        ctor = None; ms = []; fields = []; statics = []
        for m in n['body']['body']:
            if m['type'] == 'PropertyDefinition':
                k = s.expr(m['key']) if m['computed'] else (lambda k: lambda e: k)(s.keyname(m['key'])); v = s.expr(m['value']) if m['value'] else (lambda e: UNDEF)
                (statics if m['static'] else fields).append((k, v)); continue
            if m['type'] == 'StaticBlock': raise Unsupported('static block')
            if m['kind'] == 'constructor': ctor = s.function(m['value'], klass='method'); continue
            k = s.expr(m['key']) if m['computed'] else (lambda k: lambda e: k)(s.keyname(m['key']))
            ms.append((m['static'], m['kind'], k, s.function(m['value'], klass='method')))
        name = (n.get('id') or {}).get('name', '')
        def make(sc):
            sc = Scope(sc); parent = sup(sc) if sup else None
            proto = Obj(parent.p['prototype'] if parent else it.OP); proto.hidden = {'constructor'}
            f = Fun(parent or it.FP_, None, name); f.isclass = True; f.p['prototype'] = proto; proto.p['constructor'] = f; f.hidden = ('prototype',)
            if name: sc.v[name] = f
            sc.v['%home'] = (proto, parent)
            def initf(o):
                for k, v in fields:
                    e = Scope(sc); e.v['this'] = o; it.put(o, k(e), v(e))
            c = ctor(sc) if ctor else None
            def build(args, proto_=None):
                p = proto_ or f.p['prototype']
                if parent is None:
                    o = Obj(p); initf(o)
                    if c: r = c.enter(o, args, c); return r if isinstance(r, Obj) else o
                    return o
                if c is None:
                    o = parent.ctor(args, p) if parent.ctor.__code__.co_argcount > 1 or parent.isclass else parent.ctor(args)
                    if o.proto is not p: o.proto = p
                    initf(o); return o
                holder = Obj(p)   # allocated before super(): fields are initialised when super returns
                e = {}
                holder.pending = (parent, p, initf)
                r = c.enter(holder, args, c); return r if isinstance(r, Obj) else holder
            f.ctor = build
            def nocall(this, args): it.throw('TypeError', "Class constructor %s cannot be invoked without 'new'" % name)
            f.call = nocall
            for st, kind, k, mf in ms:
                o = f if st else proto; kk = it.key(k(sc)); v = mf(sc)
                if not v.name and isinstance(kk, str): v.name = kk
                if kind == 'method': o.p[kk] = v
                else:
                    a = o.p.get(kk)
                    if not isinstance(a, Acc): a = o.p[kk] = Acc()
                    setattr(a, kind, v)
                if not st: proto.hidden.add(kk)
            for k, v in statics:
                e = Scope(sc); e.v['this'] = f; f.p[it.key(k(e))] = v(e)
            return f
        return make
    def home(s, e):
        while e is not None:
            if '%home' in e.v: return e.v['%home']
            e = e.up
        raise Unsupported('super outside a class')
    def e_UnaryExpression(s, n):
        it = s.it; op = n['operator']
        if op == 'delete':
            a = n['argument']
            if a['type'] != 'MemberExpression': return lambda e: True
            o = s.expr(a['object']); k = s.mkey(a)
            return lambda e: it.delete(o(e), k(e))
        if op == 'typeof' and n['argument']['type'] == 'Identifier':
            nm = n['argument']['name']; g = s.expr(n['argument'])
            return lambda e: it.typeof(g(e)) if nm == 'undefined' or s.lookup(e, nm) else 'undefined'
        x = s.expr(n['argument'])
        if op == '!': return lambda e: not it.truth(x(e))
        if op == '-':
            def neg(e):
                v = it.tonum(x(e))
                if isinstance(v, (int, float)): return -0.0 if v == 0 and not (isinstance(v, float) and str(v)[0] == '-') else (0 if v == 0 else -v)
                return it.c.neg(v)
            return neg
        if op == '+': return lambda e: it.tonum(x(e))
        if op == 'typeof': return lambda e: it.typeof(x(e))
        if op == 'void':
            def f(e): x(e); return UNDEF
            return f
        if op == '~': return lambda e: it.arith('-', -1, it.i32(x(e)))
        raise Unsupported('operator ' + op)
    def e_BinaryExpression(s, n):
        it = s.it; op = n['operator']; a = s.expr(n['left']); b = s.expr(n['right'])
        if op == '+': return lambda e: it.add(a(e), b(e))
        if op == '===': return lambda e: it.seq_eq(a(e), b(e))
        if op in ('<', '<=', '>', '>=', '==', '!=', '!=='):
            import operator as O
            cf = {'<': O.lt, '<=': O.le, '>': O.gt, '>=': O.ge, '==': O.eq, '!=': O.ne, '!==': O.ne}[op]
            eqop = op in ('==', '!=', '!==')
            def f(e):
                x = a(e); y = b(e); tx = type(x)
                if tx is type(y) and (tx is int or (eqop and tx is str)): return cf(x, y)
                return it.binop(op, x, y)
            return f
        if op == '-':
            def f(e):
                x = a(e); y = b(e)
                if type(x) is int and type(y) is int and -MAXSAFE < x < MAXSAFE and -MAXSAFE < y < MAXSAFE: return x - y
                return it.binop(op, x, y)
            return f
        return lambda e: it.binop(op, a(e), b(e))
    def e_LogicalExpression(s, n):
        it = s.it; op = n['operator']; a = s.expr(n['left']); b = s.expr(n['right'])
        if op == '&&':
            def f(e):
                v = a(e); return b(e) if it.truth(v) else v
        elif op == '||':
            def f(e):
                v = a(e); return v if it.truth(v) else b(e)
        else:
            def f(e):
                v = a(e); return b(e) if v is UNDEF or v is None else v
        return f
    def e_ConditionalExpression(s, n):
        it = s.it; t = s.expr(n['test']); a = s.expr(n['consequent']); b = s.expr(n['alternate'])
        return lambda e: a(e) if it.truth(t(e)) else b(e)
    def e_SequenceExpression(s, n):
        xs = [s.expr(x) for x in n['expressions']]
        def f(e):
            for x in xs: v = x(e)
            return v
        return f
    def mkey(s, n):
        if not n['computed']: k = n['property']['name']; return lambda e: k
        return s.expr(n['property'])
    def e_MemberExpression(s, n):
        it = s.it; k = s.mkey(n)
        if n['object']['type'] == 'Super':
            th = s.e_ThisExpression(None)
            return lambda e: it.getp(s.home(e)[0].proto, it.key(k(e)), th(e))
        o = s.expr(n['object'])
        if n.get('optional'):
            def f(e):
                v = o(e)
                if v is UNDEF or v is None: raise Short()
                return it.get(v, k(e))
            return f
        return lambda e: it.get(o(e), k(e))
    def e_ChainExpression(s, n):
        x = s.expr(n['expression'])
        def f(e):
            try: return x(e)
            except Short: return UNDEF
        return f
    def args(s, lst):
        it = s.it
        if not any(x['type'] == 'SpreadElement' for x in lst):
            xs = [s.expr(x) for x in lst]; return lambda e: [x(e) for x in xs]
        xs = [(x['type'] == 'SpreadElement', s.expr(x['argument'] if x['type'] == 'SpreadElement' else x)) for x in lst]
        def f(e):
            o = []
            for sp, x in xs:
                if sp: o += it.iterate(x(e))
                else: o.append(x(e))
            return o
        return f
    def e_CallExpression(s, n):
        it = s.it; a = s.args(n['arguments']); cal = n['callee']; line = n.get('start'); opt = n.get('optional')
        if cal['type'] == 'Super':
            def f(e):
                q = e
                while 'this' not in q.v: q = q.up
                h = q.v['this']; parent, p, initf = h.pending
                if parent.isclass or parent.ctor.__code__.co_argcount > 1: o = parent.ctor(a(e), p)
                else: o = parent.ctor(a(e))
                o.proto = p
                h.p.update(o.p); h.cls = o.cls
                if isinstance(o, (Arr, Buf)): raise Unsupported('subclass of an exotic object')
                initf(h); return UNDEF
            return f
        if cal['type'] == 'MemberExpression':
            k = s.mkey(cal)
            if cal['object']['type'] == 'Super':
                g = s.expr(cal); th = s.e_ThisExpression(None); return lambda e: it.call(g(e), th(e), a(e))
            o = s.expr(cal['object']); copt = cal.get('optional')
            def f(e):
                ov = o(e)
                if copt and (ov is UNDEF or ov is None): raise Short()
                kv = k(e); fv = it.get(ov, kv); av = a(e) if fv.__class__ is Fun or not opt else None
                if fv.__class__ is not Fun:
                    if opt and (fv is UNDEF or fv is None): raise Short()
                    it.line = line; it.throw('TypeError', '%s is not a function' % (kv if isinstance(kv, str) else '?'))
                return fv.call(ov, av)
            return f
        g = s.expr(cal); nm = cal.get('name', 'expression')
        def f(e):
            fv = g(e)
            if opt and (fv is UNDEF or fv is None): raise Short()
            av = a(e)
            if fv.__class__ is not Fun: it.throw('TypeError', nm + ' is not a function')
            return fv.call(UNDEF, av)
        return f
    def e_NewExpression(s, n):
        it = s.it; g = s.expr(n['callee']); a = s.args(n['arguments'])
        return lambda e: it.construct(g(e), a(e))
    def assign_to(s, t):
        it = s.it
        if t['type'] == 'Identifier':
            nm = t['name']
            def f(e, v):
                q = s.lookup(e, nm)
                if q is None: it.throw('ReferenceError', nm + ' is not defined')
                if q.const and nm in q.const and q.v[nm] is not TDZ: it.throw('TypeError', 'Assignment to constant variable.')
                if q.v[nm] is TDZ: it.throw('ReferenceError', "Cannot access '%s' before initialization" % nm)
                q.v[nm] = v
            return f
        if t['type'] == 'MemberExpression':
            o = s.expr(t['object']); k = s.mkey(t)
            return lambda e, v: it.put(o(e), k(e), v)
        raise Unsupported('assignment target ' + t['type'])
    def e_AssignmentExpression(s, n):
        it = s.it; op = n['operator']; t = n['left']
        if op == '=':
            if t['type'] == 'MemberExpression':
                o = s.expr(t['object']); k = s.mkey(t); x = s.expr(n['right'])
                def f(e):
                    ov = o(e); kv = k(e); v = x(e); it.put(ov, kv, v); return v
                return f
            b = s.pattern(t, False); x = s.named(n['right'], t)
            def f(e): v = x(e); b(e, v); return v
            return f
        x = s.expr(n['right']); bop = op[:-1]
        if t['type'] == 'MemberExpression':
            o = s.expr(t['object']); k = s.mkey(t)
            def ref(e): ov = o(e); kv = k(e); return (lambda: it.get(ov, kv)), (lambda v: it.put(ov, kv, v))
        else:
            g = s.expr(t); w = s.assign_to(t)
            def ref(e): return (lambda: g(e)), (lambda v: w(e, v))
        def f(e):
            rd, wr = ref(e); old = rd()
            if bop == '||':
                if it.truth(old): return old
                v = x(e)
            elif bop == '&&':
                if not it.truth(old): return old
                v = x(e)
            elif bop == '??':
                if old is not UNDEF and old is not None: return old
                v = x(e)
            else: v = it.binop(bop, old, x(e))
            wr(v); return v
        return f
    def e_UpdateExpression(s, n):
        it = s.it; t = n['argument']; d = 1 if n['operator'] == '++' else -1; pre = n['prefix']
        if t['type'] == 'MemberExpression':
            o = s.expr(t['object']); k = s.mkey(t)
            def f(e):
                ov = o(e); kv = k(e); old = it.tonum(it.get(ov, kv)); new = it.arith('+', old, d); it.put(ov, kv, new); return new if pre else old
            return f
        g = s.expr(t); w = s.assign_to(t)
        def f(e):
            old = it.tonum(g(e)); new = it.arith('+', old, d); w(e, new); return new if pre else old
        return f
    def e_SpreadElement(s, n): raise Unsupported('spread')
class Short(Exception): pass
