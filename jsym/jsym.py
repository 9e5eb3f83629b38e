"""Path exploration of a harness together with the module under test.
usage: jsym.py --target index.js --harness h.js --tasks tasks.json --time SECONDS [--jobs N] [--seed N] [--traces N]   (JSON lines on stdout)"""
import sys, os, json, time, random, argparse, subprocess, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)
import numpy as np, z3
from core import *
from seq import *
import interp as I

def parse(path):
    p = subprocess.run(['node', os.path.join(HERE, 'parse.js'), path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode: raise RuntimeError('cannot parse %s: %s' % (path, p.stderr.decode()[-300:]))
    return json.loads(p.stdout)

class Violation(Exception):
    def __init__(s, msg): s.msg = msg

def filler(key, n):
    k = sum(map(ord, key)); return bytes(65 + (i + k) % 26 for i in range(n))

class Runner:
    def __init__(s, target, harness):
        s.stats = dict(ztime=0.0, queries=0, sat=0, unsat=0, forks=0, paths=0, asserts=0, steps=0, infeasible=0)
        s.c = Ctx(s.stats); s.it = I.Interp(s.c)
        s.hf = s.it.load(harness, 'harness'); s.mf = s.it.load(target, 'target'); s.rnd = random.Random(1)
    def native(s, P):
        it, c = s.it, s.c; U = UNDEF
        A = lambda a, i: a[i] if i < len(a) else U
        def uniq(n, d):
            q = n; i = 1
            while q in d: i += 1; q = '%s#%d' % (n, i)
            return q
        def mask(size, spec):
            if spec is U: return None
            m = np.zeros(size, dtype=bool)
            if not isinstance(spec, I.Arr):
                m[it.get(spec, 'lo'):it.get(spec, 'hi') + 1] = True
                no = it.get(spec, 'no')
                if no is not U: m[no.a] = False
                if it.get(spec, 'gaplo') is not U: m[it.get(spec, 'gaplo'):it.get(spec, 'gaphi') + 1] = False
                return m
            for x in spec.a: m[x] = True
            return m
        ident256 = np.arange(256); ident64k = np.arange(65536)
        def byte(t, a): return T(c.new_var(a[0], 256, mask(256, A(a, 1))), ident256)
        def unit(t, a): return T(c.new_var(a[0], 65536, mask(65536, A(a, 1))), ident64k)
        def str_(t, a): return mk([unit(U, ['%s.%d' % (a[0], i), A(a, 2)]) for i in range(a[1])])
        def bytes_(t, a): return it.buf([byte(U, ['%s.%d' % (a[0], i), A(a, 2)]) for i in range(a[1])])
        def int_(t, a): return c.new_int(a[0], a[1] if A(a, 1) is not U else None, a[2] if A(a, 2) is not U else None)
        def pick(t, a):
            r = c.choose(a[1]); n = uniq(a[0], c.picks); c.picks[n] = r; c.order.append((n, 'c')); return r
        def opaque(t, a):
            n = a[1]
            if isinstance(n, int) and n == 0: return it.buf([])
            return it.buf([Blob(a[0], n, frozenset(elems(a[2])) if len(a) > 2 else frozenset())])
        def check(t, a):
            s.stats['asserts'] += 1
            if not it.truth(a[0]): raise Violation(A(a, 1))
            return U
        def assume(t, a):
            if not it.truth(a[0]): raise Infeasible()
            return U
        def reach(t, a): s.reached[a[0]] = s.reached.get(a[0], 0) + 1; return U
        def obs(t, a): s.obs.append((a[0], A(a, 1))); return U
        def fail(t, a): raise Violation(a[0])
        sy = it.obj(**{k: it.fn(f) for k, f in dict(byte=byte, unit=unit, str=str_, bytes=bytes_, int=int_, fp=lambda t, a: c.new_fp(a[0]), bool=lambda t, a: pick(U, [a[0], 2]) == 1, pick=pick, opaque=opaque, check=check, assume=assume, reach=reach, obs=obs, fail=fail).items()})
        sy.p['symbolic'] = True
        def loadmodule(t, a):
            y = A(a, 0); m = it.obj(exports=it.obj())
            def require(t, b):
                n = it.tostr(b[0])
                if isinstance(n, str):
                    if n.endswith('.node'): return y
                    if n in ('buffer', 'node:buffer'): return it.obj(Buffer=it.g.v['Buffer'])
                raise Unsupported('require(%r)' % n)
            s.mf.call(it.get(m, 'exports'), [it.get(m, 'exports'), it.fn(require), m, '/repo/index.js', '/repo', U, U, U])
            return it.get(m, 'exports')
        s.reached = {}; s.obs = []
        # values of P
        def js(v):
            if isinstance(v, dict): return it.obj(**{k: js(x) for k, x in v.items()})
            if isinstance(v, list): return it.arr([js(x) for x in v])
            if isinstance(v, str): return I.u16(v)
            return v
        return [it.obj(), it.fn(lambda t, a: U), it.obj(), '', '', sy, js(P), it.fn(loadmodule)]
    def ser(s, v, d=0):
        c = s.c
        if v is UNDEF: return {'u': 1}
        if v is None or isinstance(v, bool): return v
        if I.isnum(v):
            x = c.val(v)
            if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))): return {'n': str(x)}
            return normnum(x)
        if isstr(v) or isinstance(v, I.Buf):
            o = []
            for x in (elems(v) if isstr(v) else v.e):
                if isinstance(x, Tok): o += [ord(ch) for ch in str(c.val(x.n))]
                elif isinstance(x, Blob):
                    n = c.val(x.ln); o += list(filler(x.key, n)) if x.key != 'zero' else [0] * n
                else: o.append(c.val(x))
            if isstr(v): return ''.join(map(chr, o))
            return {'b': bytes(o).hex()}
        if d > 6: return '...'
        if isinstance(v, I.Arr): return [s.ser(x, d + 1) for x in v.a]
        if isinstance(v, I.Fun): return {'f': 1}
        return {'o': [[s.ser(k), s.ser(s.it.get(v, k), d + 1)] for k in s.it.keys(v)]}
    def path(s, P, prefix, seed, want_trace, deadline):
        c = s.c; c.reset(prefix); c.deadline = deadline; s.it.depth = 0; s.rnd.seed(seed)
        res = dict(kind='ok')
        try:
            s.it_args = s.native(P)
            try: s.hf.call(UNDEF, s.it_args)
            except Violation as v: res = dict(kind='violation', msg=s.text(v.msg))
            except Diverges: res = dict(kind='violation', msg='the call does not return (line %s)' % s.it.line, diverges=True)
            except I.JSThrow as t:
                m = t.v; ms = ''
                if isinstance(m, I.Obj):
                    ms = '%s: %s (line %s)' % (s.text(s.it.get(m, 'name')), s.text(s.it.get(m, 'message')), getattr(m, 'line', '?'))
                res = dict(kind='violation', msg='uncaught exception ' + ms)
            if res['kind'] == 'violation' or want_trace:
                vals = c.model(s.rnd)
                if vals is None: res = dict(kind='infeasible')
                else:
                    res['inputs'] = [[n, vals[n]] for n, k in c.order]
                    try: res['obs'] = [[k, s.ser(v)] for k, v in s.obs]
                    except Unsupported: res.pop('inputs'); 
        except Infeasible: res = dict(kind='infeasible')
        except Unsupported as u: res = dict(kind='unsupported', msg=str(u), line=s.it.line)
        except Budget: return dict(kind='budget'), []
        except RecursionError: res = dict(kind='unsupported', msg='recursion')
        except Exception as ex: res = dict(kind='unsupported', msg='internal: ' + traceback.format_exc()[-500:], line=s.it.line)
        s.stats['paths'] += 1; s.stats['steps'] += c.steps; s.stats['maxsteps'] = max(s.stats.get('maxsteps', 0), c.steps)
        if res['kind'] == 'infeasible': s.stats['infeasible'] += 1
        res['reach'] = s.reached
        return res, c.pending
    def text(s, m):
        if isstr(m): return m if isinstance(m, str) else ''.join(chr(x) if isinstance(x, int) else '?' for x in m.e)
        return str(m)

R = None
def init(target, harness):
    global R
    R = Runner(target, harness)
def work(job):
    ti, P, stack, seed, traces, slice_, deadline, maxviol = job
    t0 = time.time(); base = dict(R.stats); out = []; viol = []; uns = {}; reach = {}; ntr = 0; n = 0; R.it.covered.clear()
    stop = min(t0 + slice_, deadline)
    while stack and time.time() < stop and len(viol) < maxviol:
        pre = stack.pop()
        want = ntr < traces and (n % 7 == 0)
        r, pend = R.path(P, pre, seed + n, want, deadline); n += 1
        if r['kind'] == 'budget': stack.append(pre); break
        stack.extend(pend)
        for k, v in r.get('reach', {}).items(): reach[k] = reach.get(k, 0) + v
        if r['kind'] == 'violation': viol.append(dict(msg=r['msg'], params=P, inputs=r.get('inputs'), obs=r.get('obs'), diverges=r.get('diverges', False)))
        elif r['kind'] == 'unsupported':
            k = '%s (line %s)' % (r['msg'], r.get('line')); uns[k] = uns.get(k, 0) + 1
        elif r['kind'] == 'ok' and want and 'inputs' in r and r['obs']: out.append(dict(params=P, inputs=r['inputs'], obs=r['obs'])); ntr += 1
    return ti, stack, out, viol, uns, reach, {k: R.stats[k] - (0 if k == 'maxsteps' else base.get(k, 0)) for k in R.stats}, sorted(l for f, l in R.it.covered if f == 'target')

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('--target'); ap.add_argument('--harness'); ap.add_argument('--tasks'); ap.add_argument('--time', type=float, default=60); ap.add_argument('--jobs', type=int, default=8); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--traces', type=int, default=2); ap.add_argument('--maxviol', type=int, default=6)
    a = ap.parse_args()
    t0 = time.time(); deadline = t0 + a.time
    target, harness = parse(a.target), parse(a.harness)
    tasks = json.load(open(a.tasks)) if os.path.exists(a.tasks) else json.loads(a.tasks)
    tot = {}; uns = {}; reach = {}; lines = set(); open_ = {i: 0 for i in range(len(tasks))}; inc = set(); nviol = 0; trc = {}
    pool = mp.get_context('fork').Pool(a.jobs, init, (target, harness))
    q = [(i, [[]]) for i in range(len(tasks))]; q.reverse(); running = []; perviol = {}
    def put(ti, stack):
        left = max(0, a.traces - trc.get(ti, 0))
        running.append(pool.apply_async(work, ((ti, tasks[ti], stack, a.seed * 1000003 + ti * 7919, left, 1.5, deadline, a.maxviol),)))
    unsupported_tasks = set(); tviol = None
    while q or running:
        while q and len(running) < a.jobs * 2: put(*q.pop())
        done = [r for r in running if r.ready()]
        if not done: time.sleep(0.004); continue
        for r in done:
            running.remove(r)
            try: ti, stack, out, viol, u, rch, st, cov = r.get()
            except Exception as ex: print(json.dumps(dict(type='error', msg=repr(ex)[:300]))); continue
            lines.update(cov)
            for k, v in st.items(): tot[k] = max(tot.get(k, 0), v) if k == 'maxsteps' else tot.get(k, 0) + v
            for k, v in u.items(): uns[k] = uns.get(k, 0) + v; unsupported_tasks.add(ti)
            for k, v in rch.items(): reach[k] = reach.get(k, 0) + v
            for t in out: print(json.dumps(dict(type='trace', **t))); trc[ti] = trc.get(ti, 0) + 1
            for v in viol: nviol += 1; perviol[ti] = perviol.get(ti, 0) + 1; print(json.dumps(dict(type='violation', **v))); sys.stdout.flush()
            if viol and tviol is None: tviol = time.time()
            if tviol and (nviol >= 40 or time.time() > tviol + 15): deadline = min(deadline, time.time())
            if stack:
                if time.time() >= deadline or perviol.get(ti, 0) >= a.maxviol: inc.add(ti)
                else:
                    # split the remaining prefixes over the workers
                    if len(running) + len(q) < a.jobs and len(stack) > 1:
                        k = min(len(stack), a.jobs - len(running) - len(q) + 1)
                        for z in range(k): q.append((ti, stack[z::k]))
                    else: q.append((ti, stack))
        if time.time() > deadline + 2 and not running:
            for ti, st in q: inc.add(ti)
            q = []
        elif time.time() > deadline:
            for ti, st in q: inc.add(ti)
            q = []
    pool.close(); pool.terminate()
    print(json.dumps(dict(type='stats', tasks=len(tasks), incomplete=len(inc), unsupported_tasks=len(unsupported_tasks), unsupported=uns, reach=reach, lines=sorted(lines), wall=round(time.time() - t0, 2), **tot)))
main() if __name__ == '__main__' else None
