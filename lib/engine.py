"""Runs the symbolic engine on a list of tasks, validates sampled paths and replays counterexamples against the native build."""
import os, sys, json, selectors, subprocess, tempfile, time, random, hashlib
import build
from build import VERIF, BUILD, ENGINE

class Result:
    def __init__(self):
        self.violations = []; self.traces = []; self.stats = []; self.incomplete = []; self.errors = []; self.wall = 0.0; self.ntasks = 0; self.stopped = False
    def total(self, k): return sum(s.get(k, 0) for s in self.stats)

def fmt_task(t): return ' '.join('%s=%d' % kv for kv in sorted(t.items()))

def run_engine(bc, tasks, *, jobs=8, time_budget=300, task_time=1e9, traces=1, anf=False, prop='', lenient=False, seed=1, extra=(), stop_after=20.0):
    r = Result(); r.ntasks = len(tasks)
    if not tasks: return r
    t0 = time.time()
    with tempfile.NamedTemporaryFile('w', suffix='.tasks', delete=False) as f:
        for t in tasks: f.write(fmt_task(t) + '\n')
    cmd = [ENGINE, bc, '--tasks', f.name, '--jobs', str(jobs), '--time', str(time_budget), '--task-time', str(min(task_time, time_budget)), '--traces', str(traces), '--seed', str(seed)]
    if anf: cmd.append('--anf')
    if prop: cmd += ['--prop', prop]
    if lenient: cmd.append('--lenient')
    cmd += list(extra)
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        out, err = collect(p, r, time_budget + 60, stop_after)
    finally:
        os.unlink(f.name)
    for line in out.split('\n'):
        if not line.strip(): continue
        try: j = json.loads(line)
        except ValueError: r.errors.append('bad engine output: ' + line[:200]); continue
        ty = j.get('type')
        if ty == 'violation': r.violations.append(j)
        elif ty == 'trace': r.traces.append(j)
        elif ty == 'stats': r.stats.append(j)
        elif ty == 'incomplete': r.incomplete.append(j)
        else: r.errors.append(line[:400])
    if r.stopped: pass
    elif p.returncode: r.errors.append('engine exit %s: %s' % (p.returncode, err[-400:]))
    elif err.strip(): r.errors += [e[:300] for e in err.strip().split('\n')[:5]]
    r.wall = time.time() - t0
    return r

def collect(p, r, limit, stop_after):
    """Output of the engine; stops it some time after the first violation, as one confirmed violation settles the question."""
    bufs = {p.stdout.fileno(): b'', p.stderr.fileno(): b''}; first = None; end = time.time() + limit; scanned = 0
    sel = selectors.DefaultSelector()
    for f in (p.stdout, p.stderr): sel.register(f, selectors.EVENT_READ)
    while sel.get_map():
        now = time.time()
        if now > end: r.errors.append('engine timeout'); os.killpg(p.pid, 9); break
        if first is not None and stop_after is not None and now - first > stop_after: r.stopped = True; os.killpg(p.pid, 9); break
        for key, _ in sel.select(0.5):
            d = os.read(key.fd, 1 << 16)
            if not d: sel.unregister(key.fileobj); continue
            bufs[key.fd] += d
            if first is None and key.fileobj is p.stdout:
                o = bufs[key.fd]
                if o.find(b'"type":"violation"', max(0, scanned - 20)) >= 0: first = time.time()
                scanned = len(o)
    p.wait()
    out, err = bufs[p.stdout.fileno()], bufs[p.stderr.fileno()]
    if r.stopped: out = out[:out.rfind(b'\n') + 1]
    return out.decode(errors='replace'), err.decode(errors='replace')

def write_inputs(path, j):
    with open(path, 'w') as f:
        for k, v in j['params'].items(): f.write('p %s %d\n' % (k, v))
        for n, v in j['inputs']: f.write('i %s %d\n' % (n.replace(' ', '_') or '_', v))

def native_run(exe, j, timeout=60):
    """Returns dict(asserts=[...], obs=[[n,hex]...], memory=[...], crash=str|None, unsupported=bool)."""
    with tempfile.NamedTemporaryFile('w', suffix='.in', delete=False) as f: pass
    write_inputs(f.name, j)
    res = {'asserts': [], 'obs': [], 'memory': [], 'crash': None, 'unsupported': False, 'done': False}
    try:
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:handle_segv=1:abort_on_error=0')
        try: p = subprocess.run(build.command(exe, j) + [f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        except subprocess.TimeoutExpired: res['crash'] = 'timeout'; return res
        for l in p.stdout.decode(errors='replace').split('\n'):
            if l.startswith('ASSERT '): res['asserts'].append(l[7:])
            elif l.startswith('OBS '): q = l.split(' '); res['obs'].append([q[1], q[2] if len(q) > 2 else ''])
            elif l.startswith('MEMORY '): res['memory'].append(l[7:])
            elif l.startswith('UNSUPPORTED'): res['unsupported'] = True
            elif l.startswith('DONE'): res['done'] = True
        if p.returncode and not res['unsupported']:
            res['crash'] = 'exit %d: %s' % (p.returncode, ' '.join(p.stderr.decode(errors='replace').split('\n')[:3])[:400])
    finally: os.unlink(f.name)
    return res
