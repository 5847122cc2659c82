"""Check of one property:  check.py <property> [--thorough] [--replay FILE]   (VERIF_SEED, VERIF_TIER)

Compiles /repo's current sources, generates the proof obligations of the property from the compiled
code and the contracts, discharges them, runs the harness on the real code, writes the evidence."""
import sys, os, json, time, shutil, tempfile, subprocess, signal, traceback, hashlib, threading, random, multiprocessing
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import build
NPROC = int(os.environ.get('FPV_PROCS', '8'))
KNOWN = os.path.join(ROOT, 'known-findings.txt')
CONTRACTS = os.path.join(ROOT, 'contracts', 'messages.txt')
OUT = os.path.join(ROOT, 'out')

def known_findings():
    """lines 'known: property=<id> <key> <value> | <text>' (lines 'fixed: ...' suppress nothing)"""
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith('known: property='):
                head, text = l[len('known: property='):].rstrip('\n').split(' | ', 1)
                w = head.split(); r.append((w[0], w[1], w[2], text))
    return r

# ---------------------------------------------------------------- obligations in worker processes
G = {}
class Slow(Exception): pass
def _alarm(*a): raise Slow()
def work(i):
    import terms
    t = G['tasks'][i]; eng = G['eng']
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(t.get('timeout', 150) * (3 if G['tier'] == 'thorough' else 1))
    st = terms.STATS; st.queries = st.trivial = st.unknown = 0; st.time = 0.0
    eng.visited = set(); eng.used_contracts = set(); eng.trusted = set(); nl = 0
    if G['tier'] == 'thorough': terms.DUMP = []
    t0 = time.time(); obs = []; cx = []; err = None
    try:
        r = t['fn'](eng, *t['args'])
        obs = r.obs; cx = r.cex
        if not obs: obs = [(t['name'] + ': has obligations', 'undecided', 'no obligation was generated')]
    except Slow: obs = [(t['name'], 'undecided', 'time limit')]
    except RecursionError: obs = [(t['name'], 'undecided', 'recursion limit')]
    except Exception as x:
        import engine
        kind = 'outside the supported subset' if isinstance(x, (engine.Unsupported, engine.Diverges)) or type(x).__name__ in ('Mismatch', 'NotRead') else 'engine error'
        obs = [(t['name'], 'undecided', '%s: %s: %s' % (kind, type(x).__name__, str(x)[:400]))]; err = traceback.format_exc()
    signal.alarm(0)
    more = {}
    if t.get('lib'):      # contracts of the libraries: what is not discharged stays an assumption, it is no verdict on the program
        more = dict(lib=[o for o in obs if o[1] == 'proved'], libopen=[o for o in obs if o[1] != 'proved'], libfns=sorted(r.eng.visited) if 'r' in locals() else [])
        obs = []; cx = []; err = None
    dump = terms.DUMP or []; terms.DUMP = None
    if len(dump) > 40: dump = random.Random(G['seed'] * 1000 + i).sample(dump, 40)
    return i, dict(obs=obs, cex=cx, err=err, wall=time.time() - t0, queries=st.queries, trivial=st.trivial, unknown=st.unknown, solver=st.time,
                   visited=sorted(eng.visited), contracts=sorted(eng.used_contracts), trusted=sorted(eng.trusted), loops=len(eng.loops_info), dump=dump, **more)
def discharge(tasks):
    """run every task in a forked worker; a worker that dies leaves its task undecided"""
    res = {}; ctx = multiprocessing.get_context('fork')
    from concurrent.futures import ProcessPoolExecutor, as_completed
    todo = sorted(range(len(tasks)), key=lambda i: -tasks[i].get('weight', 1))
    for attempt in range(2):
        if not todo: break
        with ProcessPoolExecutor(NPROC, mp_context=ctx) as ex:
            fs = {ex.submit(work, i): i for i in todo}
            for f in as_completed(fs):
                try: i, r = f.result(); res[i] = r
                except Exception as x: pass
        todo = [i for i in todo if i not in res]
    for i in todo: res[i] = dict(obs=[(tasks[i]['name'], 'undecided', 'the worker process died')], cex=[], err=None, wall=0, queries=0, trivial=0, unknown=0, solver=0, visited=[], contracts=[], trusted=[], loops=0, dump=[])
    return res

# ---------------------------------------------------------------- the harness
class Harness:
    def __init__(h, scratch, classes):
        h.dir = os.path.join(scratch, 'hc'); os.makedirs(h.dir, exist_ok=True); h.n = 0; h.scratch = scratch
        h.cp = ':'.join(build.netty() + [classes])
        p = subprocess.run([build.JDK + '/bin/javac', '-nowarn', '-proc:none', '-encoding', 'UTF-8', '-cp', h.cp, '-d', h.dir, os.path.join(ROOT, 'harness', 'H.java')], capture_output=True, text=True)
        h.err = None if p.returncode == 0 else p.stdout + p.stderr
    def run(h, pid, units, secs, seed, dic, shards):
        """-> (failures [(unit, seed, detail)], known keys, cases)"""
        if h.err: raise RuntimeError('harness does not compile:\n' + h.err[:3000])
        h.n += 1; d = os.path.join(h.scratch, 'dict%d' % h.n); open(d, 'w').write('\n'.join(dic) + '\n')
        if units and len(units) > 1:
            u = list(units); random.Random(seed).shuffle(u); k = min(shards, len(u)); parts = [u[i::k] for i in range(k)]
        else: parts = [list(units or [])] * shards
        ps = []
        for i, part in enumerate(parts):
            of = open(os.path.join(h.scratch, 'h%d_%d.out' % (h.n, i)), 'w+')
            ps.append((subprocess.Popen([build.JDK + '/bin/java', '-Dio.netty.leakDetectionLevel=disabled', '-Xmx1500m', '-Xss4m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-cp', h.cp + ':' + h.dir, 'H', CONTRACTS, pid, str(seed * 101 + i), str(secs), d] + part,
                                        stdout=of, stderr=subprocess.STDOUT), of))
        fails = []; known = set(); cases = 0
        for p, of in ps:
            try: p.wait(secs + 120)
            except subprocess.TimeoutExpired: p.kill(); p.wait()
            of.seek(0); txt = of.read(); of.close(); cur = None; done = False
            for l in txt.split('\n'):
                if l.startswith('FAIL '):
                    u, s = l[5:].rsplit(' seed=', 1); cur = [u, int(s), []]
                elif l == 'END' and cur: fails.append((cur[0], cur[1], '\n'.join(cur[2]), dic)); cur = None
                elif cur is not None: cur[2].append(l[4:] if l.startswith('  | ') else l)
                elif l.startswith('KNOWN '): known.add(l[6:])
                elif l.startswith('CASES '): cases += int(l[6:]); done = True
            if not done and not fails: raise RuntimeError('harness ended abnormally (status %s): %s' % (p.returncode, txt[-1500:]))
        return fails, known, cases

def mine(prog, classes, limit=400):
    """constants in the code of the classes -> dictionary lines"""
    nums = set(); strs = set()
    for c in classes:
        c = prog.classes.get(c)
        if c is None: continue
        for f in c.fields.values():
            if f.const is not None: const(f.const, nums, strs)
        for m in c.methods.values():
            for ins in m.code or ():
                if ins.op in ('bipush', 'sipush'): nums.add(ins.a)
                elif ins.op == 'ldc': const(ins.a, nums, strs)
                elif ins.op == 'switch': nums.update(k for k, _ in ins.a[1])
                elif ins.op.startswith('iconst'): nums.add(-1 if ins.op == 'iconst_m1' else int(ins.op[7:]))
    r = ['n %d' % x for x in sorted(nums, key=lambda v: (abs(v), v))[:limit]]
    return r + ['s ' + s.encode('utf-16-be', 'surrogatepass').hex() for s in sorted(strs)[:limit] if 0 < len(s) < 200]
def const(a, nums, strs):
    k, v = a
    if k in ('int', 'long'): nums.add(v if v < 1 << 63 else v - (1 << 64))
    elif k == 'string': strs.add(v)

def load_props():
    return {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl')) if l.strip()}

def main():
    pid = sys.argv[1]; t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1'))
    if tier not in ('quick', 'thorough'): tier = 'quick'
    if '--thorough' in sys.argv: tier = 'thorough'
    if len(sys.argv) > 3 and sys.argv[2] == '--replay': return replay(pid, sys.argv[3])
    scratch = tempfile.mkdtemp(prefix='fpv-%s-' % pid)
    try: return check(pid, tier, seed, scratch, t0)
    finally: shutil.rmtree(scratch, ignore_errors=True)

def replay(pid, path):
    """run the recorded case again on the current tree"""
    scratch = tempfile.mkdtemp(prefix='fpv-replay-')
    try:
        d = json.loads(open(path).readline())
        if 'seed' not in d: print(open(path).read()); print('no failing input is recorded'); return 1
        cls = os.path.join(scratch, 'cls'); build.compile_repo(cls); h = Harness(scratch, cls)
        open(os.path.join(scratch, 'd'), 'w').write('\n'.join(d['dict']) + '\n')
        p = subprocess.run([build.JDK + '/bin/java', '-Dio.netty.leakDetectionLevel=disabled', '-Xmx1500m', '-Xss4m', '-cp', h.cp + ':' + h.dir, 'H', CONTRACTS, pid, str(d['seed']), '-', os.path.join(scratch, 'd'), d['unit']], capture_output=True, text=True)
        print(p.stdout, end=''); return 1 if 'FAIL ' in p.stdout else 0
    finally: shutil.rmtree(scratch, ignore_errors=True)

def write_replay(pid, tag, head, text):
    os.makedirs(OUT, exist_ok=True)
    f = os.path.join(OUT, '%s-%s.txt' % (pid, tag))
    open(f, 'w').write(json.dumps(head) + '\n' + text + '\n')
    return f

def check(pid, tier, seed, scratch, t0):
    props_ = load_props(); info = props_[pid]
    cls = os.path.join(scratch, 'cls'); build.compile_repo(cls)
    import classfile, engine, models, spec, table, terms, lib
    prog = classfile.Program(cls)
    har = {}
    def start_harness():
        try: har['h'] = Harness(scratch, cls)
        except BaseException as x: har['error'] = x
    th = threading.Thread(target=start_harness); th.start()
    init_err = None
    try:
        eng = engine.Engine(prog, models.Models()); eng.init_all()
    except Exception as x: init_err = '%s: %s' % (type(x).__name__, x)
    th.join()
    G.update(tier=tier, seed=seed)
    tasks = table.tasks(pid, eng, tier) + lib.tasks(pid, tier) if init_err is None else []
    base = table.baseline(prog)
    changed = table.changed(prog, base)
    known = known_findings()
    kd = ['k %s %s' % (k, v) for p, k, v, _ in known if p == pid]
    dic = mine(prog, sorted(changed)[:60]) + kd
    # the harness in the background, the proofs in front
    units = table.units(pid)
    hres = {}
    def bg():
        try:
            # first the classes that differ from the pinned baseline and what depends on them
            near = [u for u in units if u in table.near(prog, changed, units)] if units else None
            secs = table.seconds(pid, tier)
            fs, kn, n = har['h'].run(pid, units, secs, seed, dic, 3)
            if not fs and near:
                f2, k2, n2 = har['h'].run(pid, near, secs if len(near) > 8 else max(6, secs // 2), seed + 7, dic + ['f'], 3); fs += f2; kn |= k2; n += n2
            hres['r'] = (fs, kn, n)
        except BaseException as x: hres['error'] = x
    if 'h' not in har: raise har['error']
    G.update(tasks=tasks, eng=eng if init_err is None else None)
    # fork the workers before the harness thread runs
    res = {}
    tb = threading.Thread(target=bg)
    if tasks:
        from concurrent.futures import ThreadPoolExecutor
        tb.start(); res = discharge(tasks); tb.join()
    else: tb.start(); tb.join()
    if 'error' in hres: raise hres['error']
    fails, kn, cases = hres['r']
    obs = [(n, s, w, i) for i in sorted(res) for n, s, w in res[i]['obs']]
    if init_err: obs.append(('static initialisers', 'undecided', init_err, -1))
    bad = [o for o in obs if o[1] != 'proved']
    # deductive result with known findings: obligations named in the known-findings file
    kf = {}
    for p, k, v, text in known:
        if p == pid: kf[k] = text
    kfhit = {}; refuted = []
    for o in list(bad):
        if o[2].startswith('KNOWN '):
            key = o[2].split()[1]
            if key in kf: kfhit[key] = kf[key]; bad.remove(o); obs.remove(o); refuted.append(o[0])
    for k in kn:
        if k in kf: kfhit[k] = kf[k]
    # a failed obligation: look for a failing input with the verifier's counterexample as a starting point
    focused = 0
    if bad and not fails:
        us = set(); groups = []; seen = set()
        for n, s, w, i in bad:
            if i < 0: us |= set(units or []); continue
            us |= set(tasks[i].get('units') or [])
            for m, g in res[i]['cex']:
                if (m, tuple(g)) not in seen and len(groups) < 40: seen.add((m, tuple(g))); groups.append((m, g))
        vis = {v.split('.')[0] if '/' in v.split('.')[0] else v for n, s, w, i in bad if i >= 0 for v in res[i]['visited']}
        owners = {x for x in (table.owner(v) for n, s, w, i in bad if i >= 0 for v in res[i]['visited']) if x}
        d2 = mine(prog, sorted(owners | changed)[:80], 200) + kd + ['f']
        for m, g in groups:
            d2.append('A ' + m); d2 += [l for l in g if l.startswith('a ')]
            d2 += [l for l in g if l.startswith('n ')][:12]
        us = sorted(us) if us else (list(units) if units else None)
        secs = (30 if tier == 'quick' else 120) + (15 if us and len(us) > 20 else 0)
        fs, k2, n2 = har['h'].run(pid, us, secs, seed + 31, d2, 8); fails += fs; focused += n2; cases += n2
        if not fs and tier == 'quick':
            fs, k2, n2 = har['h'].run(pid, us, 20, seed + 77, d2[:len(d2) // 2] + ['f'] + kd, 8); fails += fs; focused += n2; cases += n2
    # ---- report
    viol = 0; proved = sum(1 for o in obs if o[1] == 'proved'); lines = []
    obtext = '\n'.join('%s: %s%s' % (s.upper(), n, ' -- ' + w if w else '') for n, s, w, i in bad[:60])
    errtext = '\n'.join(sorted({res[i]['err'] for n, s, w, i in bad if i >= 0 and res[i].get('err')})[:3])
    if fails:
        seen = set()
        for u, s, det, dc in fails:
            if u in seen or len(seen) >= 8: continue
            seen.add(u); tag = hashlib.sha1(('%s %s' % (u, s)).encode()).hexdigest()[:10]
            f = write_replay(pid, tag, {'property': pid, 'unit': u, 'seed': s, 'dict': dc}, 'replay: python3-vt fpv/check.py %s --replay %s\n\nfailing input (seed %s, %s):\n%s\n\nobligations not discharged:\n%s\n' % (pid, os.path.relpath(os.path.join(OUT, '%s-%s.txt' % (pid, tag)), ROOT), s, u, det[:20000], obtext))
            lines.append('VIOLATION property=%s replay=%s' % (pid, f)); viol += 1
    elif bad:
        f = write_replay(pid, 'obligations', {'property': pid, 'obligations': [o[0] for o in bad[:60]]}, 'failed or undecided obligations, no failing input found in %d cases:\n%s\n\n%s' % (cases, obtext, errtext))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, f)); viol = 1
    cross = None
    if tier == 'thorough' and not bad: cross = crosscheck(res, scratch)
    ev = evidence(pid, info, tier, seed, t0, tasks, res, obs, cases, focused, viol, kfhit, cross, table, fails)
    if refuted: ev['coverage']['refuted_obligations_listed_as_known_findings'] = refuted
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d tasks, %d solver queries (%.1f s), %d harness cases, %.1f s' % (pid, len(obs), proved, len(tasks), sum(r['queries'] for r in res.values()), sum(r['solver'] for r in res.values()), cases, time.time() - t0))
    for n, s, w, i in bad[:12]: print('  %s: %s%s' % (s, n, ' -- ' + w[:300] if w else ''))
    for k, text in sorted(kfhit.items()): print('KNOWN-FINDING: property=%s %s' % (pid, text))
    if cross and cross['disagreed']:
        print('cvc5 disagrees on %d queries' % cross['disagreed']); return 2
    for l in lines: print(l)
    return 1 if viol else 0

def crosscheck(res, scratch):
    """a sample of the discharged queries again with cvc5"""
    qs = [q for i in sorted(res) for q in res[i].pop('dump', [])]
    random.Random(G['seed']).shuffle(qs); qs = qs[:1500]
    from concurrent.futures import ThreadPoolExecutor
    def one(iq):
        i, q = iq; f = os.path.join(scratch, 'q%d.smt2' % i); open(f, 'w').write('(set-logic ALL)\n' + q)
        try: p = subprocess.run(['cvc5', '--tlimit=15000', f], capture_output=True, text=True, timeout=30); r = p.stdout.strip().split('\n')[0]
        except subprocess.TimeoutExpired: r = 'unknown'
        os.remove(f); return r
    with ThreadPoolExecutor(NPROC) as ex: rs = list(ex.map(one, enumerate(qs)))
    return dict(queries=len(rs), agreed=rs.count('unsat'), disagreed=rs.count('sat'), undecided=len(rs) - rs.count('unsat') - rs.count('sat'))

def evidence(pid, info, tier, seed, t0, tasks, res, obs, cases, focused, viol, kfhit, cross, table, fails):
    vis = sorted({v for r in res.values() for v in r['visited']}); con = sorted({v for r in res.values() for v in r['contracts']}); tr = sorted({v for r in res.values() for v in r['trusted']})
    und = [o for o in obs if o[1] == 'undecided']
    cov = dict(obligations=len(obs), discharged=sum(1 for o in obs if o[1] == 'proved'), checker_cmd='python3-vt fpv/check.py ' + pid, trusted_base=table.TRUSTED + ['model of ' + x for x in tr],
               functions_under_contract=len(vis), functions=vis[:2000], contracts_used_at_call_sites=con, loops_discharged_by_invariant=sum(r['loops'] for r in res.values()),
               backend='z3 (python bindings %s)' % __import__('z3').get_version_string(), solver_queries=sum(r['queries'] for r in res.values()), discharged_by_simplification=sum(r['trivial'] for r in res.values()),
               solver_unknown=sum(r['unknown'] for r in res.values()), solver_s=round(sum(r['solver'] for r in res.values()), 2), undecided=len(und),
               evaluations=cases, rule=table.RULE, samples=[o[0] for o in obs[:3]] + [o[0] for o in obs[-2:]] if obs else ['none'],
               slowest=[(round(res[i]['wall'], 1), tasks[i]['name']) for i in sorted(res, key=lambda i: -res[i]['wall'])[:5]],
               not_discharged=[(o[0], o[1], o[2][:200]) for o in obs if o[1] != 'proved'][:50], known_findings=sorted(kfhit), scope=table.SCOPE.get(pid, ''))
    libs = [r for r in res.values() if 'lib' in r]
    if libs:
        done = [o[0] for r in libs for o in r['lib']]; seen = {n.split('(')[0].split(' ')[0].split(':')[0] for n in done}
        short = lambda x: x.replace('io.netty.buffer.', '') if x.startswith('io.netty.buffer.') else x
        cov['library_contracts'] = dict(note="contracts of netty's unpooled heap buffers (plain and Unsafe) and their slices and of small JDK methods, discharged in this run from the libraries' own class files; other kinds of buffers stay assumed; not counted among the obligations",
            discharged=len(done), samples=done[:2] + done[-2:], functions=sorted({f for r in libs for f in r['libfns']}), left_assumed=[o[0] for r in libs for o in r['libopen']])
        cov['trusted_base'] = [x + (' (contract proved for unpooled heap buffers in this run, assumed for other buffers)' if x.startswith('model of io.netty.buffer') and short(x[9:]) in seen else ' (agrees with the real method in this run)' if x.startswith('model of ') and x[9:] in seen else '') for x in cov['trusted_base']]
    if cross: cov['cvc5_crosscheck'] = cross
    return dict(property=pid, tier=tier, seed=seed, level='proof', coverage=cov, assumptions=table.ASSUME + table.ASSUME_BY.get(pid, []), wall_s=round(time.time() - t0, 2), violations=viol)

if __name__ == '__main__':
    try: rc = main()
    except SystemExit as x:
        if isinstance(x.code, str): print(x.code); rc = 3
        else: rc = x.code
    except BaseException:
        traceback.print_exc(); rc = 3
    sys.stdout.flush(); sys.exit(rc)
