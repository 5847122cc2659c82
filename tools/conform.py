#!/usr/bin/env python3
"""Compare the verifier's reading of instructions and library methods with the JVM: every function of conformance/Conf.java
is executed symbolically once; for each pair of edge values its symbolic answer (value or exception class) is evaluated and
compared with what the real JDK and netty answer.  A testing aid for the trusted part; it decides no property."""
import os, sys, subprocess, tempfile, shutil, collections, random
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/fpv'); sys.setrecursionlimit(20000)
import z3, build, classfile
from engine import Engine
from models import *
from terms import *
d = tempfile.mkdtemp(prefix='fpv-conform')
try:
    cp = ':'.join(build.netty())
    subprocess.run([build.JDK + '/bin/javac', '-nowarn', '-proc:none', '-source', '8', '-target', '8', '-g', '-Xlint:-options', '-cp', cp, '-d', d] + [HERE + '/conformance/%s.java' % x for x in ('Conf', 'Run')], check=True)
    real = collections.defaultdict(list)
    for l in subprocess.run([build.JDK + '/bin/java', '-cp', d + ':' + cp, 'Run'], check=True, capture_output=True, text=True).stdout.split('\n'):
        if l:
            n, a, b, r = l.split(' ', 3); real[n].append((int(a), int(b), r))
    os.remove(d + '/Run.class')
    prog = classfile.Program(d); eng = Engine(prog, Models()); eng.init_all()
    bad = unk = ok = 0; unsup = []; rnd = random.Random(1)
    only = sys.argv[1:]
    def sup(c):
        r = [c]
        for x in STUBBED.get(c, ()): r.append(x)
        return r
    STUBBED = {}
    def evaluate(outs, sub, facts):
        """(answer, None) or (None, why)"""
        live = []
        for o in outs:
            cs = [z3.simplify(z3.substitute(bo(c), *sub)) if sub else z3.simplify(bo(c)) for c in o.st.pc]
            if any(z3.is_false(c) for c in cs): continue
            cs = [c for c in cs if not z3.is_true(c)]
            if cs:
                s = z3.Solver(); s.set('timeout', 3000); s.add(*cs); s.add(*[z3.substitute(bo(f), *sub) if sub else bo(f) for f in facts])
                if s.check() == z3.unsat: continue
            live.append((o, cs))
        if len(live) != 1: return None, '%d possible outcomes' % len(live)
        o, cs = live[0]
        if o.kind == 'exc': return '!' + o.val.replace('/', '.'), None
        v = o.val
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int): return str(v), None
        v = z3.simplify(z3.substitute(v, *sub) if sub else v)
        if z3.is_bool(v): return ('1' if z3.is_true(v) else '0'), None
        if not z3.is_bv_value(v):
            s = z3.Solver(); s.set('timeout', 3000); s.add(*cs); s.add(*[z3.substitute(bo(f), *sub) if sub else bo(f) for f in facts])
            if s.check() != z3.sat: return None, 'no model'
            w = s.model().eval(v, model_completion=True); s.add(v != w)
            if s.check() != z3.unsat: return None, 'value not determined: ' + str(v)[:80]
            v = w
        return str(v.as_signed_long()), None
    for n in sorted(real):
        if only and n not in only: continue
        m = next(x for x in prog.classes['Conf'].methods.values() if x.name == n)
        w = 64 if m.desc.startswith('(J') else 32
        A, B = z3.BitVec('a', w), z3.BitVec('b', w)
        def start():
            eng.facts[:] = []; eng.frames = []
            return eng.new_state()
        outs = None
        try: outs = eng.call(start(), m, [A, B]); why = ''
        except Exception as e: why = '%s %s' % (type(e).__name__, e)
        facts = list(eng.facts); kb = ku = 0; msg = ''
        rows = real[n]
        if outs is None: unsup.append(n); msg = 'symbolic run: ' + why
        sample = rows if outs is not None else rnd.sample(rows, 12)
        for a, b, r in sample:
            got = None
            if outs is not None: got, wy = evaluate(outs, [(A, z3.BitVecVal(a, w)), (B, z3.BitVecVal(b, w))], facts)
            if got is None:
                try:
                    cv = (lambda v: v) if w == 32 else (lambda v: z3.BitVecVal(v, 64))
                    o2 = eng.call(start(), m, [cv(a), cv(b)]); got, wy = evaluate(o2, [], list(eng.facts))
                except Exception as e: wy = '%s %s' % (type(e).__name__, e)
            if got is None: ku += 1; msg = msg or 'undetermined: ' + wy; continue
            same = got == r or r.startswith('!') and got.startswith('!') and (r[1:].rsplit('.', 1)[-1] == got[1:].rsplit('.', 1)[-1] or r.endswith('IndexOutOfBoundsException') and got.endswith('IndexOutOfBoundsException'))
            if same: ok += 1
            else:
                kb += 1
                if kb < 4: print('DIFFERS %s(%d, %d): JVM %s, verifier %s' % (n, a, b, r, got))
        bad += kb; unk += ku
        if msg: print('  %-12s %s (%d of %d undetermined)' % (n, msg[:150], ku, len(sample)))
    print('%d functions, %d answers agree, %d differ, %d undetermined' % (len(real), ok, bad, unk))
    sys.exit(1 if bad else 0)
finally: shutil.rmtree(d, ignore_errors=True); shutil.rmtree(d + '.stubs', ignore_errors=True)
