"""Mutation campaign against the verifier alone (no harness): mutate.py COUNT [SEED] [class substring]
Changes one instruction of one method in the compiled classes, runs the proof tasks that concern it, and prints the
mutants that every obligation survives. A survivor is an equivalent mutant or a hole: read it."""
import sys, os, random, time, json, signal, multiprocessing as mp
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(ROOT, 'fpv')); sys.setrecursionlimit(20000)
import build, classfile, props, props2, table
from classfile import Insn, parse_desc
from engine import Engine
from models import Models
W = '/tmp/fpv-mutate'; CLS = os.path.join(W, 'cls')
NEG = {'ifeq': 'ifne', 'iflt': 'ifge', 'ifgt': 'ifle', 'if_icmpeq': 'if_icmpne', 'if_icmplt': 'if_icmpge', 'if_icmpgt': 'if_icmple', 'if_acmpeq': 'if_acmpne', 'ifnull': 'ifnonnull'}
NEG.update({v: k for k, v in NEG.items()})
NEAR = {'iflt': 'ifle', 'ifle': 'iflt', 'ifgt': 'ifge', 'ifge': 'ifgt', 'if_icmplt': 'if_icmple', 'if_icmple': 'if_icmplt', 'if_icmpgt': 'if_icmpge', 'if_icmpge': 'if_icmpgt'}
AR = {'iadd': 'isub', 'isub': 'iadd', 'iand': 'ior', 'ior': 'iand', 'ixor': 'ior', 'ishl': 'iushr', 'iushr': 'ishr', 'ishr': 'ishl', 'ladd': 'lsub', 'lsub': 'ladd', 'land': 'lor', 'lor': 'land', 'lxor': 'lor', 'lshl': 'lushr', 'lushr': 'lshr', 'lshr': 'lshl', 'imul': 'iadd', 'irem': 'idiv', 'lrem': 'ldiv'}
CONST = {'iconst_m1': -1, 'iconst_0': 0, 'iconst_1': 1, 'iconst_2': 2, 'iconst_3': 3, 'iconst_4': 4, 'iconst_5': 5}
CALLS = ('invokevirtual', 'invokeinterface', 'invokestatic', 'invokespecial')
size = lambda d: 2 if d in ('J', 'D') else 0 if d == 'V' else 1
POP = {0: [], 1: ['pop'], 2: ['pop2']}
def pops(desc, recv): 
    args, _ = parse_desc(desc); r = []
    for a in reversed(args): r += POP[size(a)]
    return r + (['pop'] if recv else [])
def default(d): return {'J': 'lconst_0', 'D': 'dconst_0', 'F': 'fconst_0'}.get(d, 'iconst_0' if len(d) == 1 else 'aconst_null')
def variants(prog, m):
    """(index, replacement [(op, a)...], text)"""
    c = m.cls
    for k, i in enumerate(m.code):
        R = lambda op, a, t: (k, [(op, a)], t)
        if i.op in NEG: yield R(NEG[i.op], i.a, 'negated')
        if i.op in NEAR: yield R(NEAR[i.op], i.a, 'boundary')
        if i.op in AR: yield R(AR[i.op], None, AR[i.op])
        v = CONST.get(i.op, i.a if i.op in ('bipush', 'sipush') else i.a[1] if i.op == 'ldc' and i.a[0] == 'int' else None)
        if v is not None:
            for w in {v + 1, v - 1, 0}:
                if w != v and -32768 <= w < 32768: yield R('sipush', w, 'constant %d' % w)
        if i.op == 'ldc' and i.a[0] == 'string': yield R('ldc', ('string', i.a[1] + 'x'), 'text'); yield R('ldc', ('string', ''), 'empty text')
        if i.op == 'ldc' and i.a[0] == 'long': yield R('ldc', ('long', i.a[1] ^ 1), 'constant')
        if i.op in ('lconst_0', 'lconst_1'): yield R('lconst_1' if i.op == 'lconst_0' else 'lconst_0', None, 'constant')
        if i.op == 'iinc': yield R('iinc', (i.a[0], i.a[1] + 1), 'step')
        if i.op in ('i2b', 'i2s', 'i2c'): yield R('i2b' if i.op != 'i2b' else 'i2s', None, 'narrowing')
        if i.op in ('getfield', 'putfield') and i.a[1] in c.cp.__class__.__name__ * 0 or i.op in ('getfield', 'putfield'):
            _, cn, fn, d = i.a[:4]
            oc = prog.classes.get(cn)
            if oc:
                for f in oc.fields.values():
                    if f.name != fn and f.desc == d and not f.static: yield R(i.op, (i.a[0], cn, f.name, d) + i.a[4:], i.op + ' ' + f.name); break
            if i.op == 'putfield': yield (k, [(p, None) for p in POP[size(d)] + ['pop']], 'store of %s dropped' % fn)
        if i.op in CALLS and i.a[2] != '<init>':
            _, cn, nm, d = i.a[:4]; recv = i.op != 'invokestatic'; ret = parse_desc(d)[1]
            yield (k, [(p, None) for p in pops(d, recv)] + ([(default(ret), None)] if ret != 'V' and ret[0] not in '[' else [('aconst_null', None)] if ret != 'V' else []), 'call of %s dropped' % nm)
            if cn == 'io/netty/buffer/ByteBuf':
                if nm.endswith('LE'): yield R(i.op, i.a[:2] + (nm[:-2],) + i.a[3:], 'byte order')
                elif nm in ('writeShort', 'writeInt', 'writeLong', 'readShort', 'readInt', 'readLong', 'writeFloat', 'readDouble'): yield R(i.op, i.a[:2] + (nm + 'LE',) + i.a[3:], 'byte order')
                sw = {'readByte': 'readUnsignedByte', 'readShort': 'readUnsignedShort', 'readShortLE': 'readUnsignedShortLE', 'writeInt': 'writeShort', 'writerIndex': 'readerIndex', 'readerIndex': 'writerIndex', 'readableBytes': 'writerIndex'}.get(nm)
                if sw and not (parse_desc(d)[0] and nm in ('writerIndex', 'readerIndex')): yield R(i.op, i.a[:2] + (sw,) + i.a[3:], sw)
            if nm.startswith('get') and not parse_desc(d)[0] and cn in prog.classes:
                for (n2, d2) in prog.classes[cn].methods:
                    if n2.startswith('get') and n2 != nm and d2 == d: yield R(i.op, i.a[:2] + (n2,) + i.a[3:], n2); break
        if i.op in ('ireturn',) and m.desc.endswith(')Z'): yield (k, [('iconst_1', None), ('ixor', None), ('ireturn', None)], 'result negated')
        if i.op in ('iload', 'aload', 'lload') and k + 1 < len(m.code):
            pass
def apply(m, k, rep):
    n = len(rep) - 1; mp_ = lambda t: t + n if t > k else t
    old = m.code; code = []
    for j, i in enumerate(old):
        if j == k: code += [Insn(op, a, i.pc) for op, a in rep]
        else: code.append(Insn(i.op, i.a, i.pc))
        if j != k: code[-1].line = i.line
    if not rep: raise ValueError
    for i in code:
        if (i.op.startswith('if') or i.op == 'goto'): i.a = mp_(i.a)
        elif i.op == 'switch': i.a = (mp_(i.a[0]), [(v, mp_(t)) for v, t in i.a[1]])
    for q, i in enumerate(code): i.idx = q
    m.exc = [(mp_(s), mp_(e), mp_(h), t) for s, e, h, t in m.exc]
    m.code = code
class Tmo(BaseException): pass
PIDS = ['C%02d' % i for i in range(1, 18)]
def concerned(prog, m):
    c = m.cls.name.split('$')[0]; r = []
    from spec import MSGS
    inner = [x for x in MSGS.values() if x.cls.split('$')[0] == c]
    return {x.name for x in inner}
def run(job):
    n, cname, key, k, rep, text = job; t0 = time.time()
    prog = classfile.Program(CLS); m = prog.classes[cname].methods[key]; line = m.code[k].line; old = repr(m.code[k])
    apply(m, k, rep); what = '%s:%d %s -> %s' % (m.id.split('(')[0], line, old, text)
    def alarm(*a): raise Tmo()
    signal.signal(signal.SIGALRM, alarm)
    try:
        signal.alarm(60); eng = Engine(prog, Models()); eng.init_all(); signal.alarm(0)
    except BaseException as x: return what, 'init %s' % type(x).__name__, 0, time.time() - t0
    units = concerned(prog, m); total = 0; und = None
    base = {'BasicPacket', 'RootPacket', 'SseBinary', 'SzseBinary', 'RcBinary', 'Logon'}
    for pid in PIDS:
        try: ts = table.tasks(pid, eng, 'quick')
        except Exception as x: return what, pid + ' tasks ' + type(x).__name__, 0, time.time() - t0
        for t in ts:
            us = set(t['units'] or ())
            msgtask = t['fn'].__name__ in ('roundtrip', 'c02_encode', 'c02_decode', 'c03_encode', 'c04', 'c05_causal', 'c06', 'c10', 'c11', 'c15', 'c16', 'c17')
            if msgtask and us and not us & units and (units or not any(u.split('.')[-1] in base for u in us)): continue
            try:
                signal.alarm(120); obs = t['fn'](eng, *t['args']).obs
            except Tmo: und = und or '%s %s timeout' % (pid, t['name']); continue
            except Exception as x: und = und or '%s %s %s' % (pid, t['name'], (type(x).__name__ + ' ' + str(x))[:80]); continue
            finally: signal.alarm(0)
            total += len(obs)
            for o in obs:
                if o[1] != 'proved' and not str(o[2]).startswith('KNOWN'): return what, '%s %s' % (pid, o[0]), total, time.time() - t0
    return what, ('UNDECIDED ' + und if und else None), total, time.time() - t0
def main():
    import shutil
    n = int(sys.argv[1]); seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1; flt = sys.argv[3] if len(sys.argv) > 3 else ''
    if not os.path.isdir(CLS): build.compile_repo(CLS)
    prog = classfile.Program(CLS); rnd = random.Random(seed); jobs = []
    cl = [c for c in sorted(prog.classes) if flt in c]
    groups = {}
    for c in cl: groups.setdefault('codec' if '/codec/' in c or '/bitmap/' in c else 'messages', []).append(c)
    while len(jobs) < n:
        g = rnd.choice(sorted(groups)); c = prog.classes[rnd.choice(groups[g])]
        ms = [k for k in sorted(c.methods) if c.methods[k].code and k[0] not in ('values', 'valueOf', '$values', 'toString') or k[0] == 'toString' and rnd.random() < .3]
        ms = [k for k in ms if c.methods[k].code and k[0] != 'hashCode']
        if not ms: continue
        big = [k for k in ms if len(c.methods[k].code) > 12]
        key = rnd.choice(big if big and rnd.random() < .8 else ms)
        vs = list(variants(prog, c.methods[key]))
        if not vs: continue
        k, rep, text = rnd.choice(vs)
        if not rep: rep = [('nop', None)]
        jobs.append((len(jobs), c.name, key, k, rep, text))
    killed = und = 0; t0 = time.time()
    with mp.Pool(int(os.environ.get('JOBS', '8')), maxtasksperchild=1) as pool:
        for what, r, tot, s in pool.imap_unordered(run, jobs):
            if r is None: print('SURVIVED', what, tot, '%.0fs' % s, flush=True)
            elif r.startswith('UNDECIDED'): und += 1; print('UNDECIDED', what, '|', r[10:], flush=True)
            else:
                killed += 1
                if '-v' in sys.argv: print('killed', what, '|', r, flush=True)
    print('mutants', len(jobs), 'killed', killed, 'undecided only', und, '%.0fs' % (time.time() - t0))
if __name__ == '__main__': main()
