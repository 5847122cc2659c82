"""Contracts of library methods, discharged from the library's own bytecode (the netty jars the program is built against, the JDK's classes).
The models in models.py state them for buffers in general; here they are proved for netty's unpooled heap buffer and for a slice of one:
the state is (readerIndex r, writerIndex w, capacity, memory), with 0 <= r <= w <= capacity <= maxCapacity, for all values of these."""
import zipfile, z3, os, subprocess
import build, classfile
from engine import *
from models import Models, RET
import models

NB = 'io/netty/buffer/'
HEAPS = dict(heap=NB + 'UnpooledHeapByteBuf', unsafe=NB + 'UnpooledUnsafeHeapByteBuf'); SLICE = NB + 'UnpooledSlicedByteBuf'
CLASSES = [NB + x for x in ('ByteBuf', 'AbstractByteBuf', 'AbstractReferenceCountedByteBuf', 'UnpooledHeapByteBuf', 'HeapByteBufUtil', 'AbstractDerivedByteBuf', 'AbstractUnpooledSlicedByteBuf',
                            'UnpooledSlicedByteBuf', 'ByteBufUtil', 'UnpooledUnsafeHeapByteBuf', 'UnsafeByteBufUtil', 'AbstractByteBufAllocator', 'UnpooledByteBufAllocator', 'ByteBufAllocator')] + \
          ['io/netty/util/internal/' + x for x in ('MathUtil', 'ObjectUtil', 'StringUtil')]
JDKCLASSES = ['java/util/Objects', 'java/lang/Math', 'java/lang/Integer', 'java/lang/Short', 'java/lang/Byte', 'java/lang/Long', 'java/lang/Float', 'java/lang/Double']
AR = z3.ArraySort(z3.BitVecSort(32), z3.BitVecSort(8))

def jar_classes(names):
    r = {}
    for j in build.netty():
        with zipfile.ZipFile(j) as z:
            have = set(z.namelist())
            for n in names:
                if n + '.class' in have: r[n] = classfile.parse(z.read(n + '.class'))
    return r
def jdk_classes(names):
    """from the image of the JDK that runs the program's tests and the harness"""
    with zipfile.ZipFile(build.JDK + '/jmods/java.base.jmod') as z: return {n: classfile.parse(z.read('classes/%s.class' % n)) for n in names}

class Lib(classfile.Program):
    def __init__(s, classes):
        s.classes = classes; s.stubs = {}; s.ext = {}; s.all = dict(classes); s.shadowed = set()
class LibModels(Models):
    def lookup(s, eng, st, o, n, d, a):
        if o == 'java/lang/String' and n == 'format': return lambda e, t, x: Str(fresh('message'))
        if isinstance(a[0] if a else None, Tok) and n == 'equals': return lambda e, t, x: 1 if x[0] == x[1] else 0
        if o == 'java/lang/System' and n == 'arraycopy': return copy
        if o == 'java/lang/Integer' and n == 'numberOfLeadingZeros':
            def nlz(e, t, x):
                v = b32(x[0]); r = b32(32)
                for i in range(32): r = z3.If(z3.Extract(i, i, v) == 1, b32(31 - i), r)
                return r
            return nlz
        return super().lookup(eng, st, o, n, d, a)
    def newString(s, eng, st, a):
        """new String(bytes, offset, length, charset) is an uninterpreted function of exactly these bytes"""
        outs = []
        if len(a) != 5 or not isinstance(a[4], Tok): raise Unsupported('new String')
        o = st.heap[a[1].id]; off, n = b32(a[2]), b32(a[3])
        if not eng.guard(st, And(off >= 0, n >= 0, off <= b32(o.ln), n <= b32(o.ln) - off), 'java/lang/StringIndexOutOfBoundsException', outs): return outs
        v = Str(decoded(mem(o), off, n, a[4])); st.heap[('decoded', a[0].id)] = (mem(o), off, n, a[4])
        st.stk = [v if x == a[0] and isinstance(x, Ref) else x for x in st.stk]
        st.loc = [v if isinstance(x, Ref) and x == a[0] else x for x in st.loc]
        return outs + RET(st)
    def put(s, eng, st, r, i, w):
        o = st.heap[r.id]
        st.heap[r.id] = arr(z3.Store(mem(o), b32(i), z3.Extract(7, 0, b32(w))), o.ln)
def decoded(m, off, n, cs): return uf('decoded ' + str(cs), AR, I32, I32, S)(m, off, n)
def mem(o):
    if o.src and o.src[0] == 'smt': return o.src[1]
    if o.src and o.src[0] == 'zero': return z3.K(z3.BitVecSort(32), z3.BitVecVal(0, 8))
    raise Unsupported('array without a memory term')
def arr(t, ln): return Arr('B', None, lambda i: z3.SignExt(24, z3.Select(t, b32(i))), ln, ('smt', t))
def copy(eng, st, a):
    src, so, dst, do, n = a; outs = []; x = st.heap[src.id]; y = st.heap[dst.id]
    so, do, n, xl, yl = map(b32, (so, do, n, x.ln, y.ln))
    ok = And(so >= 0, do >= 0, n >= 0, z3.BVSubNoUnderflow(xl, so, True), z3.BVSubNoUnderflow(yl, do, True), n <= xl - so, n <= yl - do)
    if not eng.guard(st, ok, 'java/lang/ArrayIndexOutOfBoundsException', outs): return outs
    k = z3.BitVec('k!copy', 32)
    st.heap[dst.id] = arr(z3.Lambda([k], z3.If(z3.And(k >= do, k < do + n), z3.Select(mem(x), so + (k - do)), z3.Select(mem(y), k))), y.ln)
    return outs + RET(st)

class L:
    """engine over the library's classes"""
    def __init__(s, kind='heap', unaligned=1, big=0):
        s.kind = kind; s.HEAP = HEAPS[kind]; s.tag = '' if kind == 'heap' else ' (Unsafe access%s%s)' % ('' if unaligned else ' byte by byte', ' on a big-endian machine' if big else '')
        cl = jar_classes(CLASSES); s.prog = Lib(cl); s.obs = []
        s.missing = [c for c in CLASSES if c not in cl]
        e = s.eng = Engine(s.prog, LibModels()); e.init_contracts = {}
        for c in cl.values():
            e.inited.add(c.name)
            for f in c.fields.values():
                if f.static: e.base.heap[('static', c.name, f.name)] = default_of(f.desc) if f.const is None else (b64(f.const[1]) if f.const[0] == 'long' else s32(f.const[1]) if f.const[0] == 'int' else NULL)
        A = NB + 'AbstractByteBuf'
        for f in ('checkBounds', 'checkAccessible'): e.base.heap[('static', A, f)] = 1      # netty's defaults
        one = lambda eng, st, a: [Out('ret', st, 1, None, None)]
        e.contracts = {(NB + 'AbstractReferenceCountedByteBuf', 'isAccessible', '()Z'): one}   # the buffer has not been released
        # sun.misc.Unsafe, behind PlatformDependent: numbers in the machine's byte order at an array index
        e.base.heap[('static', NB + 'UnsafeByteBufUtil', 'UNALIGNED')] = unaligned
        PD = 'io/netty/util/internal/PlatformDependent'
        pd = cl[PD] if PD in cl else None
        if pd is None: pd = cl[PD] = jar_classes([PD])[PD]; e.inited.add(PD); s.prog.all[PD] = pd
        for f in pd.fields.values():
            if f.static: e.base.heap[('static', PD, f.name)] = 1 if f.name == 'BIG_ENDIAN_NATIVE_ORDER' and big else default_of(f.desc)
        def get(n):
            def f(eng, st, a):
                o = st.heap[a[0].id]; t = number(mem(o), b32(a[1]), n, not big); s.inside(eng, st, o, a[1], n)
                return [Out('ret', st, z3.SignExt(32 - t.size(), t) if t.size() < 32 else t, None, None)]
            return f
        def put(n):
            def f(eng, st, a):
                o = st.heap[a[0].id]; m = mem(o); i = b32(a[1]); v = b64(a[2]) if n == 8 else b32(a[2]); s.inside(eng, st, o, a[1], n)
                for k in range(n):
                    j = k if not big else n - 1 - k
                    m = z3.Store(m, simp(i + k), z3.Extract(8 * j + 7, 8 * j, v))
                st.heap[a[0].id] = arr(m, o.ln); return RET(st)
            return f
        for t_, d, n in (('Byte', 'B', 1), ('Short', 'S', 2), ('Int', 'I', 4), ('Long', 'J', 8)):
            e.contracts[(PD, 'get' + t_, '([BI)' + d)] = get(n); e.contracts[(PD, 'put' + t_, '([BI%s)V' % d)] = put(n)
        e.contracts[(PD, 'allocateUninitializedArray', '(I)[B')] = lambda eng, st, a: [Out('ret', st, eng.alloc(st, arr(fresh('garbage', AR), a[0])), None, None)]
        al = e.alloc(e.base, Obj(NB + 'UnpooledByteBufAllocator', {}, None))
        e.contracts[(HEAPS['heap'], 'alloc', '()L%sByteBufAllocator;' % NB)] = lambda eng, st, a: [Out('ret', st, al, None, None)]
    def fresh_run(s):
        e = s.eng; e.facts = []; e.notes = []; e.callstack = []; e.frames = []; e.depth = 0; e.loops_info = []
        set_schema([]); return e.new_state()
    def heap(s, st, p=''):
        """an arbitrary live heap buffer"""
        e = s.eng; o = e.new_object(st, s.HEAP); ob = st.heap[o.id]
        b = z3.BitVecs('r%s w%s cap%s max%s' % (p, p, p, p), 32); b.append(z3.Const('mem' + p, AR))
        r, w, cap, mx, m = b
        e.facts += [r >= 0, r <= w, w <= cap, cap <= mx]
        f = dict(ob.fields); f.update(readerIndex=r, writerIndex=w, maxCapacity=mx, array=e.alloc(st, arr(m, cap)))
        st.heap[o.id] = Obj(s.HEAP, f, None)
        return o, b
    def run(s, st, recv, cls, name, desc, args):
        m = s.prog.find(cls, name, desc)
        if m is None: raise Unsupported('no method %s.%s%s' % (cls, name, desc))
        outs = s.eng.call(st, m, ([recv] if not m.static else []) + list(args))
        return [o for o in outs if s.eng.feasible(o.st)]
    def state(s, st, o):
        ob = st.heap[o.id].fields; a = st.heap[ob['array'].id]
        return ob['readerIndex'], ob['writerIndex'], a.ln, mem(a)
    def inside(s, eng, st, o, i, n):
        """obligation: Unsafe is used inside the array only"""
        i, c = b32(i), b32(o.ln); s.ok('Unsafe access stays inside the array', st, z3.And(i >= 0, i <= c - n, c >= n))
    def ok(s, name, st, goal):
        name += s.tag
        goal = bo(goal); r = s.eng.prove(st, goal)
        s.obs.append((name, 'proved' if r else 'failed', '' if r else str(z3.simplify(goal))[:300]))

IOB = 'java/lang/IndexOutOfBoundsException'
WIDTH = {'Byte': 1, 'Short': 2, 'Int': 4, 'Long': 8, 'Float': 4, 'Double': 8}
RET_D = {'Byte': 'B', 'Short': 'S', 'Int': 'I', 'Long': 'J', 'Float': 'F', 'Double': 'D'}
def number(m, at, n, le):
    bs = [z3.Select(m, b32(at) + i) for i in range(n)]
    if le: bs = bs[::-1]
    return z3.Concat(*bs) if n > 1 else bs[0]
def widen(t, res):
    n = 64 if is64(res) else 32
    return z3.SignExt(n - t.size(), t) if t.size() < n else t
def kinds(ty): return ('', 'LE') if ty != 'Byte' else ('',)

def same_state(l, st, o, b):
    r, w, c, m = l.state(st, o)
    return And(eq(r, b[0]), eq(w, b[1]), eq(c, b[2]), m == b[4] if m is not b[4] else True)
def reads(l):
    for ty, n in WIDTH.items():
        for e in kinds(ty):
            nm = 'read%s%s' % (ty, e); st = l.fresh_run(); o, b = l.heap(st); r, w, cap, mx, m = b
            outs = l.run(st, o, l.HEAP, nm, '()' + RET_D[ty], [])
            P = 'ByteBuf.%s ' % nm
            for x in outs:
                if x.kind == 'exc':
                    l.ok(P + 'fails only with an IndexOutOfBoundsException and only when fewer than %d bytes are readable' % n, x.st, And(l.eng.is_exc(x.val, IOB), w - r < n))
                    l.ok(P + 'leaves the buffer alone when it fails', x.st, same_state(l, x.st, o, b))
                else:
                    r2, w2, c2, m2 = l.state(x.st, o)
                    l.ok(P + 'succeeds only when %d bytes are readable' % n, x.st, w - r >= n)
                    l.ok(P + 'answers the number in the next %d bytes' % n, x.st, eq(x.val, widen(number(m, r, n, e == 'LE'), x.val)))
                    l.ok(P + 'advances the reader index and changes nothing else', x.st, And(eq(r2, r + n), eq(w2, w), eq(c2, cap), m2 == m))
def cases(l, at, w, cap, mx, n):
    """the runs of a write: with room, with room after growing, without room (together: all)"""
    if at: return [('', [])]
    return [('', [cap - w >= n]), (' (the buffer grows)', [cap - w < n, mx - w >= n]), (' (no room)', [mx - w < n])]
def writes(l, types=None):
    for ty, n in WIDTH.items():
        if types and ty not in types: continue
        for e in kinds(ty):
            for op in ('write', 'set'):
                if ty in ('Float', 'Double') and op == 'set': continue
                at = op == 'set'; vd = {'Long': 'J', 'Float': 'F', 'Double': 'D'}.get(ty, 'I')
                nm = op + ty + e
                for case in range(1 if at else 3):
                    st = l.fresh_run(); o, b = l.heap(st); r, w, cap, mx, m = b
                    v = z3.BitVec('v', 64 if vd in 'JD' else 32); i = z3.BitVec('i', 32)
                    suffix, hyp = cases(l, at, w, cap, mx, n)[case]; l.eng.facts += hyp
                    outs = l.run(st, o, l.HEAP, nm, '(%s%s)L%sByteBuf;' % ('I' if at else '', vd, NB), ([i] if at else []) + [v])
                    P = 'ByteBuf.%s%s ' % (nm, suffix)
                    for x in outs:
                        if x.kind == 'exc':
                            room = Or(i < 0, i > cap - n) if at else z3.Or(mx - w < n)
                            l.ok(P + ('fails only outside the capacity' if at else 'fails only when the maximum capacity is exhausted'), x.st, And(l.eng.is_exc(x.val, IOB), room))
                            if at:      # the heap buffer may have written a part of the number into its last bytes
                                r2, w2, c2, m2 = l.state(x.st, o); j = z3.BitVec('j', 32)
                                l.ok(P + 'keeps the positions and every byte before the index when it fails', x.st, And(eq(r2, r), eq(w2, w), z3.Implies(z3.And(j >= 0, j < i), z3.Select(m2, j) == z3.Select(m, j))))
                            else: l.ok(P + 'leaves the buffer alone when it fails', x.st, same_state(l, x.st, o, b))
                        else:
                            r2, w2, c2, m2 = l.state(x.st, o); j = z3.BitVec('j', 32); p = i if at else w
                            l.ok(P + 'answers the buffer', x.st, bool(x.val == o or same(x.val, o)))
                            if at: l.ok(P + 'succeeds only inside the capacity', x.st, And(i >= 0, i <= cap - n))
                            l.ok(P + 'writes the low %d bytes of its argument' % n, x.st, number(m2, p, n, e == 'LE') == z3.Extract(8 * n - 1, 0, v))
                            l.ok(P + 'keeps every other written byte', x.st, z3.Implies(z3.And(j >= 0, j < w, z3.Or(j < p, j - p >= n)), z3.Select(m2, j) == z3.Select(m, j)))
                            l.ok(P + 'moves the writer index only', x.st, And(eq(r2, r), eq(w2, w if at else w + n), icmp('le', w2, c2)))
def gets(l):
    for ty, n in WIDTH.items():
        if ty in ('Float', 'Double'): continue
        for e in kinds(ty):
            for un in ((True, False) if (ty, e) == ('Byte', '') else (False,)):
                nm = 'get%s%s%s' % ('Unsigned' if un else '', ty, e); st = l.fresh_run(); o, b = l.heap(st); r, w, cap, mx, m = b; i = z3.BitVec('i', 32)
                outs = l.run(st, o, l.HEAP, nm, '(I)' + ('S' if un else RET_D[ty]), [i]); P = 'ByteBuf.%s ' % nm
                for x in outs:
                    if x.kind == 'exc': l.ok(P + 'fails only outside the capacity', x.st, And(l.eng.is_exc(x.val, IOB), Or(i < 0, i > cap - n)))
                    else:
                        t = number(m, i, n, e == 'LE')
                        l.ok(P + 'answers the number at the index', x.st, And(i >= 0, i <= cap - n, eq(x.val, z3.ZeroExt(24, t) if un else widen(t, x.val))))
                    l.ok(P + 'changes nothing', x.st, same_state(l, x.st, o, b))
def positions(l):
    for nm, want in (('readerIndex', lambda r, w: r), ('writerIndex', lambda r, w: w), ('readableBytes', lambda r, w: w - r)):
        st = l.fresh_run(); o, b = l.heap(st)
        for x in l.run(st, o, l.HEAP, nm, '()I', []): l.ok('ByteBuf.%s answers the position and changes nothing' % nm, x.st, And(x.kind == 'ret', eq(x.val, want(b[0], b[1])) if x.kind == 'ret' else False, same_state(l, x.st, o, b)))
    for nm in ('readerIndex', 'writerIndex', 'skipBytes'):
        st = l.fresh_run(); o, b = l.heap(st); r, w, cap, mx, m = b; i = z3.BitVec('i', 32)
        good = {'readerIndex': And(i >= 0, i <= w), 'writerIndex': And(i >= r, i <= cap), 'skipBytes': And(i >= 0, i <= w - r)}[nm]
        for x in l.run(st, o, l.HEAP, nm, '(I)L%sByteBuf;' % NB, [i]):
            if x.kind == 'exc':
                l.ok('ByteBuf.%s(int) is rejected only out of range' % nm, x.st, And(Or(l.eng.is_exc(x.val, IOB), And(nm == 'skipBytes', l.eng.is_exc(x.val, 'java/lang/IllegalArgumentException'), i < 0)), Not(good)))
                l.ok('ByteBuf.%s(int) changes nothing when rejected' % nm, x.st, same_state(l, x.st, o, b))
            else:
                r2, w2, c2, m2 = l.state(x.st, o)
                l.ok('ByteBuf.%s(int) moves that index only' % nm, x.st, And(good, eq(r2, i if nm == 'readerIndex' else r + i if nm == 'skipBytes' else r), eq(w2, i if nm == 'writerIndex' else w), eq(c2, cap), m2 == m))
def bulk(l):
    src = z3.Const('src', AR); n, off, sl, j = z3.BitVecs('n off sl j', 32); e = l.eng
    for case in range(3):
        st = l.fresh_run(); o, b = l.heap(st); r, w, cap, mx, m = b
        suffix, hyp = cases(l, False, w, cap, mx, n)[case]; e.facts += [sl >= 0] + hyp
        a = e.alloc(st, arr(src, sl))
        for x in l.run(st, o, l.HEAP, 'writeBytes', '([BII)L%sByteBuf;' % NB, [a, off, n]):
            P = 'ByteBuf.writeBytes(byte[],int,int)%s ' % suffix
            if x.kind == 'exc': l.ok(P + 'fails only for a range outside the array or an exhausted buffer', x.st, And(Or(e.is_exc(x.val, IOB), And(e.is_exc(x.val, 'java/lang/IllegalArgumentException'), n < 0)), Or(off < 0, n < 0, off > sl, n > sl - off, n > mx - w)))
            else:
                r2, w2, c2, m2 = l.state(x.st, o)
                l.ok(P + 'writes exactly the range', x.st, z3.And(n >= 0, off >= 0, n <= sl - off, z3.Implies(z3.And(j >= 0, j < n), z3.Select(m2, w + j) == z3.Select(src, off + j))))
                l.ok(P + 'keeps the bytes before', x.st, z3.Implies(z3.And(j >= 0, j < w), z3.Select(m2, j) == z3.Select(m, j)))
                l.ok(P + 'moves the writer index only', x.st, And(eq(r2, r), eq(w2, w + n)))
                l.ok(P + 'leaves the array alone', x.st, mem(x.st.heap[a.id]) == src)
    for case in range(3):
        st = l.fresh_run(); o, b = l.heap(st); r, w, cap, mx, m = b
        suffix, hyp = cases(l, False, w, cap, mx, sl)[case]; e.facts += [sl >= 0] + hyp
        a = e.alloc(st, arr(src, sl))
        for x in l.run(st, o, l.HEAP, 'writeBytes', '([B)L%sByteBuf;' % NB, [a]):
            P = 'ByteBuf.writeBytes(byte[])%s ' % suffix
            if x.kind == 'exc': l.ok(P + 'fails only for an exhausted buffer', x.st, And(e.is_exc(x.val, IOB), z3.Or(sl > mx - w)))
            else:
                r2, w2, c2, m2 = l.state(x.st, o)
                l.ok(P + 'writes exactly the array', x.st, z3.Implies(z3.And(j >= 0, j < sl), z3.Select(m2, w + j) == z3.Select(src, j)))
                l.ok(P + 'keeps the bytes before and moves the writer index only', x.st, And(eq(r2, r), eq(w2, w + sl), z3.Implies(z3.And(j >= 0, j < w), z3.Select(m2, j) == z3.Select(m, j))))
    st = l.fresh_run(); o, b = l.heap(st); r, w, cap, mx, m = b; e.facts += [sl >= 0]
    a = e.alloc(st, arr(src, sl))
    for x in l.run(st, o, l.HEAP, 'readBytes', '([B)L%sByteBuf;' % NB, [a]):
        P = 'ByteBuf.readBytes(byte[]) '
        if x.kind == 'exc':
            l.ok(P + 'fails only when fewer bytes are readable', x.st, And(e.is_exc(x.val, IOB), w - r < sl)); l.ok(P + 'leaves the buffer alone when it fails', x.st, same_state(l, x.st, o, b))
        else:
            r2, w2, c2, m2 = l.state(x.st, o)
            l.ok(P + 'fills the array with the next bytes', x.st, z3.Implies(z3.And(j >= 0, j < sl), z3.Select(mem(x.st.heap[a.id]), j) == z3.Select(m, r + j)))
            l.ok(P + 'advances the reader index and changes nothing else', x.st, And(eq(r2, r + sl), eq(w2, w), m2 == m))
def slices(l):
    e = l.eng; i, n, j = z3.BitVecs('i n j', 32)
    for nm, args, desc in (('readSlice', [n], '(I)'), ('slice', [i, n], '(II)'), ('slice', [], '()')):
        st = l.fresh_run(); o, b = l.heap(st); r, w, cap, mx, m = b; P = 'ByteBuf.%s%s ' % (nm, desc)
        at, ln = (r, n) if nm == 'readSlice' else (i, n) if args else (r, w - r)
        good = And(n >= 0, n <= w - r) if nm == 'readSlice' else And(i >= 0, n >= 0, n <= cap, i <= cap - n) if args else True
        for x in l.run(st, o, l.HEAP, nm, desc + 'L%sByteBuf;' % NB, args):
            if x.kind == 'exc':
                l.ok(P + 'fails only out of range', x.st, And(Or(e.is_exc(x.val, IOB), And(e.is_exc(x.val, 'java/lang/IllegalArgumentException'), n < 0)), Not(good)))
                l.ok(P + 'leaves the buffer alone when it fails', x.st, same_state(l, x.st, o, b)); continue
            l.ok(P + 'succeeds only in range', x.st, good)
            r2, w2, c2, m2 = l.state(x.st, o)
            l.ok(P + 'changes the reader index of the buffer only as far as it reads', x.st, And(eq(r2, r + n if nm == 'readSlice' else r), eq(w2, w), eq(c2, cap), m2 == m))
            s_ = x.val; base = list(e.facts); pc = list(x.st.pc)
            for q, want in (('readableBytes', ln), ('readerIndex', 0)):
                for y in l.run(x.st.fork(), s_, SLICE, q, '()I', []): l.ok(P + 'makes a view whose %s is %s' % (q, 'its length' if want is ln else '0'), y.st, And(y.kind == 'ret', eq(y.val, want) if y.kind == 'ret' else False))
            for y in l.run(x.st.fork(), s_, SLICE, 'getUnsignedByte', '(I)S', [j]):
                if y.kind == 'exc': l.ok(P + 'makes a view that can be read everywhere within its length', y.st, And(e.is_exc(y.val, IOB), Or(j < 0, icmp('ge', j, ln))))
                else: l.ok(P + 'makes a view whose byte j is the buffer\'s byte at + j', y.st, And(j >= 0, icmp('lt', j, ln), eq(y.val, z3.ZeroExt(24, z3.Select(m, at + j)))))
            for y in l.run(x.st.fork(), s_, SLICE, 'readInt', '()I', []):
                if y.kind == 'exc': l.ok(P + 'makes a view that ends after its length', y.st, And(e.is_exc(y.val, IOB), icmp('lt', ln, 4)))
                else: l.ok(P + 'makes a view whose bytes are read in order', y.st, And(icmp('ge', ln, 4), eq(y.val, number(m, at, 4, False))))
def text(l):
    e = l.eng; n = z3.BitVec('n', 32); U = Tok('charset:UTF-8')
    def same_text(st, v, m, at, ln):
        if isinstance(v, Alt): return And(*[z3.Implies(bo(g), bo(same_text(st, x, m, at, ln))) for g, x in v.alts])
        if not isinstance(v, Str) or v.t is None: return False
        return z3.And(z3.Implies(b32(ln) == 0, v.t == EMPTY), z3.Implies(b32(ln) != 0, v.t == decoded(m, at, ln, U)))
    st = l.fresh_run(); o, b = l.heap(st); r, w, cap, mx, m = b
    for x in l.run(st, o, l.HEAP, 'toString', '(Ljava/nio/charset/Charset;)Ljava/lang/String;', [U]):
        P = 'ByteBuf.toString(Charset) '
        if x.kind == 'exc': l.ok(P + 'does not fail', x.st, False); continue
        l.ok(P + 'decodes exactly the readable bytes (no bytes: the empty text)', x.st, same_text(x.st, x.val, m, r, w - r)); l.ok(P + 'changes nothing', x.st, same_state(l, x.st, o, b))
    st = l.fresh_run(); o, b = l.heap(st); r, w, cap, mx, m = b; e.facts += [n >= 0, n <= w - r]
    for x in l.run(st, o, l.HEAP, 'readSlice', '(I)L%sByteBuf;' % NB, [n]):
        P = 'ByteBuf.toString(Charset) of a slice '
        if x.kind == 'exc': l.ok(P + 'exists', x.st, False); continue
        for y in l.run(x.st.fork(), x.val, SLICE, 'toString', '(Ljava/nio/charset/Charset;)Ljava/lang/String;', [U]):
            if y.kind == 'exc': l.ok(P + 'does not fail', y.st, False)
            else: l.ok(P + 'decodes exactly the bytes of the slice', y.st, same_text(y.st, y.val, m, r, n))
HARD = ('bitCount', 'floorDiv', 'floorMod', 'divideUnsigned', 'remainderUnsigned', 'multiplyExact')     # division and population count: slow for the solver
def java(l, prog, hard=True):
    """small JDK and netty helpers: the model, or the executable specification in stubs/, agrees with the real method"""
    jdk = jdk_classes(JDKCLASSES); cl = dict(l.prog.all); cl.update(jdk)
    e = Engine(Lib({}), Models()); e.inited |= set(cl)
    e.prog.stubs = prog.stubs; e.prog.ext = prog.ext; e.inited |= set(prog.stubs)
    x, y = z3.BitVecs('x y', 32); p, q = z3.BitVecs('p q', 64)
    s1 = Str(z3.Const('s1', S)); s2 = Str(z3.Const('s2', S)); c1, c2 = z3.Bools('c1 c2')
    opt = lambda c, v: mk_alt([(c, NULL), (Not(c), v)])
    OO = '(Ljava/lang/Object;Ljava/lang/Object;)Z'
    cases = [('io/netty/util/internal/StringUtil', 'isNullOrEmpty', '(Ljava/lang/String;)Z', [opt(c1, s1)]),
             ('java/util/Objects', 'equals', OO, [opt(c1, s1), opt(c2, s2)]), ('java/util/Objects', 'equals', OO, [opt(c1, Box('I', x)), opt(c2, Box('I', y))]), ('java/util/Objects', 'equals', OO, [opt(c1, Box('J', p)), opt(c2, s1)]),
             ('java/util/Objects', 'isNull', '(Ljava/lang/Object;)Z', [opt(c1, s1)]), ('java/util/Objects', 'nonNull', '(Ljava/lang/Object;)Z', [opt(c1, s1)]), ('java/util/Objects', 'requireNonNull', '(Ljava/lang/Object;)Ljava/lang/Object;', [opt(c1, s1)])]
    val = dict(B=[widen(z3.Extract(7, 0, v), v) for v in (x, y)], S=[widen(z3.Extract(15, 0, v), v) for v in (x, y)], I=[x, y], J=[p, q])
    for cls, nm in [('java/lang/Math', n) for n in ('min', 'max', 'abs')] + [('java/lang/Byte', 'toUnsignedInt'), ('java/lang/Short', 'toUnsignedInt')] + [(c, n) for c in ('java/lang/Integer', 'java/lang/Long') for n in ('toUnsignedLong', 'compare', 'hashCode')] + \
                   sorted({(k, m.name) for k, c in prog.ext.items() if k in jdk for m in c.methods.values() if m.static}):
        for (n_, d_), m in sorted(jdk[cls].methods.items()):
            ad, rt = classfile.parse_desc(d_) if hasattr(classfile, 'parse_desc') else parse_desc(d_)
            if n_ == nm and m.static and (hard or nm not in HARD) and all(z in val for z in ad) and (cls, nm, d_) not in [c[:3] for c in cases]: cases.append((cls, nm, d_, [val[z][i % 2] for i, z in enumerate(ad)]))
    res = {}
    for cls, nm, desc, args in cases:
        K = '%s.%s%s: the model agrees with the method' % (cls.replace('/', '.'), nm, desc)
        e.facts = []; e.callstack = []; e.frames = []; e.depth = 0; set_schema([])
        try:
            m = cl[cls].methods[(nm, desc)]
            # models for everything but the method's own class; executable specifications out of the way
            e.prog.all = {cls: cl[cls]}; e.prog.ext = {}
            real = e.call(e.new_state(), m, list(args)); l.eng.visited |= {v for v in e.visited if not v.startswith('stub')}
            e.prog.all = dict(prog.stubs); e.prog.ext = prog.ext
            mod = e.model_call(e.new_state(), cls, nm, desc, list(args))
        except Unsupported as u:
            if str(u) != 'call of %s.%s%s' % (cls, nm, desc): res.setdefault(K, []).append(str(u))      # otherwise: not modelled, so nothing is assumed
            continue
        good = True
        for a in real:
            for b in mod:
                st = e.new_state(); st.pc = list(a.st.pc) + list(b.st.pc)
                if not e.feasible(st): continue
                if a.kind != b.kind: good = False
                elif a.kind == 'exc': good = good and a.val == b.val
                elif isinstance(a.val, (int, z3.ExprRef)): good = good and e.prove(st, eq(a.val, b.val))
                else: good = good and _valeq(e, st, a.val, b.val)
        res.setdefault(K, []).append(good)
    for K, r in res.items(): l.obs.append((K, 'proved' if all(z is True for z in r) else 'failed', '; '.join(str(z) for z in r if z is not True)))
def _valeq(e, st, a, b):
    for c, u in (a.alts if isinstance(a, Alt) else [(True, a)]):
        for d, v in (b.alts if isinstance(b, Alt) else [(True, b)]):
            t = st.fork(); t.pc += [bo(c), bo(d)]
            if not e.feasible(t): continue
            if u is NULL or v is NULL:
                if u is not v: return False
            elif isinstance(u, Str) and isinstance(v, Str):
                if not e.prove(t, u.t == v.t): return False
            else: return False
    return True
def unsafe(what, every=False, types=None):
    """the same contracts for the heap buffer that Unpooled.buffer() makes, whose array is accessed through Unsafe"""
    fs = dict(reads=reads, gets=gets, writes=writes); r = None
    for unaligned, big in ([(1, 0), (1, 1), (0, 0)] if every else [(1, 0)]):
        l = L('unsafe', unaligned, big); l.cex = []
        fs[what](l, types) if what == 'writes' else fs[what](l)
        if r is not None: l.obs = r.obs + l.obs; l.eng.visited |= r.eng.visited
        r = l
    return r
GROUPS = dict(read=[(reads, ()), (unsafe, ('reads',)), (positions, ()), (slices, ())], text=[(text, ()), (java, ())], write=[(writes, (t,)) for t in WIDTH] + [(unsafe, ('writes', t)) for t in WIDTH] + [(bulk, ())], get=[(gets, ()), (unsafe, ('gets',)), (positions, ()), (slices, ())], java=[(java, ())])
USES = {'C01': 'read text write', 'C02': 'read text write get', 'C03': 'read text write get', 'C04': 'read text', 'C05': 'read text write', 'C06': 'write get java', 'C07': 'get java', 'C10': 'java', 'C12': 'read text write', 'C14': 'read write', 'C15': 'read text', 'C16': 'write get'}
def tasks(pid, tier):
    seen = []
    for g in USES.get(pid, '').split():
        for x in GROUPS[g]:
            if x not in seen: seen.append(x)
    hard = tier == 'thorough'; T = []
    for f, a in seen:
        args = (hard,) if f is java else (a[0], hard, a[1:]) if f is unsafe else a
        T.append(dict(name='library contracts: %s %s' % (f.__name__, ' '.join(a)), fn=run_group, args=(f,) + args, lib=True, weight=8 if f in (writes, bulk) or 'writes' in a else 2, units=[]))
    return T
def run_group(eng, f, *a):
    l = L(); l.cex = []
    if f is unsafe: return unsafe(*a)
    if f is java: f(l, eng.prog, *a)
    elif a: f(l, a)
    else: f(l)
    return l
def discharge(only=None):
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix='fpv-lib-')
    try:
        os.makedirs(d + '/cls'); prog = classfile.Program(d + '/cls')
    finally: shutil.rmtree(d)
    l = L()
    for f in (reads, writes, gets, positions, bulk, slices, text, java):
        if only and f.__name__ not in only: continue
        try: f(l, prog) if f is java else f(l)
        except Unsupported as u: l.obs.append((f.__name__, 'undecided', str(u)))
    return l
if __name__ == '__main__':
    import sys, time; sys.setrecursionlimit(20000)
    t = time.time(); l = discharge(sys.argv[1:])
    for o in l.obs:
        if o[1] != 'proved': print(o[1], o[0], o[2])
    print(len(l.obs), 'obligations', sum(o[1] == 'proved' for o in l.obs), 'proved', round(time.time() - t, 1), 's'); print(sorted(l.eng.visited)[:200] if len(sys.argv) > 1 else len(l.eng.visited))
