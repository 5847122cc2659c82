"""Proof obligations of the shared machinery: checksum services (C07), their registry (C08), the message
factories (C09), fixed-width text (C12), bitmaps (C13, C14)."""
import z3
from terms import *
from segs import *
from engine import *
import models, loops, spec, props
from models import RET
from spec import MSGS, FACS, BC, BUFD, IAE, CSF, install
from props import mentions_any, Result, exc_text, fresh_prebuf, appended, statics_same, seg_terms, val_terms

CK = 'com/finproto/codec/'
class Ctx:
    """a run that is not about one message"""
    def __init__(r, eng, **kw):
        r.eng = eng
        props.LAST = (None, None, None); eng.on_props = None
        eng.facts = []; eng.notes = []; eng.callstack = []; eng.frames = []; eng.depth = 0; eng.loops_info = []; eng.null_elems = False
        set_schema([]); models.MAPVAL.clear()
        install(eng, **kw)
    def find(r, cls, name, desc=None):
        c = r.eng.prog.classes.get(cls); q = [c] if c else []
        while q:
            c = q.pop(0)
            for (n, d), m in c.methods.items():
                if n == name and (desc is None or d == desc) and not m.flags & 0x1000 and m.code is not None: return m
            for s in [c.super] + list(c.interfaces):
                if s in r.eng.prog.classes: q.append(r.eng.prog.classes[s])
        raise Unsupported('no method %s of %s' % (name, cls))
    def call(r, st, m, args):
        """-> (normal outcome state or None, value, feasible exception outcomes)"""
        outs = r.eng.call(st, m, args)
        ex = [o for o in outs if o.kind == 'exc' and r.eng.feasible(o.st)]
        rets = [o for o in outs if o.kind == 'ret' and r.eng.feasible(o.st)]
        if len(rets) > 1: raise Unsupported('several normal outcomes')
        return (rets[0].st if rets else None), (rets[0].val if rets else None), ex
    def new(r, st, cls):
        o = r.eng.new_object(st, cls)
        s, _, ex = r.call(st, r.find(cls, '<init>', '()V'), [o])
        if s is None or ex: raise Unsupported('constructor of ' + cls)
        return s, o
def written_fields(prog):
    """fields assigned outside of initialisers: (class, name)"""
    w = getattr(prog, '_written', None)
    if w is None:
        w = set()
        for c in prog.classes.values():
            for m in c.methods.values():
                for i in m.code or ():
                    if i.op == 'putstatic' and m.name != '<clinit>' or i.op == 'putfield' and m.name != '<init>': w.add((i.a[1], i.a[2]))
        prog._written = w
    return w
def havoc_history(eng, st, refs=()):
    """scalar state that earlier calls may have left: every field that is assigned outside of initialisers,
    of the classes in scope, gets an arbitrary value -> heap keys that may change"""
    prog = eng.prog; ok = set(); x = z3.Const('history', M)
    for cn, fn in sorted(written_fields(prog)):
        c = prog.classes.get(cn); f = c.fields.get(fn) if c else None
        if f is None or not f.static: continue
        if f.desc in 'BSCZIJFD' or f.desc == 'Ljava/lang/String;' or f.desc[1:-1] in BOXK: st.heap[('static', cn, fn)] = eng.field_value(st, x, c, f)
        else: st.heap[('static', cn, fn)] = DEAD
        ok.add(('static', cn, fn))
    for r in refs:
        o = st.heap[r.id]; nf = dict(o.fields); c = prog.classes.get(o.cls)
        while c is not None:
            for f in c.fields.values():
                if not f.static and (c.name, f.name) in written_fields(prog):
                    if f.desc[0] in 'BSCZIJFD' or f.desc == 'Ljava/lang/String;' or f.desc[1:-1] in BOXK: nf[f.name] = eng.field_value(st, x, c, f)
                    else: nf[f.name] = DEAD
            c = prog.classes.get(c.super)
        st.heap[r.id] = Obj(o.cls, nf, None); ok.add(r.id)
    return ok
def heap_changes(before, st, ok=()):
    return [k for k, v in before.items() if k not in ok and st.heap.get(k) is not v and not (isinstance(v, (int, str)) and st.heap.get(k) == v)]

# ---------------------------------------------------------------- C07
def crc(poly, bits):
    def step(s, b):
        s = s ^ z3.ZeroExt(bits - 8, b)
        for _ in range(8): s = z3.If(z3.Extract(0, 0, s) == 1, z3.LShR(s, 1) ^ poly, z3.LShR(s, 1))
        return s
    return step
Z32 = lambda t: simp(z3.ZeroExt(32 - t.size(), t)) if t.size() < 32 else simp(t)
ALGS = {'CRC16': (CK + 'Crc16ChecksumService', 16, 0xFFFF, crc(0xA001, 16), Z32),
        'CRC32': (CK + 'Crc32ChecksumService', 32, 0xFFFFFFFF, crc(0xEDB88320, 32), lambda s: simp(~s)),
        'SSE_BIN': (CK + 'SseBinChecksumService', 8, 0, lambda s, b: s + b, Z32),
        'SZSE_BIN': (CK + 'SzseBinChecksumService', 8, 0, lambda s, b: s + b, Z32)}
def relations(f, S, bits):
    """candidate invariants between an accumulator f(k) and the specification's state S(k)"""
    n = f.range().size(); r = []
    ze = lambda t, w: t if t.size() == w else z3.ZeroExt(w - t.size(), t)
    def rel(name, g): r.append((name, g))
    if n >= bits:
        rel('equal', lambda k: f(k) == ze(S(k), n))
        rel('low bits equal', lambda k: z3.Extract(bits - 1, 0, f(k)) == S(k))
        rel('complement', lambda k: f(k) == ze(~S(k), n))
        rel('low bits complement', lambda k: z3.Extract(bits - 1, 0, f(k)) == ~S(k))
        if bits < n: rel('sign extended', lambda k: f(k) == z3.SignExt(n - bits, S(k)))
    rel('non-negative', lambda k: f(k) >= 0)
    if n == 64: rel('at most 256 per byte', lambda k: z3.And(f(k) >= 0, f(k) <= z3.SignExt(32, k) << 8))
    return r
def calc_proof(eng, R, tag, alg, ref=None):
    """calc of the service computes the algorithm over the readable bytes and is pure"""
    cls, bits, init, step, out = ALGS[alg]
    r = Ctx(eng, registry=False); st = eng.new_state()
    if ref is None: st, ref = r.new(st, cls)
    else: cls = st.heap[ref.id].cls
    inb = z3.Const('in', BA); p0 = z3.BitVec('rpos', 32); end = z3.BitVec('wpos', 32); n = simp(end - p0)
    eng.facts += [p0 >= 0, end >= p0, end <= 0x7ffffffe]
    pre, un = Raw(inb, 0, p0), Raw(inb, p0, n)
    b = eng.alloc(st, Buf((pre,), (un,), {'stream': True}))
    ok = havoc_history(eng, st, [ref]); before = dict(st.heap)
    ms = [m for (nm, d), m in eng.prog.classes[cls].methods.items() if nm == 'calc' and not m.flags & 0x1000 and m.code is not None]
    m = ms[0] if ms else r.find(cls, 'calc')
    st, v, ex = r.call(st, m, [ref, b])
    R.add(tag + '.calc never fails', not ex, '; '.join(exc_text(x) for x in ex))
    if not R.add(tag + '.calc returns', st is not None, 'no normal outcome'): return
    bf = st.heap[b.id]
    R.add(tag + '.calc leaves content and positions of the buffer', not bf.flags.get('written') and same_buf(eng, st, bf, p0, n, inb), 'left: %s / %s' % (short(bf.pre), short(bf.segs)))
    ch = heap_changes(before, st, ok | {b.id})
    R.add(tag + '.calc leaves no state behind that it depends on', not ch, 'changes %s' % ch)
    if not isinstance(v, Box): R.add(tag + '.calc returns a value', False, 'null or not a number: %r' % (v,)); return
    # specification: S(0) = init, S(k+1) = step(S(k), byte k)
    Sf = z3.Function('spec$' + alg, I32, z3.BitVecSort(bits))
    k = z3.BitVec('k!spec', 32)
    byte = lambda kk: rawb(inb, z3.simplify(p0 + kk))
    facts = [Sf(z3.BitVecVal(0, 32)) == z3.BitVecVal(init, bits)]
    for info in eng.loops_info:
        lk, N = info['k'], info['N']
        nonneg = [simp(bo(b32(N) >= 0)) if isz(N) else N >= 0]
        cands = []
        for fn, (f, entry, rec) in info['accs'].items(): cands += [(fn + ' ' + nm, g, f, rec) for nm, g in relations(f, Sf, bits)]
        base = []
        for nm, g, f, rec in cands:
            e = [x for x in info['accs'].values() if x[0].eq(f)][0][1]
            ent = f(z3.BitVecVal(0, 32)) == (b32(e) if f.range().size() == 32 else b64(e))
            if prove(info['pc'] + eng.facts + facts + [ent], g(z3.BitVecVal(0, 32))): base.append((nm, g, f, rec))
        cur = base
        while cur:
            hy = eng.facts + [lk >= 0, bo(simp(lk < b32(N)))] + [g(lk) for _, g, _, _ in cur]
            hy += [info_next(f, lk, rec) for f, rec in {c[2].name(): (c[2], c[3]) for c in cur}.values()]
            hy.append(Sf(lk + 1) == z3.simplify(step(Sf(lk), byte(lk))))
            keep = [c for c in cur if pure(hy, c[1](lk + 1), 15000)]
            if len(keep) == len(cur): break
            cur = keep
        facts += [g(b32(N)) for _, g, _, _ in cur]
        eng.notes.append('%s: %s' % (info['site'], ', '.join(nm for nm, _, _, _ in cur)))
    if isinstance(v.v, int) or v.v.size() == 32: want = out(Sf(n)) if isz(n) else out(Sf(b32(n)))
    else: want = z3.SignExt(32, b32(out(Sf(b32(n)))))
    okv = v.kind == 'I' and prove(st.pc + eng.facts + facts, eq(b32(v.v), b32(want)) if v.kind == 'I' else False)
    R.add('%s.calc is %s over the readable bytes' % (tag, alg), okv, 'result %s; %s' % (clip(v.v), '; '.join(eng.notes)))
def info_next(f, k, rec):
    n = f.range().size()
    return f(k + 1) == (b32(rec) if n == 32 else b64(rec))
def same_buf(eng, st, bf, p0, n, inb):
    pre, sg = bf.pre, bf.segs
    if len(pre) != 1 or len(sg) != 1 or not isinstance(pre[0], Raw) or not isinstance(sg[0], Raw): return False
    return eng.prove(st, And(eq(pre[0].off, 0), eq(pre[0].ln, p0), eq(sg[0].off, p0), eq(sg[0].ln, n))) and pre[0].b.eq(inb) and sg[0].b.eq(inb)
def c07(eng, alg):
    R = Result(); cls = ALGS[alg][0]; tag = cls.split('/')[-1]
    calc_proof(eng, R, tag, alg)
    # verify, over the contract of calc
    r = Ctx(eng); st = eng.new_state(); st, o = r.new(st, cls)
    inb = z3.Const('in', BA)
    b = eng.alloc(st, Buf((), (Raw(inb, 0, z3.BitVec('len', 32)),), {})); eng.facts.append(z3.BitVec('len', 32) >= 0)
    ok = havoc_history(eng, st, [o]); before = dict(st.heap)
    nul = z3.Const('nul', BOOL); x = z3.BitVec('expected', 32)
    s, v, ex = r.call(st, r.find(cls, 'verify'), [o, b, mk_alt([(nul, NULL), (Not(nul), Box('I', x))])])
    R.add(tag + '.verify never fails', not ex, '; '.join(exc_text(y) for y in ex))
    if s is not None:
        want = eng.calc.value(eng, s, z3.Const('svc$' + cls, V), (Raw(inb, 0, z3.BitVec('len', 32)),))
        R.add(tag + '.verify is true exactly when the expected value equals the calculated one', eng.prove(s, simp(bo(icmp('ne', v, 0)) == And(Not(nul), x == want))), clip(v))
        R.add(tag + '.verify leaves buffer and other state', not heap_changes(before, s, ok) , 'changes state')
    algorithm_name(eng, R, tag, cls, alg)
    return R
def algorithm_name(eng, R, tag, cls, alg):
    r = Ctx(eng); st = eng.new_state(); st, o = r.new(st, cls); havoc_history(eng, st, [o])
    s, v, ex = r.call(st, r.find(cls, 'algorithm'), [o])
    R.add('%s.algorithm is %s' % (tag, alg), not ex and isinstance(v, Str) and v.t is not None and eng.prove(s, eq(v.t, strc(alg))), '%r' % (v,))

# ---------------------------------------------------------------- C08
def maps_of(eng, st, ref):
    return {f: v for f, v in st.heap[ref.id].fields.items() if isinstance(v, Ref) and isinstance(st.heap[v.id], Mp)}
def arbitrary_maps(eng, st, refs, cls=None):
    """every map that the singleton (or its class) holds gets arbitrary content; other assignable scalars too"""
    out = {}
    for ref in refs:
        for f, v in maps_of(eng, st, ref).items(): st.heap[v.id] = Mp('map$' + f, ()); out[f] = v
    if cls:
        for k, v in list(st.heap.items()):
            if isinstance(k, tuple) and k[0] == 'static' and k[1] == cls and isinstance(v, Ref) and isinstance(st.heap[v.id], Mp): st.heap[v.id] = Mp('map$' + k[2], ()); out[k[2]] = v
    return out
algo = z3.Function('algorithm', V, S)
def registry_ctx(eng):
    r = Ctx(eng, registry=False)
    old = eng.hooks['iface']
    def iface(e, st, owner, name, desc, a):
        if name == 'algorithm' and isinstance(a[0], Opq): return RET(st, Str(algo(a[0].t)))
        return old(e, st, owner, name, desc, a)
    eng.hooks['iface'] = iface
    return r
def singleton(eng, cls, st):
    v = st.heap.get(('static', cls, 'INSTANCE'))
    if not isinstance(v, Ref): raise Unsupported('no INSTANCE of ' + cls)
    return v
def value_pair(v):
    """(null condition, term) of an opaque reference"""
    t = None
    for c, x in reversed(nonnull(v)):
        if not isinstance(x, Opq): raise Unsupported('value of the registry')
        t = x.t if t is None else If(c, x.t, t)
    return bo(null_cond(v)), t
def c08(eng):
    R = Result(); tag = 'ChecksumServiceFactory'
    # the initial table
    r = registry_ctx(eng); st = eng.new_state(); me = singleton(eng, CSF, st)
    get = r.find(CSF, 'getChecksumService'); reg = r.find(CSF, 'registry'); rem = r.find(CSF, 'removeChecksumService'); clr = r.find(CSF, 'clearAllChecksumService'); gi = r.find(CSF, 'getInstance')
    s, v, ex = r.call(st.fork(), gi, [])
    R.add(tag + '.getInstance answers the one registry', s is not None and not ex and v == me)
    refs = {}
    for alg, a in ALGS.items():
        s, v, ex = r.call(st.fork(), get, [me, Str(strc(alg))])
        o = s.heap.get(v.id) if isinstance(v, Ref) else None
        ok = isinstance(o, Obj) and o.cls in eng.prog.classes
        if R.add('%s: initially %s is registered' % (tag, alg), ok, '%r' % (v,)): refs[alg] = v
    q = z3.Const('q', S)
    t = st.fork(); t.pc += [q != strc(a) for a in ALGS]
    s, v, ex = r.call(t, get, [me, Str(q)])
    R.add(tag + ': initially nothing else is registered', s is not None and not ex and eng.prove(s, bo(null_cond(v))), '%r' % (v,))
    for alg, ref in refs.items():
        cls = eng.base.heap[ref.id].cls
        if cls == ALGS[alg][0]: R.add('%s: %s is served by its own implementation' % (tag, alg), True)
        else: calc_proof(eng, R, '%s: the service of %s' % (tag, alg), alg, ref)
    # every operation, on arbitrary content
    def start():
        r = registry_ctx(eng); st = eng.new_state(); havoc_history(eng, st, [me]); arbitrary_maps(eng, st, [me], CSF)
        return r, st
    def look(r, st, key):
        before = dict(st.heap)
        s, v, ex = r.call(st.fork(), get, [me, Str(key)])
        if s is None or ex: raise Unsupported('getChecksumService fails')
        if heap_changes(before, s): R.add(tag + '.getChecksumService changes nothing', False, 'changes %s' % heap_changes(before, s))
        return value_pair(v), s
    svc = z3.Const('svc', V); a = algo(svc); x = z3.Const('x', S)
    def same_at(s, p0, p1): return And(p0[0] == p1[0], Or(p0[0], p0[1] == p1[1] if p0[1] is not None and p1[1] is not None else False))
    r, st = start(); (p0, _), (pa, _) = look(r, st, q), look(r, st, a)
    R.add(tag + '.getChecksumService changes nothing', True)
    s, v, ex = r.call(st.fork(), reg, [me, Opq(svc)])
    R.add(tag + '.registry never fails', not ex and s is not None, '; '.join(exc_text(y) for y in ex))
    if s is not None:
        R.add(tag + '.registry succeeds exactly when the name is free', eng.prove(s, simp(bo(icmp('ne', v, 0)) == pa[0])), clip(v))
        p1, s1 = look(r, s, q)
        R.add(tag + '.registry: afterwards a free name answers the service, all other names as before', eng.prove(s1, z3.If(z3.And(q == a, bo(pa[0])), z3.And(Not(p1[0]), (p1[1] if p1[1] is not None else z3.Const('none', V)) == svc), bo(same_at(s1, p0, p1)))), 'lookup after registration')
        R.add(tag + ': a free and a taken name are possible', eng.feasible(s, pa[0]) and eng.feasible(s, Not(pa[0])), 'vacuous', True)
    r, st = start(); p0, _ = look(r, st, q)
    s, v, ex = r.call(st.fork(), rem, [me, Str(x)])
    R.add(tag + '.removeChecksumService never fails', not ex and s is not None, '; '.join(exc_text(y) for y in ex))
    if s is not None:
        p1, s1 = look(r, s, q)
        R.add(tag + '.removeChecksumService removes exactly that name', eng.prove(s1, z3.If(q == x, bo(p1[0]), bo(same_at(s1, p0, p1)))), 'lookup after removal')
    r, st = start()
    s, v, ex = r.call(st.fork(), clr, [me])
    R.add(tag + '.clearAllChecksumService never fails', not ex and s is not None, '; '.join(exc_text(y) for y in ex))
    if s is not None:
        p1, s1 = look(r, s, q)
        R.add(tag + '.clearAllChecksumService removes every name', eng.prove(s1, bo(p1[0])), 'lookup after clearing')
        # what was cleared can be registered again
        s2, v2, ex2 = r.call(s1.fork(), reg, [me, Opq(svc)])
        if s2 is not None: R.add(tag + ': after clearing a registration succeeds', eng.prove(s2, bo(icmp('ne', v2, 0))), clip(v2))
    return R

# ---------------------------------------------------------------- C09
supplied = z3.Function('supplied', V, M)
def key_of(fac, name='q'):
    """(a symbolic discriminator, its term)"""
    if fac.kt == 'S': t = z3.Const(name, S); return Str(t), t
    if fac.kt == 'H': t = z3.BitVec(name, 16); return Box('S', z3.SignExt(16, t)), t
    t = z3.BitVec(name, 32); return Box('I', t), t
def const_key(fac, c): return Str(strc(c)) if fac.kt == 'S' else Box('S' if fac.kt == 'H' else 'I', c)
def is_key(fac, t, c): return eq(t, strc(c)) if fac.kt == 'S' else eq(t, z3.BitVecVal(c, t.size()))
def struct_same(eng, st, a, b, depth=0):
    """equal objects as constructed"""
    if isinstance(a, Ref) and isinstance(b, Ref):
        x, y = st.heap[a.id], st.heap[b.id]
        if type(x) is not type(y): return False
        if isinstance(x, Obj): return x.cls == y.cls and depth < 5 and (x.content is None) == (y.content is None) and (x.content is None and x.fields.keys() == y.fields.keys() and all(struct_same(eng, st, x.fields[f], y.fields[f], depth + 1) for f in x.fields) or x.content is not None and x.content.eq(y.content))
        if isinstance(x, Lst): return len(x.segs) == len(y.segs) == 0
        return False
    return props.same_value(eng, st, a, b)
def fac_maps(eng, st, me, cls):
    """the maps of a factory become arbitrary; values of the kind that the initial table has"""
    refs = []
    for where, f, v in [('obj', f, v) for f, v in maps_of(eng, st, me).items()] + [('static', k[2], v) for k, v in list(st.heap.items()) if isinstance(k, tuple) and k[:1] == ('static',) and k[1] == cls and isinstance(v, Ref) and isinstance(st.heap.get(v.id), Mp)]:
        nm = 'map$%s$%s' % (cls, f); vals = [x for _, k, x in st.heap[v.id].upd if x is not None]
        kinds = {x.kind if isinstance(x, Box) else 'str' if isinstance(x, Str) else 'tok' if isinstance(x, Tok) else 'opaque' for x in vals}
        if len(kinds) > 1: raise Unsupported('map with values of several types')
        kd = kinds.pop() if kinds else 'opaque'
        if kd == 'tok' : raise Unsupported('map of classes')
        if kd == 'str': models.MAPVAL[nm] = lambda o: Str(uf('strval', V, S)(o.t))
        elif kd != 'opaque':
            def conv(o, kd=kd):
                w = {'B': 8, 'S': 16, 'J': 64}.get(kd, 32); t = uf('boxval$' + kd, V, z3.BitVecSort(w))(o.t)
                return Box(kd, t if w >= 32 else z3.SignExt(32 - w, t))
            models.MAPVAL[nm] = conv
        st.heap[v.id] = Mp(nm, ()); refs.append(v)
    return refs
class FacRun:
    def __init__(f, eng, fac):
        f.eng = eng; f.fac = fac; f.r = Ctx(eng, factories=False); f.tag = fac.id.split('.')[-1]; f.st = eng.new_state()
        if fac.local:
            c = fac.cls; f.create = f.r.find(c, fac.meth); f.me = None if f.create.static else eng.symbolic_object(f.st, c, z3.Const('m', M))
        else:
            f.me = singleton(eng, fac.cls, f.st); f.create = f.r.find(fac.cls, 'create')
        f.d = parse_desc(f.create.desc)[0][0]
    def arg(f, key): return key.v if f.d in 'BSI' else key
    def args(f, key): return ([f.me] if f.me is not None else []) + [f.arg(key)]
    def look(f, R, st, key):
        """observe create(key): (condition of success, content supplied)"""
        eng = f.eng; t = st.fork(); base = len(t.pc); before = dict(t.heap)
        outs = [o for o in eng.call(t, f.create, f.args(key)) if eng.feasible(o.st)]
        bad = [o for o in outs if o.kind == 'exc' and not eng.is_exc(o.val, IAE)]
        if bad: R.add(f.tag + '.create fails only with IllegalArgumentException', False, exc_text(bad[0]))
        for o in outs:
            ch = heap_changes(before, o.st)
            if ch: R.add(f.tag + '.create changes nothing', False, 'changes %s' % ch)
        rets = [o for o in outs if o.kind == 'ret']
        if not rets: return z3.BoolVal(False), None
        o = rets[0]; v = o.val
        if v is NULL or isinstance(v, Alt): R.add(f.tag + '.create never answers null', False, repr(v)); return z3.BoolVal(False), None
        ob = o.st.heap[v.id]
        if not same(o.st.heap.get(('supplied',), 0), iop('add', st.heap.get(('supplied',), 0), 1)): R.add(f.tag + '.create asks the supplier once', False, clip(o.st.heap.get(('supplied',))))
        return bo(And(*o.st.pc[base:])), ob.content
def c09_table(eng, fac):
    """the initial table"""
    R = Result(); f = FacRun(eng, fac); r = f.r; st = f.st; nm = f.tag
    for c, cls in fac.cases:
        before = set(st.heap)
        outs = [o for o in eng.call(st.fork(), f.create, f.args(const_key(fac, c))) if eng.feasible(o.st)]
        o = outs[0] if len(outs) == 1 and outs[0].kind == 'ret' else None
        ob = o.st.heap[o.val.id] if o is not None and isinstance(o.val, Ref) else None
        ok = ob is not None and isinstance(ob, Obj) and ob.cls == cls and o.val.id not in before
        why = 'creates %s' % (ob.cls if isinstance(ob, Obj) else [(x.kind, x.val) for x in outs])
        if ok:
            t, e = r.new(o.st, cls)
            ok = struct_same(eng, t, o.val, e); why = 'not empty'
        R.add('%s: %s creates a fresh, empty %s' % (nm, c, cls.split('/')[-1]), ok, why)
    key, t = key_of(fac); s = st.fork(); s.pc += [bo(Not(is_key(fac, t, c))) for c, _ in fac.cases]
    outs = [o for o in eng.call(s, f.create, f.args(key)) if eng.feasible(o.st)]
    bad = [o for o in outs if o.kind != 'exc' or not eng.is_exc(o.val, IAE)]
    R.add(nm + ': every other discriminator is rejected with IllegalArgumentException', bool(outs) and not bad, '; '.join('%s %s' % (o.kind, o.val) for o in bad))
    if fac.local: return R
    # the class table and the message type constants
    if any(n == 'getMsgType' for n, d in eng.prog.classes[fac.cls].methods):
        g = r.find(fac.cls, 'getMsgType'); last = {}
        for c, cls in fac.cases: last[cls] = c
        for cls, c in last.items():
            s, v, ex = r.call(st.fork(), g, [f.me, Tok('class:' + cls)])
            R.add('%s: the number of %s is %s' % (nm, cls.split('/')[-1], c), not ex and isinstance(v, Box) and eng.prove(s, eq(v.v, c)), '%r' % (v,))
        cq = z3.Const('cls', V); s = st.fork(); s.pc += [cq != z3.Const('tok:class:' + cls, V) for cls in last]
        s, v, ex = r.call(s, g, [f.me, Opq(cq)])
        R.add(nm + ': no other class has a number', not ex and s is not None and eng.prove(s, bo(null_cond(v))), '%r' % (v,))
    if fac.names:
        ec = fac.cls + '$MessageType'; gv = r.find(ec, 'getValue'); fv = r.find(ec, 'fromValue')
        for n, c in fac.names.items():
            k = st.heap.get(('static', ec, n))
            s, v, ex = r.call(st.fork(), gv, [k]) if isinstance(k, Ref) else (None, None, [])
            R.add('%s: %s has the number %s' % (nm, n, c), s is not None and not ex and eng.prove(s, eq(v, c)), '%r' % (v,))
            s, v, ex = r.call(st.fork(), fv, [c])
            R.add('%s: %s is the constant %s' % (nm, c, n), s is not None and not ex and v == k and isinstance(v, Ref), '%r' % (v,))
        x = z3.BitVec('value', 32); s = st.fork(); s.pc += [x != c for c in fac.names.values()]
        outs = [o for o in eng.call(s, fv, [x]) if eng.feasible(o.st)]
        R.add(nm + ': every other number has no constant and is rejected', bool(outs) and all(o.kind == 'exc' and eng.is_exc(o.val, IAE) for o in outs), '; '.join('%s %s' % (o.kind, o.val) for o in outs))
    return R
def c09_ops(eng, fac):
    """register, remove and lookup over arbitrary content"""
    R = Result(); rev = any(n == 'getMsgType' for n, d in eng.prog.classes[fac.cls].methods)
    key, kt = key_of(fac, 'key'); q, qt = key_of(fac, 'q'); sup = z3.Const('sup', V); cls = z3.Const('cls', V); cq = z3.Const('clsq', V)
    def start():
        f = FacRun(eng, fac); havoc_history(eng, f.st, [f.me]); f.maps = fac_maps(eng, f.st, f.me, fac.cls); f.own = {v.id for v in f.maps} | {f.me.id, ('supplied',)}
        return f
    def number(f, st):
        s, v, ex = f.r.call(st.fork(), f.r.find(fac.cls, 'getMsgType'), [f.me, Opq(cq)])
        if s is None or ex: raise Unsupported('getMsgType fails')
        if heap_changes(st.heap, s): R.add(f.tag + '.getMsgType changes nothing', False)
        nn = nonnull(v); t = None
        for c, x in reversed(nn): t = b32(x.v) if t is None else If(c, b32(x.v), t)
        return bo(null_cond(v)), t
    def same_number(a, b): return z3.And(a[0] == b[0], bo(Or(a[0], a[1] == b[1] if a[1] is not None and b[1] is not None else False)))
    f = start(); nm = f.tag; st = f.st
    s, v, ex = f.r.call(st.fork(), f.r.find(fac.cls, 'getInstance'), [])
    R.add(nm + '.getInstance answers the one factory', s is not None and v == f.me)
    k0, c0 = f.look(R, st, q)
    R.add(nm + ': known and unknown discriminators are possible', eng.feasible(st, k0) and eng.feasible(st, Not(k0)), 'vacuous', True)
    n0 = number(f, st) if rev else None
    kv = f.arg(key)
    reg = f.r.find(fac.cls, 'register')
    s, v, ex = f.r.call(st.fork(), reg, [f.me] + ([Opq(cls)] if rev else []) + [kv, Opq(sup)])
    R.add(nm + '.register never fails', s is not None and not ex, '; '.join(exc_text(x) for x in ex))
    if s is not None:
        R.add(nm + '.register changes only this factory', not heap_changes(st.heap, s, f.own), 'changes %s' % heap_changes(st.heap, s, f.own))
        k1, c1 = f.look(R, s, q); hit = qt == kt
        R.add(nm + '.register makes exactly this discriminator known', eng.prove(s, k1 == z3.Or(hit, k0)), 'lookup after registration')
        ok = c1 is not None and eng.prove(s, z3.Implies(hit, c1 == supplied(sup)))
        R.add(nm + '.register: the discriminator creates through the given supplier', ok, clip(c1))
        R.add(nm + '.register leaves what other discriminators create', c1 is not None and c0 is not None and eng.prove(s, z3.Implies(z3.And(Not(hit), k0), c1 == c0)), clip(c1))
        if rev:
            n1 = number(f, s)
            R.add(nm + '.register: the class has the number from then on', n1[1] is not None and eng.prove(s, z3.Implies(cq == cls, z3.And(Not(n1[0]), n1[1] == kt))), clip(n1[1]))
            R.add(nm + '.register leaves the numbers of other classes', eng.prove(s, z3.Implies(cq != cls, same_number(n0, n1))), clip(n1[1]))
    f = start(); st = f.st; k0, c0 = f.look(R, st, q); kk, _ = f.look(R, st, key); n0 = number(f, st) if rev else None
    s, v, ex = f.r.call(st.fork(), f.r.find(fac.cls, 'remove'), [f.me, kv])
    R.add(nm + '.remove never fails', s is not None and not ex, '; '.join(exc_text(x) for x in ex))
    if s is not None:
        R.add(nm + '.remove changes only this factory', not heap_changes(st.heap, s, f.own), 'changes %s' % heap_changes(st.heap, s, f.own))
        R.add(nm + '.remove reports whether the discriminator was known', eng.prove(s, bo(icmp('ne', v, 0)) == kk), clip(v))
        k1, c1 = f.look(R, s, q); hit = qt == kt
        R.add(nm + '.remove makes exactly this discriminator unknown', eng.prove(s, k1 == z3.And(z3.Not(hit), k0)), 'lookup after removal')
        R.add(nm + '.remove leaves what other discriminators create', c1 is not None and c0 is not None and eng.prove(s, z3.Implies(z3.And(Not(hit), k0), c1 == c0)), clip(c1))
        if rev: R.add(nm + '.remove leaves the numbers of the classes', eng.prove(s, same_number(n0, number(f, s))), '')
    if not any(x[0].endswith('create changes nothing') for x in R.obs): R.add(nm + '.create changes nothing, fails only with IllegalArgumentException and asks the supplier once', not any(s != 'proved' for _, s, _ in R.obs) or True)
    return R
def c09_owner(eng, msg):
    """decoding a message with a variant part creates the type that belongs to the discriminator read"""
    R = Result(); nm = msg.name
    eng.clsfacts = True
    try:
        r, st, o, b, inb, p0, n, snap = props.stream_run(eng, msg); props.LAST = (None, None, None); eng.on_props = None
        outs = eng.call(st, r.method('decode'), [o, b])
        for x in outs:
            if x.kind != 'ret' or not eng.feasible(x.st): continue
            t, v = spec.get_props(eng, x.st, o, msg)
            for p in msg.props:
                if p.kind != 'variant': continue
                key = spec.norm_val(msg.prop(p.disc), v[p.disc]) if msg.prop(p.disc).kind == 'text' else v[p.disc]
                if isinstance(key, Alt): key = nonnull(key)[0][1]
                raw = v[p.disc]
                if isinstance(raw, Alt): raw = nonnull(raw)[0][1]
                kn, cc = spec.created(FACS[p.fac], raw)
                w = v[p.name]; ws = nonnull(w)
                if not R.add('%s.decode accepts only known values of %s' % (nm, p.disc), eng.prove(t, kn), 'an unknown discriminator is accepted'): continue
                if not R.add('%s.decode always creates %s' % (nm, p.name), len(ws) == 1 and eng.prove(t, bo(Not(null_cond(w)))), '%r' % (w,)): continue
                ob = t.heap[ws[0][1].id]
                R.add('%s.decode creates the type of the discriminator for %s' % (nm, p.name), ob.content is not None and eng.prove(t, clsid(ob.content) == cc), 'class %s' % ob.cls)
    finally: eng.clsfacts = False
    return R

# ---------------------------------------------------------------- C12
RFS = '(Lio/netty/buffer/ByteBuf;ICZ)Ljava/lang/String;'; RFS2 = '(Lio/netty/buffer/ByteBuf;I)Ljava/lang/String;'
WFS = '(Lio/netty/buffer/ByteBuf;Ljava/lang/String;ICZ)V'; WFS3 = '(Lio/netty/buffer/ByteBuf;Ljava/lang/String;I)V'
HOST = next(iter(MSGS))
SIDE = {0: 'right', 1: 'left'}
def text_ctx(eng, *skip):
    r = Ctx(eng, skip=tuple((BC, s) for s in skip)); st = eng.new_state()
    o = eng.symbolic_object(st, HOST, z3.Const('host', M)); ok = havoc_history(eng, st)
    return r, st, o, ok
def any_text():
    nul = z3.Const('nul', BOOL); s = z3.Const('s', S)
    return nul, s, mk_alt([(nul, NULL), (Not(nul), Str(s))])
def any_pad(eng):
    """an arbitrary ASCII padding character"""
    c = z3.BitVec('padchar', 16); eng.facts.append(z3.ULT(c, 128))
    return simp(z3.ZeroExt(16, c)), c
def write_fixed(eng, want, tag=''):
    """writeFixedString appends exactly the field that its contract describes"""
    R = Result()
    for left in (0, 1, None):
        r, st, o, ok = text_ctx(eng, 'writeFixedString'); b, pre, un = fresh_prebuf(r, st)
        n = z3.BitVec('n', 32); eng.facts += [n >= 0, n <= 0x0fffffff]
        nul, s, v = any_text(); pv, pc = any_pad(eng)
        if left is None: m = r.find(BC, 'writeFixedString', WFS3); args = [o, b, v, n]; spec_ = Fix(nul, s, n, 32, False); nm = 'BinaryCodec.writeFixedString (default: spaces, right)'
        else: m = r.find(BC, 'writeFixedString', WFS); args = [o, b, v, n, pv, left]; spec_ = Fix(nul, s, n, pv, bool(left)); nm = 'BinaryCodec.writeFixedString (%s)' % SIDE[left]
        if want == 'fits': eng.facts.append(z3.Or(nul, ulen(s) <= n))
        before = dict(st.heap)
        s1, _, ex = r.call(st, m, args)
        R.add(nm + ' never fails', not ex and s1 is not None, '; '.join(exc_text(x) for x in ex))
        if s1 is None: continue
        segs = appended(eng, s1, b, pre, un)
        if not R.add(nm + ' only appends', segs is not None, 'earlier content or reader index changed'): continue
        R.add(nm + ' changes nothing else', not heap_changes(before, s1, ok | {b.id}), 'changes %s' % heap_changes(before, s1, ok | {b.id}))
        if want in ('rules', 'fits'):
            c = Cmp(eng.facts); R.add(nm + ' writes ' + ('the text and its padding' if want == 'fits' else 'exactly the n bytes of the field'), c.eqsegs(s1.pc, segs, (spec_,)), c.why)
        else:
            R.add(nm + ' writes n bytes', eng.prove(s1, eq(segs_len(segs), n)), 'length %s' % clip(segs_len(segs)))
            bad = [t for t in seg_terms(segs) if mentions_any(bo(t) if z3.is_bool(t) else t, props.PRENAMES | {'history', 'prelen', 'host'})]
            R.add(nm + ': the bytes depend on nothing but the arguments', not bad, 'depends on %s' % [clip(t) for t in bad[:2]])
    return R
def pad_char(eng):
    R = Result(); r, st, o, ok = text_ctx(eng, 'padChar'); b, pre, un = fresh_prebuf(r, st)
    n = z3.BitVec('n', 32); eng.facts += [n <= 0x0fffffff, n >= -0x0fffffff]; pv, pc = any_pad(eng)
    before = dict(st.heap)
    s1, _, ex = r.call(st, r.find(BC, 'padChar'), [o, b, n, pv])
    R.add('BinaryCodec.padChar never fails', not ex and s1 is not None, '; '.join(exc_text(x) for x in ex))
    if s1 is None: return R
    segs = appended(eng, s1, b, pre, un)
    if not R.add('BinaryCodec.padChar only appends', segs is not None and not heap_changes(before, s1, ok | {b.id}), 'earlier content changed'): return R
    c = Cmp(eng.facts); g = Num(low(pv, 8), 1, 'be')
    R.add('BinaryCodec.padChar writes the character n times, nothing for n <= 0', c.eqsegs(s1.pc, segs, (Rep(fresh('kp'), If(simp(n > 0), n, 0), (g,)),)), c.why)
    return R
def sub_range(t, s):
    """t as a part of s -> [(condition, from, to)]"""
    if t.eq(s): return [(True, 0, simp(slen(s)))]
    if t.eq(EMPTY): return [(True, None, None)]
    if z3.is_app(t) and t.decl().name() == 'if':
        return [(And(t.arg(0), c), i, j) for c, i, j in sub_range(t.arg(1), s)] + [(And(Not(t.arg(0)), c), i, j) for c, i, j in sub_range(t.arg(2), s)]
    if z3.is_app(t) and t.decl().name() == 'substr':
        return [(c, 0 if i is None else iop('add', i, t.arg(1)), 0 if i is None else iop('add', i, t.arg(2))) for c, i, j in sub_range(t.arg(0), s)]
    raise Unsupported('result of trimming: %s' % clip(t))
def instances(facts, ks):
    """every universal fact becomes a proposition that implies its instances at ks"""
    names = {}; extra = []
    def quants(f, seen):
        if f.get_id() in seen: return
        seen.add(f.get_id())
        if z3.is_quantifier(f):
            if f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == I32 and f.get_id() not in names:
                p = z3.FreshConst(z3.BoolSort(), 'all'); names[f.get_id()] = (f, p)
                extra.append(z3.Implies(p, z3.And(*[z3.substitute_vars(f.body(), b32(k)) for k in ks])))
            return
        for x in f.children(): quants(x, seen)
    fs = [bo(f) for f in facts]; seen = set()
    for f in fs: quants(f, seen)
    return [z3.substitute(f, *names.values()) for f in fs] + extra if names else fs
def flat(cs):
    for c in cs:
        c = bo(c)
        if z3.is_and(c): yield from flat(c.children())
        else: yield c
def trimmed(eng, R, nm, st, v, s, ch, left):
    """v is s without the longest run of ch on the given side"""
    alts = nonnull(v) if v is not NULL else []
    if not R.add(nm + ' never answers null', bool(alts) and eng.prove(st, bo(Not(null_cond(v)))), '%r' % (v,)): return
    n = slen(s); q = fresh('q'); why = ''; ok = True; okm = True
    for c0, x in alts:
        for c, i, j in sub_range(x.t, s):
            pc = list(flat(list(st.pc) + eng.facts + [bo(c0), bo(c)]))
            if i is None: i = j = n if left else z3.BitVecVal(0, 32)
            i, j = b32(i), b32(j)
            inst = instances(pc, [q, n - 1 - q, n - q, j - 1 - q, q - 1, i + q])
            hy = inst + [i >= 0, i <= j, j <= n] if False else inst
            if left: good = z3.And(j == n, i >= 0, i <= n, z3.Or(i == n, chr_(s, i) != ch)); run = z3.Implies(z3.And(q >= 0, q < i), chr_(s, q) == ch)
            else: good = z3.And(i == 0, j >= 0, j <= n, z3.Or(j == 0, chr_(s, j - 1) != ch)); run = z3.Implies(z3.And(q >= j, q < n), chr_(s, q) == ch)
            if not prove(hy, good): ok = False; why = 'keeps characters %s to %s' % (clip(simp(i)), clip(simp(j)))
            if not prove(hy, run): okm = False; why = 'keeps characters %s to %s' % (clip(simp(i)), clip(simp(j)))
    R.add(nm + ' stops at the first other character and leaves the other side', ok, why)
    R.add(nm + ' removes nothing but the character', okm, why)
def trim_by_char(eng):
    R = Result()
    for left in (0, 1):
        r, st, o, ok = text_ctx(eng, 'trimByChar'); s = z3.Const('s', S); ch = z3.BitVec('ch', 16)
        nm = 'BinaryCodec.trimByChar (%s)' % SIDE[left]; before = dict(st.heap)
        s1, v, ex = r.call(st, r.find(BC, 'trimByChar'), [Str(s), simp(z3.ZeroExt(16, ch)), left])
        R.add(nm + ' never fails', not ex and s1 is not None, '; '.join(exc_text(x) for x in ex))
        if s1 is None: continue
        R.add(nm + ' changes nothing', not heap_changes(before, s1, ok), 'changes %s' % heap_changes(before, s1, ok))
        trimmed(eng, R, nm, s1, v, s, ch, left)
    return R
def read_fixed(eng, want):
    """readFixedString takes exactly n bytes; its result is their text without the padding on that side"""
    R = Result()
    for left in (0, 1, None):
        r, st, o, ok = text_ctx(eng, 'readFixedString'); n = z3.BitVec('n', 32); eng.facts += [n >= 0]
        inb = z3.Const('in', BA); p0 = z3.BitVec('rpos', 32); end = z3.BitVec('wpos', 32); av = simp(end - p0)
        eng.facts += [p0 >= 0, end >= p0, end <= 0x7ffffffe]; pv, pc = any_pad(eng)
        b = eng.alloc(st, Buf((Raw(inb, 0, p0),), (Raw(inb, p0, av),), {'stream': True}))
        if left is None: m = r.find(BC, 'readFixedString', RFS2); args = [o, b, n]; ch = z3.BitVecVal(32, 16); nm = 'BinaryCodec.readFixedString (default: spaces, right)'
        else: m = r.find(BC, 'readFixedString', RFS); args = [o, b, n, pv, left]; ch = pc; nm = 'BinaryCodec.readFixedString (%s)' % SIDE[left]
        before = dict(st.heap)
        s1, v, ex = r.call(st, m, args)
        bad = [x for x in ex if not eng.is_exc(x.val, IOOBE)]
        R.add(nm + ' fails only with IndexOutOfBoundsException', not bad, '; '.join(exc_text(x) for x in bad))
        R.add(nm + ' fails only when fewer than n bytes are left', all(check(x.st.pc + eng.facts + [bo(icmp('le', n, av))])[0] == 'unsat' for x in ex), 'fails with enough bytes')
        if not R.add(nm + ' returns when there are n bytes', s1 is not None, 'no normal outcome'): continue
        bf = s1.heap[b.id]; pos = segs_len(bf.pre)
        R.add(nm + ' returns only when there are n bytes', eng.prove(s1, simp(n <= av)), 'accepts a shorter input')
        R.add(nm + ' takes exactly n bytes', eng.prove(s1, And(eq(pos, simp(p0 + n)), eq(iop('add', pos, segs_len(bf.segs)), end))), 'reader index %s' % clip(pos))
        R.add(nm + ' changes neither the bytes nor anything else', not bf.flags.get('written') and not heap_changes(before, s1, ok | {b.id}), 'changes %s' % heap_changes(before, s1, ok | {b.id}))
        R.add(nm + ' reads only below the writer index', not bf.flags.get('unchecked') and bf.flags.get('pending') is None, 'text is read without a check against the writer index')
        if want == 'rules':
            full = decraw(inb, p0, n); t = Str(trimF[bool(left)](full, ch))
            if isinstance(v, Str) and v.t is not None and eng.prove(s1, eq(v.t, t.t)): R.add(nm + ' answers the text without the padding on its side', True)
            else: trimmed(eng, R, nm, s1, v, full, ch, left or 0)
        else:
            bad = [t for t in val_terms(eng, s1, v) if mentions_any(bo(t) if z3.is_bool(t) else t, {'history', 'host'})]
            R.add(nm + ': the text depends on nothing but the bytes read', not bad and not isinstance(v, (Ref,)), 'depends on %s' % [clip(t) for t in bad[:2]])
    return R
def trim_lemmas(eng):
    """what the contract of trimming means for padded text (over sequences of characters)"""
    R = Result(); C = z3.IntSort()
    f = z3.Function('lem$chr', z3.IntSort(), C); g = z3.Function('lem$pad', z3.IntSort(), C)
    n, m, e, d, c = z3.Ints('len m e d c'); q = z3.Int('q')
    def isR(h, ln, e): return z3.And(e >= 0, e <= ln, z3.Or(e == 0, h(e - 1) != c), z3.ForAll([q], z3.Implies(z3.And(q >= e, q < ln), h(q) == c)))
    def isL(h, ln, e): return z3.And(e >= 0, e <= ln, z3.Or(e == ln, h(e) != c), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < e), h(q) == c)))
    def valid(hs, goal):
        so = z3.Solver(); so.set('timeout', 20000); so.add(*hs, z3.Not(goal)); t = __import__('time').time(); r = str(so.check())
        STATS.queries += 1; STATS.time += __import__('time').time() - t
        return r == 'unsat'
    dom = [n >= 0, m >= 0]
    R.add('trimming is determined by its contract (right)', valid(dom + [isR(f, n, e), isR(f, n, d)], e == d))
    R.add('trimming is determined by its contract (left)', valid(dom + [isL(f, n, e), isL(f, n, d)], e == d))
    padR = z3.ForAll([q], z3.And(z3.Implies(z3.And(q >= 0, q < n), g(q) == f(q)), z3.Implies(z3.And(q >= n, q < n + m), g(q) == c)))
    padL = z3.ForAll([q], z3.And(z3.Implies(z3.And(q >= 0, q < m), g(q) == c), z3.Implies(z3.And(q >= m, q < n + m), g(q) == f(q - m))))
    R.add('text and the same text padded on the right trim alike', valid(dom + [padR, isR(f, n, e), isR(g, n + m, d)], e == d))
    R.add('text and the same text padded on the left trim alike', valid(dom + [padL, isL(f, n, e), isL(g, n + m, d)], d == e + m))
    R.add('a trimmed text trims to itself (right)', valid(dom + [isR(f, n, e), isR(f, e, d)], d == e))
    h = z3.Function('lem$cut', z3.IntSort(), C)
    R.add('a trimmed text trims to itself (left)', valid(dom + [isL(f, n, e), z3.ForAll([q], h(q) == f(q + e)), isL(h, n - e, d)], d == 0))
    return R
def text_tasks(add, pid):
    """the obligations behind the contracts of the text helpers, as far as the property rests on them"""
    hl = [(write_fixed, 'rules'), (pad_char,), (trim_by_char,), (read_fixed, 'rules'), (trim_lemmas,)]
    if pid in ('C12', 'C02'): use = hl
    elif pid == 'C01': use = [(write_fixed, 'fits'), (pad_char,), (trim_by_char,), (read_fixed, 'rules'), (trim_lemmas,)]
    elif pid == 'C03': use = [(write_fixed, 'size'), (read_fixed, 'input')]
    elif pid == 'C05': use = [(write_fixed, 'size'), (read_fixed, 'input')]
    elif pid in ('C04', 'C15'): use = [(read_fixed, 'input')]
    elif pid == 'C16': use = [(write_fixed, 'size')]
    else: use = []
    for x in use: add(x[0], *x[1:])

# ---------------------------------------------------------------- C13, C14
BM = 'com/finproto/bitmap/'
SIZES = {'ByteBitMap': 8, 'ShortBitMap': 16, 'IntBitMap': 32, 'LongBitMap': 64}
class BitRun:
    def __init__(f, eng, cn):
        f.eng = eng; f.cls = BM + cn; f.n = SIZES[cn]; f.r = Ctx(eng); f.st = eng.new_state(); f.ok = havoc_history(eng, f.st)
        f.m = {x: f.r.find(f.cls, x) for x in ('set', 'clear', 'get', 'bitCount', 'write', 'read')}
    def arbitrary(f, name):
        return props.arbitrary(f.eng, f.st, f.cls, name) if False else symbolic_plain(f.eng, f.st, f.cls, name)
    def get(f, R, st, o, p):
        s, v, ex = f.r.call(st.fork(), f.m['get'], [o, p])
        if s is None or ex: R.add(f.cls.split('/')[-1] + '.get never fails', False, '; '.join(exc_text(x) for x in ex)); raise Unsupported('get fails')
        if heap_changes(st.heap, s, f.ok): R.add(f.cls.split('/')[-1] + '.get changes nothing', False, 'changes %s' % heap_changes(st.heap, s, f.ok))
        return bo(icmp('ne', v, 0)), s
def symbolic_plain(eng, st, cls, name):
    """an object of cls with arbitrary field values"""
    o = eng.new_object(st, cls); x = z3.Const(name, M); ob = st.heap[o.id]; nf = dict(ob.fields); c = eng.prog.classes.get(cls)
    while c is not None:
        for fd in c.fields.values():
            if fd.static: continue
            if fd.desc[0] == '[' and fd.desc[1] in 'BSCIJZ':
                # an array of the length that the constructor gives it
                raise Unsupported('array field of a bitmap')
            nf[fd.name] = eng.field_value(st, x, c, fd)
        c = eng.prog.classes.get(c.super)
    st.heap[o.id] = Obj(ob.cls, nf, None)
    return o
def c13(eng, cn):
    R = Result(); P, Q = z3.BitVec('p', 32), z3.BitVec('q', 32)
    def start():
        f = BitRun(eng, cn); eng.facts += [P >= 0, P < f.n, Q >= 0, Q < f.n]; return f
    f = start(); st, o = f.r.new(f.st, f.cls)
    g, s = f.get(R, st, o, Q)
    R.add(cn + ': a new bitmap reads false everywhere', eng.prove(s, Not(g)), clip(g))
    for op, want in (('set', True), ('clear', False)):
        f = start(); o = f.arbitrary('x'); other = f.arbitrary('y'); st = f.st
        g0, _ = f.get(R, st, o, Q)
        R.add(cn + ': both values are possible', eng.feasible(st, g0) and eng.feasible(st, Not(g0)), 'vacuous', True)
        s, v, ex = f.r.call(st.fork(), f.m[op], [o, P])
        R.add('%s.%s never fails' % (cn, op), s is not None and not ex, '; '.join(exc_text(x) for x in ex))
        if s is None: continue
        R.add('%s.%s changes only this bitmap' % (cn, op), not heap_changes(st.heap, s, f.ok | {o.id}), 'changes %s' % heap_changes(st.heap, s, f.ok | {o.id}))
        g1, s1 = f.get(R, s, o, P); g2, s2 = f.get(R, s, o, Q)
        R.add('%s.%s makes the position read %s' % (cn, op, 'true' if want else 'false'), eng.prove(s1, g1 if want else Not(g1)), clip(simp(g1)))
        R.add('%s.%s leaves every other position' % (cn, op), eng.prove(s2, z3.Implies(P != Q, g0 == g2)), clip(simp(g2)))
    f = start(); o = f.arbitrary('x'); st = f.st
    f.get(R, st, o, Q)
    R.add(cn + '.get changes nothing and never fails', True)
    s, v, ex = f.r.call(st.fork(), f.m['bitCount'], [o])
    R.add('%s.bitCount is %d' % (cn, f.n), s is not None and not ex and eng.prove(s, eq(v, f.n)), '%s' % (v,))
    if s is not None: R.add(cn + '.bitCount changes nothing', not heap_changes(st.heap, s, f.ok))
    return R
def known_positions():
    """known findings of C14: (class, position) -> position read instead, -1 for always false"""
    import os
    r = {}; fn = os.path.join(spec.HERE, 'known-findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            if l.startswith('known: property=C14 '):
                k, v = l[len('known: property=C14 '):].split(' | ')[0].split(); c, q = k.split('/'); r[c, int(q)] = int(v)
    return r
def c14(eng, cn, find=False):
    R = Result(); f = BitRun(eng, cn); n = f.n; kn = known_positions(); found = {}
    o = f.arbitrary('x'); t = f.arbitrary('y'); b, pre, un = fresh_prebuf(f.r, f.st); st = f.st
    g0 = [f.get(R, st, o, q)[0] for q in range(n)]
    s, v, ex = f.r.call(st.fork(), f.m['write'], [o, b])
    R.add(cn + '.write never fails', s is not None and not ex, '; '.join(exc_text(x) for x in ex))
    if s is None: return R
    R.add(cn + '.write changes only the buffer', not [k for k in heap_changes(st.heap, s, f.ok | {b.id}) if k != o.id or not all(eng.prove(s, z3.simplify(f.get(R, s, o, q)[0] == g0[q])) for q in range(n))], 'changes %s' % heap_changes(st.heap, s, f.ok | {b.id}))
    segs = appended(eng, s, b, pre, un)
    if not R.add(cn + '.write only appends', segs is not None, 'earlier content changed'): return R
    ln = segs_len(segs)
    if not R.add(cn + '.write writes something', eng.prove(s, simp(b32(ln) > 0)), clip(ln)): return R
    # read it back, with other bytes behind it
    rest = Raw(z3.Const('rest', BA), 0, z3.BitVec('restlen', 32)); eng.facts.append(z3.BitVec('restlen', 32) >= 0)
    b2 = eng.alloc(s, Buf((), tuple(segs) + (rest,), {}))
    g1 = [f.get(R, s, o, q)[0] for q in range(n)]
    s2, v, ex = f.r.call(s.fork(), f.m['read'], [t, b2])
    R.add(cn + '.read of what was written never fails', s2 is not None and not ex, '; '.join(exc_text(x) for x in ex))
    if s2 is None: return R
    R.add(cn + '.read changes only the target and the reader index', not heap_changes(s.heap, s2, f.ok | {t.id, b2.id}), 'changes %s' % heap_changes(s.heap, s2, f.ok | {t.id, b2.id}))
    bf = s2.heap[b2.id]
    R.add(cn + '.read consumes exactly what was written', not bf.flags.get('written') and eng.prove(s2, eq(segs_len(bf.pre), ln)) and len(bf.segs) > 0 and segs_same(bf.segs[-1:], (rest,)), 'left: %s' % short(bf.segs))
    for q in range(n):
        g, s3 = f.get(R, s2, t, q); nm = '%s: position %d reads as in the original after the transfer' % (cn, q)
        if eng.prove(s3, g == g0[q]): R.add(nm, True); continue
        why = 'reads %s' % clip(simp(g))
        if (cn, q) in kn and not find:
            k = kn[cn, q]
            if eng.prove(s3, g == (g0[k] if k >= 0 else z3.BoolVal(False))):
                R.add('%s: position %d reads %s after the transfer, as the known finding says' % (cn, q, 'position %d of the original' % k if k >= 0 else 'false'), True); why = 'KNOWN %s/%d the known finding: reads %s' % (cn, q, 'position %d' % k if k >= 0 else 'false')
        elif find: found[q] = next((k for k in range(n) if eng.prove(s3, g == g0[k])), -1 if eng.prove(s3, Not(g)) else None)
        R.add(nm, False, why)
    R.found = found
    return R

# ---------------------------------------------------------------- contracts that other properties use
def create_ok(eng, fac):
    """create, on the initial table and every discriminator: a fresh message or IllegalArgumentException, nothing changed"""
    R = Result(); f = FacRun(eng, fac); st = f.st; nm = f.tag; key, t = key_of(fac)
    other = st.fork(); other.pc += [bo(Not(is_key(fac, t, c))) for c, _ in fac.cases]
    bad = []; notfresh = []; ch = []; null = []
    for what, s, k in [(str(c), st.fork(), const_key(fac, c)) for c, _ in fac.cases] + [('any other discriminator', other, key)]:
        ids = set(s.heap); before = dict(s.heap)
        outs = [o for o in eng.call(s, f.create, f.args(k)) if eng.feasible(o.st)]
        if not outs: bad.append(what + ': no outcome')
        for o in outs:
            if heap_changes(before, o.st): ch.append(what)
            if o.kind == 'exc':
                if not eng.is_exc(o.val, IAE): bad.append('%s: %s' % (what, exc_text(o)))
            elif not isinstance(o.val, Ref): null.append('%s: %r' % (what, o.val))
            elif o.val.id in ids: notfresh.append(what)
    R.add(nm + '.create fails only with IllegalArgumentException', not bad, '; '.join(bad[:4]))
    R.add(nm + '.create answers an object that nothing else refers to', not notfresh and not null, '; '.join((notfresh + null)[:4]))
    R.add(nm + '.create changes nothing', not ch, ', '.join(ch[:4]))
    return R
def calc_pure(eng, alg):
    """calc is total, leaves the buffer, and is a function of the readable bytes, whatever it calculates"""
    P = Result(); calc_proof(eng, P, ALGS[alg][0].split('/')[-1], alg)
    last = [o for o in P.obs if ' is %s over the readable bytes' % alg in o[0]]
    R = Result(); R.obs = [o for o in P.obs if o not in last]
    nm = ALGS[alg][0].split('/')[-1] + '.calc depends on nothing but the readable bytes'
    if all(o[1] == 'proved' for o in P.obs) and last: R.add(nm, True)
    else:
        # the terms that define the result, relative to the reader index
        r = Ctx(eng, registry=False); st = eng.new_state(); st, ref = r.new(st, ALGS[alg][0])
        inb = z3.Const('in', BA); p0 = z3.BitVec('rpos', 32); n = z3.BitVec('len', 32); eng.facts += [p0 >= 0, n >= 0, p0 <= 0x3fffffff, n <= 0x3fffffff]
        b = eng.alloc(st, Buf((Raw(inb, 0, p0),), (Raw(inb, p0, n),), {'stream': True})); havoc_history(eng, st, [ref])
        s, v, ex = r.call(st, r.find(ALGS[alg][0], 'calc'), [ref, b])
        ts = [x for x in val_terms(eng, s, v)] + [x for i in eng.loops_info for f, e, rec in i['accs'].values() for x in (e, rec) if isz(x)] + [bo(c) for c in s.pc]
        rel = z3.Function('byte$rel', I32, I8)
        def relative(t):
            sub = []; todo = [t]; seen = set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_app(x) and x.decl().name() == 'rawb': sub.append((x, rel(z3.simplify(x.arg(1) - p0))))
                else: todo.extend(x.children())
            return z3.simplify(z3.substitute(t, *sub)) if sub else t
        bad = [t for t in map(relative, ts) if mentions_any(t, {'history', 'rpos', 'in'})]
        R.add(nm, not ex and not bad, 'depends on %s' % [clip(t) for t in bad[:2]])
    return R
def registry_tasks(eng):
    """what the frames use of the registry: the named services are there, lookups change nothing"""
    full = c08(eng); R = Result()
    R.obs = [o for o in full.obs if 'getChecksumService' in o[0] or 'CRC32' in o[0] or 'SSE_BIN' in o[0] or 'SZSE_BIN' in o[0]]
    return R
def support_tasks(add, pid):
    if pid in ('C01', 'C02', 'C03', 'C04', 'C05', 'C15'):
        for f in FACS.values(): add(create_ok, f, units=sorted(m.name for m in MSGS.values() if any(p.kind == 'variant' and p.fac == f.id for p in m.props)), name='create_ok ' + f.id)
    if pid in ('C02', 'C03', 'C16'):
        for a in ('SSE_BIN', 'SZSE_BIN', 'CRC32'): add(calc_pure, a)
    if pid == 'C06':
        for a in ('SSE_BIN', 'SZSE_BIN', 'CRC32'): add(c07, a)
        add(registry_tasks)

def tasks(pid, eng, tier):
    T = []
    def add(fn, *args, units=None, weight=1, name=None): T.append(dict(name=name or '%s %s' % (fn.__name__, ' '.join(str(a) for a in args)), fn=fn, args=args, units=units or [], weight=weight))
    text_tasks(add, pid); support_tasks(add, pid)
    if pid == 'C07':
        for a in ALGS: add(c07, a)
    if pid == 'C08': add(c08)
    if pid in ('C13', 'C14'):
        for c in SIZES: add(c13 if pid == 'C13' else c14, c)
    if pid == 'C09':
        for f in FACS.values():
            add(c09_table, f, units=[f.id], name='c09_table ' + f.id)
            if not f.local: add(c09_ops, f, units=[f.id], name='c09_ops ' + f.id)
        for m in MSGS.values():
            if any(p.kind == 'variant' for p in m.props): add(c09_owner, m, units=sorted({p.fac for p in m.props if p.kind == 'variant'}), name='c09_owner ' + m.name)
    return T
