"""The proof obligations of every property."""
import time, traceback
import z3
from terms import *
from segs import *
from engine import *
import models, loops, spec, cex
from spec import MSGS, FACS, BC, BUFD, IAE, get_props, layout, domain, norm_val, install
from models import RET, eqv, llen, LSym

PRELEN = z3.BitVec('prelen', 32)
LAST = (None, None, None)   # message, property values, engine of the current run
class Result:
    """obligations of one group: (name, status, reason). status: proved | failed | undecided"""
    def __init__(r): r.obs = []; r.cex = []
    def add(r, name, ok, why='', undecided=False):
        if not ok and len(r.cex) < 6 and LAST[0] is not None:
            try:
                g = cex.capture(*LAST)
                if g: r.cex.append((LAST[0].name, g))
            except Exception: pass
        r.obs.append((name, 'proved' if ok else ('undecided' if undecided else 'failed'), '' if ok else str(why)[:600]))
        return ok

class Run:
    """one symbolic run: a message with arbitrary content, encoded and decoded"""
    def __init__(r, eng, msg):
        r.eng = eng; r.msg = msg
        def seen(m, v, st):
            global LAST
            if LAST[0] is None: LAST = (m, v, eng); eng.cur_state = st
        global LAST
        LAST = (None, None, None); eng.on_props = seen
        eng.facts = []; eng.notes = []; eng.callstack = []; eng.frames = []; eng.depth = 0; eng.loops_info = []; eng.null_elems = False
        set_schema([])
        install(eng)
    def message(r, st, name='m'):
        return r.eng.symbolic_object(st, r.msg.cls, z3.Const(name, M))
    def method(r, name, desc=BUFD):
        m = r.eng.prog.find(r.msg.cls, name, desc)
        if m is None or m.code is None: raise Unsupported('no method %s in %s' % (name, r.msg.name))
        return m
    def prebuf(r, st, name='pre'):
        r.eng.facts.append(PRELEN >= 0); r.eng.facts.append(PRELEN <= 0x3fffffff)
        return r.eng.alloc(st, Buf((Raw(z3.Const(name, BA), 0, PRELEN),), (), {'enc': True}))
    def new(r, st):
        e = r.eng
        o = e.new_object(st, r.msg.cls)
        m = e.prog.find(r.msg.cls, '<init>', '()V')
        if m is None: raise Unsupported('no default constructor')
        outs = [x for x in e.call(st, m, [o]) if x.kind == 'ret' or e.feasible(x.st)]
        if len(outs) != 1 or outs[0].kind != 'ret': raise Unsupported('constructor')
        return outs[0].st, o
    def call(r, st, m, args):
        """-> (normal outcome state or None, value, feasible exception outcomes)"""
        outs = r.eng.call(st, m, args)
        excs = [o for o in outs if o.kind == 'exc' and r.eng.feasible(o.st)]
        rets = [o for o in outs if o.kind == 'ret']
        if len(rets) > 1: raise Unsupported('several normal outcomes')
        if rets and not r.eng.feasible(rets[0].st): rets = []
        return (rets[0].st if rets else None), (rets[0].val if rets else None), excs
    def use(r, d):
        r.eng.facts += d.facts; set_schema([d.rule])
def exc_text(o):
    if LAST[2] is not None: check(o.st.pc + LAST[2].facts)    # its model is the counterexample
    return '%s at %s' % (o.val.split('/')[-1], o.site)

def nested_present(eng, st, msg, vals):
    """C16 / encode precondition: nested message parts present"""
    return [bo(Not(spec.null_cond(vals[p.name]))) for p in msg.props if p.kind == 'msg']

# ---------------------------------------------------------------- comparison of property values
def list_eq(eng, st, p, A, B, rel):
    """the element sequences A and B have the same length and related elements"""
    na, nb = llen(A), llen(B)
    if not eng.prove(st, eq(na, nb)): return 'list size %s vs %s' % (clip(nb), clip(na))
    if isinstance(na, int) and na == 0: return None
    k = fresh('kc')
    t = st.fork(); t.pc += [k >= 0, simp(k < b32(na))]
    if not eng.feasible(t): return None
    x = models.lget(eng, t, A, k); y = models.lget(eng, t, B, k)
    return rel(t, p, x, y)
def scalar_same(eng, st, p, a, b):
    """identical values"""
    if isinstance(a, (int, z3.ExprRef)) or isinstance(a, Box):
        if isinstance(a, Box) != isinstance(b, Box) or isinstance(b, (Str, Ref, Alt)) or b is NULL: return 'type of value'
        x, y = spec.unboxed(a), spec.unboxed(b)
        return None if eng.prove(st, eq(x, y)) else 'value %s instead of %s' % (clip(y), clip(x))
    n1, t1 = spec.text_of(a); n2, t2 = spec.text_of(b)
    if not eng.prove(st, simp(bo(n1) == bo(n2))): return 'null or not'
    return None if eng.prove(st, Or(n1, eq(t1, t2))) else 'text %s instead of %s' % (clip(t2), clip(t1))
def rt_rel(eng, st, p, a, b):
    """b is the round-trip image of a (None when proved, otherwise the reason)"""
    k = p.kind
    if k in ('num', 'length', 'checksum'): return scalar_same(eng, st, p, a, b)
    if k == 'text':
        n, t = spec.text_of(b)
        if not eng.prove(st, Not(n)): return 'text may be null after decoding'
        w = norm_val(p, a).t
        return None if eng.prove(st, eq(t, w)) else 'text %s instead of %s' % (clip(t), clip(w))
    if k == 'dyn':
        n1, t1 = spec.text_of(a); n2, t2 = spec.text_of(b)
        x, y = If(n1, EMPTY, t1), If(n2, EMPTY, t2)
        return None if eng.prove(st, eq(x, y)) else 'text %s instead of %s' % (clip(y), clip(x))
    if k == 'list':
        n1, A = spec.list_of(eng, st, a); n2, B = spec.list_of(eng, st, b)
        for sc in ((n1,), (Not(n1),)):
            t = st.fork(); t.pc += [bo(c) for c in sc if c is not True]
            if not eng.feasible(t) or sc[0] is False: continue
            A2 = () if sc[0] is n1 else A
            u = t.fork(); u.pc.append(bo(n2))
            if n2 is not False and eng.feasible(u):
                if not eng.prove(u, eq(llen(A2), 0)): return 'list may be lost'
            u = t.fork(); u.pc.append(bo(Not(n2)))
            if n2 is not True and eng.feasible(u):
                w = list_eq(eng, u, p.el, A2, B, lambda s_, q, x, y: rt_rel(eng, s_, q, x, y))
                if w: return w
        return None
    if k in ('msg', 'variant'):
        if not eng.prove(st, Not(null_cond(b))): return 'part may be null after decoding'
        ca = None
        for c, x in reversed(nonnull(a)):
            y = spec.content(eng, st, x); ca = y if ca is None else If(c, y, ca)
        cb = None
        for c, x in reversed(nonnull(b)):
            y = spec.content(eng, st, x); cb = y if cb is None else If(c, y, cb)
        if k == 'msg' and any(st.heap[x.id].cls != p.cls for _, x in nonnull(b)): return 'class of the part'
        return None if eng.prove(st, cb == norm(ca)) else 'nested part'
    raise KeyError(k)

# ---------------------------------------------------------------- C01 / C03 / C05: encode, then decode
def roundtrip(eng, msg, want=('C01',), fits=True):
    """encode an arbitrary message of the domain, decode the result"""
    R = Result(); nm = msg.name
    r = Run(eng, msg); st = eng.new_state()
    o = r.message(st); st, v0 = get_props(eng, st, o, msg)
    b = r.prebuf(st)
    r.use(domain(eng, st, msg, v0, fits))
    if not R.add('%s: the round-trip domain is not empty' % nm, eng.feasible(st), 'contradictory preconditions', True): return R
    st1, _, ex = r.call(st, r.method('encode'), [o, b])
    for x in ex: R.add('%s.encode returns normally' % nm, False, exc_text(x))
    if st1 is None: return R
    st = st1
    st, v1 = get_props(eng, st, o, msg)
    segs = st.heap[b.id].segs
    st, o2 = r.new(st)
    rest = Raw(z3.Const('rest', BA), 0, z3.BitVec('restlen', 32)); eng.facts.append(z3.BitVec('restlen', 32) >= 0)
    b2 = eng.alloc(st, Buf((), tuple(segs) + (rest,), {}))
    st2, _, ex = r.call(st, r.method('decode'), [o2, b2])
    if 'C01' in want:
        for x in ex: R.add('%s.decode of encoded bytes returns normally' % nm, False, exc_text(x))
        if not ex: R.add('%s.decode of encoded bytes returns normally' % nm, st2 is not None, 'no normal outcome')
    if st2 is None: return R
    st = st2
    bf = st.heap[b2.id]
    if 'C01' in want:
        st, v2 = get_props(eng, st, o2, msg)
        for p in msg.props:
            try: w = rt_rel(eng, st, p, v1[p.name] if p.kind in ('length', 'checksum') else v0[p.name], v2[p.name]); und = False
            except Unsupported as x: w = x; und = True
            R.add('%s: %s survives encode and decode' % (nm, p.name), w is None, w, und)
    if 'C03' in want:
        left = list(bf.segs)
        while left and not isinstance(left[0], Raw) and eng.prove(st, eq(seg_len(left[0]), 0)): left.pop(0)
        if len(left) > 1 and Cmp(eng.facts).empty(st.pc, tuple(left[:-1])): left = left[-1:]
        ok = len(left) == 1 and seg_same(left[0], rest)
        R.add('%s.decode consumes exactly the encoded bytes' % nm, ok, 'left: ' + short(tuple(left)))
        R.add('%s.decode does not write to the buffer' % nm, not bf.flags.get('written'), 'writes')
    if 'C05' in want:
        left = list(bf.segs)
        while left and not isinstance(left[0], Raw) and eng.prove(st, eq(seg_len(left[0]), 0)): left.pop(0)
        if len(left) > 1 and Cmp(eng.facts).empty(st.pc, tuple(left[:-1])): left = left[-1:]
        R.add('%s.decode reads the whole encoding' % nm, len(left) == 1 and isinstance(left[0], Raw) and str(left[0].b) == 'rest', 'left: ' + short(tuple(left)))
        bad = [k for k in ('unchecked', 'pending', 'lenused', 'absget', 'seeked', 'written') if bf.flags.get(k) not in (None, False)]
        R.add('%s.decode only takes bytes through reads that are checked against the writer index' % nm, not bad, 'uses ' + ', '.join(bad), True)
    return R

# ---------------------------------------------------------------- shared pieces
LIM = z3.BitVec('limit', 32)
def statics_same(eng, st):
    """no object reachable from static state was changed"""
    return [k for k, v in eng.base.heap.items() if st.heap.get(k) is not v and not (isinstance(v, (int, str)) and st.heap.get(k) == v)]
def mentions_any(t, names):
    if not isz(t): return False
    todo = [t]; seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names: return True
        todo.extend(x.children())
    return False
def seg_terms(gs):
    for g in gs:
        for x in g:
            if isinstance(x, tuple): yield from seg_terms(x)
            elif isz(x): yield x
def val_terms(eng, st, v, depth=0):
    """every term a value depends on"""
    if isz(v): yield v
    elif isinstance(v, Str):
        if v.t is not None: yield v.t
    elif isinstance(v, Box): yield from val_terms(eng, st, v.v)
    elif isinstance(v, Opq): yield v.t
    elif isinstance(v, models.MV): yield v.content
    elif isinstance(v, Alt):
        for c, x in v.alts:
            if isz(c): yield c
            yield from val_terms(eng, st, x, depth)
    elif isinstance(v, Ref):
        o = st.heap[v.id]
        if isinstance(o, Lst): yield from lst_terms(eng, st, o.segs)
        elif isinstance(o, Obj):
            if o.content is not None: yield o.content
            elif depth < 6:
                for x in o.fields.values(): yield from val_terms(eng, st, x, depth + 1)
        else: raise Unsupported('value')
    elif isinstance(v, (int, str)) or v is NULL or isinstance(v, (Tok, Clo)): return
    else: raise Unsupported('value %r' % (v,))
def lst_terms(eng, st, gs):
    for g in gs:
        if isinstance(g, models.LSym): yield g.t
        elif isinstance(g, LOne): yield from val_terms(eng, st, g.v)
        elif isinstance(g, LRep):
            if isz(g.n): yield g.n
            yield from val_terms(eng, st, g.v)
        elif isinstance(g, LIt):
            yield bo(g.c); yield from lst_terms(eng, st, g.a); yield from lst_terms(eng, st, g.b)
        else: raise Unsupported('list value')
def same_value(eng, st, a, b):
    """a and b are the same value (identity, or the same content)"""
    if a is b: return True
    if isinstance(a, (int, z3.ExprRef)) and isinstance(b, (int, z3.ExprRef)): return eng.prove(st, eq(a, b))
    if isinstance(a, Alt) or isinstance(b, Alt):
        la = a.alts if isinstance(a, Alt) else [(True, a)]; lb = b.alts if isinstance(b, Alt) else [(True, b)]
        for c1, x in la:
            for c2, y in lb:
                t = st.fork(); t.pc += [bo(c) for c in (c1, c2) if c is not True]
                if not eng.feasible(t): continue
                if not same_value(eng, t, x, y): return False
        return True
    if a is NULL or b is NULL: return a is b
    if isinstance(a, Str) and isinstance(b, Str): return a.t is not None and b.t is not None and eng.prove(st, eq(a.t, b.t))
    if isinstance(a, Box) and isinstance(b, Box): return a.kind == b.kind and eng.prove(st, eq(a.v, b.v))
    if isinstance(a, Opq) and isinstance(b, Opq): return eng.prove(st, eq(a.t, b.t))
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b: return True
        x, y = st.heap[a.id], st.heap[b.id]
        if isinstance(x, Obj) and isinstance(y, Obj) and x.content is not None and y.content is not None: return x.cls == y.cls and eng.prove(st, eq(x.content, y.content))
        if isinstance(x, Lst) and isinstance(y, Lst): return len(x.segs) == len(y.segs) and all(lseg_same(p, q) for p, q in zip(x.segs, y.segs))
        return False
    return isinstance(a, (Tok, Clo)) and a == b
def fresh_prebuf(r, st, tag=''):
    """a buffer that holds consumed bytes and unread bytes before the place of writing"""
    p = z3.BitVec('prelen' + tag, 32); u = z3.BitVec('unread' + tag, 32)
    r.eng.facts += [p >= 0, p <= 0x1fffffff, u >= 0, u <= 0x1fffffff]
    pre = Raw(z3.Const('pre' + tag, BA), 0, p); un = Raw(z3.Const('unreadbytes' + tag, BA), 0, u)
    return r.eng.alloc(st, Buf((pre,), (un,), {'enc': True})), pre, un
PRENAMES = {'prelen', 'unread', 'pre', 'unreadbytes'}
def appended(eng, st, b, pre, un):
    """segments appended to the buffer, or None when its earlier content changed"""
    bf = st.heap[b.id]
    if not (len(bf.pre) == 1 and seg_same(bf.pre[0], pre) and bf.segs and seg_same(bf.segs[0], un)): return None
    return tuple(bf.segs[1:])
def excs_to(R, name, ex, ok=()):
    bad = [x for x in ex if not ok(x)] if callable(ok) else [x for x in ex if x.val not in ok]
    for x in bad: R.add(name, False, exc_text(x))
    if not bad: R.add(name, True)
def encode_run(eng, msg, null_elems=False):
    """encode an arbitrary message whose nested parts are present"""
    r = Run(eng, msg); st = eng.new_state(); eng.null_elems = null_elems
    o = r.message(st); st, v0 = get_props(eng, st, o, msg)
    b, pre, un = fresh_prebuf(r, st)
    eng.facts += nested_present(eng, st, msg, v0)
    if not eng.feasible(st): raise Unsupported('contradictory preconditions')
    snap = dict(st.heap)
    st1, _, ex = r.call(st, r.method('encode'), [o, b])
    return r, o, b, pre, un, v0, st1, ex, snap
def expected_values(eng, st, msg, v0):
    """property values after encode: length and checksum as computed by the frame contract"""
    vals = dict(v0); segs = ()
    for p in msg.props:
        if p.kind == 'length':
            vals[p.name] = segs_len(wire(eng, st, msg.prop(p.body), v0[p.body]))
        elif p.kind == 'checksum':
            h, s = spec.svc_has(strc(p.alg)), spec.svc_val(strc(p.alg))
            v = eng.calc.value(eng, st, s, segs)
            vals[p.name] = If(h, v, spec.unboxed(v0[p.name]))
        segs += wire(eng, st, p, vals[p.name])
    return vals, segs
wire = spec.wire

# ---------------------------------------------------------------- C02
def c02_encode(eng, msg):
    R = Result(); nm = msg.name
    r, o, b, pre, un, v0, st, ex, _ = encode_run(eng, msg)
    excs_to(R, nm + '.encode returns normally', ex)
    if st is None: R.add(nm + '.encode has a normal outcome', False); return R
    segs = appended(eng, st, b, pre, un)
    if not R.add(nm + '.encode only appends', segs is not None, 'earlier content changed'): return R
    if any(p.kind in ('length', 'checksum') for p in msg.props): _, want = expected_values(eng, st, msg, v0)
    else: want = layout(eng, st, msg, v0)
    c = Cmp(eng.facts); ok = c.eqsegs(st.pc, segs, want)
    R.add(nm + '.encode writes the specified layout', ok, c.why)
    return R
def c02_decode(eng, msg):
    """decode reads each property from where the layout puts it"""
    R = Result(); nm = msg.name
    r = Run(eng, msg); st = eng.new_state()
    o = r.message(st); st, v0 = get_props(eng, st, o, msg)
    r.use(domain(eng, st, msg, v0, True))
    if not R.add(nm + ': the layout domain is not empty', eng.feasible(st), 'contradictory preconditions', True): return R
    segs = layout(eng, st, msg, v0)
    st, o2 = r.new(st)
    rest = Raw(z3.Const('rest', BA), 0, z3.BitVec('restlen', 32)); eng.facts.append(z3.BitVec('restlen', 32) >= 0)
    b2 = eng.alloc(st, Buf((), tuple(segs) + (rest,), {}))
    st, _, ex = r.call(st, r.method('decode'), [o2, b2])
    excs_to(R, nm + '.decode of the layout returns normally', ex)
    if st is None: R.add(nm + '.decode of the layout has a normal outcome', False); return R
    st, v2 = get_props(eng, st, o2, msg)
    for p in msg.props:
        try: w = rt_rel(eng, st, p, v0[p.name], v2[p.name]); und = False
        except Unsupported as x: w = x; und = True
        R.add('%s: %s is read from its place in the layout' % (nm, p.name), w is None, w, und)
    return R

# ---------------------------------------------------------------- C03 (encode half), C16
def c03_encode(eng, msg):
    R = Result(); nm = msg.name
    r, o, b, pre, un, v0, st, ex, _ = encode_run(eng, msg)
    if st is None: R.add(nm + '.encode has a normal outcome', False, '; '.join(exc_text(x) for x in ex)); return R
    segs = appended(eng, st, b, pre, un)
    if not R.add(nm + '.encode leaves the earlier bytes and the reader index alone', segs is not None, 'earlier content or reader index changed'): return R
    used = [t for t in seg_terms(segs) if mentions_any(t, PRENAMES)]
    cv = [v for s, g, v in eng.calc.calls if any(mentions_any(t, PRENAMES) for t in seg_terms(g))]
    cn = {v.decl().name() for v in cv}
    used += [t for t in seg_terms(segs) if mentions_any(t, cn)]
    if not used: R.add(nm + '.encode appends the same bytes whatever the buffer held', True); return R
    # two runs with different earlier content
    calls = eng.calc.calls
    st2 = eng.new_state(); o2 = eng.symbolic_object(st2, msg.cls, z3.Const('m', M))
    b2, pre2, un2 = fresh_prebuf(r, st2, '2')
    s2, _, _ = r.call(st2, r.method('encode'), [o2, b2])
    g2 = appended(eng, s2, b2, pre2, un2) if s2 is not None else None
    c = Cmp(eng.facts)
    ok = g2 is not None and c.eqsegs(st.pc + s2.pc, segs, g2)
    R.add(nm + '.encode appends the same bytes whatever the buffer held', ok, c.why)
    return R
def c16(eng, msg):
    R = Result(); nm = msg.name
    r, o, b, pre, un, v0, st, ex, snap = encode_run(eng, msg, True)
    excs_to(R, nm + '.encode never fails', ex)
    if st is None: R.add(nm + '.encode has a normal outcome', False); return R
    segs = appended(eng, st, b, pre, un)
    if segs is None: R.add(nm + '.encode appends', False, 'earlier content changed'); return R
    st, v1 = get_props(eng, st, o, msg)
    for p in msg.props:
        if p.kind in ('length', 'checksum'): continue
        R.add('%s.encode leaves %s unchanged' % (nm, p.name), same_value(eng, st, v0[p.name], v1[p.name]), 'changed')
    ch = [k for k in snap if k != o.id and k != b.id and k in st.heap and st.heap[k] is not snap[k] and isinstance(snap[k], (Lst, Obj))
          and not (isinstance(snap[k], Obj) and snap[k].fields is None and st.heap[k].content is snap[k].content)]
    R.add(nm + '.encode leaves nested parts and lists unchanged', not ch and not st.heap.get(('mutated',)), 'changed objects %s' % ch)
    R.add(nm + '.encode changes no static state', not statics_same(eng, st), str(statics_same(eng, st)))
    # once more, directly behind the first encoding
    before = st.heap[b.id]
    s2, _, ex = r.call(st, r.method('encode'), [o, b])
    excs_to(R, nm + '.encode of an encoded message never fails', ex)
    if s2 is None: R.add(nm + '.encode can be repeated', False); return R
    bf = s2.heap[b.id]; n0 = len(before.segs)
    if not R.add(nm + '.encode again only appends', len(bf.segs) >= n0 and all(x is y or seg_same(x, y) for x, y in zip(bf.segs, before.segs)) and segs_same(bf.pre, before.pre), 'earlier output changed'): return R
    c = Cmp(eng.facts); ok = c.eqsegs(s2.pc, segs, tuple(bf.segs[n0:]))
    R.add(nm + '.encode writes the same bytes again', ok, c.why)
    return R

# ---------------------------------------------------------------- C06
def c06(eng, msg):
    R = Result(); nm = msg.name
    r, o, b, pre, un, v0, st, ex, _ = encode_run(eng, msg)
    if st is None: R.add(nm + '.encode has a normal outcome', False, '; '.join(exc_text(x) for x in ex)); return R
    segs = appended(eng, st, b, pre, un)
    if not R.add(nm + '.encode appends the frame', segs is not None, 'earlier content changed'): return R
    want, wsegs = expected_values(eng, st, msg, v0)
    st, v1 = get_props(eng, st, o, msg)
    for p in msg.props:
        if p.kind == 'length':
            R.add('%s: %s becomes the number of encoded body bytes' % (nm, p.name), eng.prove(st, eq(low(spec.unboxed(v1[p.name]), 32), low(b32(want[p.name]), 32))), '%s instead of %s' % (clip(v1[p.name]), clip(want[p.name])))
        if p.kind == 'checksum':
            R.add('%s: %s becomes %s over the preceding bytes of the frame, or stays without the service' % (nm, p.name, p.alg), eng.prove(st, eq(spec.unboxed(v1[p.name]), want[p.name])), '%s instead of %s' % (clip(v1[p.name]), clip(want[p.name])))
    # the fields: compare the segments property by property
    c = Cmp(eng.facts); ok = c.eqsegs(st.pc, segs, wsegs)
    R.add('%s: the encoded length and checksum fields carry these values' % nm, ok, c.why)
    return R

# ---------------------------------------------------------------- C05
def c05(eng, msg):
    R = Result(); nm = msg.name
    r = Run(eng, msg); st = eng.new_state()
    o = r.message(st); st, v0 = get_props(eng, st, o, msg)
    b = r.prebuf(st)
    r.use(domain(eng, st, msg, v0, True))
    if not R.add(nm + ': the round-trip domain is not empty', eng.feasible(st), 'contradictory preconditions', True): return R
    st1, _, ex = r.call(st, r.method('encode'), [o, b])
    if st1 is None: R.add(nm + '.encode has a normal outcome', False, '; '.join(exc_text(x) for x in ex)); return R
    st = st1; segs = tuple(st.heap[b.id].segs); tot = segs_len(segs)
    st, o2 = r.new(st)
    eng.facts += [LIM >= 0, bo(simp(LIM < b32(tot)))]
    if not eng.feasible(st):
        R.add(nm + ': the encoding has no strict prefix', same(tot, 0), 'no strict prefix', True); return R
    b2 = eng.alloc(st, Buf((), segs, {'limit': LIM}))
    st2, _, ex = r.call(st, r.method('decode'), [o2, b2])
    for x in ex:
        if not eng.is_exc(x.val, IOOBE): R.add(nm + '.decode of a strict prefix fails with IndexOutOfBoundsException', False, exc_text(x))
    R.add(nm + '.decode of a strict prefix never returns normally', st2 is None, 'a normal return is possible')
    if not R.obs or all(s == 'proved' for _, s, _ in R.obs): R.add(nm + '.decode of a strict prefix fails with IndexOutOfBoundsException', bool(ex), 'no outcome')
    return R

def c05_causal(eng, msg):
    """decode of an encoding consumes all of it, through checked reads only, and no method on the way
    catches exceptions: then on a strict prefix the first read that passes the end throws"""
    eng.visited = set()
    R = roundtrip(eng, msg, ('C05',))
    ms = {m.id: m for c in eng.prog.classes.values() for m in c.methods.values()}
    h = sorted(v for v in eng.visited if v in ms and ms[v].exc)
    R.add(msg.name + '.decode and what it calls catch no exception', not h, ', '.join(h), True)
    if any(s != 'proved' for _, s, _ in R.obs):
        R2 = c05(eng, msg)
        if all(s == 'proved' for _, s, _ in R2.obs): return R2
    return R

# ---------------------------------------------------------------- C04, C15: arbitrary bytes
def stream_run(eng, msg, safety=False):
    r = Run(eng, msg); st = eng.new_state()
    o = r.message(st)
    inb = z3.Const('in', BA); p0 = z3.BitVec('rpos', 32); n = z3.BitVec('avail', 32)
    end = z3.BitVec('wpos', 32); n = simp(end - p0)
    eng.facts += [p0 >= 0, end >= p0, end <= 0x7ffffffe]
    b = eng.alloc(st, Buf((Raw(inb, 0, p0),), (Raw(inb, p0, n),), dict({'stream': True}, **({'abs': (p0, end)} if safety else {}))))
    snap = dict(st.heap)
    return r, st, o, b, inb, p0, n, snap
def c04(eng, msg):
    R = Result(); nm = msg.name
    r, st, o, b, inb, p0, n, snap = stream_run(eng, msg, True)
    outs = eng.call(st, r.method('decode'), [o, b])
    end = z3.BitVec('wpos', 32)
    nret = 0; bad = []; rd_ = []; ex_seen = False
    for x in outs:
        f = x.st.heap[b.id]
        if x.kind == 'exc':
            if not (eng.is_exc(x.val, IOOBE) or eng.is_exc(x.val, IAE) and x.msg == 'discriminator'):
                if eng.feasible(x.st): bad.append(exc_text(x))
                continue
        elif not eng.feasible(x.st): continue
        else: nret += 1
        fl = f.flags
        if fl.get('written'): rd_.append('the buffer is written')
        if fl.get('unchecked') or fl.get('pending') is not None: rd_.append('text is read without a check against the writer index')
        if x.st.heap.get(('prealloc',)): rd_.append('a list is allocated for an unchecked number of elements')
        if x.st.heap.get(('nogrowth',)): rd_.append('a list grows without consuming input')
        pos = segs_len(f.pre); left = segs_len(f.segs)
        if not eng.prove(x.st, And(simp(b32(pos) >= p0), simp(b32(pos) <= end), eq(iop('add', pos, left), end))): rd_.append('reader index')
        if x.kind == 'ret' and not eng.prove(x.st, simp(b32(pos) - p0 >= spec.minlen(msg.cls))): rd_.append('fewer bytes consumed than the layout has')
    R.add(nm + '.decode of arbitrary bytes fails only with IndexOutOfBounds or an unknown discriminator', not bad, '; '.join(bad[:3]))
    R.add(nm + '.decode of arbitrary bytes terminates and keeps the buffer, its writer index and a valid reader index', not rd_, '; '.join(sorted(set(rd_))))
    R.add(nm + '.decode of arbitrary bytes can return normally', nret == 1, 'vacuous', True)
    return R
def c15(eng, msg):
    R = Result(); nm = msg.name
    # nested parts: one run for each combination of absent and present parts before decoding
    parts = [p.name for p in msg.props if p.kind == 'msg']
    if len(parts) > 4: parts = []
    runs = [c15_run(eng, msg, R, {p: bool(i >> j & 1) for j, p in enumerate(parts)}) for i in range(1 << len(parts))]
    if len(runs) > 1:
        bad = set(); kinds = None
        o0, v0 = runs[0]
        for o1, v1 in runs[1:]:
            m0 = {}; m1 = {}
            for mm, oo in ((m0, o0), (m1, o1)):
                for x in oo: mm.setdefault((x.kind, x.val if x.kind == 'exc' else None, canon(x.st.pc)), x)
            # outcomes with the same condition in both runs agree; the others must exclude each other
            for x in [x for q, x in m0.items() if q not in m1]:
                for y in [y for q, y in m1.items() if q not in m0] or o1:
                    if x.kind == y.kind and (x.kind == 'ret' or x.val == y.val): continue
                    if check(x.st.pc + y.st.pc + eng.facts)[0] != 'unsat': kinds = '%s or %s on the same input' % (x.val or 'normal return', y.val or 'normal return')
            if v0 is None or v1 is None: continue
            t = v0[0].fork(); t.pc = t.pc + v1[0].pc
            for p in msg.props:
                if not same_in(eng, t, v0[0], v0[1][p.name], v1[0], v1[1][p.name], p): bad.add(p.name)
            if not eng.prove(t, eq(v0[2], v1[2])): bad.add('consumed bytes')
        R.add('%s.decode sets every property alike whatever nested parts were present' % nm, not bad, 'depends on the earlier content: ' + ', '.join(sorted(bad)))
        R.add('%s.decode has the same outcome whatever nested parts were present' % nm, kinds is None, kinds, True)
    return R
def canon(cs):
    """text of a conjunction with fresh symbols numbered in order of appearance"""
    import re
    num = {}
    return re.sub(r'(?<!a)!\d+|(?<=\wa)!\d+', lambda m: '!%d' % num.setdefault(m.group(0), len(num)), ' & '.join(bo(c).sexpr() for c in cs))
def detached(eng, st, gs):
    """list segments that no longer depend on the heap of st"""
    from loops import conv_val
    out = []
    for g in gs:
        if isinstance(g, LOne): g = LOne(conv_val(eng, st, g.v))
        elif isinstance(g, LIt): g = LIt(g.c, detached(eng, st, g.a), detached(eng, st, g.b))
        out.append(g)
    return tuple(out)
def same_in(eng, t, s1, a, s2, b, p):
    """value a of state s1 equals value b of state s2 (under the path condition of t)"""
    if isinstance(a, Ref) and isinstance(b, Ref):
        x, y = s1.heap[a.id], s2.heap[b.id]
        if isinstance(x, Obj) and isinstance(y, Obj): return x.content is not None and y.content is not None and x.cls == y.cls and eng.prove(t, eq(x.content, y.content))
        if isinstance(x, Lst) and isinstance(y, Lst): return list_eq(eng, t, p.el, detached(eng, s1, x.segs), detached(eng, s2, y.segs), lambda s_, q, u, w: None if same_value(eng, s_, u, w) else 'element') is None
        return False
    if isinstance(a, Alt) or isinstance(b, Alt):
        la = a.alts if isinstance(a, Alt) else [(True, a)]; lb = b.alts if isinstance(b, Alt) else [(True, b)]
        for c1, x in la:
            for c2, y in lb:
                u = t.fork(); u.pc += [bo(c) for c in (c1, c2) if c is not True]
                if eng.feasible(u) and not same_in(eng, u, s1, x, s2, y, p): return False
        return True
    return same_value(eng, t, a, b)
def c15_run(eng, msg, R, case):
    nm = msg.name
    r, st, o, b, inb, p0, n, snap = stream_run(eng, msg)
    if case:
        st, v = get_props(eng, st, o, msg)
        ob = st.heap[o.id]; nf = dict(ob.fields)
        for f, x in ob.fields.items():
            for q, present in case.items():
                if x is v[q] and isinstance(x, Alt): nf[f] = next(y for c, y in x.alts if (y is NULL) != present)
        st.heap[o.id] = Obj(ob.cls, nf, None); nm += ' (%s)' % ', '.join('%s %s' % (q, 'present' if w else 'absent') for q, w in case.items())
    outs = [x for x in eng.call(st, r.method('decode'), [o, b]) if x.kind == 'ret' or eng.feasible(x.st)]
    old = {'m'}; hit = []; dep = []; val = None
    for x in outs:
        pcs = [c for c in x.st.pc if mentions_any(bo(c), old)]
        if pcs: dep.append((x, pcs))
        if x.kind != 'ret': continue
        f = x.st.heap[b.id]
        if any(mentions_any(t, old) for t in seg_terms(f.pre + f.segs)): hit.append('consumed bytes')
        t, v = get_props(eng, x.st, o, msg)
        val = (t, v, segs_len(f.pre))
        for p in msg.props:
            ts = [bo(y) if not z3.is_bv(y) and z3.is_bool(y) else y for y in val_terms(eng, t, v[p.name])]
            if any(mentions_any(y, old) and not irrelevant(eng, t, y) for y in ts): hit.append(p.name)
        R.add('%s.decode sets every property from the input alone' % nm, not hit, 'depends on the earlier content: %s' % ', '.join(hit))
    if dep:
        # the kind of outcome must not depend on the earlier content
        ok, why = independent(eng, dep, outs)
        R.add('%s.decode: the outcome does not depend on the earlier content' % nm, ok, why, True)
    else: R.add('%s.decode: the outcome does not depend on the earlier content' % nm, True)
    if not any(x.kind == 'ret' for x in outs): R.add(nm + '.decode can return normally', False, 'vacuous', True)
    if outs: R.add('%s.decode changes no static state' % nm, all(not statics_same(eng, x.st) for x in outs))
    return outs, val
def irrelevant(eng, st, t):
    """t does not change when the earlier content is replaced by any other"""
    u = z3.substitute(t, (z3.Const('m', M), z3.Const('m2', M)))
    h = [z3.substitute(bo(c), (z3.Const('m', M), z3.Const('m2', M))) for c in st.pc]
    return prove(st.pc + h + eng.facts, simp(t == u) if isz(t) else True)
def independent(eng, dep, outs):
    sub = lambda c: z3.substitute(bo(c), (z3.Const('m', M), z3.Const('m2', M)))
    fo = [x for x in outs if x.kind == 'ret' or eng.feasible(x.st)]
    for i, x in enumerate(fo):
        for j, y in enumerate(fo):
            if x.kind == y.kind and (x.kind == 'ret' or x.val == y.val): continue
            if check(x.st.pc + [sub(c) for c in y.st.pc] + eng.facts)[0] != 'unsat': return False, '%s or %s on the same input' % (x.val or 'normal return', y.val or 'normal return')
    return True, ''

# ---------------------------------------------------------------- C10, C11, C17
def c10(eng, msg):
    R = Result(); nm = msg.name
    r = Run(eng, msg); st = eng.new_state(); prog = eng.prog
    a = eng.symbolic_object(st, msg.cls, z3.Const('a', M)); b = eng.symbolic_object(st, msg.cls, z3.Const('b', M))
    st, va = get_props(eng, st, a, msg); st, vb = get_props(eng, st, b, msg)
    snap = dict(st.heap)
    me = prog.find(msg.cls, 'equals', '(Ljava/lang/Object;)Z'); mh = prog.find(msg.cls, 'hashCode', '()I')
    def run(m, args, what):
        t = st.fork()
        outs = [x for x in eng.call(t, m, args) if x.kind == 'ret' or eng.feasible(x.st)]
        ex = [x for x in outs if x.kind == 'exc']
        R.add('%s.%s never fails' % (nm, what), not ex, '; '.join(exc_text(x) for x in ex))
        rets = [x for x in outs if x.kind == 'ret']
        if not rets: return None, None
        x = rets[0]
        ch = [k for k, v in snap.items() if x.st.heap.get(k) is not v]
        R.add('%s.%s changes nothing' % (nm, what), not ch, 'changed %s' % ch)
        return x.st, x.val
    def formula(s):
        cs = []
        for p in msg.props:
            x, y = va[p.name], vb[p.name]
            d = getter(prog, msg.cls, p).desc.split(')')[1]
            if isinstance(x, (int, z3.ExprRef)): cs.append(eq(models.fkey(x, d), models.fkey(y, d)) if d in 'FD' else eq(x, y))
            else: cs.append(eqv(eng, s, x, y))
        return And(*cs)
    if me is None: me_cls = None
    want = formula(st)
    if me is None:
        R.add(nm + '.equals compares all properties', not msg.props and False, 'no equals method')
    else:
        s, v = run(me, [a, b], 'equals')
        if s is not None: R.add(nm + '.equals is equality of all properties', eng.prove(s, simp(bo(icmp('ne', v, 0)) == bo(want))), 'result %s' % clip(v))
        s, v = run(me, [a, a], 'equals(itself)')
        if s is not None: R.add(nm + '.equals is reflexive', eng.prove(s, bo(icmp('ne', v, 0))), clip(v))
        s, v = run(me, [a, NULL], 'equals(null)')
        if s is not None: R.add(nm + '.equals(null) is false', eng.prove(s, bo(icmp('eq', v, 0))), clip(v))
        oth = next(c for c in MSGS if c != msg.cls)
        for what, mk in (('a message of another type', lambda t: eng.symbolic_object(t, oth, z3.Const('c', M))), ('a text', lambda t: Str(z3.Const('txt', S)))):
            x = mk(st); snap = dict(st.heap)
            s, v = run(me, [a, x], 'equals(%s)' % what)
            if s is not None: R.add('%s.equals(%s) is false' % (nm, what), eng.prove(s, bo(icmp('eq', v, 0))), clip(v))
    if mh is None: R.add(nm + '.hashCode agrees with equals', me is None, 'no hashCode method')
    else:
        s, h1 = run(mh, [a], 'hashCode')
        if s is not None:
            # the run on b is the same run with a renamed to b
            ren = lambda t: z3.substitute(b32(t) if not isz(t) else t, (z3.Const('a', M), z3.Const('b', M)))
            hy = s.pc + [ren(bo(c)) for c in s.pc] + eng.facts + [bo(want)]
            R.add(nm + '.hashCode of equal messages is equal', cong(hy, b32(h1), ren(h1)) or prove(hy, eq(b32(h1), ren(h1))), 'may differ')
    return R
def cong(hy, x, y, depth=0):
    """x == y, argument by argument where both are sums or products of the same shape"""
    if x.eq(y): return True
    if z3.is_app(x) and z3.is_app(y) and x.num_args() and x.decl().eq(y.decl()) and x.num_args() == y.num_args():
        kd = x.decl().kind()
        if kd in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BXOR, z3.Z3_OP_BSUB, z3.Z3_OP_BSHL, z3.Z3_OP_CONCAT, z3.Z3_OP_EXTRACT):
            return all(cong(hy, p, q) for p, q in zip(x.children(), y.children()))
        if kd == z3.Z3_OP_ITE and depth < 12:
            (c, p, q), (d, u, v) = x.children(), y.children()
            if prove(hy, c == d): return cong(hy + [c], p, u, depth + 1) and cong(hy + [z3.Not(c)], q, v, depth + 1)
    return prove(hy, eq(x, y))
from spec import getter, setter
def arbitrary(eng, st, cls, p, d, elem, tag):
    """an arbitrary value of the type of property p"""
    class F: pass
    f = F(); f.name = tag; f.desc = d; f.elem = elem
    class C: pass
    c = C(); c.name = 'arg'
    return eng.field_value(st, z3.Const('x', M), c, f)
def c11(eng, msg):
    R = Result(); nm = msg.name
    for p in msg.props:
        r = Run(eng, msg); st = eng.new_state()
        g = getter(eng.prog, msg.cls, p); s = setter(eng.prog, msg.cls, p)
        if g is None or s is None: R.add('%s: %s has a getter and a setter' % (nm, p.name), False, 'missing', True); continue
        o = eng.symbolic_object(st, msg.cls, z3.Const('m', M))
        st, v0 = get_props(eng, st, o, msg)
        d = parse_desc(s.desc)[0][0]
        el = next((f.elem for f in eng.prog.classes[msg.cls].fields.values() if f.desc == d and f.name == p.name), None) if d[0] == 'L' else None
        if d == 'Ljava/util/List;' and el is None: el = 'java/lang/Integer'
        x = arbitrary(eng, st, msg.cls, p, d, el, 'x' + d)
        snap = dict(st.heap)
        st1, _, ex = r.call(st, s, [o, x])
        for e in ex: R.add('%s: setting %s never fails' % (nm, p.name), False, exc_text(e))
        if st1 is None: continue
        ch = [k for k, v in snap.items() if k != o.id and st1.heap.get(k) is not v]
        R.add('%s: setting %s changes nothing else' % (nm, p.name), not ch, 'changed %s' % ch)
        after = dict(st1.heap)
        st2, v1 = get_props(eng, st1, o, msg)
        R.add('%s: get %s after set' % (nm, p.name), same_value(eng, st2, x, v1[p.name]), '%r' % (v1[p.name],))
        oth = [q.name for q in msg.props if q is not p and not same_value(eng, st2, v0[q.name], v1[q.name])]
        R.add('%s: setting %s leaves the other properties' % (nm, p.name), not oth, 'changes ' + ', '.join(oth))
        ch = [k for k, v in after.items() if st2.heap.get(k) is not v and not (k == o.id and st2.heap[k].fields == v.fields)]
        R.add('%s: getting changes nothing' % nm, not ch, 'changed %s' % ch)
    return R
def c17(eng, msg):
    R = Result(); nm = msg.name
    r = Run(eng, msg); st = eng.new_state()
    o = r.message(st); st, v0 = get_props(eng, st, o, msg)
    m = eng.prog.find(msg.cls, 'toString', '()Ljava/lang/String;')
    if m is None: R.add(nm + '.toString', False, 'no toString method'); return R
    outs = [x for x in eng.call(st, m, [o]) if x.kind == 'ret' or eng.feasible(x.st)]
    ex = [x for x in outs if x.kind == 'exc']
    R.add(nm + '.toString never fails', not ex, '; '.join(exc_text(x) for x in ex))
    rets = [x for x in outs if x.kind == 'ret']
    if not rets: return R
    t, v = rets[0].st, rets[0].val
    parts = [('lit', msg.short.split('$')[-1] + ' [')]
    for i, p in enumerate(msg.props):
        d = getter(eng.prog, msg.cls, p).desc.split(')')[1]
        parts += [('lit', (', ' if i else '') + p.name + '=')] + models.eng_show(eng, t, v0[p.name], d if len(d) == 1 and d not in 'BSI' else None)
    parts.append(('lit', ']'))
    got = norm_parts(parts_of(v)) if isinstance(v, Str) else None
    want = norm_parts(parts)
    R.add(nm + '.toString shows the type and every property in order', got == want, '%s' % (first_diff(got, want),))
    return R
def first_diff(a, b):
    for x, y in zip(a or (), b):
        if x != y: return '%.120s instead of %.120s' % (x, y)
    return 'length %s instead of %s' % (len(a or ()), len(b))
