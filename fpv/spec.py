"""Contracts: the pinned message / factory contracts of /verif/contracts, the contracts of the
repository's helper methods, and how they are used at call sites."""
import os
import z3
from terms import *
from segs import *
from engine import *
import models
from models import RET, append, do_take, MV

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BC = 'com/finproto/codec/BinaryCodec'
CSF = 'com/finproto/codec/ChecksumServiceFactory'
BUFD = '(Lio/netty/buffer/ByteBuf;)V'
IAE = 'java/lang/IllegalArgumentException'

class Prop:
    """one property of a message: kind num|text|dyn|list|msg|variant|length|checksum"""
    def __init__(p, kind, name, a): p.kind = kind; p.name = name; p.a = a; p.parse()
    def parse(p):
        a = p.a; k = p.kind
        if k in ('num', 'dyn', 'length', 'checksum'): p.w = int(a[0]); p.e = a[1]
        if k == 'length': p.body = a[2]
        if k == 'checksum': p.alg = a[2]
        if k == 'text': p.n = int(a[0]); p.pad = int(a[1]); p.left = a[2] == 'left'
        if k == 'list': p.w = int(a[0]); p.e = a[1]; p.el = Prop(a[2], p.name + '[]', a[3:])
        if k == 'msg': p.cls = a[0].replace('.', '/')
        if k == 'variant': p.fac = a[0]; p.disc = a[1]
    @property
    def cap(p): return p.name[0].upper() + p.name[1:]
class Msg:
    def __init__(m, name): m.name = name; m.cls = name.replace('.', '/'); m.props = []
    @property
    def short(m): return m.name.split('.')[-1]
    def prop(m, n): return next(p for p in m.props if p.name == n)
class Factory:
    def __init__(f, fid, kt):
        f.id = fid; f.kt = kt; f.cases = []; f.names = {}
        f.cls, f.meth = (fid.split('#') + ['create'])[:2] if '#' in fid else (fid, 'create')
        f.cls = f.cls.replace('.', '/'); f.local = '#' in fid
def load(path=None):
    msgs = {}; facs = {}; cur = None
    for line in open(path or os.path.join(HERE, 'contracts', 'messages.txt')):
        w = line.split()
        if not w or w[0].startswith('#'): continue
        if w[0] == 'message': cur = Msg(w[1]); msgs[cur.cls] = cur
        elif w[0] == 'factory': cur = Factory(w[1], w[2]); facs[cur.id] = cur
        elif w[0] == 'case':
            cur.cases.append((w[1] if cur.kt == 'S' else int(w[1]), w[2].replace('.', '/')))
            if len(w) > 3: cur.names[w[3]] = int(w[1])
        else: cur.props.append(Prop(w[0], w[1], w[2:]))
    return msgs, facs
MSGS, FACS = load()

# ---------------------------------------------------------------- property access
def getter(prog, cls, p):
    for n in ('get' + p.cap, 'is' + p.cap):
        c = prog.classes.get(cls)
        while c is not None:
            for (nm, d), m in c.methods.items():
                if nm == n and d.startswith('()') and not m.static: return m
            c = prog.classes.get(c.super)
    return None
def setter(prog, cls, p):
    c = prog.classes.get(cls)
    while c is not None:
        for (nm, d), m in c.methods.items():
            if nm == 'set' + p.cap and d.endswith(')V') and len(parse_desc(d)[0]) == 1 and not m.static: return m
        c = prog.classes.get(c.super)
    return None
def get_props(eng, st, ref, msg):
    """values of all properties through the real getters -> (state, {name: value})"""
    out = {}
    for p in msg.props:
        m = getter(eng.prog, msg.cls, p)
        if m is None: raise Unsupported('no getter for property %s of %s' % (p.name, msg.name))
        outs = [o for o in eng.call(st, m, [ref]) if o.kind == 'ret' or eng.feasible(o.st)]
        if len(outs) != 1 or outs[0].kind != 'ret': raise Unsupported('getter of %s.%s' % (msg.short, p.name))
        st = outs[0].st; out[p.name] = outs[0].val
    if eng.on_props is not None: eng.on_props(msg, out, st)
    return st, out

# ---------------------------------------------------------------- the specified layout
def zeros(w): return (Num(z3.BitVecVal(0, 8 * w), w, 'be'),)
def text_of(v):
    """(null condition, content term)"""
    t = None
    for c, x in reversed(nonnull(v)):
        if x.t is None: raise Unsupported('text')
        t = x.t if t is None else If(c, x.t, t)
    return null_cond(v), (EMPTY if t is None else t)
def list_of(eng, st, v):
    """(null condition, list segments)"""
    nn = nonnull(v)
    if not nn: return True, ()
    if len(nn) != 1: raise Unsupported('list property with several objects')
    return null_cond(v), st.heap[nn[0][1].id].segs
def content(eng, st, ref):
    o = st.heap[ref.id]
    if not isinstance(o, Obj) or o.content is None: raise Unsupported('nested message with explicit fields')
    return o.content
def unboxed(v): return v.v if isinstance(v, Box) else v
def wire(eng, st, p, v, env=None):
    """segments of property p with value v"""
    k = p.kind
    if k in ('num', 'length', 'checksum'):
        x = unboxed(v)
        if not isinstance(x, (int, z3.ExprRef)): raise Unsupported('numeric property')
        if not isinstance(x, int) and x.size() < 8 * p.w: raise Unsupported('numeric width')
        return (Num(low(x, 8 * p.w), p.w, p.e),)
    if k == 'text':
        n, t = text_of(v); return (Fix(n, t, p.n, p.pad, p.left),)
    if k == 'dyn':
        n, t = text_of(v); c = Or(n, eq(t, EMPTY)); c = simp(c) if isz(c) else c
        u = simp(ulen(t))
        return (It(c, zeros(p.w), (Num(low(u, 8 * p.w) if p.w <= 4 else z3.ZeroExt(32, u), p.w, p.e), Sl(t, 0, u))),)
    if k == 'list':
        n, gs = list_of(eng, st, v); size = models.llen(gs)
        kk = fresh('kw')
        if isinstance(size, int) and size == 0: return zeros(p.w)
        el = models.lget(eng, st, gs, kk)
        c = Or(n, eq(size, 0)); c = simp(c) if isz(c) else c
        return (It(c, zeros(p.w), (Num(low(b32(size), 8 * p.w), p.w, p.e), Rep(kk, size, wire(eng, st, p.el, el)))),)
    if k == 'msg':
        return (Mg(content(eng, st, nonnull(v)[0][1]), p.cls),)
    if k == 'variant':
        n = null_cond(v); nn = nonnull(v)
        if not nn: return ()
        return (It(n, (), (Mg(content(eng, st, nn[0][1]), None),)),)
    raise KeyError(k)
def layout(eng, st, msg, vals):
    """the segments the contract of msg prescribes for the property values vals"""
    segs = ()
    for p in msg.props: segs += wire(eng, st, p, vals[p.name])
    return segs

def minlen(cls, seen=()):
    """least number of bytes of an encoding"""
    n = 0
    for p in MSGS[cls].props:
        if p.kind == 'text': n += p.n
        elif p.kind == 'msg': n += minlen(p.cls, seen + (cls,)) if p.cls not in seen else 0
        elif p.kind != 'variant': n += p.w
    return n
# ---------------------------------------------------------------- domain
def smax(w): return (1 << (8 * w - 1)) - 1 if w < 4 else 0x7fffffff
class Domain:
    """preconditions of the round-trip contract for one symbolic message"""
    def __init__(d): d.facts = []; d.lists = []
    def rule(d, t):
        r = []
        if z3.is_app(t) and t.num_args() == 2 and t.decl().name() == 'lelS':
            for L_, f in d.lists:
                if t.arg(0).eq(L_): r += f(t)
        return r
def text_dom(p, t):
    if p.kind == 'text': return [ulen(t) <= p.n]
    if p.kind == 'dyn': return [ulen(t) <= smax(p.w)]
    return []
def domain(eng, st, msg, vals, fits=True, wide_ok=()):
    """fits: every fixed-width text fits (otherwise only the discriminators)"""
    d = Domain(); discs = set(p.disc for p in msg.props if p.kind == 'variant')
    for p in msg.props:
        v = vals[p.name]
        if p.kind in ('text', 'dyn'):
            n, t = text_of(v)
            if p.kind == 'dyn' or fits or p.name in discs: d.facts += text_dom(p, t)
        elif p.kind == 'list':
            n, gs = list_of(eng, st, v)
            d.facts.append(bo(simp(b32(models.llen(gs)) <= smax(p.w))))
            for g in gs:
                if isinstance(g, models.LSym) and p.el.kind in ('text', 'dyn') and (fits or p.el.kind == 'dyn'): d.lists.append((g.t, (lambda pe: lambda t: text_dom(pe, t))(p.el)))
        elif p.kind == 'msg': d.facts.append(bo(Not(null_cond(v))))
        elif p.kind == 'variant':
            d.facts.append(bo(Not(null_cond(v))))
            nn = nonnull(v)
            key = norm_val(msg.prop(p.disc), vals[p.disc])
            kn, cc = created(FACS[p.fac], key)
            d.facts += [bo(kn), clsid(content(eng, st, nn[0][1])) == cc]
    return d
def norm_val(p, v):
    """the value of a scalar property after a round trip"""
    if p.kind == 'text':
        n, t = text_of(v); return Str(trimF[p.left](If(n, EMPTY, t), z3.BitVecVal(p.pad, 16)))
    return v

# ---------------------------------------------------------------- contract of the factories
def keyterm(fac, key):
    if fac.kt == 'S':
        if isinstance(key, Str): return key.t, S
    k = unboxed(key)
    if isinstance(k, (int, z3.ExprRef)) and fac.kt in 'IH': return b32(k), I32
    raise Unsupported('discriminator value')
def created(fac, key):
    t, so = keyterm(fac, key)
    return uf('known$' + fac.id, so, BOOL)(t), uf('created$' + fac.id, so, z3.IntSort())(t)
_clsids = {}
def class_id(cls): return z3.IntVal(_clsids.setdefault(cls, len(_clsids) + 1))
def create_contract(fac):
    def f(e, st, a):
        outs = []
        def on(t, key):
            o2 = []
            kn, cc = created(fac, key)
            if not e.guard(t, kn, IAE, o2, 'discriminator'): return o2
            c = fresh('new', M)
            t.pc.append(clsid(c) == cc)
            return o2 + RET(t, e.alloc(t, Obj(None, None, c)))
        key = a[-1]
        if key is NULL: return [e.exc(st, IAE, 'discriminator')]
        if isinstance(key, Alt):
            nc = null_cond(key)
            if nc is not False and not e.guard(st, Not(nc), IAE, outs, 'discriminator'): return outs
            nn = nonnull(key)
            key = mk_alt(nn) if len(nn) > 1 else nn[0][1]
            if isinstance(key, Alt): return outs + e.split(st, key, on)
        return outs + on(st, key)
    return f

# ---------------------------------------------------------------- contracts of the text helpers
def c_writeFixed(e, st, a):
    n, t = text_of(a[2]); left = a[5]
    if not isinstance(left, int):
        d = e.decide(st, icmp('ne', left, 0))
        if d is None: raise Unsupported('padding side not decided')
        left = int(d)
    append(st, a[1], (Fix(n, t, a[3], a[4], left != 0),))
    return RET(st)
def c_readFixed(e, st, a):
    """takes exactly n bytes; the text without the padding character on the given side"""
    n, pad, left = a[2], a[3], a[4]
    if not isinstance(left, int):
        d = e.decide(st, icmp('ne', left, 0))
        if d is None: raise Unsupported('padding side not decided')
        left = int(d)
    left = left != 0
    outs = []
    if not isinstance(n, int):
        if not e.guard(st, simp(b32(n) >= 0), IAE, outs): return outs
    elif n < 0: return [e.exc(st, IAE)]
    tk = do_take(e, st, a[1], n, outs)
    if tk is None: return outs
    padt = low(b32(pad), 16)
    while len(tk) == 1 and isinstance(tk[0], It) and e.decide(st, tk[0].c) is not None:
        tk = tk[0].a if e.decide(st, tk[0].c) else tk[0].b
    if len(tk) == 1 and isinstance(tk[0], Fix):
        g = tk[0]
        ascii_ = isinstance(g.pad, int) and 0 <= g.pad < 128
        if same(g.left, left) and same(g.pad, pad) and ascii_ and e.prove(st, models.fits(e, st, g)):
            return outs + RET(st, Str(trimF[left](If(g.null, EMPTY, g.s), padt)))
        f = uf('readtext$%s$%s$%s' % (g.n, g.pad, g.left), S, S)
        return outs + RET(st, Str(trimF[left](f(If(g.null, EMPTY, g.s)), padt)))
    s_ = models.str_of(e, st, tk, models.UTF8)
    return outs + RET(st, Str(trimF[left](s_.t, padt)))
def c_trim(e, st, a):
    left = a[2]
    if not isinstance(left, int): raise Unsupported('side')
    return e.split(st, a[0], lambda t, x: RET(t, Str(trimF[left != 0](x.t, low(b32(a[1]), 16)))))
def c_padChar(e, st, a):
    n = a[2]; n = If(icmp('gt', n, 0), n, 0)
    g = Num(low(b32(a[3]), 8), 1, 'be')
    append(st, a[1], (Rep(fresh('kp'), n, (g,)),) if not isinstance(n, int) or n > 64 else (g,) * n)
    return RET(st)

# ---------------------------------------------------------------- contracts of messages
def c_encode(e, st, a):
    o = st.heap[a[0].id]
    append(st, a[1], (Mg(o.content, o.cls),))
    return RET(st)
def target_id(e, st, o):
    return class_id(o.cls) if o.cls else clsid(o.content)
def c_decode(e, st, a):
    """input starts with the encoding of a message of the target's class: the target becomes its
    normal form.  Unknown input: the target becomes a function of the input from here on, or
    IndexOutOfBounds / IllegalArgument as a function of the input"""
    o = st.heap[a[0].id]; b = models.bb(st, a[1])
    segs = tuple(e.norm_head(st, b.segs))
    while segs and isinstance(segs[0], (It, Sl, Rep)) and Cmp(e.facts).empty(st.pc, (segs[0],)): segs = tuple(e.norm_head(st, segs[1:]))
    if segs and isinstance(segs[0], Rep) and e.prove(st, simp(b32(segs[0].n) > 0)):
        segs = tuple(e.norm_head(st, tuple(sub_segs(segs[0].body, segs[0].k, 0)) + (models.rep_shift(segs[0]),) + tuple(segs[1:])))
    if not segs: raise Mismatch('a nested message is read at the end of the input')
    g = segs[0]
    if isinstance(g, Mg):
        if g.cls is not None and o.cls is not None:
            if g.cls != o.cls: raise Mismatch('a %s is decoded where the input has a %s' % (o.cls, g.cls))
        else:
            gi = class_id(g.cls) if g.cls else clsid(g.m)
            if not e.prove(st, gi == target_id(e, st, o)): raise Mismatch('the class of the nested message is not the one created for its discriminator')
        outs = []; pre = models.raw_merge(b.pre, (g,))
        if not models.within(e, st, b, pre, outs): return outs
        st.heap[a[0].id] = Obj(o.cls, None, norm(g.m))
        st.heap[a[1].id] = Buf(pre, segs[1:], b.flags)
        return outs + RET(st)
    if isinstance(g, Raw) and len(segs) == 1:
        if o.cls: nm, args, so = '$' + o.cls, (), ()
        else: nm, args, so = '$any', (clsid(o.content),), (z3.IntSort(),)
        args = args + (b32(g.off),)
        fio = uf('short$%s%s' % (g.b, nm), *so, I32, I32, BOOL)(*args, b32(g.ln))
        fia = uf('bad$%s%s' % (g.b, nm), *so, I32, I32, BOOL)(*args, b32(g.ln))
        ln = simp(uf('dlen$%s%s' % (g.b, nm), *so, I32, I32)(*args))
        outs = []
        if not e.guard(st, Not(fio), IOOBE, outs, cheap=True): return outs
        if not e.guard(st, Not(fia), IAE, outs, 'discriminator', cheap=True): return outs
        st.pc.append(And(simp(b32(ln) >= (minlen(o.cls) if o.cls in MSGS else 0)), simp(b32(ln) <= b32(g.ln))))
        c = uf('dec$%s%s' % (g.b, nm), *so, I32, M)(*args)
        if o.cls is None and getattr(e, 'clsfacts', False): st.pc.append(clsid(c) == clsid(o.content))
        st.heap[a[0].id] = Obj(o.cls, None, c)
        pre, rest = models.raw_merge(b.pre, (Raw(g.b, g.off, ln),)), (Raw(g.b, iop('add', g.off, ln), iop('sub', g.ln, ln)),)
        ab = b.flags.get('abs')
        if ab is not None: pre, rest = models.abs_pos(e, st, ab, pre, rest, e.least(st, g.off, ab[0]) + (minlen(o.cls) if o.cls in MSGS else 0), (g.off, minlen(o.cls) if o.cls in MSGS else 0))
        st.heap[a[1].id] = Buf(pre, rest, b.flags)
        return outs + RET(st)
    raise Mismatch('a nested message is read where the input has %s' % short((g,)))

# ---------------------------------------------------------------- checksum contracts
class Calc:
    """calc is a function of the service and the readable bytes of its argument"""
    def __init__(c): c.calls = []
    def value(c, e, st, svc, segs):
        for s2, g2, v in c.calls:
            if s2.eq(svc) and (segs_same(g2, segs) or Cmp(e.facts).eqsegs(st.pc, g2, segs)): return v
        v = fresh('calc'); c.calls.append((svc, segs, v)); return v
    def contract(c, e, st, a):
        b = models.bb(st, a[1])
        t = a[0].t if isinstance(a[0], Opq) else z3.Const('svc$' + str(st.heap[a[0].id].cls), V)
        return RET(st, Box('I', c.value(e, st, t, tuple(b.segs))))
svc_has = uf('registered', S, BOOL); svc_val = uf('service', S, V)
def c_getService(e, st, a):
    def on(t, x): return RET(t, mk_alt([(Not(svc_has(x.t)), NULL), (svc_has(x.t), Opq(svc_val(x.t)))]))
    return e.split(st, a[-1], on)

# ---------------------------------------------------------------- installation
FACBY = {}
for _f in FACS.values(): FACBY[(_f.cls, _f.meth)] = _f
HELPERS = {('writeFixedString', '(Lio/netty/buffer/ByteBuf;Ljava/lang/String;ICZ)V'): c_writeFixed,
           ('readFixedString', '(Lio/netty/buffer/ByteBuf;ICZ)Ljava/lang/String;'): c_readFixed,
           ('trimByChar', '(Ljava/lang/String;CZ)Ljava/lang/String;'): c_trim,
           ('padChar', '(Lio/netty/buffer/ByteBuf;IC)V'): c_padChar}
def install(eng, helpers=True, factories=True, messages=True, registry=True, skip=()):
    """activate the contracts; methods in `skip` are executed (their own body is being checked)"""
    calc = Calc(); eng.calc = calc
    prog = eng.prog
    def method(e, st, m, a):
        cn = m.cls.name
        if m.short in skip or (cn, m.name) in skip: return None
        if helpers and cn == BC and (m.name, m.desc) in HELPERS: return HELPERS[(m.name, m.desc)]
        if factories and (cn, m.name) in FACBY and not m.name.startswith('<'): return create_contract(FACBY[(cn, m.name)])
        if messages and m.name in ('encode', 'decode') and m.desc == BUFD and prog.is_subclass(cn, BC):
            o = st.heap[a[0].id]
            if m.name == 'encode' and o.content is not None: return c_encode
            if m.name == 'decode' and len(e.callstack) >= 1: return c_decode
        if registry and cn == CSF and m.name == 'getChecksumService': return c_getService
        if registry and m.name == 'calc' and isinstance(a[0], Ref): return calc.contract
        return None
    def iface(e, st, owner, name, desc, a):
        r = a[0]
        if messages and isinstance(r, Ref) and isinstance(st.heap[r.id], Obj) and st.heap[r.id].cls is None and desc == BUFD:
            if name == 'encode': return c_encode(e, st, a)
            if name == 'decode': return c_decode(e, st, a)
        if registry and name == 'calc' and isinstance(r, Opq): return calc.contract(e, st, a)
        return None
    eng.hooks['method'] = method; eng.hooks['iface'] = iface
