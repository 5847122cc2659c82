"""Symbolic executor / verification-condition generator over the JVM bytecode that javac
produces from /repo's current sources.  Calls are checked against the callee's contract
where one is given (contracts table), and executed in place otherwise; loops are replaced
by proved summaries (no bound on iterations)."""
from collections import namedtuple
import z3, re
from terms import *
from segs import *
from classfile import parse_desc

class Unsupported(Exception): pass
class Diverges(Exception): pass

# ------------------------------------------------------------------ values
class _Null:
    def __repr__(s): return 'NULL'
NULL = _Null()
Ref = namedtuple('Ref', 'id')
class Str:
    """a non-null string value: content term t, or parts (for built-up text)"""
    __slots__ = ('t', 'parts')
    def __init__(s, t=None, parts=None): s.t = t; s.parts = parts
    def __repr__(s): return 'Str(%s)' % (s.t if s.t is not None else s.parts,)
Box = namedtuple('Box', 'kind v')
Tok = namedtuple('Tok', 'name')
Opq = namedtuple('Opq', 't')
BOXP = 'BSIJFDCZ'
STUB_SUP = {'java/util/ArrayList': ('java/util/List',), 'io/netty/buffer/ByteBuf': ('io/netty/buffer/ByteBuf',)}
Clo = namedtuple('Clo', 'kind owner name desc caps iface sam inst', defaults=(None, None))
class Alt:
    __slots__ = ('alts',)
    def __init__(s, alts): s.alts = alts
    def __repr__(s): return 'Alt%r' % (s.alts,)
class Dead:
    def __repr__(s): return 'DEAD'
DEAD = Dead()

# ------------------------------------------------------------------ heap objects (immutable)
class Obj(namedtuple('Obj', 'cls fields content')):
    __slots__ = ()
Lst = namedtuple('Lst', 'segs et')
LOne = namedtuple('LOne', 'v'); LSym = namedtuple('LSym', 't et'); LRep = namedtuple('LRep', 'k n v'); LIt = namedtuple('LIt', 'c a b'); LMark = namedtuple('LMark', 'id ln')
Arr = namedtuple('Arr', 'kind items fn ln src')
Buf = namedtuple('Buf', 'pre segs flags')
SBd = namedtuple('SBd', 'parts')
SIt = namedtuple('SIt', 'c a b')
Joi = namedtuple('Joi', 'sep pre suf items')
Itr = namedtuple('Itr', 'lst idx')
Mp = namedtuple('Mp', 'base upd')

FUN = {}
def uf(name, *sorts):
    f = FUN.get(name)
    if f is None: f = z3.Function(name, *sorts); FUN[name] = f
    return f
E = z3.DeclareSort('EqClass')
eqcL = z3.Function('eqcL', L, E); eqcM = z3.Function('eqcM', M, E); hE = z3.Function('hashE', E, I32); hS = z3.Function('hashS', S, I32)

BOXK = {'java/lang/Byte': 'B', 'java/lang/Short': 'S', 'java/lang/Integer': 'I', 'java/lang/Long': 'J', 'java/lang/Float': 'F',
        'java/lang/Double': 'D', 'java/lang/Character': 'C', 'java/lang/Boolean': 'Z'}
IOOBE = 'java/lang/IndexOutOfBoundsException'
EXC_SUPER = {'java/lang/StringIndexOutOfBoundsException': IOOBE, 'java/lang/ArrayIndexOutOfBoundsException': IOOBE, IOOBE: 'java/lang/RuntimeException',
             'java/lang/NumberFormatException': 'java/lang/IllegalArgumentException', 'java/lang/IllegalArgumentException': 'java/lang/RuntimeException',
             'java/lang/NullPointerException': 'java/lang/RuntimeException', 'java/lang/ClassCastException': 'java/lang/RuntimeException',
             'java/lang/ArithmeticException': 'java/lang/RuntimeException', 'java/lang/NegativeArraySizeException': 'java/lang/RuntimeException',
             'java/lang/IllegalStateException': 'java/lang/RuntimeException', 'java/lang/UnsupportedOperationException': 'java/lang/RuntimeException',
             'java/util/NoSuchElementException': 'java/lang/RuntimeException',
             'java/lang/RuntimeException': 'java/lang/Exception', 'java/lang/Exception': 'java/lang/Throwable', 'java/lang/Error': 'java/lang/Throwable',
             'java/lang/AssertionError': 'java/lang/Error', 'java/lang/StackOverflowError': 'java/lang/Error'}

def mk_alt(alts):
    flat = []
    for c, v in alts:
        if c is False: continue
        if isinstance(v, Alt):
            for c2, v2 in v.alts:
                cc = And(c, c2)
                cc = simp(cc) if isz(cc) else cc
                if cc is not False: flat.append((cc, v2))
        else: flat.append((c, v))
    out = []
    for c, v in flat:
        for i, (c0, v0) in enumerate(out):
            if v0 is v or (type(v0) is type(v) and isinstance(v, (Ref, Tok, Clo)) and v0 == v):
                out[i] = (Or(c0, c), v0); break
            if isinstance(v, Str) and isinstance(v0, Str) and v.t is not None and v0.t is not None:
                out[i] = (Or(c0, c), Str(If(c0, v0.t, v.t))); break
            if isinstance(v, Box) and isinstance(v0, Box) and v.kind == v0.kind:
                out[i] = (Or(c0, c), Box(v.kind, If(c0, v0.v, v.v))); break
            if isinstance(v, Opq) and isinstance(v0, Opq):
                out[i] = (Or(c0, c), Opq(If(c0, v0.t, v.t))); break
        else: out.append((c, v))
    if len(out) == 1: return out[0][1]
    return Alt([(simp(c) if isz(c) else c, v) for c, v in out])
def ite_val(c, a, b):
    if a is b or c is True: return a
    if c is False: return b
    if isinstance(a, (int, z3.ExprRef)) and isinstance(b, (int, z3.ExprRef)): return If(c, a, b)
    if isinstance(a, Str) and isinstance(b, Str):
        if a.t is not None and b.t is not None: return Str(If(c, a.t, b.t))
        if a.parts == b.parts and a.parts is not None: return a
        if a.t is None or b.t is None: return Str(parts=(SIt(c, parts_of(a), parts_of(b)),))
    if isinstance(a, Box) and isinstance(b, Box) and a.kind == b.kind: return Box(a.kind, If(c, a.v, b.v))
    if isinstance(a, (Ref, Tok, Clo)) and a == b: return a
    if isinstance(a, Opq) and isinstance(b, Opq): return Opq(If(c, a.t, b.t))
    if a is DEAD or b is DEAD or a is None or b is None: return DEAD
    if isinstance(a, (int, z3.ExprRef)) or isinstance(b, (int, z3.ExprRef)): return DEAD
    return mk_alt([(c, a), (Not(c), b)])
def null_cond(v):
    if v is NULL: return True
    if isinstance(v, Alt): return Or(*[c for c, x in v.alts if x is NULL])
    return False
def nonnull(v):
    """the non-null alternatives"""
    if isinstance(v, Alt): return [(c, x) for c, x in v.alts if x is not NULL]
    return [] if v is NULL else [(True, v)]

def parts_of(s):
    """text of a Str as parts"""
    if s.parts is not None: return s.parts
    c = strval(s.t)
    if c is not None: return (('lit', c),) if c else ()
    return (('str', s.t),)
def norm_parts(ps):
    out = []
    for p in ps:
        if p[0] == 'lit' and out and isinstance(out[-1], tuple) and out[-1][0] == 'lit': out[-1] = ('lit', out[-1][1] + p[1])
        elif p[0] == 'lit' and p[1] == '': continue
        else: out.append(p)
    return tuple(out)

# ------------------------------------------------------------------ state
class State:
    __slots__ = ('pc', 'heap', 'loc', 'stk')
    def __init__(s): s.pc = []; s.heap = {}; s.loc = []; s.stk = []
    def fork(s):
        t = State(); t.pc = list(s.pc); t.heap = dict(s.heap); t.loc = list(s.loc); t.stk = list(s.stk)
        return t
Out = namedtuple('Out', 'kind st val msg site')   # kind 'ret' | 'exc'

class CFG:
    def __init__(s, m):
        n = len(m.code); s.n = n; EXIT = n
        succ = [[] for _ in range(n + 1)]
        for i, ins in enumerate(m.code):
            op = ins.op
            if op == 'goto': succ[i] = [ins.a]
            elif op.startswith('if'): succ[i] = [i + 1, ins.a]
            elif op == 'switch': succ[i] = sorted(set([ins.a[0]] + [t for _, t in ins.a[1]]))
            elif op in ('ireturn', 'lreturn', 'freturn', 'dreturn', 'areturn', 'return', 'athrow'): succ[i] = [EXIT]
            else: succ[i] = [i + 1]
        s.succ = succ
        s.ipdom = s._idom(_rev(succ), EXIT)
        pred = _rev(succ)
        entry = [0] + [h for _, _, h, _ in m.exc]
        # dominators with a virtual entry
        g = [list(x) for x in succ] + [entry]
        idom = s._idom(g, n + 1)
        s.idom = idom
        def dom(a, b):
            while b is not None:
                if a == b: return True
                b = idom.get(b)
                if b == n + 1: return a == b
            return False
        s.loops = {}
        for i in range(n):
            for t in succ[i]:
                if t <= i and t < n and dom(t, i):
                    body = s.loops.setdefault(t, {t}); st = [i]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(pred[x])
        s.live_h = {}
        if s.loops:
            live = s._live(m)
            for h in s.loops: s.live_h[h] = live[h]
    def _idom(s, g, root):
        # Cooper-Harvey-Kennedy on graph g (list of successor lists) from root
        order = []; seen = {root}; st = [(root, iter(g[root]))]
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen: seen.add(y); st.append((y, iter(g[y]))); break
            else: order.append(x); st.pop()
        order.reverse(); num = {x: i for i, x in enumerate(order)}
        pred = {}
        for x in order:
            for y in g[x]: pred.setdefault(y, []).append(x)
        idom = {root: root}; ch = True
        while ch:
            ch = False
            for x in order[1:]:
                new = None
                for p in pred[x]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            a, b = p, new
                            while a != b:
                                while num[a] > num[b]: a = idom[a]
                                while num[b] > num[a]: b = idom[b]
                            new = a
                if idom.get(x) != new: idom[x] = new; ch = True
        idom[root] = None
        return idom
    def _live(s, m):
        use = []; de = []
        for ins in m.code:
            op = ins.op; u = set(); d = set()
            if op in ('iload', 'lload', 'fload', 'dload', 'aload'): u.add(ins.a)
            elif op in ('istore', 'lstore', 'fstore', 'dstore', 'astore'): d.add(ins.a)
            elif op == 'iinc': u.add(ins.a[0])
            use.append(u); de.append(d)
        live = [set() for _ in range(s.n + 1)]
        ch = True
        while ch:
            ch = False
            for i in range(s.n - 1, -1, -1):
                o = set()
                for t in s.succ[i]: o |= live[t]
                v = use[i] | (o - de[i])
                if v != live[i]: live[i] = v; ch = True
        return live
def _rev(g):
    r = [[] for _ in range(len(g))]
    for i, ss in enumerate(g):
        for t in ss: r[t].append(i)
    return r

DEFAULT = {'B': 0, 'S': 0, 'I': 0, 'C': 0, 'Z': 0, 'F': 0}
def default_of(desc):
    if desc in DEFAULT: return 0
    if desc in ('J', 'D'): return b64(0)
    return NULL

class Engine:
    MAXDEPTH = 24
    def __init__(s, prog, models):
        s.prog = prog; s.models = models; s.cfgs = {}
        s.facts = []           # assumptions of the current run (preconditions, instantiated)
        s.contracts = {}       # (class, name, desc) -> fn(engine, st, args) -> outcomes
        s.hooks = {}
        s.base = State(); s.inited = set(); s.initing = set()
        s.nid = [0]
        s.depth = 0; s.callstack = []
        s.loops_info = []; s.null_elems = False
        s.used_contracts = set(); s.visited = set(); s.trusted = set()
        s.limits = {'unroll': 5000}
        s.cmp = Cmp()
        s.notes = []
        s.static = {}
        s.elem_hook = None
        s.on_props = None
    # -------------------------------------------------------------- basics
    def cfg(s, m):
        c = s.cfgs.get(id(m))
        if c is None: c = CFG(m); s.cfgs[id(m)] = c
        return c
    def alloc(s, st, obj):
        s.nid[0] += 1; st.heap[s.nid[0]] = obj
        return Ref(s.nid[0])
    def assumptions(s, st): return st.pc + s.facts
    def prove(s, st, g): return prove(st.pc + s.facts, g)
    def decide(s, st, c):
        if isinstance(c, bool): return c
        h = st.pc + s.facts
        if check(h + [Not(c)], timeout=8000)[0] == 'unsat': return True
        if check(h + [c], timeout=8000)[0] == 'unsat': return False
        return None
    def feasible(s, st, c=True):
        if c is False: return False
        return check(st.pc + s.facts + [c], timeout=8000)[0] != 'unsat'
    def exc(s, st, cls, msg='', site=None): return Out('exc', st, cls, msg, site or s.site())
    def site(s): return s.callstack[-1] if s.callstack else None
    def guard(s, st, ok, cls, outs, msg='', cheap=False):
        """continue under ok; otherwise an exception outcome. False: cannot continue"""
        if ok is True: return True
        if ok is False: outs.append(s.exc(st.fork(), cls, msg)); return False
        if not cheap:
            d = s.decide(st, ok)
            if d is True: return True
            if d is False: outs.append(s.exc(st.fork(), cls, msg)); return False
        t = st.fork(); t.pc.append(Not(ok)); outs.append(s.exc(t, cls, msg))
        st.pc.append(ok)
        return True
    def is_exc(s, cls, sup):
        while cls is not None:
            if cls == sup: return True
            c = s.prog.all.get(cls)
            cls = c.super if c is not None else EXC_SUPER.get(cls)
        return False
    # -------------------------------------------------------------- symbolic initial values
    def field_value(s, st, content, cls, f, mem=None):
        """value of field f (of class cls) in the message with content term `content`"""
        nm = '%s.%s' % (cls.name.replace('/', '.'), f.name); d = f.desc
        key = ('fv', content.get_id(), nm)
        if d == 'B': return ext(simp(uf(nm, M, I8)(content)), 32, 8)
        if d == 'S': return ext(simp(uf(nm, M, I16)(content)), 32, 16)
        if d == 'C': return ext(simp(uf(nm, M, I16)(content)), 32, 16, False)
        if d == 'Z': return If(uf(nm, M, BOOL)(content), 1, 0)
        if d in 'IF': return simp(uf(nm, M, I32)(content))
        if d in 'JD': return simp(uf(nm, M, z3.BitVecSort(64))(content))
        nul = uf(nm + '?', M, BOOL)(content)
        if d == 'Ljava/lang/String;': return mk_alt([(nul, NULL), (Not(nul), Str(uf(nm, M, S)(content)))])
        if d in ('Ljava/util/List;', 'Ljava/util/ArrayList;', 'Ljava/util/Collection;'):
            t = uf(nm, M, L)(content)
            r = s.alloc(st, Lst((LSym(t, f.elem),), f.elem))
            return mk_alt([(nul, NULL), (Not(nul), r)])
        if d in ['L%s;' % k for k in BOXK]:
            k = BOXK[d[1:-1]]
            v = {'B': lambda: ext(simp(uf(nm, M, I8)(content)), 32, 8), 'S': lambda: ext(simp(uf(nm, M, I16)(content)), 32, 16)}.get(k, lambda: simp(uf(nm, M, z3.BitVecSort(64) if k in 'JD' else I32)(content)))()
            return mk_alt([(nul, NULL), (Not(nul), Box(k, v))])
        if d[0] == 'L':
            c = d[1:-1]
            cf = s.prog.all.get(c)
            if cf is not None and s.prog.is_subclass(c, 'com/finproto/codec/BinaryCodec'):
                t = uf(nm, M, M)(content)
                r = s.alloc(st, Obj(None if cf.flags & 0x200 else c, None, t))
                return mk_alt([(nul, NULL), (Not(nul), r)])
            if cf is None or True:
                t = uf(nm, M, V)(content)
                return mk_alt([(nul, NULL), (Not(nul), Opq(t))])
        raise Unsupported('initial value of field %s %s' % (nm, d))
    def symbolic_object(s, st, cname, content):
        """an object of class cname holding arbitrary content"""
        fields = {}
        c = s.prog.all[cname]
        while c is not None:
            for f in c.fields.values():
                if not f.static: fields[f.name] = s.field_value(st, content, c, f)
            c = s.prog.all.get(c.super)
        return s.alloc(st, Obj(cname, fields, None))
    def materialise(s, st, rid):
        """give an opaque-content object explicit fields"""
        o = st.heap[rid]
        if o.fields is not None: return o
        if o.cls is None: raise Unsupported('field of a message of unknown class')
        fields = {}
        c = s.prog.all[o.cls]
        while c is not None:
            for f in c.fields.values():
                if not f.static: fields[f.name] = s.field_value(st, o.content, c, f)
            c = s.prog.all.get(c.super)
        o = Obj(o.cls, fields, o.content); st.heap[rid] = o
        return o
    def content_of(s, st, ref):
        """the content term of a message object (None when it has explicit fields)"""
        return st.heap[ref.id].content
    # -------------------------------------------------------------- class initialisation
    def init_class(s, cname):
        if cname in s.inited or cname not in s.prog.all: return
        s.inited.add(cname)
        c = s.prog.all[cname]
        if c.super: s.init_class(c.super)
        for f in c.fields.values():
            if f.static:
                v = default_of(f.desc)
                if f.const is not None:
                    k, x = f.const
                    v = Str(strc(x)) if k == 'string' else b64(x) if k in ('long', 'double') else s32(x)
                s.base.heap.setdefault(('static', cname, f.name), v)
        m = c.methods.get(('<clinit>', '()V'))
        if m is not None:
            st = s.base.fork(); sf = s.facts; s.facts = []
            sd = s.depth; s.depth = 0; sc = s.contracts; s.contracts = s.init_contracts if hasattr(s, 'init_contracts') else sc
            try: outs = s.call(st, m, [], inclinit=True)
            finally: s.facts = sf; s.depth = sd; s.contracts = sc
            if len(outs) != 1 or outs[0].kind != 'ret': raise Unsupported('static initialiser of %s: %s' % (cname, [(o.kind, o.val) for o in outs]))
            s.base.heap = outs[0].st.heap
    def init_all(s):
        for n in sorted(s.prog.classes): s.init_class(n)
        s.base.pc = []
    def new_state(s):
        st = State(); st.heap = dict(s.base.heap); return st
    # -------------------------------------------------------------- merging
    def merge(s, base, items):
        """items: list of (state, value); base: length of the common pc prefix"""
        if len(items) == 1: return items[0]
        gs = [And(*it[0].pc[base:]) for it in items]
        acc_st, acc_v = items[-1]
        acc_st = acc_st.fork(); mf = s.merge_facts; s.merge_facts = []
        for i in range(len(items) - 2, -1, -1):
            st, v = items[i]; g = gs[i]
            if g is True:
                g = Not(Or(*gs[i + 1:])); g = simp(g) if isz(g) else g
            h = {}
            ah = acc_st.heap; bh = st.heap
            for k, y in ah.items():
                x = bh.get(k)
                if x is None or x is y: h[k] = y
                else: h[k] = s.merge_obj(st, acc_st, g, x, y)
            for k, x in bh.items():
                if k not in ah: h[k] = x
            acc_st.heap = h
            acc_st.loc = [ite_val(g, a, b) for a, b in zip(st.loc, acc_st.loc)]
            if len(st.stk) != len(acc_st.stk): raise Unsupported('stack depth at join')
            acc_st.stk = [ite_val(g, a, b) for a, b in zip(st.stk, acc_st.stk)]
            if v is not None or acc_v is not None: acc_v = ite_val(g, v, acc_v)
            if i:   # what holds in the accumulated state: one of the merged alternatives
                w = Or(*gs[i:]); acc_st.pc = items[0][0].pc[:base] + ([] if w is True else [simp(w) if isz(w) else w]) + s.merge_facts
        d = Or(*gs)
        d = simp(d) if isz(d) else d
        acc_st.pc = items[0][0].pc[:base] + ([] if d is True else [d]) + s.merge_facts
        s.merge_facts = mf
        return acc_st, acc_v
    def merge_obj(s, sa, sb, c, x, y):
        if isinstance(x, (int, z3.ExprRef, Alt, Str, Box, Ref, Opq, Tok, Clo, _Null)): return ite_val(c, x, y)
        if type(x) is not type(y): raise Unsupported('join of different objects')
        if isinstance(x, Obj):
            if x.cls != y.cls: raise Unsupported('join of objects of different class')
            cc = If(c, x.content, y.content) if x.content is not None and y.content is not None else None
            if cc is not None and (x.fields is None or y.fields is None): return Obj(x.cls, None, cc)
            if x.fields is None or y.fields is None:
                # what the explicit object holds is forgotten
                return Obj(x.cls, None, If(c, x.content if x.content is not None else fresh('some', M), y.content if y.content is not None else fresh('some', M)))
            return Obj(x.cls, {k: ite_val(c, x.fields[k], y.fields[k]) for k in x.fields}, cc)
        if isinstance(x, Buf):
            nx = tuple(s.norm_head(sa, x.segs)); ny = tuple(s.norm_head(sb, y.segs))
            one = lambda g: len(g) == 1 and isinstance(g[0], Raw)
            if one(nx) and one(ny) and one(x.pre) and one(y.pre) and same(nx[0].b, ny[0].b) and same(x.pre[0].b, y.pre[0].b) and same(x.pre[0].off, y.pre[0].off):
                # the same unknown input at two positions
                p, q = x.pre[0], y.pre[0]; g, h = nx[0], ny[0]
                ab = x.flags.get('abs')
                if ab is not None and not same(g.off, h.off):
                    # safety runs: only bounds of the position are kept
                    start, end = ab
                    np_ = fresh('pos'); lo = 0
                    for st_, o in ((sa, g.off), (sb, h.off)):
                        k = s.least(st_, o, start)
                        lo = k if st_ is sa else min(lo, k)
                    for st_, o in ((sa, g.off), (sb, h.off)):
                        if not all(s.prove(st_, x) for x in (simp(b32(o) <= end), simp(b32(o) >= start), simp(b32(o) - start >= lo))): raise Unsupported('input position at a join')
                    s.merge_facts += [np_ - start >= lo, np_ <= end, np_ >= start]
                    # distance from an earlier position that both sides started from
                    for (s1, o1), (s2, o2) in (((sa, g.off), (sb, h.off)), ((sb, h.off), (sa, g.off))):
                        t = simp(b32(o1)); d = 0
                        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_BADD and z3.is_bv_value(t.arg(0)): d = s32(t.arg(0).as_long()); t = simp(t - d)
                        if d < 0 or t.eq(start) or not isz(t) or d > 1 << 20: continue
                        if all(s.prove(u, simp(b32(o) - t >= d)) and s.prove(u, simp(b32(o) >= t)) for u, o in ((s1, o1), (s2, o2))):
                            s.merge_facts += [np_ - t >= d, np_ >= t]; break
                    return Buf((Raw(p.b, p.off, simp(np_ - b32(p.off))),), (Raw(g.b, np_, simp(end - np_)),), _mflags(x.flags, y.flags))
                o = If(c, g.off, h.off); pe, qe = iop('add', p.off, p.ln), iop('add', q.off, q.ln); ge, he = iop('add', g.off, g.ln), iop('add', h.off, h.ln)
                ln = iop('sub', ge, o) if same(ge, he) else If(c, g.ln, h.ln)
                pl = iop('sub', o, p.off) if same(pe, g.off) and same(qe, h.off) else If(c, p.ln, q.ln)
                return Buf((Raw(p.b, p.off, pl),), (Raw(g.b, o, ln),), _mflags(x.flags, y.flags))
            return Buf(_join(c, x.pre, y.pre, It, seg_same), _join(c, nx, ny, It, seg_same), _mflags(x.flags, y.flags))
        if isinstance(x, Lst): return Lst(_join(c, x.segs, y.segs, LIt, lseg_same), x.et or y.et)
        if isinstance(x, SBd): return SBd(_join(c, x.parts, y.parts, SIt, lambda a, b: a == b))
        if isinstance(x, Itr):
            if x.lst == y.lst: return Itr(x.lst, If(c, x.idx, y.idx))
        if isinstance(x, Arr):
            if x.items is not None and y.items is not None and len(x.items) == len(y.items):
                return Arr(x.kind, tuple(ite_val(c, a, b) for a, b in zip(x.items, y.items)), None, x.ln, None)
            if x.kind == y.kind == 'B' and same(x.ln, y.ln) and isinstance(y, Arr):
                import models
                segs = _join(c, models.arr_whole(x), models.arr_whole(y), It, seg_same)
                return Arr('B', None, (lambda i: ite_val(c, x.fn(i), y.fn(i))) if x.fn and y.fn else None, x.ln, ('segs', segs))
        if isinstance(x, Mp):
            n = 0
            while n < len(x.upd) and n < len(y.upd) and x.upd[n] is y.upd[n]: n += 1
            if x.base is y.base:
                return Mp(x.base, x.upd[:n] + tuple((And(c, g), k, v) for g, k, v in x.upd[n:]) + tuple((And(Not(c), g), k, v) for g, k, v in y.upd[n:]))
        raise Unsupported('join of %s' % type(x).__name__)
    merge_facts = []
    def least(s, st, off, start):
        """a constant number of bytes that was certainly consumed"""
        t = simp(b32(off)); c = 0
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_BADD and z3.is_bv_value(t.arg(0)): c = s32(t.arg(0).as_long()); t = simp(t - c)
        # facts  pos - start >= n  of the state
        best = 0 if t.eq(start) else None
        for f in reversed(st.pc):
            for x in (f.children() if isz(f) and z3.is_and(f) else [f]):
                if isz(x) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SGEQ and z3.is_bv_value(x.arg(1)) and x.arg(0).eq(t - start): best = max(best or 0, s32(x.arg(1).as_long()))
        return c + best if best is not None and c >= 0 else 0
    def norm_head(s, st, segs):
        if segs and isinstance(segs[0], (It, Rep)):
            s.cmp.facts = s.facts
            return s.cmp.norm(st.pc, segs)
        return segs
    # -------------------------------------------------------------- calls
    def call(s, st, m, args, inclinit=False):
        """execute method m in place; -> list of Out (at most one 'ret', merged)"""
        if m.code is None: raise Unsupported('no code: ' + m.id)
        if s.depth > s.MAXDEPTH: raise Diverges('call depth exceeded in ' + m.short)
        if not m.static and args[0] is NULL: return [s.exc(st, 'java/lang/NullPointerException')]
        n_same = sum(1 for x in s.frames if x[0] is m and len(x[1]) == len(args) and all(_vsame(a, b) for a, b in zip(x[1], args))) if hasattr(s, 'frames') else 0
        if n_same >= 2: raise Diverges('unbounded recursion in ' + m.short)
        if not hasattr(s, 'frames'): s.frames = []
        if m.cls.name in s.prog.stubs: s.trusted.add('(executable specification) ' + m.cls.name.replace('stub/ext_', '').replace('_', '.').replace('/', '.') + '.' + m.name)
        else: s.visited.add(m.id)
        saved = (st.loc, st.stk)
        loc = []
        ad, _ = parse_desc(m.desc)
        i = 0
        if not m.static: loc.append(args[0]); i = 1
        for a, d in zip(args[i:], ad):
            loc.append(a)
            if d in 'JD': loc.append(None)
        loc += [None] * (m.maxlocals - len(loc))
        st.loc = loc; st.stk = []
        base = len(st.pc)
        outs = []
        s.depth += 1; s.frames.append((m, list(args))); s.callstack.append(m.short)
        try: s.run(st, m, 0, frozenset(), outs)
        finally: s.depth -= 1; s.frames.pop(); s.callstack.pop()
        rets = [o for o in outs if o.kind == 'ret']; res = [o for o in outs if o.kind != 'ret']
        if rets:
            for o in rets: o.st.loc = saved[0]; o.st.stk = saved[1]
            t, v = s.merge(base, [(o.st, o.val) for o in rets])
            t.loc = list(saved[0]); t.stk = list(saved[1])
            res.append(Out('ret', t, v, None, None))
        for i, o in enumerate(res):
            if o.kind == 'exc': o.st.loc = list(saved[0]); o.st.stk = list(saved[1])
        return res
    def join_outs(s, base, outs):
        """merge the normal outcomes of several alternatives"""
        rets = [o for o in outs if o.kind == 'ret']; res = [o for o in outs if o.kind != 'ret']
        if rets:
            t, v = s.merge(base, [(o.st, o.val) for o in rets])
            res.append(Out('ret', t, v, None, None))
        return res
    def split(s, st, v, fn, npe=True):
        """apply fn(st, alternative) to every feasible non-null alternative of v; -> outcomes"""
        if not isinstance(v, Alt):
            if v is NULL: return [s.exc(st, 'java/lang/NullPointerException')]
            return fn(st, v)
        alts = []
        for c, x in v.alts:
            d = s.decide(st, c)
            if d is True: alts = [(True, x)]; break
            if d is False: continue
            alts.append((c, x))
        if len(alts) == 1: return s.split(st, alts[0][1], fn)
        base = len(st.pc); outs = []
        for c, x in alts:
            t = st.fork(); t.pc.append(c)
            outs += s.split(t, x, fn)
        return s.join_outs(base, outs)
    def invoke(s, st, kind, ref, args):
        """-> outcomes. args includes the receiver for instance calls"""
        _, owner, name, desc, _ = ref
        if kind == 'static':
            s.init_class_in(st, owner)
            m = s.prog.find(owner, name, desc)
            if m is not None: return s.invoke_method(st, m, args)
            return s.model_call(st, owner, name, desc, args)
        if kind == 'special':
            m = s.prog.find(owner, name, desc)
            if m is None:
                if name == '<init>' and owner == 'java/lang/Enum' and len(args) == 3 and isinstance(args[0], Ref):
                    o = st.heap[args[0].id]; st.heap[args[0].id] = Obj(o.cls, dict(o.fields, **{'$name': args[1], '$ordinal': args[2]}), o.content)
                if name == '<init>' and owner in ('java/lang/Object', 'java/lang/Enum'): return [Out('ret', st, None, None, None)]
                return s.model_call(st, owner, name, desc, args)
            return s.invoke_method(st, m, args)
        def on(st, recv):
            a = [recv] + args[1:]
            cls = s.class_of(st, recv)
            if cls is not None and cls in s.prog.all:
                m = s.prog.find(cls, name, desc)
                if m is not None and not m.abstract: return s.invoke_method(st, m, a)
                # bridge/generic erasure: fall to models (Object methods)
                return s.model_call(st, 'java/lang/Object', name, desc, a)
            h = s.hooks.get('iface')
            if h is not None:
                r = h(s, st, owner, name, desc, a)
                if r is not None: return r
            if isinstance(recv, Clo) and recv.iface.endswith('.' + name): return s.call_closure(st, recv, args[1:])
            if isinstance(recv, Clo):
                m = s.prog.find(owner, name, desc)
                if m is not None and not m.abstract: return s.invoke_method(st, m, a)
            if owner in s.prog.all and not isinstance(recv, Opq):
                m = s.prog.find(owner, name, desc)
                # message of unknown class: only interface contracts apply
                if m is not None and not m.abstract and cls is None and (owner, name, desc) in s.contracts: return s.invoke_method(st, m, a)
            return s.model_call(st, owner, name, desc, a)
        return s.split(st, args[0], on)
    def init_class_in(s, st, cname):
        if cname in s.prog.all and cname not in s.inited:
            s.init_class(cname)
            for k, v in s.base.heap.items():
                if k not in st.heap: st.heap[k] = v
    def class_of(s, st, v):
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, Obj): return o.cls
            return {Lst: 'java/util/ArrayList', Joi: 'java/util/StringJoiner', Buf: 'io/netty/buffer/ByteBuf', SBd: 'java/lang/StringBuilder', Mp: 'java/util/HashMap', Itr: 'java/util/Iterator', Arr: '[' + (o.kind if isinstance(o, Arr) else '')}[type(o)]
        if isinstance(v, Str): return 'java/lang/String'
        if isinstance(v, Box): return {b: a for a, b in BOXK.items()}[v.kind]
        return None
    def invoke_method(s, st, m, args):
        key = (m.cls.name, m.name, m.desc)
        c = s.contracts.get(key)
        if c is None and s.hooks.get('method') is not None: c = s.hooks['method'](s, st, m, args)
        if c is not None:
            s.used_contracts.add(m.short)
            return c(s, st, args)
        return s.call(st, m, args)
    def call_closure(s, st, clo, args):
        sa, srt = parse_desc(clo.sam) if clo.sam else ([None] * len(args), None)
        k = clo.kind   # method handle kind
        ad, rt = parse_desc(clo.desc)
        full = list(clo.caps) + list(args)
        types = ad if k in (6, 8) else [None] + ad
        full = [s.convert(v, d) for v, d in zip(full, types)]
        if k == 8:
            if clo.owner in EXC_SUPER: return [Out('ret', st, s.alloc(st, Obj(clo.owner, {}, None)), None, None)]
            if clo.owner in ('java/util/ArrayList', 'java/util/LinkedList') and not full: return [Out('ret', st, s.alloc(st, Lst((), None)), None, None)]
            s.init_class_in(st, clo.owner)
            r = s.new_object(st, clo.owner)
            m = s.prog.find(clo.owner, '<init>', clo.desc)
            if m is None: raise Unsupported('constructor reference ' + clo.owner)
            outs = s.invoke_method(st, m, [r] + full)
            return [o if o.kind != 'ret' else Out('ret', o.st, r, None, None) for o in outs]
        ref = ('ref', clo.owner, clo.name, clo.desc, False)
        outs = s.invoke(st, 'static' if k == 6 else 'special' if k == 7 else 'virtual', ref, full)
        if srt is not None and srt != 'V' and rt != srt:
            if rt in BOXP and len(srt) > 1: outs = [o if o.kind != 'ret' else Out('ret', o.st, Box(rt, o.val), None, None) for o in outs]
            elif len(srt) == 1: outs = [o if o.kind != 'ret' else Out('ret', o.st, s.convert(o.val, srt, rt), None, None) for o in outs]
        return outs
    def convert(s, v, to, frm=None):
        """boxing, unboxing and widening between a functional interface and its implementation"""
        if to is None: return v
        if len(to) == 1:
            if isinstance(v, Box): return s.convert(v.v, to, v.kind)
            if isinstance(v, Alt): raise Unsupported('unboxing of a value that may be null')
            if to == 'J' and isinstance(v, int): return b64(v)
            if to == 'J' and isinstance(v, z3.ExprRef) and v.size() == 32: return z3.simplify(z3.SignExt(32, v))
            return v
        if isinstance(v, (int, z3.ExprRef)): return Box(BOXK.get(to[1:-1], 'J' if is64(v) else 'I'), v)
        return v
    def coerce(s, st, v, d):
        if d in ('B', 'S', 'I', 'J', 'F', 'D', 'C', 'Z') and isinstance(v, Box): return v.v
        return v
    def shadow(s, cn, f):
        if s.prog.shadowed:
            c = s.prog.field_owner(cn, f)
            if c is not None and (c.name, f) in s.prog.shadowed: raise Unsupported('field %s declared again in a subclass' % f)
    def new_object(s, st, cname):
        s.init_class_in(st, cname)
        fields = {}
        c = s.prog.all.get(cname)
        while c is not None:
            for f in c.fields.values():
                if not f.static: fields[f.name] = default_of(f.desc)
            c = s.prog.all.get(c.super)
        return s.alloc(st, Obj(cname, fields, None))
    def stub(s, st, owner, name, desc, args):
        """executable specification of a library method on a modelled object"""
        for c in (owner,) + STUB_SUP.get(s.class_of(st, args[0]) if args else None, ()):
            x = s.prog.ext.get(c)
            if x is None: continue
            ps = desc[1:]
            for (n, d), m in x.methods.items():
                if n == name and m.static and (d == desc or re.fullmatch(r'\(L[^;]*;|\(\[.', d[:len(d) - len(ps)]) and d.endswith(ps)): return m
        return None
    def model_call(s, st, owner, name, desc, args):
        x = s.prog.ext.get(owner); x = x and x.methods.get((name, desc))
        f = s.models.lookup(s, st, owner, name, desc, args) if x is None or not x.static else None
        if f is None:
            m = s.stub(st, owner, name, desc, args)
            if m is not None: return s.invoke_method(st, m, args)
            raise Unsupported('call of %s.%s%s' % (owner, name, desc))
        s.trusted.add(owner.replace('/', '.') + '.' + name)
        r = f(s, st, args)
        if isinstance(r, list): return r
        return [Out('ret', st, r, None, None)]
    # -------------------------------------------------------------- the interpreter
    def handle_excs(s, m, idx, excs, stops, outs):
        """route exception outcomes raised at instruction idx; -> list of (idx, st) from handlers"""
        res = []
        for o in excs:
            h = None
            for a, b, t, ty in m.exc:
                if a <= idx < b and (ty is None or s.is_exc(o.val, ty)): h = t; break
                if a <= idx < b and s.is_exc(ty, o.val): raise Unsupported('imprecise exception class at a handler')
            if h is None: outs.append(o)
            elif s.feasible(o.st):
                t = o.st; t.stk = [s.alloc(t, Obj('exc:' + o.val, {}, None))]
                res += s.run(t, m, h, stops, outs)
        return res
    def run(s, st, m, idx, stops, outs, first=False):
        code = m.code; g = s.cfg(m); extra = []
        while True:
            if idx in stops and not first: return extra + [(idx, st)]
            if not first and idx in g.loops:
                res = s.loop(st, m, idx, stops, outs)
                cont, ret = s.group(len(st.pc), res, stops)
                extra += ret
                if not cont: return extra
                if len(cont) > 1:
                    r2 = []
                    for i, t in cont: r2 += s.run(t, m, i, stops, outs)
                    return extra + s.group(0, r2, stops)[1]
                idx, st = cont[0]
                continue
            first = False
            ins = code[idx]; op = ins.op
            stk = st.stk
            # ---- control flow
            if op == 'goto': idx = ins.a; continue
            if op.startswith('if'):
                c = s.branch_cond(st, op)
                d = c if isinstance(c, bool) else s.decide(st, c)
                if d is True: idx = ins.a; continue
                if d is False: idx += 1; continue
                j = g.ipdom.get(idx)
                base = len(st.pc)
                sa = st.fork(); sa.pc.append(c); st.pc.append(Not(c))
                st2 = frozenset(stops | ({j} if j is not None and j < g.n else set()))
                res = s.run(st, m, idx + 1, st2, outs) + s.run(sa, m, ins.a, st2, outs)
                cont, ret = s.group(base, res, stops)
                extra += ret
                if not cont: return extra
                assert len(cont) == 1, (m.id, idx, [i for i, _ in cont], j, stops)
                idx, st = cont[0]
                continue
            if op == 'switch':
                v = stk.pop(); dflt, cases = ins.a
                base = len(st.pc); j = g.ipdom.get(idx)
                st2 = frozenset(stops | ({j} if j is not None and j < g.n else set()))
                if isinstance(v, int):
                    idx = dict(cases).get(v, dflt); continue
                res = []; tgt = {}
                for k, t in cases: tgt.setdefault(t, []).append(icmp('eq', v, k))
                for t, cs in tgt.items():
                    c = Or(*cs)
                    if t == dflt or not s.feasible(st, c): continue
                    sa = st.fork(); sa.pc.append(c); res += s.run(sa, m, t, st2, outs)
                c = Not(Or(*[x for t, cs in tgt.items() if t != dflt for x in cs]))
                if s.feasible(st, c):
                    sa = st.fork(); sa.pc.append(c); res += s.run(sa, m, dflt, st2, outs)
                cont, ret = s.group(base, res, stops)
                extra += ret
                if not cont: return extra
                assert len(cont) == 1
                idx, st = cont[0]
                continue
            if op.endswith('return'):
                outs.append(Out('ret', st, stk.pop() if op != 'return' else None, None, None)); return extra
            if op == 'athrow':
                v = stk.pop(); cl = None
                if isinstance(v, Ref): cl = st.heap[v.id].cls
                if cl is None: raise Unsupported('throw of unknown exception')
                if cl.startswith('exc:'): cl = cl[4:]
                return extra + s.handle_excs(m, idx, [s.exc(st, cl, site='%s:%d' % (m.short, ins.line))], stops, outs)
            # ---- calls
            if op.startswith('invoke'):
                s.callstack[-1] = '%s:%d' % (m.short, ins.line)
                if op == 'invokedynamic':
                    s.indy(st, m, ins); idx += 1; continue
                _, owner, name, desc, _ = ins.a
                ad, rt = parse_desc(desc)
                n = len(ad); args = stk[len(stk) - n:]; del stk[len(stk) - n:]
                if op != 'invokestatic': args = [stk.pop()] + args
                res = s.invoke(st, op[6:] if op != 'invokeinterface' else 'virtual', ins.a, args)
                rets = [o for o in res if o.kind == 'ret']; excs = [o for o in res if o.kind == 'exc']
                if excs: extra += s.handle_excs(m, idx, excs, stops, outs)
                if not rets: return extra
                assert len(rets) == 1, ('unmerged', ins)
                st = rets[0].st
                if rt != 'V': st.stk.append(s.narrow(rets[0].val, rt))
                idx += 1
                continue
            ex = []
            ok = s.simple(st, m, ins, ex)
            if ex: extra += s.handle_excs(m, idx, ex, stops, outs)
            if not ok: return extra
            idx += 1
    def narrow(s, v, rt): return v
    def group(s, base, res, stops):
        """merge states per target; -> (to continue inside, reached stops)"""
        by = {}
        for i, t in res: by.setdefault(i, []).append(t)
        cont = []; ret = []
        for i, ts in by.items():
            t = ts[0] if len(ts) == 1 else s.merge(_common(ts, base), [(x, None) for x in ts])[0]
            (ret if i in stops else cont).append((i, t))
        return cont, ret
    def branch_cond(s, st, op):
        stk = st.stk
        if op.startswith('if_icmp'):
            b = stk.pop(); a = stk.pop(); return icmp(op[7:], a, b)
        if op in ('if_acmpeq', 'if_acmpne'):
            b = stk.pop(); a = stk.pop(); c = s.ref_eq(st, a, b)
            return c if op == 'if_acmpeq' else Not(c)
        v = stk.pop()
        if op == 'ifnull': return null_cond(v)
        if op == 'ifnonnull': return Not(null_cond(v))
        return icmp(op[2:], v, 0)
    def ref_eq(s, st, a, b):
        if isinstance(a, Alt) or isinstance(b, Alt):
            la = a.alts if isinstance(a, Alt) else [(True, a)]; lb = b.alts if isinstance(b, Alt) else [(True, b)]
            r = Or(*[And(c1, c2, s.ref_eq(st, x, y)) for c1, x in la for c2, y in lb])
            return simp(r) if isz(r) else r
        if a is NULL or b is NULL: return a is b
        if isinstance(a, Ref) and isinstance(b, Ref): return a == b
        if isinstance(a, (Tok, Clo)) or isinstance(b, (Tok, Clo)): return a == b
        if isinstance(a, Opq) and isinstance(b, Opq): return eq(a.t, b.t)
        if isinstance(a, Box) and isinstance(b, Box) and a.kind == b.kind:
            return And(eq(a.v, b.v), fresh('sameref', BOOL)) if a is not b else True
        if isinstance(a, Str) and isinstance(b, Str):
            if a is b: return True
            if a.t is not None and b.t is not None:
                if strval(a.t) is not None and strval(b.t) is not None: return a.t.eq(b.t)
                return And(eq(a.t, b.t), fresh('sameref', BOOL))
            return fresh('sameref', BOOL)
        return False
    def indy(s, st, m, ins):
        _, bi, name, desc = ins.a
        boot, bargs = m.cls.bootstraps[bi]
        ad, rt = parse_desc(desc)
        n = len(ad); caps = st.stk[len(st.stk) - n:]; del st.stk[len(st.stk) - n:]
        if boot[2] in ('java/lang/invoke/LambdaMetafactory',):
            mh = bargs[1]
            st.stk.append(Clo(mh[1], mh[2], mh[3], mh[4], tuple(caps), rt[1:-1] + '.' + name, bargs[0][1], bargs[2][1]))
            return
        if boot[2] == 'java/lang/invoke/StringConcatFactory':
            recipe = bargs[0][1] if boot[3] == 'makeConcatWithConstants' else '\1' * n
            consts = list(bargs[1:]); parts = []; ci = iter(caps); di = iter(ad)
            for ch in recipe:
                if ch == '\1': parts += s.show(st, next(ci), next(di))
                elif ch == '\2': parts.append(('lit', str(consts.pop(0)[1])))
                else: parts.append(('lit', ch))
            st.stk.append(s.mkstr(norm_parts(parts)))
            return
        raise Unsupported('invokedynamic ' + boot[2])
    def mkstr(s, parts):
        parts = norm_parts(parts)
        if not parts: return Str(EMPTY)
        if len(parts) == 1 and parts[0][0] == 'lit': return Str(strc(parts[0][1]))
        if len(parts) == 1 and parts[0][0] == 'str': return Str(parts[0][1])
        return Str(parts=parts)
    def show(s, st, v, d=None):
        """text of a value as parts"""
        if d in ('F', 'D', 'J', 'C', 'Z'): return [(d, s.vkey(st, v))]
        if isinstance(v, (int, z3.ExprRef)):
            if isinstance(v, int) and d != 'C': return [('lit', str(v))]
            return [('J' if is64(v) else 'I', s.vkey(st, v))]
        if v is NULL: return [('lit', 'null')]
        if isinstance(v, Str): return list(parts_of(v))
        return [('ref', s.vkey(st, v))]
    def vkey(s, st, v):
        """hashable key identifying a value"""
        if isinstance(v, int): return ('c', v)
        if isinstance(v, z3.ExprRef): return ('t', v.sexpr())
        if v is NULL: return ('null',)
        if isinstance(v, Alt): return ('alt', frozenset((bo(c).sexpr(), s.vkey(st, x)) for c, x in v.alts))
        if isinstance(v, Str): return ('s', v.t.sexpr() if v.t is not None else tuple(str(p) for p in v.parts))
        if isinstance(v, Box): return ('b', v.kind, s.vkey(st, v.v))
        if isinstance(v, Opq): return ('o', v.t.sexpr())
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, Obj) and o.content is not None: return ('m', o.content.sexpr())
            if isinstance(o, Lst) and len(o.segs) == 1 and isinstance(o.segs[0], LSym): return ('l', o.segs[0].t.sexpr())
            return ('r', v.id)
        return ('x', str(v))
    def simple(s, st, m, ins, ex):
        """instructions without control flow; False when the instruction always throws"""
        op = ins.op; a = ins.a; stk = st.stk
        if op in ('aload', 'iload', 'lload', 'fload', 'dload'):
            v = st.loc[a]
            if v is DEAD or v is None: raise Unsupported('local variable without a tracked value in ' + m.short)
            stk.append(v)
        elif op in ('astore', 'istore', 'fstore'): st.loc[a] = stk.pop()
        elif op in ('lstore', 'dstore'): st.loc[a] = stk.pop()
        elif op == 'iinc': st.loc[a[0]] = iop('add', st.loc[a[0]], a[1])
        elif op.startswith('iconst'): stk.append(-1 if op == 'iconst_m1' else int(op[7:]))
        elif op in ('bipush', 'sipush'): stk.append(a)
        elif op in ('lconst_0', 'lconst_1'): stk.append(b64(int(op[-1])))
        elif op in ('fconst_0', 'fconst_1', 'fconst_2'): stk.append({'0': 0, '1': 0x3f800000, '2': 0x40000000}[op[-1]])
        elif op in ('dconst_0', 'dconst_1'): stk.append(b64(0 if op[-1] == '0' else 0x3ff0000000000000))
        elif op == 'aconst_null': stk.append(NULL)
        elif op == 'ldc':
            k, v = a
            if k == 'int': stk.append(v)
            elif k == 'float': stk.append(s32(v))
            elif k in ('long', 'double'): stk.append(b64(v))
            elif k == 'string': stk.append(Str(strc(v)))
            elif k == 'class': stk.append(Tok('class:' + v))
            else: raise Unsupported('ldc ' + k)
        elif op == 'getstatic':
            _, o, f, d, _ = a
            c = s.prog.field_owner(o, f)
            if c is None:
                v = s.models.static_field(o, f)
                if v is None: raise Unsupported('static field %s.%s' % (o, f))
                stk.append(v)
            else:
                s.init_class_in(st, c.name)
                stk.append(st.heap[('static', c.name, f)])
        elif op == 'putstatic':
            _, o, f, d, _ = a
            c = s.prog.field_owner(o, f); s.init_class_in(st, c.name)
            st.heap[('static', c.name, f)] = s.trunc(stk.pop(), d)
        elif op == 'getfield':
            o = stk.pop(); _, cn, f, d, _ = a
            s.shadow(cn, f)
            def get(t, r):
                if not isinstance(r, Ref): raise Unsupported('field of ' + repr(r))
                ob = t.heap[r.id]
                if not isinstance(ob, Obj): raise Unsupported('field of ' + type(ob).__name__)
                if ob.fields is None: ob = s.materialise(t, r.id)
                if f not in ob.fields: raise Unsupported('field ' + f)
                return [Out('ret', t, ob.fields[f], None, None)]
            return s.apply(st, o, get, ex, True)
        elif op == 'putfield':
            v = stk.pop(); o = stk.pop(); _, cn, f, d, _ = a
            v = s.trunc(v, d); s.shadow(cn, f)
            def put(t, r):
                if not isinstance(r, Ref): raise Unsupported('field of ' + repr(r))
                ob = t.heap[r.id]
                if ob.fields is None: ob = s.materialise(t, r.id)
                nf = dict(ob.fields); nf[f] = v
                t.heap[r.id] = Obj(ob.cls, nf, None)
                return [Out('ret', t, None, None, None)]
            return s.apply(st, o, put, ex, False)
        elif op == 'dup': stk.append(stk[-1])
        elif op == 'pop': stk.pop()
        elif op == 'pop2':
            v = stk.pop()
            if not is64(v): stk.pop()
        elif op == 'dup_x1': v = stk[-1]; stk.insert(len(stk) - 2, v)
        elif op == 'dup_x2':
            v = stk[-1]; stk.insert(len(stk) - (2 if is64(stk[-2]) else 3), v)
        elif op == 'dup2':
            if is64(stk[-1]): stk.append(stk[-1])
            else: stk += [stk[-2], stk[-1]]
        elif op == 'dup2_x1':
            if is64(stk[-1]): stk.insert(len(stk) - 2, stk[-1])
            else: b, c = stk[-2], stk[-1]; stk[len(stk) - 3:len(stk) - 3] = [b, c]
        elif op == 'dup2_x2':
            if is64(stk[-1]): stk.insert(len(stk) - (2 if is64(stk[-2]) else 3), stk[-1])
            else: b, c = stk[-2], stk[-1]; p = len(stk) - (3 if is64(stk[-3]) else 4); stk[p:p] = [b, c]
        elif op == 'swap': stk[-1], stk[-2] = stk[-2], stk[-1]
        elif op in ('iadd', 'isub', 'imul', 'iand', 'ior', 'ixor', 'ishl', 'ishr', 'iushr'):
            b = stk.pop(); x = stk.pop(); stk.append(iop(op[1:], x, b))
        elif op in ('idiv', 'irem'):
            b = stk.pop(); x = stk.pop()
            if not s.guard(st, Not(icmp('eq', b, 0)), 'java/lang/ArithmeticException', ex): return False
            stk.append(iop(op[1:], x, b))
        elif op in ('ladd', 'lsub', 'lmul', 'land', 'lor', 'lxor', 'lshl', 'lshr', 'lushr'):
            b = stk.pop(); x = stk.pop(); stk.append(lop(op[1:], x, b))
        elif op in ('ldiv', 'lrem'):
            b = stk.pop(); x = stk.pop()
            if not s.guard(st, Not(eq(b, b64(0))), 'java/lang/ArithmeticException', ex): return False
            stk.append(lop(op[1:], x, b))
        elif op == 'ineg': stk.append(iop('sub', 0, stk.pop()))
        elif op == 'lneg': stk.append(lop('sub', b64(0), stk.pop()))
        elif op == 'i2l': stk.append(z3.simplify(z3.SignExt(32, b32(stk.pop()))))
        elif op == 'l2i': stk.append(simp(z3.Extract(31, 0, stk.pop())))
        elif op == 'i2b': stk.append(ext(stk.pop(), 32, 8))
        elif op == 'i2s': stk.append(ext(stk.pop(), 32, 16))
        elif op == 'i2c': stk.append(ext(stk.pop(), 32, 16, False))
        elif op == 'lcmp':
            b = stk.pop(); x = stk.pop()
            stk.append(simp(z3.If(x < b, b32(-1), z3.If(x > b, b32(1), b32(0)))))
        elif op == 'arraylength':
            def al(t, r): return [Out('ret', t, t.heap[r.id].ln, None, None)]
            return s.apply(st, stk.pop(), al, ex, True)
        elif op in ('newarray', 'anewarray'):
            n = stk.pop()
            kind = {4: 'Z', 5: 'C', 6: 'F', 7: 'D', 8: 'B', 9: 'S', 10: 'I', 11: 'J'}[a] if op == 'newarray' else a[1]
            if not s.guard(st, simp(b32(n) >= 0) if isz(n) else n >= 0, 'java/lang/NegativeArraySizeException', ex): return False
            if not isinstance(n, int):
                stk.append(s.alloc(st, Arr(kind, None, (lambda i: 0) if kind in 'ZCBSI' else None, n, ('zero',))))
            else: stk.append(s.alloc(st, Arr(kind, (default_of(kind if len(kind) == 1 else 'L'),) * n, None, n, None)))
        elif op in ('iaload', 'baload', 'saload', 'caload', 'laload', 'aaload', 'faload', 'daload'):
            i = stk.pop(); r = stk.pop()
            def ld(t, r):
                ar = t.heap[r.id]
                o2 = []
                if not s.guard(t, And(icmp('ge', i, 0), icmp('lt', i, ar.ln)), 'java/lang/ArrayIndexOutOfBoundsException', o2): return o2
                if ar.items is not None:
                    if isinstance(i, int): v = ar.items[i]
                    else:
                        if not ar.items: raise Unsupported('empty array')
                        v = s.mux(ar, i)
                elif ar.fn is not None: v = ar.fn(i)
                elif ar.src and ar.src[0] == 'list': v = s.models.lget(s, t, ar.src[1], i)
                else: raise Unsupported('array read')
                return o2 + [Out('ret', t, v, None, None)]
            return s.apply(st, r, ld, ex, True)
        elif op in ('iastore', 'bastore', 'sastore', 'castore', 'lastore', 'aastore', 'fastore', 'dastore'):
            v = stk.pop(); i = stk.pop(); r = stk.pop()
            def sto(t, r):
                ar = t.heap[r.id]; o2 = []
                if not s.guard(t, And(icmp('ge', i, 0), icmp('lt', i, ar.ln)), 'java/lang/ArrayIndexOutOfBoundsException', o2): return o2
                w = s.trunc(v, ar.kind) if ar.kind in ('B', 'S', 'C', 'Z') else v
                if ar.items is None:
                    if ar.src and ar.src[0] == 'loop': t.heap[r.id] = Arr(ar.kind, None, None, ar.ln, ar.src[:2] + (ar.src[2] + ((i, w),),))
                    else: s.models.put(s, t, r, i, w)
                    return o2 + [Out('ret', t, None, None, None)]
                if isinstance(i, int): items = ar.items[:i] + (w,) + ar.items[i + 1:]
                else: items = tuple(ite_val(icmp('eq', i, j), w, x) for j, x in enumerate(ar.items))
                t.heap[r.id] = Arr(ar.kind, items, None, ar.ln, None)
                return o2 + [Out('ret', t, None, None, None)]
            return s.apply(st, r, sto, ex, False)
        elif op == 'new':
            c = a[1]
            if c in s.prog.all:
                if s.is_exc(c, 'java/lang/Throwable'): stk.append(s.alloc(st, Obj(c, {}, None)))
                else: stk.append(s.new_object(st, c))
            elif c in ('java/util/ArrayList', 'java/util/LinkedList'): stk.append(s.alloc(st, Lst((), None)))
            elif c in ('java/util/HashMap', 'java/util/LinkedHashMap', 'java/util/EnumMap', 'java/util/TreeMap', 'java/util/concurrent/ConcurrentHashMap'):
                stk.append(s.alloc(st, Mp(None, ())))
                if c not in ('java/util/HashMap', 'java/util/LinkedHashMap'): st.heap[('nonull', stk[-1].id)] = c.split('/')[-1]
            elif c == 'java/util/StringJoiner': stk.append(s.alloc(st, s.models.joiner()))
            elif c in ('java/lang/StringBuilder', 'java/lang/StringBuffer'): stk.append(s.alloc(st, SBd(())))
            elif c == 'java/lang/String': stk.append(s.alloc(st, Obj('newstring', {}, None)))
            elif c == 'java/lang/Object': stk.append(s.alloc(st, Obj(c, {}, None)))
            elif c in EXC_SUPER: stk.append(s.alloc(st, Obj(c, {}, None)))
            else: raise Unsupported('new ' + c)
        elif op == 'checkcast':
            v = stk[-1]
            c = a[1]
            bad = []
            for g_, x in (v.alts if isinstance(v, Alt) else [(True, v)]):
                if x is NULL or isinstance(x, Opq): continue
                if not s.inst(st, x, c, True): bad.append(g_)
            if bad and not s.guard(st, Not(Or(*bad)), 'java/lang/ClassCastException', ex): return False
        elif op == 'instanceof':
            v = stk.pop(); c = a[1]
            r = Or(*[g_ for g_, x in (v.alts if isinstance(v, Alt) else [(True, v)]) if x is not NULL and s.inst(st, x, c, False)])
            stk.append(If(r, 1, 0))
        elif op in ('monitorenter', 'monitorexit'): stk.pop()
        elif op == 'nop': pass
        else: raise Unsupported('instruction %s in %s' % (op, m.short))
        return True
    def inst(s, st, x, c, cast):
        k = s.class_of(st, x)
        if isinstance(x, Clo): return True if cast else x.iface.startswith(c)
        if isinstance(x, Tok): return True
        if k is None: 
            if c in ('com/finproto/codec/BinaryCodec', 'java/lang/Object') and isinstance(x, Ref): return True
            if cast: raise Unsupported('cast of a message of unknown class')
            raise Unsupported('instanceof on a message of unknown class')
        if k == c or c == 'java/lang/Object' or k[0] == '[' and c[0] == '[': return True
        if k in s.prog.all: return s.prog.is_subclass(k, c)
        sup = {'java/util/ArrayList': ('java/util/List', 'java/util/Collection', 'java/lang/Iterable', 'java/util/AbstractList'), 'java/lang/String': ('java/lang/CharSequence', 'java/lang/Comparable'),
               'java/util/HashMap': ('java/util/Map',), 'java/lang/StringBuilder': ('java/lang/CharSequence',)}
        if c in sup.get(k, ()): return True
        if c == 'java/lang/Number' and isinstance(x, Box) and x.kind in 'BSIJFD': return True
        if c in ('java/lang/Comparable', 'java/io/Serializable') and isinstance(x, Box): return True
        return False
    def mux(s, ar, i):
        v = ar.items[-1]
        for j in range(len(ar.items) - 2, -1, -1):
            v = ite_val(simp(b32(i) == j), ar.items[j], v)
        return v
    def trunc(s, v, d):
        if d == 'B': return ext(v, 32, 8)
        if d == 'S': return ext(v, 32, 16)
        if d == 'C': return ext(v, 32, 16, False)
        if d == 'Z': return ext(v, 32, 1, False)
        return v
    def apply(s, st, v, fn, ex, push):
        base = len(st.pc)
        outs = s.split(st, v, fn) if isinstance(v, Alt) else ([s.exc(st, 'java/lang/NullPointerException')] if v is NULL else fn(st, v))
        ex += [o for o in outs if o.kind == 'exc']
        rets = [o for o in outs if o.kind == 'ret']
        if not rets: return False
        t = rets[0].st
        if t is not st: st.pc = t.pc; st.heap = t.heap; st.loc = t.loc; st.stk = t.stk
        if push: st.stk.append(rets[0].val)
        return True
    # loops are in loops.py
    def loop(s, st, m, h, stops, outs):
        import loops
        return loops.loop(s, st, m, h, stops, outs)

def _vsame(a, b):
    if a is b: return True
    if isinstance(a, (Ref, Tok, Clo)): return a == b
    if isinstance(a, (int, z3.ExprRef)) and isinstance(b, (int, z3.ExprRef)): return same(a, b)
    return False
def _common(ts, base):
    n = min(len(t.pc) for t in ts); i = 0
    while i < n and all(t.pc[i] is ts[0].pc[i] or same(t.pc[i], ts[0].pc[i]) for t in ts[1:]): i += 1
    return i
def _join(c, a, b, ITE, sm):
    n = min(len(a), len(b)); i = 0
    while i < n and (a[i] is b[i] or sm(a[i], b[i])): i += 1
    j = 0
    while j < n - i and (a[-1 - j] is b[-1 - j] or sm(a[-1 - j], b[-1 - j])): j += 1
    ma = a[i:len(a) - j]; mb = b[i:len(b) - j]
    if not ma and not mb: return tuple(a)
    return tuple(a[:i]) + (ITE(c, tuple(ma), tuple(mb)),) + tuple(a[len(a) - j:])
def _mflags(x, y):
    if x is y or x == y: return x
    r = dict(x)
    for k, v in y.items():
        if k not in r or r[k] == v: r[k] = v
        elif isinstance(v, frozenset): r[k] = r[k] | v
        elif k == 'pending': r[k] = v; r['unchecked'] = True
        elif k in ('wmark', 'markpos'): r[k] = '?'
        else: r[k] = r[k] or v
    return r
def lseg_same(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, LOne): return _vsame(a.v, b.v)
    if isinstance(a, LSym): return a.t.eq(b.t)
    return False
