"""Loop rule.  A loop whose exit is decided by constants is executed; any other loop is
replaced by a proved summary over a ghost iteration counter k: affine locals, appended
byte / element segments Rep(k, N, ..), consumed input segments, accumulators as functions of
k with their recurrence, and a trip count N with  (forall k<N: no exit at k)  and  exit at N
proved.  There is no bound on N."""
import os
import z3
from terms import *
from segs import *
from engine import *
from models import *
from models import MV

class _Restart(Exception): pass

def loop(eng, st, m, h, stops, outs):
    g = eng.cfg(m); body = g.loops[h]
    exits = set(t for i in body for t in g.succ[i] if t not in body)
    inner = frozenset({h} | {e for e in exits if e < g.n})
    # ---- 1. constant unrolling
    cur = st.fork(); o2 = []; res_exit = []
    lim = eng.limits['unroll']
    for it in range(lim):
        o3 = []
        try: r = eng.run(cur, m, h, inner, o3, first=True)
        except (Unsupported, Mismatch): r = None
        if r is None: break
        cont, _ = [], None
        by = {}
        for i, t in r: by.setdefault(i, []).append(t)
        if h in by and len(by) == 1 and len(by[h]) == 1 and not any(o.kind == 'ret' for o in o3):
            o2 += o3
            # progress must not depend on a symbolic condition: pc unchanged (or only definite)
            cur = by[h][0]
            if len(cur.pc) > len(st.pc) + 400: break
            continue
        if h not in by and not (o3 and any(o.kind == 'ret' for o in o3) and it > 64):
            outs += o2 + o3
            return r
        break
    # ---- 2. summary
    err = None
    for fl in flags_of(eng, st, m, h, body, inner):
        try: return summarise(eng, st.fork(), m, h, body, exits, inner, outs, fl)
        except (Unsupported, Mismatch) as e:
            if os.environ.get('FPV_TRACE'): import traceback; traceback.print_exception(e)
    try: return summarise(eng, st.fork(), m, h, body, exits, inner, outs)
    except (Unsupported, Mismatch) as e: err = e
    if os.environ.get('FPV_TRACE'): import traceback; traceback.print_exception(err)
    if True:
        # ---- the first iteration apart: the others may be uniform
        o3 = []
        try:
            r = eng.run(st.fork(), m, h, inner, o3, first=True)
            bk = [t for i, t in r if i == h]; ex = [(i, t) for i, t in r if i != h]
            if bk:
                b = eng.merge(len(st.pc), [(t, None) for t in bk])[0] if len(bk) > 1 else bk[0]
                res = summarise(eng, b, m, h, body, exits, inner, o3)
                outs += o3
                return ex + res
        except (Unsupported, Mismatch) as e:
            if os.environ.get('FPV_TRACE'): import traceback; traceback.print_exception(e)
    # ---- 3. bounded unrolling with symbolic but finitely decided exits
    r = unroll(eng, st, m, h, inner, outs)
    if r is not None: return r
    raise err

def under(st, c, val):
    """the state with the condition c decided inside its values"""
    if isinstance(c, bool): return st
    ps = [(c, z3.BoolVal(val))]
    if z3.is_not(c): ps.append((c.arg(0), z3.BoolVal(not val)))
    if val and z3.is_and(c): ps += [(x, z3.BoolVal(True)) for x in c.children()]
    ch = [0]
    def tm(t):
        r = z3.substitute(t, *ps)
        if r.eq(t): return t
        ch[0] += 1; return simp(r) if z3.is_bv(r) or z3.is_bool(r) else z3.simplify(r)
    def v(x):
        n = ch[0]
        if isinstance(x, z3.ExprRef): return tm(x)
        if isinstance(x, Str): y = Str(tm(x.t)) if x.t is not None else x
        elif isinstance(x, Box): y = Box(x.kind, v(x.v))
        elif isinstance(x, Alt): y = [(v(g), v(z)) for g, z in x.alts]; y = mk_alt(y) if ch[0] > n else x
        else: return x
        return y if ch[0] > n else x
    def gs(l):
        r = []
        for x in l:
            T = type(x)
            if T is It:
                g = v(x.c)
                if g is True: r += gs(x.a)
                elif g is False: r += gs(x.b)
                else: r.append(It(g, gs(x.a), gs(x.b)))
            elif T is Num: r.append(Num(low(v(x.v), 8 * x.w), x.w, x.e))
            elif T is Raw: r.append(Raw(x.b, v(x.off), v(x.ln)))
            elif T is Sl: r.append(Sl(x.s, v(x.off), v(x.ln)))
            else: r.append(x)
        return tuple(r)
    st.loc = [v(x) for x in st.loc]
    for key, o in list(st.heap.items()):
        ch[0] = 0
        if isinstance(o, Buf): n = Buf(gs(o.pre), gs(o.segs), o.flags)
        elif isinstance(o, Obj) and o.fields: n = Obj(o.cls, {f: v(x) for f, x in o.fields.items()}, o.content)
        elif isinstance(o, Arr) and o.items is not None: n = Arr(o.kind, tuple(v(x) for x in o.items), o.fn, o.ln, o.src)
        elif isinstance(o, Lst):
            l = []
            for x in o.segs:
                g = v(x.c) if isinstance(x, LIt) else None
                if g is True or g is False: l += list(x.a if g else x.b)
                elif isinstance(x, LOne): l.append(LOne(v(x.v)))
                else: l.append(x)
            n = Lst(tuple(l), o.et)
        elif isinstance(o, Itr): n = Itr(o.lst, v(o.idx))
        else: continue
        if ch[0]: st.heap[key] = n
    return st
def is_value(v, e):
    if isinstance(v, int): return v == e
    if z3.is_bv_value(v): return v.as_long() == e
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = v.children(); x = is_value(a, e); y = is_value(b, e)
        if x is True and y is False: return c
        if x is False and y is True: return simp(z3.Not(c))
        return simp(z3.If(c, bo(x), bo(y)))
    return icmp('eq', v, e)
def step(eng, st, m, h, inner, o, flags):
    """one iteration. Another value of a flag than the one on entry is followed by one more look at the loop condition,
    which has to leave the loop: such a state is a way out, so that the flags are constant at the head"""
    r = eng.run(st, m, h, inner, o, first=True)
    if not flags: return r
    res = []
    for i, t in r:
        if i != h: res.append((i, t)); continue
        todo = [t]
        for x, e in flags.items():
            nxt = []
            for u in todo:
                c = is_value(u.loc[x], e); d = c if isinstance(c, bool) else eng.decide(u, c)
                if d is not False:
                    a = under(u.fork(), c, True); a.loc[x] = e
                    if d is None: a.pc.append(c)
                    nxt.append(a)
                if d is not True:
                    b = under(u.fork(), c, False)
                    if d is None: b.pc.append(Not(c))
                    b.loc[x] = b.loc[x] if isinstance(b.loc[x], int) else 1 - e
                    r2 = eng.run(b, m, h, inner, o, first=True)
                    if any(j == h and eng.feasible(v) for j, v in r2): raise Unsupported('loop goes on after its flag has changed')
                    res += [(j, v) for j, v in r2 if j != h]
            todo = nxt
        res += [(h, u) for u in todo]
    return res
def flags_of(eng, st, m, h, body, inner):
    """boolean locals that the loop sets to stop"""
    g = eng.cfg(m); live = g.live_h[h]
    cand = [x for x in changed_locals(m, body) if x in live and x < len(st.loc) and isinstance(st.loc[x], int) and st.loc[x] in (0, 1)]
    if not cand: return []
    d = st.fork(); o = []
    for x in changed_locals(m, body):
        v = st.loc[x] if x < len(st.loc) else None
        if x in live and isinstance(v, (int, z3.ExprRef)) and x not in cand: d.loc[x] = fresh('h', z3.BitVecSort(int_size(v)))
    try: r = eng.run(d, m, h, inner, o, first=True)
    except (Unsupported, Mismatch): return []
    def two(v): return isinstance(v, int) and v in (0, 1) or z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and all(z3.is_bv_value(c) and c.as_long() in (0, 1) or two(c) for c in v.children()[1:])
    res = {}
    for x in cand:
        vs = [t.loc[x] for i, t in r if i == h]
        if vs and all(two(v) for v in vs) and any(not (isinstance(v, int) and v == st.loc[x]) for v in vs): res[x] = st.loc[x]
    return [{x: v} for x, v in res.items()] + ([res] if len(res) == 2 else [])

def unroll(eng, st, m, h, inner, outs, bound=80):
    states = [st.fork()]; done = []; o2 = []
    for _ in range(bound):
        if not states: break
        nxt = []
        for t in states:
            for i, x in eng.run(t, m, h, inner, o2, first=True):
                (nxt if i == h else done).append((i, x))
        if nxt:
            base = len(st.pc)
            t = nxt[0][1] if len(nxt) == 1 else eng.merge(base, [(x, None) for _, x in nxt])[0]
            states = [t] if eng.feasible(t) else []
        else: states = []
    if states: return None
    outs += o2
    return done

def changed_locals(m, body):
    r = set()
    for i in body:
        ins = m.code[i]
        if ins.op in ('istore', 'lstore', 'fstore', 'dstore', 'astore'): r.add(ins.a)
        if ins.op == 'iinc': r.add(ins.a[0])
    return r

def int_size(v): return 64 if is64(v) else 32

def summarise(eng, st, m, h, body, exits, inner, outs, flags={}):
    g = eng.cfg(m); live = g.live_h[h]
    mod = [x for x in changed_locals(m, body) if x not in flags]
    base = len(st.pc)
    k = fresh('k')
    krange = And(k >= 0, k < 0x7ffffff0)
    # discovery run: which heap objects change
    d = st.fork(); hav = {}; keep = {}
    def kept(t):
        if any(not (t.loc[x] is v or isinstance(v, (Ref, Tok, Clo)) and t.loc[x] == v) for x, v in keep.items()): raise Unsupported('loop carries a changing reference')
    for x in mod:
        v = st.loc[x] if x < len(st.loc) else None
        if x not in live: d.loc[x] = None; continue
        if isinstance(v, (int, z3.ExprRef)): hav[x] = fresh('h', z3.BitVecSort(int_size(v))); d.loc[x] = hav[x]
        elif isinstance(v, (Ref, Str, Tok, Clo, Opq)): keep[x] = v       # checked below: every iteration leaves it as it is
        else: raise Unsupported('loop carries a changing reference')
    d.pc = d.pc + [krange]
    h0 = dict(d.heap)
    o_dis = []; d0 = d.fork()
    try: r = step(eng, d, m, h, inner, o_dis, flags)
    except Mismatch:
        # the next input element has to be present: look at an iteration in the middle of the repetition
        d = d0; any_ = False
        for key, ob in list(d.heap.items()):
            if not isinstance(ob, Buf): continue
            hd = list(eng.norm_head(st, ob.segs))
            if hd and isinstance(hd[0], Rep):
                mk2 = Mark(('rest', key), fresh('left')); d.pc.append(mk2.ln >= 0); d.pc.append(And(k < b32(hd[0].n)))
                d.heap[key] = Buf(ob.pre, tuple(sub_segs(hd[0].body, hd[0].k, k)) + (mk2,) + tuple(hd[1:]), ob.flags); any_ = True
        if not any_: raise
        h0 = dict(d.heap); o_dis = []
        r = step(eng, d, m, h, inner, o_dis, flags)
    back = [t for i, t in r if i == h]
    if not back: raise Unsupported('loop body never repeats')
    for t in back: kept(t)
    allst = back
    objs = set()
    for t in back:
        for key, ob in t.heap.items():
            if key in h0 and h0[key] is not ob and h0[key] != ob: objs.add(key)
            if isinstance(key, tuple) and key[0] == 'refs' and key[1] in h0 and ob < h0.get(key, 1): raise Unsupported('loop releases a buffer')
    # ---- havoc the changed objects
    s1 = st.fork(); s1.pc = s1.pc + [krange]
    for x in mod: s1.loc[x] = keep[x] if x in keep else hav.get(x)
    kinds = {}
    for key in sorted(objs, key=str):
        ob = st.heap[key]
        nb = next(t.heap[key] for t in back if t.heap.get(key) is not h0[key])
        if isinstance(ob, Buf):
            if len(nb.pre) == len(ob.pre) and segs_same(nb.pre, ob.pre) and (len(nb.segs) > len(ob.segs) or nb.flags.get('written') and not same_tuple(nb.segs, ob.segs)):
                mk = Mark(('w', key), fresh('done')); s1.pc.append(mk.ln >= 0)
                s1.heap[key] = Buf(ob.pre, ob.segs + (mk,), ob.flags); kinds[key] = ('write', mk)
            elif segs_same(nb.segs, ob.segs) and segs_same(nb.pre, ob.pre):
                kinds[key] = ('flags', nb.flags); s1.heap[key] = Buf(ob.pre, ob.segs, nb.flags)
            else:
                hd = list(eng.norm_head(st, ob.segs))
                if not hd: raise Unsupported('loop reads beyond the input')
                mk = Mark(('r', key), fresh('done')); s1.pc.append(mk.ln >= 0)
                if isinstance(hd[0], Rep):
                    rp = hd[0]; mk2 = Mark(('rest', key), fresh('left')); s1.pc.append(mk2.ln >= 0)
                    s1.heap[key] = Buf(ob.pre + (mk,), tuple(sub_segs(rp.body, rp.k, k)) + (mk2,) + tuple(hd[1:]), dict(nb.flags))
                    s1.pc.append(And(k < b32(rp.n)))
                    kinds[key] = ('readrep', mk, mk2, rp, tuple(hd[1:]))
                elif isinstance(hd[0], Raw) and len(hd) == 1:
                    rw = hd[0]; off = fresh('off'); end = iop('add', rw.off, rw.ln)
                    s1.pc.append(And(simp(off >= b32(rw.off)), simp(off <= b32(end))))
                    s1.heap[key] = Buf(raw_merge(ob.pre, (Raw(rw.b, rw.off, iop('sub', off, rw.off)),)), (Raw(rw.b, off, iop('sub', end, off)),), dict(nb.flags))
                    kinds[key] = ('readraw', rw, off, end)
                else: raise Unsupported('loop reads %s' % short(tuple(hd[:1])))
        elif isinstance(ob, Lst):
            mk = LMark(key, fresh('cnt')); s1.pc.append(mk.ln >= 0)
            s1.heap[key] = Lst(ob.segs + (mk,), ob.et); kinds[key] = ('list', mk)
        elif isinstance(ob, Arr) and ob.items is not None:
            # an array of fixed length: its changed elements are loop variables
            ch = {}
            for j, v in enumerate(ob.items):
                if any(not (isinstance(t.heap[key], Arr) and t.heap[key].items) or not _same_val(t.heap[key].items[j], v) for t in back):
                    if not isinstance(v, (int, z3.ExprRef)): raise Unsupported('loop changes an array of references')
                    ch[j] = fresh('ha', z3.BitVecSort(int_size(v)))
            if len(ch) > 8: raise Unsupported('loop changes an array')
            s1.heap[key] = Arr(ob.kind, tuple(ch.get(j, v) for j, v in enumerate(ob.items)), None, ob.ln, None); kinds[key] = ('obj', ch)
        elif isinstance(ob, Arr):
            # an array filled one element after the other
            s1.heap[key] = Arr(ob.kind, None, None, ob.ln, ('loop', key, ())); kinds[key] = ('fill',)
        elif isinstance(ob, SBd):
            s1.heap[key] = SBd(ob.parts + (('mark', key),)); kinds[key] = ('sb',)
        elif isinstance(ob, Itr):
            s1.heap[key] = Itr(ob.lst, iop('add', ob.idx, k)); kinds[key] = ('iter',)
            if not isinstance(ob.idx, int) : raise Unsupported('iterator position')
        elif isinstance(ob, Obj):
            if ob.fields is None: raise Unsupported('loop changes a nested message')
            nf = dict(ob.fields); ch = {}
            for f, v in ob.fields.items():
                if any(not _same_val(t.heap[key].fields[f], v) for t in back):
                    if not isinstance(v, (int, z3.ExprRef)): raise Unsupported('loop changes field ' + f)
                    ch[f] = fresh('hf', z3.BitVecSort(int_size(v))); nf[f] = ch[f]
            s1.heap[key] = Obj(ob.cls, nf, None); kinds[key] = ('obj', ch)
        elif isinstance(key, tuple) and key[0] == 'refs': kinds[key] = ('skip',)
        elif isinstance(key, tuple) and isinstance(ob, (int, z3.ExprRef)):
            raise Unsupported('loop changes a static field')
        elif key == ('mutated',) or key == ('prealloc',): kinds[key] = ('skip',)
        else: raise Unsupported('loop changes a %s' % type(ob).__name__)
    # ---- run with fully unknown loop state, derive the recurrences
    def body_run(s0):
        o = []
        r = step(eng, s0, m, h, inner, o, flags)
        bk = [t for i, t in r if i == h]; ex = [(i, t) for i, t in r if i != h]
        if len(bk) > 1: bk = [eng.merge(base_of(s0), [(t, None) for t in bk])[0]]
        return (bk[0] if bk else None), ex, o
    s1base = len(s1.pc)
    def base_of(s0): return s1base
    b1, ex1, o1 = body_run(s1.fork())
    if b1 is None: raise Unsupported('loop body never repeats')
    kept(b1)
    aff = {}; accs = {}
    for x, hv in hav.items():
        nv = b1.loc[x]
        if not isinstance(nv, (int, z3.ExprRef)): raise Unsupported('loop variable')
        df = iop('sub', nv, hv) if int_size(hv) == 32 else z3.simplify(b64(nv) - hv)
        if isinstance(df, int): aff[('l', x)] = df
        elif z3.is_bv_value(df): aff[('l', x)] = df.as_long()
        elif int_size(hv) == 32 and narrow_step(eng, st, b1, st.loc[x], hv, nv) is not None: aff[('l', x)] = narrow_step(eng, st, b1, st.loc[x], hv, nv)
        else: accs[('l', x)] = hv
    for key, kd in kinds.items():
        if kd[0] == 'obj':
            for f, hv in kd[1].items():
                nv = slot(b1.heap[key], f)
                df = iop('sub', nv, hv) if int_size(hv) == 32 else z3.simplify(b64(nv) - hv)
                if isinstance(df, int): aff[('f', key, f)] = df
                elif z3.is_bv_value(df): aff[('f', key, f)] = df.as_long()
                else: accs[('f', key, f)] = hv
        if kd[0] == 'readraw':
            nb = b1.heap[key]
            if not (len(nb.segs) == 1 and isinstance(nb.segs[0], Raw)): raise Unsupported('input position')
            df = iop('sub', nb.segs[0].off, kd[2])
            if isinstance(df, int): aff[('o', key)] = df
            else: accs[('o', key)] = kd[2]
    # ---- closed forms
    accf = {}
    site = '%s:%d' % (m.short, m.code[h].line)
    def entry(key):
        if key[0] == 'l': return st.loc[key[1]]
        if key[0] == 'f': return slot(st.heap[key[1]], key[2])
        return kinds[key[1]][1].off
    havterm = {}
    for x, hv in hav.items(): havterm[('l', x)] = hv
    for key, kd in kinds.items():
        if kd[0] == 'obj':
            for f, hv in kd[1].items(): havterm[('f', key, f)] = hv
        if kd[0] == 'readraw': havterm[('o', key)] = kd[2]
    for key in accs:
        hv = accs[key]
        if key[0] == 'o':
            # position after k elements: a function of the input, the start and the element reader,
            # named by the recurrence so that equal loops give equal positions
            nb = b1.heap[key[1]].segs[0].off
            cv = z3.BitVec('off!canon', 32)
            sig = z3.substitute(b32(nb), (hv, cv)).sexpr()
            f = uf('pos$' + sig + '$' + b32(entry(key)).sexpr(), I32, I32)
        else: f = z3.Function('acc!%d' % _next(), I32, z3.BitVecSort(int_size(hv)))
        accf[key] = f
    def closed(key, kk):
        e = entry(key)
        if key in aff:
            c = aff[key]
            if int_size(havterm[key]) == 64: return z3.simplify(b64(e) + b64(c) * z3.SignExt(32, b32(kk)))
            return iop('add', e, iop('mul', c, kk))
        t = accf[key](b32(kk))
        return simp(t) if int_size(havterm[key]) == 32 else t
    def subst_all(t, kk):
        """replace havocked symbols and k by their closed forms at iteration kk"""
        pairs = [(havterm[key], (b64 if int_size(havterm[key]) == 64 else b32)(closed(key, kk))) for key in havterm]
        pairs += [(mk, b32(iop('mul', c, kk))) for mk, c in counted]
        pairs.append((k, b32(kk)))
        return z3.substitute(t, *pairs)
    def sub_any(v, kk):
        if isinstance(v, (int, bool)) or v is None: return v
        if isinstance(v, z3.ExprRef):
            t = subst_all(v, kk)
            return simp(t) if z3.is_bv(t) or z3.is_bool(t) else t
        if isinstance(v, Str): return Str(subst_all(v.t, kk)) if v.t is not None else v
        if isinstance(v, Box): return Box(v.kind, sub_any(v.v, kk))
        if isinstance(v, MV): return MV(subst_all(v.content, kk), v.cls)
        if isinstance(v, Alt): return mk_alt([(sub_any(c, kk), sub_any(x, kk)) for c, x in v.alts])
        if isinstance(v, Opq): return Opq(subst_all(v.t, kk))
        return v
    def sub_gs(gs, kk):
        out = []
        for x in gs:
            T = type(x)
            if T is Num: out.append(Num(low(sub_any(x.v, kk), 8 * x.w), x.w, x.e))
            elif T is It: out.append(It(sub_any(x.c, kk), sub_gs(x.a, kk), sub_gs(x.b, kk)))
            elif T is Rep: out.append(Rep(x.k, sub_any(x.n, kk), sub_gs(x.body, kk)))
            elif T is Mark: raise Unsupported('nested loop state')
            elif T is Mg: out.append(Mg(subst_all(x.m, kk), x.cls))
            elif T is Raw: out.append(Raw(x.b, sub_any(x.off, kk), sub_any(x.ln, kk)))
            else: out.append(T(*[sub_any(y, kk) for y in x]))
        return tuple(out)
    # ---- effects of one iteration
    eff = {}; counted = []       # elements or bytes added so far, when every iteration adds the same number
    for key, kd in kinds.items():
        nb = b1.heap[key]; ob = st.heap[key]
        if kd[0] == 'write':
            n0 = len(ob.segs) + 1
            if not (len(nb.segs) >= n0 and is_mark(nb.segs[n0 - 1], kd[1]) and all(x is y or seg_same(x, y) for x, y in zip(nb.segs, ob.segs))): raise Unsupported('loop rewrites earlier output')
            eff[key] = nb.segs[n0:]
            if isinstance(segs_len(eff[key]), int): counted.append((kd[1].ln, segs_len(eff[key])))
        elif kd[0] == 'readrep':
            i = next((i for i, x in enumerate(nb.segs) if is_mark(x, kd[2])), 0)
            if i and Cmp(eng.facts).empty(b1.pc, nb.segs[:i]): nb = Buf(nb.pre, nb.segs[i:], nb.flags)
            if not (nb.segs and is_mark(nb.segs[0], kd[2]) and segs_same(nb.segs[1:], kd[4])): raise Mismatch('an iteration does not consume exactly one element: left %s' % short(tuple(nb.segs[:1])))
        elif kd[0] == 'readraw': eff[key] = None
        elif kd[0] == 'list':
            n0 = len(ob.segs) + 1
            if not (len(nb.segs) >= n0 and is_mark(nb.segs[n0 - 1], kd[1])): raise Unsupported('loop rewrites earlier elements')
            new = nb.segs[n0:]
            eff[key] = [conv_elem(eng, b1, x) for x in new]
            if isinstance(llen(tuple(new)), int): counted.append((kd[1].ln, llen(tuple(new))))
        elif kd[0] == 'sb':
            n0 = len(ob.parts) + 1
            eff[key] = nb.parts[n0:]
            if nb.parts[n0 - 1] != ('mark', key): raise Unsupported('string builder')
        elif kd[0] == 'fill':
            ws = nb.src[2] if nb.src and nb.src[0] == 'loop' else ()
            if len(ws) != 1 or not same(iop('sub', sub_any(ws[0][0], k), iop('add', sub_any(ws[0][0], 0), k)), 0): raise Unsupported('loop changes an array')
            eff[key] = ws[0]
        elif kd[0] == 'iter':
            if not (isinstance(nb, Itr) and same(simp(b32(nb.idx) - b32(s1.heap[key].idx)), 1)): raise Unsupported('iterator step')
    # ---- trip count
    diff = lambda t: And(*t.pc[s1base:])
    stay = diff(b1)
    rets = [o for o in o1 if o.kind == 'ret']; excs = [o for o in o1 if o.kind == 'exc']
    ex_conds = [diff(t) for _, t in ex1]
    exit_any = Or(*ex_conds) if ex_conds else False
    ret_any = Or(*[And(*o.st.pc[s1base:]) for o in rets])
    e_at = lambda kk: simp(bo(sub_any(exit_any, kk))) if not isinstance(exit_any, bool) else exit_any
    ret_at = lambda kk: sub_any(ret_any, kk) if not isinstance(ret_any, bool) else ret_any
    if rets: raise Unsupported('return inside an unbounded loop')
    if exit_any is False: raise Diverges('loop without exit at ' + site)
    hyp0 = st.pc + eng.facts
    def rep_facts(kk): return [And(b32(kk) >= 0)]
    # facts available at every iteration: input positions stay inside
    def inv_at(kk):
        r = []
        for key, kd in kinds.items():
            if kd[0] == 'readraw':
                o_ = closed(('o', key), kk); r += [simp(b32(o_) >= b32(kd[1].off)), simp(b32(o_) <= b32(kd[3]))]
        return r
    cands = []
    for key, kd in kinds.items():
        if kd[0] == 'readrep': cands.append(kd[3].n)
    seen = {}
    kk_e = simp(bo(e_at(k))) if not isinstance(e_at(k), bool) else e_at(k)
    if isz(kk_e):
        for t in invariant_terms(kk_e, k): cands.append(t)
    ents = [entry(key) for key in aff if key[0] == 'l' and int_size(havterm[key]) == 32]
    full = []
    for t in cands:
        full.append(t)
        full.append(If(icmp('gt', t, 0), t, 0))
    for t in cands:
        for e0 in ents:
            for x in (iop('sub', t, e0), iop('sub', e0, t)):
                full.append(x); full.append(If(icmp('gt', x, 0), x, 0))
    for e0 in ents: full.append(e0); full.append(If(icmp('gt', e0, 0), e0, 0))
    extra = []
    for t in full:
        for c in (-1, 1): extra.append(iop('add', t, c))
        y = iop('sub', t, 1); extra.append(If(icmp('gt', y, 0), y, 0))
    N = None; tried = set()
    for t in full + extra:
        key = t if isinstance(t, int) else t.get_id()
        if key in tried: continue
        tried.add(key)
        if len(tried) > 60: break
        if not prove(hyp0, simp(b32(t) >= 0) if isz(t) else t >= 0, timeout=3000): continue
        # exit at N; no exit before
        if not prove(hyp0 + inv_at(t), e_at(t), timeout=3000): continue
        if not prove(hyp0 + [k >= 0, simp(k < b32(t))] + inv_at(k), Not(e_at(k)), timeout=3000): continue
        N = t; break
    data = False
    if N is None:
        # data-dependent exit: N is the first iteration at which the loop exits; needs a bound
        N = fresh('N'); data = True
        stay_k = simp(bo(sub_any(stay, k)))
        ok = False; tried = set()
        for t in full + extra:
            # the loop surely ends at t, if not before
            key = t if isinstance(t, int) else t.get_id()
            if key in tried: continue
            tried.add(key)
            if len(tried) > 60: break
            if prove(hyp0, simp(b32(t) >= 0) if isz(t) else t >= 0, timeout=3000) and prove(hyp0 + inv_at(t), e_at(t), timeout=3000): ok = True; bound = t; break
        for t in full + extra if not ok else ():
            if prove(hyp0 + [krange] + inv_at(k) + [stay_k], simp(k < b32(t)) if True else None, timeout=3000):
                ok = True; bound = t; break
        if not ok:
            # progress through the input bounds the iterations: each repetition consumes a byte
            for key, kd in kinds.items():
                if kd[0] == 'readraw':
                    o_ = closed(('o', key), k); o2_ = sub_any(b1.heap[key].segs[0].off, k)
                    if prove(hyp0 + [krange] + inv_at(k) + [stay_k], simp(b32(o2_) > b32(o_))): ok = True; bound = None
        if not ok: raise Unsupported('no bound on the iterations of the loop at %s' % site)
        nf = [N >= 0]
        if bound is not None: nf.append(simp(N <= b32(If(icmp('gt', bound, 0), bound, 0))))
        kq = z3.BitVec('kq!%d' % _next(), 32)
        fa = z3.substitute(bo(simp(bo(sub_any(stay, k)))), (k, kq))
        nf.append(z3.ForAll([kq], z3.Implies(z3.And(kq >= 0, kq < N), fa)))
    # ---- exception outcomes raised in some iteration k < N (or at the exit iteration)
    absm = any(kd[0] == 'readraw' and b1.heap[key].flags.get('abs') is not None for key, kd in kinds.items())
    link = [bo(eq(havterm[key], closed(key, k))) for key in aff if key[0] != 'o'] if absm else []
    reach = [simp(k <= b32(If(icmp('gt', bound, 0), bound, 0)))] if data and bound is not None else []
    for o in excs:
        t = o.st
        if absm: t.pc = t.pc + [x for x in link] + [simp(k <= b32(N))] + reach
        else: t.pc = st.pc + [bo(x) for x in [krange] + inv_at(k) + [sub_any(p, k) for p in t.pc[base + 1:]] if x is not True] + [simp(k <= b32(N))] + reach
        outs.append(o)
    # ---- state at iteration N
    f = st.fork(); absf = []
    for x in mod: f.loc[x] = closed(('l', x), N) if ('l', x) in havterm else keep.get(x)
    for key, kd in kinds.items():
        ob = st.heap[key]
        if kd[0] == 'write':
            bodyk = sub_gs(eff[key], k)
            f.heap[key] = Buf(ob.pre, ob.segs + (rep(k, N, bodyk)), b1.heap[key].flags)
        elif kd[0] == 'flags': f.heap[key] = Buf(ob.pre, ob.segs, kd[1])
        elif kd[0] == 'readrep':
            rp = kd[3]
            left = iop('sub', rp.n, N)
            if not same(left, 0) and not prove(hyp0 + [e_at(N)], eq(left, 0)):
                # do-while shape: the last iteration consumes one more element
                if prove(hyp0 + [e_at(N)], eq(left, 1)): rest = tuple(sub_segs(rp.body, rp.k, N)) + kd[4]
                else: rest = (Rep(rp.k, left, sub_segs(rp.body, rp.k, rp.k + b32(N))),) + kd[4]
                f.heap[key] = Buf(ob.pre + (Rep(rp.k, N, rp.body),), rest, b1.heap[key].flags)
            else: f.heap[key] = Buf(ob.pre + (Rep(rp.k, rp.n, rp.body),), kd[4], b1.heap[key].flags)
        elif kd[0] == 'readraw':
            rw = kd[1]; o_ = closed(('o', key), N)
            fl = b1.heap[key].flags
            if fl.get('abs') is not None:
                p = fresh('pos'); absf += [p >= b32(rw.off), p <= b32(kd[3])]; lo = eng.least(st, b32(rw.off), fl['abs'][0])
                absf.append(p - fl['abs'][0] >= lo); o_ = p
            f.heap[key] = Buf(raw_merge(ob.pre, (Raw(rw.b, rw.off, iop('sub', o_, rw.off)),)), (Raw(rw.b, o_, iop('sub', kd[3], o_)),), fl)
        elif kd[0] == 'list':
            vs = [sub_any(v, k) for v in eff[key]]
            if len(vs) == 0: pass
            elif len(vs) == 1: f.heap[key] = Lst(ob.segs + (LRep(k, N, vs[0]),), ob.et)
            else: raise Unsupported('several elements per iteration')
        elif kd[0] == 'sb': f.heap[key] = SBd(ob.parts + (('rep', k, N, tuple(eff[key])),))
        elif kd[0] == 'iter': f.heap[key] = Itr(ob.lst, iop('add', ob.idx, N))
        elif kd[0] == 'obj':
            if isinstance(ob, Arr):
                f.heap[key] = Arr(ob.kind, tuple(closed(('f', key, j), N) if j in kd[1] else v for j, v in enumerate(ob.items)), None, ob.ln, None); continue
            nf2 = dict(ob.fields)
            for fl in kd[1]: nf2[fl] = closed(('f', key, fl), N)
            f.heap[key] = Obj(ob.cls, nf2, None)
        elif kd[0] == 'fill':
            i, w = eff[key]
            splice(eng, f, Ref(key), sub_any(i, 0), N, lambda: (Rep(k, N, (Num(low(sub_any(w, k), 8), 1, 'be'),)),), lambda j: sub_any(w, j))
        elif kd[0] == 'skip': f.heap[key] = b1.heap[key]
    for key, kd in kinds.items():
        if kd[0] == 'readrep' and st.heap[key].flags.get('limit') is not None:
            lim = st.heap[key].flags['limit']
            if prove(b1.pc + eng.facts, simp(b32(segs_len(b1.heap[key].pre)) <= lim)): f.pc.append(Or(icmp('le', N, 0), simp(b32(segs_len(f.heap[key].pre)) <= lim)))
    if any(kd[0] == 'list' for kd in kinds.values()):
        for key, kd in kinds.items():
            if kd[0] == 'readraw':
                ok = small_prove(eng, b1, base, kd, simp(b32(b1.heap[key].segs[0].off) > kd[2]))
                if not ok:
                    f.heap[('nogrowth',)] = 1; eng.notes.append('elements without input at ' + site)
    for key, ob in b1.heap.items():
        if key not in f.heap and isinstance(key, tuple): f.heap[key] = ob
    for key in accf:
        # definition of the accumulator: start value
        f.pc.append(bo(eq(accf[key](b32(0)), b32(entry(key)) if int_size(havterm[key]) == 32 else b64(entry(key)))))
    f.pc += absf if absf else [x for x in inv_at(N) if x is not True]
    if data: f.pc += nf
    e = e_at(N)
    if e is not True: f.pc.append(bo(e))
    info = dict(site=site, k=k, N=N, accs={}, pc=list(st.pc), stay=sub_any(stay, k))
    for key in accf:
        if key[0] == 'l': nv = b1.loc[key[1]]
        elif key[0] == 'f': nv = slot(b1.heap[key[1]], key[2])
        else: nv = b1.heap[key[1]].segs[0].off
        info['accs'][accf[key].name()] = (accf[key], entry(key), sub_any(nv, k))
    eng.loops_info.append(info)
    # position invariants of unknown input: inductive step
    for key, kd in kinds.items():
        if kd[0] == 'readraw':
            nx = b1.heap[key].segs[0].off
            if not all(small_prove(eng, b1, base, kd, x) for x in (simp(b32(nx) <= b32(kd[3])), simp(b32(nx) >= b32(kd[2])))): raise Unsupported('input position may leave the buffer')
    # ---- leave the loop
    o3 = []
    r = step(eng, f, m, h, inner, o3, flags)
    outs += o3
    ex = [(i, t) for i, t in r if i != h]
    bk = [t for i, t in r if i == h]
    if any(eng.feasible(t) for t in bk): raise Unsupported('loop exit not decided at ' + site)
    return ex

def narrow_step(eng, st, b1, e, hv, nv):
    """a byte, short or char counter: the cast after each step changes nothing while the loop goes on"""
    if not z3.is_app(nv) or nv.decl().kind() not in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_CONCAT): return None
    for lo, hi in ((-128, 127), (-32768, 32767), (0, 255), (0, 65535)):
        rng = lambda v: simp(z3.And(b32(v) >= lo, b32(v) <= hi)) if isz(v) else lo <= v <= hi
        # holds at the start and after every iteration
        if not (prove(st.pc + eng.facts, rng(e)) and prove([], rng(nv))): continue
        for c in (1, -1):
            if prove(b1.pc + eng.facts + [rng(hv)], eq(nv, iop('add', hv, c)), timeout=3000): return c
        return None
    return None

def tsize(t, lim=200):
    seen = set(); st = [t]
    while st and len(seen) < lim:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st.extend(x.children())
    return len(seen)
def small_prove(eng, b1, base, kd, goal):
    """first from the hypotheses of the iteration alone (positions are never negative)"""
    h = [bo(c) for c in b1.pc[base:]]
    big = tsize(b32(kd[1].off)) > 8
    def conj(c): return [y for x in c.children() for y in conj(x)] if z3.is_and(c) else [c]
    hs = [x for c in h for x in conj(c) if not big or not occurs(b32(kd[1].off), x)] + [kd[2] >= 0] + [x for x in eng.facts if tsize(bo(x)) < 12]
    hs, goal2 = generalise(hs, goal)
    if prove(hs, goal2, timeout=6000): return True
    if os.environ.get('FPV_TRACE'): print('SMALL', goal2, '\n   '.join(str(x) for x in hs))
    return prove(b1.pc + eng.facts, goal)
def generalise(hs, goal):
    """numbers read from the input become arbitrary numbers"""
    todo = [bo(goal)] + list(hs); seen = set(); sub = []
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_bv(x) and x.size() in (16, 32, 64) and z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_CONCAT, z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT): sub.append((x, fresh('gen', x.sort()))); continue
        todo.extend(x.children())
    if not sub: return hs, goal
    return [z3.substitute(h, *sub) for h in hs], z3.substitute(bo(goal), *sub)
def occurs(t, x):
    seen = set(); st = [x]
    while st:
        y = st.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if y.eq(t): return True
        st.extend(y.children())
    return False
_ctr = [0]
def _next(): _ctr[0] += 1; return _ctr[0]
def is_mark(x, mk): return type(x) is type(mk) and x == mk
def slot(o, f): return o.items[f] if isinstance(o, Arr) else o.fields[f]
def rep(k, N, body):
    if not body: return ()
    if len(body) == 1 and type(body[0]) is Num and body[0].w == 1 and z3.is_app(body[0].v) and body[0].v.decl().name() in ('ub', 'rawb'):
        # the bytes off, off + 1, ... of a text or of the input, one by one
        t = body[0].v; off = iop('sub', simp(t.arg(1)), k)
        if (isinstance(off, int) or not _mentions_t(off, k)) and not _mentions_t(t.arg(0), k):
            n = If(icmp('gt', N, 0), N, 0)
            return (Sl(t.arg(0), off, n) if t.decl().name() == 'ub' else Raw(t.arg(0), off, n),)
    return (Rep(k, N, tuple(body)),)
def same_tuple(a, b): return len(a) == len(b) and all(x is y or seg_same(x, y) for x, y in zip(a, b))
def _same_val(a, b):
    if a is b: return True
    if isinstance(a, (int, z3.ExprRef)) and isinstance(b, (int, z3.ExprRef)): return same(a, b)
    if isinstance(a, Ref) and isinstance(b, Ref): return a == b
    return False
def conv_elem(eng, st, g):
    """an appended list element as a value that is a function of the iteration"""
    if isinstance(g, LIt) and len(g.a) == 1 and len(g.b) == 1:
        return ite_val(g.c, conv_elem(eng, st, g.a[0]), conv_elem(eng, st, g.b[0]))
    if not isinstance(g, LOne): raise Unsupported('loop builds a list of lists')
    return conv_val(eng, st, g.v)
def conv_val(eng, st, v):
    if isinstance(v, Ref):
        o = st.heap[v.id]
        if isinstance(o, Obj) and o.content is not None: return MV(o.content, o.cls)
        if isinstance(o, Obj): raise Unsupported('loop appends an object with explicit fields')
        raise Unsupported('loop appends a %s' % type(o).__name__)
    if isinstance(v, Alt): return Alt([(c, conv_val(eng, st, x)) for c, x in v.alts])
    return v
def invariant_terms(e, k):
    """32-bit subterms of comparisons in e that do not mention k"""
    out = {}; st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        if z3.is_bv(x) and x.size() == 32 and not _mentions_t(x, k):
            out[x.get_id()] = simp(x); continue
        st.extend(x.children())
    return list(out.values())
def _mentions_t(t, k):
    from segs import _mentions
    return _mentions(t, k)

def foreach(eng, st, lref, clo):
    """list.forEach(lambda): the list-loop rule with the lambda as body"""
    o = st.heap[lref.id]
    N = llen(o.segs)
    if isinstance(N, int):
        outs = []
        for i in range(N):
            r = eng.call_closure(st, clo, [lget(eng, st, o.segs, i)])
            outs += [x for x in r if x.kind == 'exc']
            st = [x for x in r if x.kind == 'ret'][0].st
        return outs + RET(st)
    k = fresh('k')
    s1 = st.fork(); s1.pc += [And(k >= 0, simp(k < b32(N)))]
    el = lget(eng, s1, o.segs, k)
    h0 = dict(s1.heap)
    # discovery
    r = eng.call_closure(s1.fork(), clo, [el])
    t = [x for x in r if x.kind == 'ret'][0].st
    ch = [key for key, ob in t.heap.items() if key in h0 and h0[key] is not ob and h0[key] != ob]
    marks = {}
    for key in ch:
        ob = st.heap[key]
        if isinstance(ob, Buf):
            mk = Mark(('w', key), fresh('done')); s1.pc.append(mk.ln >= 0); s1.heap[key] = Buf(ob.pre, ob.segs + (mk,), ob.flags); marks[key] = mk
        elif isinstance(ob, Lst):
            mk = LMark(key, fresh('cnt')); s1.heap[key] = Lst(ob.segs + (mk,), ob.et); marks[key] = mk
        else: raise Unsupported('forEach changes a %s' % type(ob).__name__)
    r = eng.call_closure(s1.fork(), clo, [el])
    outs = [x for x in r if x.kind == 'exc']
    t = [x for x in r if x.kind == 'ret'][0].st
    if any(key in h0 and h0[key] is not ob and h0[key] != ob and key not in ch for key, ob in t.heap.items() if key not in marks): raise Unsupported('forEach changes more')
    f = st.fork()
    for key in ch:
        ob = st.heap[key]; nb = t.heap[key]; n0 = len(ob.segs) + 1
        if not (len(nb.segs) >= n0 and is_mark(nb.segs[n0 - 1], marks[key])): raise Unsupported('forEach rewrites')
        if isinstance(ob, Buf): f.heap[key] = Buf(ob.pre, ob.segs + rep(k, N, nb.segs[n0:]), nb.flags)
        else:
            vs = [conv_elem(eng, t, x) for x in nb.segs[n0:]]
            if len(vs) != 1: raise Unsupported('forEach elements')
            f.heap[key] = Lst(ob.segs + (LRep(k, N, vs[0]),), ob.et)
    return outs + RET(f)
