"""Trusted contracts of the JDK and netty operations that /repo uses (the assumed part of
the environment; the Java harness cross-checks them against the real classes)."""
import z3
from terms import *
from segs import *
from engine import *

UTF8 = Tok('charset:UTF-8')
NPE = 'java/lang/NullPointerException'
RET = lambda st, v=None: [Out('ret', st, v, None, None)]

# ================================================================= byte sequences, reading side
def raw_merge(pre, taken):
    pre = list(pre)
    for g in taken:
        if isinstance(g, Raw) and pre and isinstance(pre[-1], Raw) and same(pre[-1].b, g.b) and same(iop('add', pre[-1].off, pre[-1].ln), g.off):
            pre[-1] = Raw(g.b, pre[-1].off, iop('add', pre[-1].ln, g.ln))
        else: pre.append(g)
    return tuple(pre)

def take(eng, st, segs, n, extra=()):
    """split the first n bytes off; -> (taken, rest, condition that n bytes exist)"""
    P = lambda g: prove(st.pc + list(extra) + eng.facts, g)
    segs = list(segs); taken = []
    steps = 0
    while True:
        steps += 1
        if steps > 4000: raise Mismatch('read too long')
        if same(n, 0): return tuple(taken), tuple(segs), True
        if not segs: return tuple(taken), (), False
        g = segs[0]; T = type(g)
        if T is It:
            if P(g.c): segs[0:1] = list(g.a); continue
            if P(Not(g.c)): segs[0:1] = list(g.b); continue
            tail = tuple(segs[1:])
            ta, ra, oa = take(eng, st, g.a + tail, n, tuple(extra) + (g.c,))
            tb, rb, ob = take(eng, st, g.b + tail, n, tuple(extra) + (Not(g.c),))
            import engine
            rest = engine._join(g.c, ra, rb, It, seg_same)
            tk = ta if segs_same(ta, tb) else (It(g.c, ta, tb),)
            return tuple(taken) + tuple(tk), rest, If(g.c, oa, ob)
        l = seg_len(g)
        if same(l, 0): segs.pop(0); continue
        if isinstance(l, int) and isinstance(n, int) and n > 0 and T is not Raw:
            if l <= n: taken.append(g); segs.pop(0); n -= l; continue
            if T is Num: segs[0:1] = list(num_bytes(g)); continue
            if T is Fix: segs[0:1] = list(fix_def(g)); continue
            if T is Sl:
                taken.append(Sl(g.s, g.off, n)); segs[0] = Sl(g.s, iop('add', g.off, n), l - n); n = 0; continue
            if T is Rep:
                segs[0:1] = list(sub_segs(g.body, g.k, 0)) + [rep_shift(g)]; continue
            raise Mismatch('read into %s' % short((g,)))
        if T is not Raw and P(eq(l, n)): taken.append(g); segs.pop(0); n = 0; continue
        if not isinstance(n, int) and P(eq(n, 0)): return tuple(taken), tuple(segs), True
        if T is Raw:
            ok = simp(b32(n) <= b32(l))
            if len(segs) > 1 and ok is not True:
                if P(ok): ok = True
                else: raise Mismatch('read across unknown bytes')
            taken.append(Raw(g.b, g.off, n)); segs[0] = Raw(g.b, iop('add', g.off, n), iop('sub', l, n))
            if isinstance(n, int): pass
            else: ok = And(simp(b32(n) >= 0), ok)
            return tuple(taken), tuple(segs), ok
        if not isinstance(l, int) and P(eq(l, 0)): segs.pop(0); continue
        if T is Rep and isz(g.n) and P(simp(b32(g.n) <= 0)): segs.pop(0); continue
        if T is Rep and isinstance(n, int) and P(simp(b32(g.n) > 0)):
            segs[0:1] = list(sub_segs(g.body, g.k, 0)) + [rep_shift(g)]; continue
        if T is Sl and P(And(simp(b32(n) <= b32(l)), simp(b32(n) >= 0))):
            taken.append(Sl(g.s, g.off, n)); segs[0] = Sl(g.s, iop('add', g.off, n), iop('sub', l, n)); n = 0; continue
        if not isinstance(n, int) and P(And(simp(b32(n) >= b32(l)), simp(b32(l) >= 0))):
            taken.append(g); segs.pop(0); n = iop('sub', n, l); continue
        raise Mismatch('reads %s bytes where the input has %s' % (clip(n), short(tuple(segs[:2]))))
def rep_shift(g):
    k = fresh('ks')
    return Rep(k, iop('sub', g.n, 1), tuple(sub_seg(x, g.k, k + 1) for x in g.body))

def bytes_of(eng, st, segs, w):
    """the w bytes of a taken sequence as 8-bit terms"""
    out = []
    for g in segs:
        T = type(g)
        if T is Num: out += [b.v for b in num_bytes(g)]
        elif T is It:
            n = segs_len((g,))
            if not isinstance(n, int): raise Mismatch('conditional width')
            a = bytes_of(eng, st, g.a, n); b = bytes_of(eng, st, g.b, n)
            out += [z3.simplify(z3.If(bo(g.c), x, y)) for x, y in zip(a, b)]
        elif T is Raw and isinstance(g.ln, int): out += [simp(rawb(g.b, b32(iop('add', g.off, i)))) for i in range(g.ln)]
        elif T is Sl and isinstance(g.ln, int): out += [simp(ub(g.s, b32(iop('add', g.off, i)))) for i in range(g.ln)]
        elif T is Rep and isinstance(g.n, int): out += [x for i in range(g.n) for x in bytes_of(eng, st, sub_segs(g.body, g.k, i), None)]
        elif T is Fix: out += fix_bytes(eng, st, g)
        else: raise Mismatch('number read from %s' % short((g,)))
    return out
def fix_bytes(eng, st, g):
    if not isinstance(g.n, int) or not isinstance(g.left, bool): raise Mismatch('number read from text')
    u = b32(ulen(g.s)); pad = low(g.pad, 8); r = []
    tn = z3.If(bo(g.null), b32(0), u)
    for i in range(g.n):
        if g.left:
            cut = z3.If(tn < g.n, tn, b32(g.n)); start = g.n - cut
            r.append(z3.simplify(z3.If(b32(i) < start, pad, ub(g.s, i - start))))
        else: r.append(z3.simplify(z3.If(b32(i) < tn, ub(g.s, b32(i)), pad)))
    return r
def num_of(eng, st, segs, w, e):
    """bit-vector of 8*w bits"""
    if len(segs) == 1 and isinstance(segs[0], Num) and segs[0].w == w and (w == 1 or segs[0].e == e): return segs[0].v
    if len(segs) == 1 and isinstance(segs[0], It):
        g = segs[0]
        return z3.simplify(z3.If(bo(g.c), num_of(eng, st, g.a, w, e), num_of(eng, st, g.b, w, e)))
    bs = bytes_of(eng, st, segs, w)
    if len(bs) != w: raise Mismatch('width')
    if e == 'le': bs = bs[::-1]
    return bs[0] if w == 1 else z3.simplify(z3.Concat(*bs))
def fits(eng, st, g):
    return Or(g.null, simp(z3.ULE(ulen(g.s), b32(g.n))) if False else simp(ulen(g.s) <= b32(g.n)))
def decfix(g):
    f = uf('decfix$%s$%s$%s' % (g.n, g.pad, g.left), S, S)
    return f(If(g.null, EMPTY, g.s))
def str_of(eng, st, segs, cs):
    if not segs: return Str(EMPTY)
    if not (isinstance(cs, Tok) and cs == UTF8): return Str(fresh('otherCharset', S))
    if len(segs) == 1:
        g = segs[0]
        if isinstance(g, Sl) and same(g.off, 0) and (same(g.ln, simp(ulen(g.s))) or eng.prove(st, eq(g.ln, ulen(g.s)))): return Str(g.s)
        if isinstance(g, Fix): return Str(decfix(g))
        if isinstance(g, Raw): return Str(decraw(g.b, b32(g.off), b32(g.ln)))
    if all(isinstance(g, (It, Sl, Fix, Raw)) for g in segs):
        nz = []
        if len(segs) == 1 and isinstance(segs[0], It):
            g = segs[0]
            sa = st.fork(); sa.pc.append(g.c); sb = st.fork(); sb.pc.append(Not(g.c))
            return Str(If(g.c, str_of(eng, sa, g.a, cs).t, str_of(eng, sb, g.b, cs).t))
    # drop provably empty parts
    nz = [g for g in segs if not eng.prove(st, eq(seg_len(g), 0))]
    if len(nz) < len(segs): return str_of(eng, st, tuple(nz), cs)
    eng.notes.append('text decoded from %s' % short(tuple(segs)))
    return Str(fresh('dec', S))

# ================================================================= ByteBuf
def bb(st, r):
    b = st.heap[r.id]
    if not isinstance(b, Buf): raise Unsupported('not a buffer')
    if b.flags.get('stale'): raise Unsupported('view of a buffer that was changed')
    if st.heap.get(('refs', b.flags.get('owner', r.id)), 1) == 0: raise Unsupported('use of a released buffer')
    return b
def retained(st, r, d):
    """the count of references of the memory that r shows, changed by d"""
    b = st.heap[r.id]; k = ('refs', b.flags.get('owner', r.id)); n = st.heap.get(k, 1)
    n = n + d if isinstance(n, int) and isinstance(d, int) else None
    if n is None or n < 0: raise Unsupported('reference count')
    o = st.heap[k[1]]
    if n == 0 and not o.flags.get('own') and not o.flags.get('readonly'): raise Unsupported('release of the buffer of the caller')
    st.heap[k] = n; return n
def b_release(eng, st, a):
    bb(st, a[0]); n = retained(st, a[0], -(a[1] if len(a) > 1 else 1)); return RET(st, 1 if n == 0 else 0)
def b_retain(eng, st, a):
    bb(st, a[0]); retained(st, a[0], a[1] if len(a) > 1 else 1); return RET(st, a[0])
def with_retain(f):
    def g(eng, st, a):
        outs = f(eng, st, a)
        for o in outs:
            if o.kind == 'ret': retained(o.st, o.val, 1)
        return outs
    return g
def stale(st, r):
    """bytes that exist are overwritten: what was cut out of this buffer earlier is no longer what it shows"""
    for k, o in list(st.heap.items()):
        if isinstance(o, Buf) and o.flags.get('of') == r.id and not o.flags.get('stale'): st.heap[k] = Buf(o.pre, o.segs, dict(o.flags, stale=True))
def append(st, r, segs):
    b = bb(st, r)
    if b.flags.get('readonly'): raise Unsupported('write to a derived buffer')
    if b.flags.get('tail'):
        # overwriting what follows the writer index
        stale(st, r)
        tl = b.flags['tail']; n = segs_len(segs); k = 0; cum = 0
        if not isinstance(n, int): raise Unsupported('overwriting an unknown number of bytes')
        bs = ()
        while k < len(tl) and isinstance(cum, int) and cum < n:
            cum = iop('add', cum, seg_len(tl[k])); k += 1
        if not isinstance(cum, int): raise Unsupported('overwriting an unknown number of bytes')
        rest = ()
        if cum > n:
            if not isinstance(tl[k - 1], Num): raise Unsupported('overwriting part of %s' % short((tl[k - 1],)))
            rest = num_bytes(tl[k - 1])[n - cum:]
        fl = dict(b.flags, written=True); fl['tail'] = rest + tuple(tl[k:])
        if not fl['tail']: del fl['tail']
        st.heap[r.id] = Buf(b.pre, b.segs + tuple(segs), fl); return
    st.heap[r.id] = Buf(b.pre, b.segs + tuple(segs), dict(b.flags, written=True))
def flag(st, r, k, v=True):
    b = st.heap[r.id]; st.heap[r.id] = Buf(b.pre, b.segs, dict(b.flags, **{k: v}))
    if b.flags.get('root') is not None and k in ('lenused', 'absget', 'unchecked', 'pending'): flag(st, Ref(b.flags['root']), k, v)
def do_take(eng, st, r, n, outs, unchecked=False):
    b = bb(st, r)
    if not isinstance(n, int):
        # negative length
        pass
    taken, rest, ok = take(eng, st, b.segs, n)
    if b.flags.get('written'): st.heap[r.id] = b = Buf(b.pre, b.segs, dict(b.flags, read_after_write=True))
    if ok is not True:
        if not eng.guard(st, ok, IOOBE, outs, cheap=b.flags.get('stream', False)): return None
    pre = raw_merge(b.pre, taken)
    if not within(eng, st, b, pre, outs): return None
    ab = b.flags.get('abs')
    if ab is not None and not isinstance(n, int) and len(pre) == 1 and len(rest) == 1: pre, rest = abs_pos(eng, st, ab, pre, rest, eng.least(st, b.segs[0].off, ab[0]) if isinstance(b.segs[0], Raw) else 0, (b.segs[0].off, 0) if isinstance(b.segs[0], Raw) else None)
    fl = b.flags
    if fl.get('pending') is not None and eng.prove(st, simp(b32(segs_len(pre)) >= b32(fl['pending']))): fl = {k: v for k, v in fl.items() if k != 'pending'}
    st.heap[r.id] = Buf(pre, rest, fl)
    return taken
def abs_pos(eng, st, ab, pre, rest, least=0, step=None):
    """safety runs: forget the position, keep its bounds"""
    start, end = ab; o = rest[0].off
    prev = eng.least(st, simp(b32(o)), start) if least is None else least
    p = fresh('pos')
    if not all(eng.prove(st, x) for x in (simp(b32(o) <= end), simp(b32(o) >= start), simp(b32(o) - start >= prev))): raise Unsupported('input position')
    if step is not None:
        o0, d = step; o0 = b32(o0)
        if not eng.prove(st, simp(b32(o) - o0 >= d)): raise Unsupported('input position')
        st.pc += [p - o0 >= d, p >= o0]
    st.pc += [p - start >= prev, p >= start, p <= end]
    return (Raw(pre[0].b, pre[0].off, simp(p - b32(pre[0].off))),), (Raw(rest[0].b, p, simp(end - p)),)
def within(eng, st, b, pre, outs):
    """truncated input: the reader index after the read must not exceed the writer index"""
    lim = b.flags.get('limit')
    if lim is None: return True
    return eng.guard(st, simp(b32(segs_len(pre)) <= lim), IOOBE, outs, cheap=True)
def readable(b):
    lim = b.flags.get('limit')
    if lim is None: return segs_len(b.segs)
    return iop('sub', lim, segs_len(b.pre))
def rd(w, e, conv):
    def f(eng, st, a):
        outs = []
        t = do_take(eng, st, a[0], w, outs)
        if t is None: return outs
        if bb(st, a[0]).flags.get('abs') is not None and len(t) == 1 and isinstance(t[0], Raw): return outs + RET(st, conv(fresh('rd', z3.BitVecSort(8 * w))))
        return outs + RET(st, conv(num_of(eng, st, t, w, e)))
    return f
def sx(v): return simp(z3.SignExt(32 - v.size(), v)) if v.size() < 32 else simp(v)
def zx(v): return simp(z3.ZeroExt(32 - v.size(), v)) if v.size() < 32 else simp(v)
def ux(v): return z3.simplify(z3.ZeroExt(32, v))
def wr(w, e):
    def f(eng, st, a):
        append(st, a[0], (Num(low(a[1], 8 * w), w, e),)); return RET(st, a[0])
    return f
def total(b): return iop('add', segs_len(b.pre), segs_len(b.segs))
def locate(eng, st, allsegs, pos):
    cum = 0; cs = []
    for i, g in enumerate(allsegs):
        if same(cum, pos): return i
        cs.append(cum); cum = iop('add', cum, seg_len(g))
    if same(cum, pos): return len(allsegs)
    cs.append(cum)
    for i in range(len(cs) - 1, -1, -1):
        if eng.prove(st, eq(cs[i], pos)): return i
    return None
def split_at(eng, st, allsegs, pos):
    """segments split at byte position pos -> (before, after)"""
    i = locate(eng, st, allsegs, pos)
    if i is not None: return tuple(allsegs[:i]), tuple(allsegs[i:])
    # inside a segment
    cum = 0
    for i, g in enumerate(allsegs):
        nxt = iop('add', cum, seg_len(g))
        if eng.prove(st, And(simp(b32(cum) <= b32(pos)), simp(b32(pos) <= b32(nxt)))):
            d = iop('sub', pos, cum)
            if isinstance(g, Raw): return tuple(allsegs[:i]) + (Raw(g.b, g.off, d),), (Raw(g.b, iop('add', g.off, d), iop('sub', g.ln, d)),) + tuple(allsegs[i + 1:])
            if isinstance(g, Sl): return tuple(allsegs[:i]) + (Sl(g.s, g.off, d),), (Sl(g.s, iop('add', g.off, d), iop('sub', g.ln, d)),) + tuple(allsegs[i + 1:])
            if isinstance(g, Rep) and len(g.body) == 1 and isinstance(g.body[0], Num) and g.body[0].w == 1 and not mentions_k(g):
                return tuple(allsegs[:i]) + (Rep(g.k, d, g.body),), (Rep(g.k, iop('sub', g.n, d), g.body),) + tuple(allsegs[i + 1:])
            if isinstance(g, Num) and isinstance(d, int):
                bs = num_bytes(g); return tuple(allsegs[:i]) + bs[:d], bs[d:] + tuple(allsegs[i + 1:])
            raise Unsupported('position inside %s' % short((g,)))
        cum = nxt
    raise Unsupported('buffer position %s not located' % clip(pos))
def set_num(w, e):
    def f(eng, st, a):
        b = bb(st, a[0]); pos = a[1]
        if b.flags.get('readonly'): raise Unsupported('write through a view')
        al = b.pre + b.segs
        i = locate(eng, st, al, pos)
        if i is None:
            try: bf_, af_ = split_at(eng, st, al, pos)
            except Unsupported: bf_ = None
            if bf_ is None or same(pos, segs_len(b.pre)) or not eng.prove(st, icmp('ge', pos, segs_len(b.pre))): raise Unsupported('absolute write at a position that is not a field boundary')
            al = bf_ + af_; i = len(bf_)
        np_ = len(b.pre)
        # bytes covered
        need = w; j = i; new = []
        while need > 0:
            if j >= len(al): raise Unsupported('absolute write past the end')
            g = al[j]
            if isinstance(g, Raw): raise Unsupported('absolute write into earlier buffer content')
            if not isinstance(g, Num): raise Unsupported('absolute write over %s' % short((g,)))
            if g.w <= need: need -= g.w; j += 1
            else:
                new = list(num_bytes(g))[need:]; need = 0; j += 1
        al2 = al[:i] + (Num(low(a[2], 8 * w), w, e),) + tuple(new) + al[j:]
        if i < np_: raise Unsupported('absolute write before the reader index')
        stale(st, a[0])
        st.heap[a[0].id] = Buf(al2[:np_], al2[np_:], dict(b.flags, written=True))
        return RET(st, a[0])
    return f
def pend(eng, st, r, ok, end):
    """an absolute access is checked against the capacity only: one that may lie behind the writer index needs a checked read up to there later"""
    b = bb(st, r)
    if ok is True or isz(ok) and eng.prove(st, ok): return
    if b.flags.get('pending') is not None: flag(st, r, 'unchecked')
    flag(st, r, 'pending', end)
def get_num(w, e, conv):
    def f(eng, st, a):
        b = bb(st, a[0]); pos = a[1]; outs = []
        if b.flags.get('limit') is not None: raise Unsupported('absolute read of a truncated input')
        al = raw_merge((), b.pre + b.segs)
        flag(st, a[0], 'absget')
        if len(al) == 1 and isinstance(al[0], Raw):
            g = al[0]; end = iop('add', g.off, g.ln)
            p = iop('add', g.off, pos)
            # netty checks the capacity, which is at least the writer index: behind it, an exception or an arbitrary value
            if not eng.guard(st, simp(b32(pos) >= 0), IOOBE, outs): return outs
            ok = And(simp(b32(pos) >= 0), simp(b32(pos) <= b32(iop('sub', g.ln, w))))
            pend(eng, st, a[0], ok, iop('add', pos, w))
            bs = [simp(rawb(g.b, b32(iop('add', p, i)))) for i in range(w)]
            if e == 'le': bs = bs[::-1]
            r = bs[0] if w == 1 else z3.simplify(z3.Concat(*bs))
            if not b.flags.get('stream') or eng.prove(st, ok):
                if not eng.guard(st, ok, IOOBE, outs): return outs
                return outs + RET(st, conv(r))
            t = st.fork(); t.pc.append(Not(ok)); outs.append(eng.exc(t, IOOBE))
            return outs + RET(st, conv(z3.simplify(z3.If(bo(ok), r, fresh('beyond', r.sort())))))
        _, after = split_at(eng, st, al, pos)
        t, _, ok = take(eng, st, after, w); pend(eng, st, a[0], ok, iop('add', pos, w))
        if ok is not True and not eng.guard(st, ok, IOOBE, outs): return outs
        return outs + RET(st, conv(num_of(eng, st, t, w, e)))
    return f
def derived(eng, st, segs, of): return eng.alloc(st, Buf((), tuple(segs), {'readonly': True, 'of': of.id, 'owner': st.heap[of.id].flags.get('owner', of.id)}))
def b_duplicate(eng, st, a):
    """the same bytes and positions, moved independently"""
    b = bb(st, a[0]); keep = {k: v for k, v in b.flags.items() if k in ('stream', 'abs', 'enc')}
    if b.flags.get('limit') is not None: raise Unsupported('second view of a truncated input')
    return RET(st, eng.alloc(st, Buf(b.pre, b.segs, dict(keep, readonly=True, of=a[0].id, root=a[0].id, owner=b.flags.get('owner', a[0].id)))))

def arr_segs(eng, st, r, off, ln):
    ar = st.heap[r.id]
    if ar.src is not None and ar.src[0] == 'utf8': return (Sl(ar.src[1], off, ln),)
    if ar.src is not None and ar.src[0] == 'segs' and same(off, 0) and same(ln, ar.ln): return ar.src[1]
    if ar.src is not None and ar.src[0] == 'segs':
        _, aft = split_at(eng, st, ar.src[1], off); t, _, _ = take(eng, st, aft, ln); return t
    if ar.src is not None and ar.src[0] == 'zero':
        return (Rep(fresh('kz'), ln, (Num(z3.BitVecVal(0, 8), 1, 'be'),)),)
    if ar.src is not None and ar.src[0] == 'fill':
        return (Rep(fresh('kz'), ln, (Num(low(ar.src[1], 8), 1, 'be'),)),)
    if ar.items is not None and isinstance(off, int) and isinstance(ln, int): return tuple(Num(low(x, 8), 1, 'be') for x in ar.items[off:off + ln])
    if eng.prove(st, eq(ln, 0)): return ()
    if ar.items is not None and isinstance(off, int) and len(ar.items) <= 64:
        r = ()
        for i in range(len(ar.items) - 1, off - 1, -1): r = (It(simp(b32(ln) > i - off), (Num(low(ar.items[i], 8), 1, 'be'),) + r, ()),)
        return r
    if ar.items is not None: raise Unsupported('partial array copy')
    raise Unsupported('array content')
def mentions_k(g):
    from segs import _mentions
    return any(isz(b.v) and _mentions(b.v, g.k) for b in g.body)
def arr_whole(ar):
    """the content of a byte array as a byte sequence"""
    if ar.items is not None: return tuple(Num(low(x, 8), 1, 'be') for x in ar.items)
    if ar.src is None: raise Unsupported('array content')
    if ar.src[0] == 'utf8': return (Sl(ar.src[1], 0, ar.ln),)
    if ar.src[0] == 'segs': return ar.src[1]
    if ar.src[0] in ('zero', 'fill'): return (Rep(fresh('kz'), ar.ln, (Num(z3.BitVecVal(0, 8) if ar.src[0] == 'zero' else low(ar.src[1], 8), 1, 'be'),)),)
    raise Unsupported('array content')
def splice(eng, st, r, off, n, new, byte):
    """array r with n elements from off replaced: by the byte sequence new, elementwise byte(i)"""
    ar = st.heap[r.id]
    if ar.items is not None:
        if isinstance(off, int) and isinstance(n, int): its = tuple(byte(j - off) if off <= j < off + n else x for j, x in enumerate(ar.items))
        else: its = tuple(ite_val(And(simp(b32(j) >= b32(off)), simp(b32(j) - b32(off) < b32(n))), byte(simp(b32(j) - b32(off))), x) for j, x in enumerate(ar.items))
        st.heap[r.id] = Arr(ar.kind, its, None, ar.ln, None); return
    if ar.kind != 'B': raise Unsupported('partial array copy')
    w = arr_whole(ar); pre, aft = split_at(eng, st, w, off)
    if not same(n, 0): _, aft = split_at(eng, st, aft, n)
    segs = tuple(g for g in pre + tuple(new()) + aft if not same(seg_len(g), 0))
    st.heap[r.id] = Arr(ar.kind, None, None, ar.ln, ('segs', segs))
def in_range(off, n, ln): return And(icmp('ge', off, 0), And(icmp('ge', n, 0), simp(b32(off) <= b32(ln) - b32(n))))
def arraycopy(eng, st, a):
    src, so, dst, do, n = a
    def on(t, s_):
        def on2(u, d_):
            o2 = []
            x, y = u.heap[s_.id], u.heap[d_.id]
            if not (isinstance(x, Arr) and isinstance(y, Arr)) or x.kind != y.kind: raise Unsupported('arraycopy')
            if not eng.guard(u, And(in_range(so, n, x.ln), in_range(do, n, y.ln)), 'java/lang/ArrayIndexOutOfBoundsException', o2): return o2
            def byte(j):
                i = iop('add', so, j)
                if x.items is not None: return x.items[i] if isinstance(i, int) else eng.mux(x, i)
                if x.fn is None: raise Unsupported('arraycopy elements')
                return x.fn(i)
            splice(eng, u, d_, do, n, lambda: arr_segs(eng, u, s_, so, n), byte)
            return o2 + RET(u)
        return eng.split(t, dst, on2)
    return eng.split(st, src, on)
def b_writeBytes(eng, st, a):
    buf = a[0]; outs = []
    src = a[1]
    def on(t, src):
        o2 = []
        o = t.heap[src.id]
        if isinstance(o, Arr):
            off, ln = (a[2], a[3]) if len(a) == 4 else (0, o.ln)
            ok = True
            if len(a) == 4: ok = And(simp(b32(off) >= 0) if isz(off) else off >= 0, simp(b32(ln) >= 0) if isz(ln) else ln >= 0, simp(b32(ln) <= b32(o.ln) - b32(off)))
            if not eng.guard(t, ok, IOOBE, o2): return o2
            append(t, buf, arr_segs(eng, t, src, off, ln))
            return o2 + RET(t, buf)
        if isinstance(o, Buf):
            if len(a) == 2: n = segs_len(o.segs)
            elif len(a) == 3: n = a[2]
            else:
                _, aft = split_at(eng, t, o.pre + o.segs, a[2]); tk, _, ok = take(eng, t, aft, a[3])
                if not eng.guard(t, ok, IOOBE, o2): return o2
                append(t, buf, tk); return o2 + RET(t, buf)
            tk = o.segs if len(a) == 2 else do_take(eng, t, src, n, o2)
            if len(a) == 2: t.heap[src.id] = Buf(raw_merge(o.pre, o.segs), (), o.flags)
            if tk is None: return o2
            append(t, buf, tk); return o2 + RET(t, buf)
        raise Unsupported('writeBytes source')
    return eng.split(st, src, on)
def b_writeZero(eng, st, a):
    if isinstance(a[1], int) and a[1] < 0: return [eng.exc(st, 'java/lang/IllegalArgumentException')]
    if isinstance(a[1], int): append(st, a[0], tuple(Num(z3.BitVecVal(0, 8), 1, 'be') for _ in range(a[1])))
    else:
        outs = []
        if not eng.guard(st, simp(b32(a[1]) >= 0), 'java/lang/IllegalArgumentException', outs): return outs
        append(st, a[0], (Rep(fresh('kz'), a[1], (Num(z3.BitVecVal(0, 8), 1, 'be'),)),)); return outs + RET(st, a[0])
    return RET(st, a[0])
def b_writeCharSequence(eng, st, a):
    def on(t, s_):
        g = text_bytes(eng, t, s_, a[2]); append(t, a[0], g); return RET(t, segs_len(g))
    return eng.split(st, a[1], on)
def text_bytes(eng, st, s_, cs):
    if isinstance(s_, Str) and s_.t is not None and isinstance(cs, Tok) and cs == UTF8: return (Sl(s_.t, 0, simp(ulen(s_.t))),)
    n = fresh('enclen'); eng.facts.append(n >= 0)
    return (Raw(fresh('enc', BA), 0, n),)
def b_readSlice(eng, st, a):
    outs = []
    n = a[1]
    if not isinstance(n, int):
        if not eng.guard(st, simp(b32(n) >= 0), 'java/lang/IllegalArgumentException', outs): return outs
    elif n < 0: return [eng.exc(st, 'java/lang/IllegalArgumentException')]
    t = do_take(eng, st, a[0], n, outs)
    if t is None: return outs
    return outs + RET(st, derived(eng, st, t, a[0]))
def b_readBytes(eng, st, a):
    outs = []
    if isinstance(a[1], (int, z3.ExprRef)): return own_memory(b_readSlice(eng, st, a))
    def on(t, dst):
        o2 = []; o = t.heap[dst.id]
        if not isinstance(o, Arr): raise Unsupported('readBytes target')
        off, n = (a[2], a[3]) if len(a) == 4 else (0, o.ln)
        if len(a) == 4 and not (same(off, 0) and same(n, o.ln)): raise Unsupported('partial readBytes')
        tk = do_take(eng, t, a[0], n, o2)
        if tk is None: return o2
        t.heap[dst.id] = seg_arr(eng, t, o, tk)
        return o2 + RET(t, a[0])
    return eng.split(st, a[1], on)
def seg_arr(eng, st, o, tk):
    """byte array o filled with the byte sequence tk"""
    fn = None
    if len(tk) == 1 and isinstance(tk[0], Raw): g = tk[0]; fn = lambda i: sx(rawb(g.b, simp(b32(g.off) + b32(i))))
    if len(tk) == 1 and isinstance(tk[0], Sl): g = tk[0]; fn = lambda i: sx(ub(g.s, simp(b32(g.off) + b32(i))))
    items = None
    if isinstance(o.ln, int) and fn is None:
        try: items = tuple(sx(x) for x in bytes_of(eng, st, tk, None)); items = items if len(items) == o.ln else None
        except Mismatch: pass
    return Arr(o.kind, items, fn, o.ln, ('segs', tk) if items is None else None)
def b_getBytes(eng, st, a):
    """getBytes(index, byte[]) and getBytes(index, byte[], dstIndex, length)"""
    b = bb(st, a[0])
    if b.flags.get('limit') is not None: raise Unsupported('absolute read of a truncated input')
    flag(st, a[0], 'absget')
    def on(t, dst):
        o2 = []; o = t.heap[dst.id]
        if not isinstance(o, Arr): raise Unsupported('getBytes target')
        off, n = (a[3], a[4]) if len(a) == 5 else (0, o.ln)
        if not (same(off, 0) and same(n, o.ln)): raise Unsupported('partial getBytes')
        _, aft = split_at(eng, t, b.pre + b.segs, a[1])
        tk, _, ok = take2(eng, t, aft, n); pend(eng, t, a[0], ok, iop('add', a[1], n))
        if not eng.guard(t, ok, IOOBE, o2): return o2
        t.heap[dst.id] = seg_arr(eng, t, o, tk)
        return o2 + RET(t, a[0])
    return eng.split(st, a[2], on)
def b_skip(eng, st, a):
    outs = []
    n = a[1]
    if isz(n) and not eng.guard(st, simp(b32(n) >= 0), 'java/lang/IllegalArgumentException', outs): return outs
    t = do_take(eng, st, a[0], n, outs)
    return outs if t is None else outs + RET(st, a[0])
def b_readCharSequence(eng, st, a):
    """netty checks index + length against the capacity, not against the writer index: bytes
    behind the writer index may be returned.  Modelled as: fewer readable bytes -> either
    IndexOutOfBoundsException or an arbitrary text with the reader index past the writer index."""
    outs = []; n = a[1]
    if isinstance(n, int) and n < 0: return [eng.exc(st, IOOBE)]
    if not isinstance(n, int) and not eng.guard(st, simp(b32(n) >= 0), IOOBE, outs): return outs
    flag(st, a[0], 'unchecked')
    b = bb(st, a[0]); lim = b.flags.get('limit')
    if lim is not None:
        st.heap[a[0].id] = Buf(b.pre, b.segs, {x: y for x, y in b.flags.items() if x != 'limit'})
    t = do_take(eng, st, a[0], n, outs)
    if t is None: return outs
    r = str_of(eng, st, t, a[2])
    if lim is not None:
        flag(st, a[0], 'limit', lim)
        r = Str(If(simp(b32(segs_len(bb(st, a[0]).pre)) <= lim), r.t, fresh('beyond', S)))
    return outs + RET(st, r)
def b_slice(eng, st, a):
    b = bb(st, a[0]); outs = []
    if b.flags.get('limit') is not None: raise Unsupported('slice of a truncated input')
    if len(a) == 1:
        if not b.flags.get('enc') and not b.flags.get('own'): flag(st, a[0], 'lenused')
        return RET(st, derived(eng, st, b.segs, a[0]))
    al = b.pre + b.segs
    if not isinstance(a[2], int) and not eng.guard(st, simp(b32(a[2]) >= 0), 'java/lang/IllegalArgumentException', outs, cheap=False): return outs
    _, aft = split_at(eng, st, al, a[1])
    t, _, ok = take2(eng, st, aft, a[2]); pend(eng, st, a[0], ok, iop('add', a[1], a[2]))
    if not eng.guard(st, ok, IOOBE, outs): return outs
    return outs + RET(st, derived(eng, st, t, a[0]))
def own_memory(outs):
    for o in outs:
        if isinstance(o.val, Ref):
            b = o.st.heap[o.val.id]; o.st.heap[o.val.id] = Buf(b.pre, b.segs, {k: v for k, v in b.flags.items() if k not in ('of', 'owner')})
    return outs
def b_copy(eng, st, a): return own_memory(b_slice(eng, st, a))
def take2(eng, st, segs, n):
    """like take, but prefers a segment boundary"""
    cum = 0
    for i, g in enumerate(segs):
        if same(cum, n): return tuple(segs[:i]), tuple(segs[i:]), True
        cum = iop('add', cum, seg_len(g))
    if same(cum, n) or eng.prove(st, eq(cum, n)): return tuple(segs), (), True
    return take(eng, st, segs, n)
def b_toString(eng, st, a):
    b = bb(st, a[0])
    if len(a) == 1: return RET(st, Str(fresh('bufToString', S)))
    lim = b.flags.get('limit')
    if len(a) == 2:
        if lim is not None: raise Unsupported('text of a truncated input')
        return RET(st, str_of(eng, st, b.segs, a[1]))
    # nothing is checked against the writer index here; a checked read past the end of the text makes up for it
    outs = []; end = iop('add', a[1], a[2])
    if b.flags.get('pending') is not None: flag(st, a[0], 'unchecked')
    flag(st, a[0], 'pending', end)
    if not isinstance(a[2], int) and not eng.guard(st, simp(b32(a[2]) >= 0), IOOBE, outs): return outs
    _, aft = split_at(eng, st, b.pre + b.segs, a[1]); t, _, ok = take2(eng, st, aft, a[2])
    if not eng.guard(st, ok, IOOBE, outs): return outs
    r = str_of(eng, st, t, a[3])
    if lim is not None: r = Str(If(simp(b32(end) <= lim), r.t, fresh('beyond', S)))
    return outs + RET(st, r)
def b_readableBytes(eng, st, a): flag(st, a[0], 'lenused'); return RET(st, readable(bb(st, a[0])))
def b_isReadable(eng, st, a):
    flag(st, a[0], 'lenused'); n = readable(bb(st, a[0]))
    return RET(st, If(icmp('ge', n, a[1]) if len(a) > 1 else icmp('gt', n, 0), 1, 0))
def b_writerIndex(eng, st, a):
    b = bb(st, a[0])
    if len(a) == 1: flag(st, a[0], 'lenused') if not b.flags.get('enc') else None; return RET(st, total(b) if b.flags.get('limit') is None else b.flags['limit'])
    if not b.flags.get('enc') and not b.flags.get('own'): raise Unsupported('writerIndex(int)')
    pos = a[1]; np = len(b.pre); al = b.pre + b.segs + tuple(b.flags.get('tail') or ())
    i = locate(eng, st, al, pos)
    if i is None and eng.prove(st, icmp('ge', pos, segs_len(b.pre))):
        bf_, af_ = split_at(eng, st, al, pos); i = len(bf_); al = bf_ + af_
    if i is None or i < np: raise Unsupported('writerIndex(int) at a position not located')
    fl = dict(b.flags); fl['tail'] = al[i:]
    if not fl['tail']: del fl['tail']
    st.heap[a[0].id] = Buf(b.pre, al[np:i], fl); return RET(st, a[0])
def b_readerIndex(eng, st, a):
    b = bb(st, a[0])
    if len(a) == 1: return RET(st, segs_len(b.pre))
    pre, aft = split_at(eng, st, b.pre + b.segs, a[1])
    st.heap[a[0].id] = Buf(pre, aft, dict(b.flags, seeked=True)); return RET(st, a[0])
def b_wmark(eng, st, a):
    b = bb(st, a[0])
    if not b.flags.get('enc') and not b.flags.get('own'): raise Unsupported('markWriterIndex')
    flag(st, a[0], 'wmark', total(b)); return RET(st, a[0])
def b_wreset(eng, st, a):
    p = bb(st, a[0]).flags.get('wmark')
    if isinstance(p, str): raise Unsupported('reset to a mark that differs between paths')
    return b_writerIndex(eng, st, [a[0], 0 if p is None else p])
def b_mark(eng, st, a): flag(st, a[0], 'markpos', segs_len(bb(st, a[0]).pre)); return RET(st, a[0])
def b_reset(eng, st, a):
    p = bb(st, a[0]).flags.get('markpos')
    if p is None or isinstance(p, str): raise Unsupported('reset without mark')
    return b_readerIndex(eng, st, [a[0], p])
ident = lambda eng, st, a: RET(st, a[0])
def b_ensure(eng, st, a):
    bb(st, a[0]); outs = []
    if len(a) > 2: raise Unsupported('ensureWritable(int, boolean)')
    if not eng.guard(st, icmp('ge', a[1], 0), 'java/lang/IllegalArgumentException', outs): return outs
    return outs + RET(st, a[0])
BUF = {}
for nm, w in (('Byte', 1), ('Boolean', 1), ('Short', 2), ('Char', 2), ('Medium', 3), ('Int', 4), ('Float', 4), ('Long', 8), ('Double', 8)):
    for e, sfx in (('be', ''), ('le', 'LE')):
        if sfx and w == 1 or sfx and nm == 'Char': continue
        cv = {'Boolean': lambda v: If(simp(v != 0), 1, 0), 'Char': zx, 'Long': lambda v: z3.simplify(v), 'Double': lambda v: z3.simplify(v), 'Medium': sx}.get(nm, sx)
        BUF['write' + nm + sfx] = wr(w, e); BUF['read' + nm + sfx] = rd(w, e, cv); BUF['set' + nm + sfx] = set_num(w, e); BUF['get' + nm + sfx] = get_num(w, e, cv)
        if nm in ('Byte', 'Short', 'Medium'):
            BUF['readUnsigned' + nm + sfx] = rd(w, e, zx); BUF['getUnsigned' + nm + sfx] = get_num(w, e, zx)
        if nm == 'Int':
            BUF['readUnsigned' + nm + sfx] = rd(w, e, ux); BUF['getUnsigned' + nm + sfx] = get_num(w, e, ux)
BUF.update(writeBytes=b_writeBytes, writeZero=b_writeZero, writeCharSequence=b_writeCharSequence, readSlice=b_readSlice, readRetainedSlice=with_retain(b_readSlice), readBytes=b_readBytes, getBytes=b_getBytes,
           skipBytes=b_skip, readCharSequence=b_readCharSequence, slice=b_slice, toString=b_toString, readableBytes=b_readableBytes, isReadable=b_isReadable,
           writerIndex=b_writerIndex, readerIndex=b_readerIndex, markReaderIndex=b_mark, markWriterIndex=b_wmark, resetWriterIndex=b_wreset, resetReaderIndex=b_reset, ensureWritable=b_ensure, retain=b_retain,
           duplicate=b_duplicate, retainedDuplicate=with_retain(b_duplicate), retainedSlice=with_retain(b_slice), copy=b_copy, asReadOnly=b_duplicate, touch=ident, release=b_release)

# ================================================================= lists
def elem(eng, st, t, et, i):
    i = b32(i)
    k = BOXK.get(et)
    if k == 'B': return Box('B', ext(simp(lel8(t, i)), 32, 8))
    if k == 'S': return Box('S', ext(simp(lel16(t, i)), 32, 16))
    if k == 'C': return Box('C', ext(simp(lel16(t, i)), 32, 16, False))
    if k in ('I', 'F'): return Box(k, simp(lel32(t, i)))
    if k in ('J', 'D'): return Box(k, simp(lel64(t, i)))
    if et == 'java/lang/String':
        if eng.null_elems: return mk_alt([(lelN(t, i), NULL), (simp(z3.Not(lelN(t, i))), Str(lelS(t, i)))])
        return Str(lelS(t, i))
    if et in eng.prog.classes:
        return eng.alloc(st, Obj(None if eng.prog.classes[et].flags & 0x200 else et, None, lelM(t, i)))
    raise Unsupported('element type %s' % et)
MV = namedtuple('MV', 'content cls')
def lv(eng, st, v):
    return eng.alloc(st, Obj(v.cls, None, v.content)) if isinstance(v, MV) else v
def sub_val(v, k, i):
    if isinstance(v, (int, z3.ExprRef)): return sub_t(v, k, i)
    if isinstance(v, Str): return Str(sub_t(v.t, k, i)) if v.t is not None else v
    if isinstance(v, Box): return Box(v.kind, sub_t(v.v, k, i))
    if isinstance(v, MV): return MV(sub_t(v.content, k, i), v.cls)
    if isinstance(v, Alt): return mk_alt([(sub_t(c, k, i), sub_val(x, k, i)) for c, x in v.alts])
    if isinstance(v, Opq): return Opq(sub_t(v.t, k, i))
    return v
def lseg_len(g):
    if isinstance(g, LOne): return 1
    if isinstance(g, LSym): return simp(lsize(g.t))
    if isinstance(g, LRep): return g.n
    if isinstance(g, LMark): return g.ln
    if isinstance(g, LIt): return If(g.c, llen(g.a), llen(g.b))
def llen(gs):
    r = 0
    for g in gs: r = iop('add', r, lseg_len(g))
    return r
def lget(eng, st, gs, i):
    """element i (assumed in range) of a list-segment sequence"""
    if len(gs) == 1:
        g = gs[0]
        if isinstance(g, LOne): return lv(eng, st, g.v)
        if isinstance(g, LSym): return elem(eng, st, g.t, g.et, i)
        if isinstance(g, LRep): return lv(eng, st, sub_val(g.v, g.k, i))
        if isinstance(g, LIt):
            if eng.prove(st, g.c): return lget(eng, st, g.a, i)
            if eng.prove(st, Not(g.c)): return lget(eng, st, g.b, i)
            if not g.a: return lget(eng, st, g.b, i)
            if not g.b: return lget(eng, st, g.a, i)
            return ite_val(g.c, lget(eng, st, g.a, i), lget(eng, st, g.b, i))
        raise Unsupported('list element')
    g = gs[0]; n = lseg_len(g)
    c = simp(b32(i) < b32(n)); 
    d = c if isinstance(c, bool) else eng.decide(st, c)
    if d is True: return lget(eng, st, gs[:1], i)
    if d is False: return lget(eng, st, gs[1:], iop('sub', i, n))
    return ite_val(c, lget(eng, st, gs[:1], i), lget(eng, st, gs[1:], iop('sub', i, n)))
def lst(st, r):
    o = st.heap[r.id]
    if not isinstance(o, Lst): raise Unsupported('not a list')
    return o
def l_toArray(eng, st, a):
    segs = lst(st, a[0]).segs; n = llen(segs)
    if len(a) > 1 and isinstance(a[1], Clo): pass
    elif len(a) > 1 and not eng.prove(st, simp(b32(st.heap[a[1].id].ln) <= b32(n))): raise Unsupported('toArray into a longer array')
    items = tuple(lget(eng, st, segs, i) for i in range(n)) if isinstance(n, int) and n <= 64 else None
    return eng.alloc(st, Arr('L', items, None, n, None if items is not None else ('list', segs)))
def l_size(eng, st, a): return llen(lst(st, a[0]).segs)
def l_isEmpty(eng, st, a): return If(eq(llen(lst(st, a[0]).segs), 0), 1, 0)
def l_get(eng, st, a):
    o = lst(st, a[0]); outs = []; i = a[1]
    if not eng.guard(st, And(icmp('ge', i, 0), icmp('lt', i, llen(o.segs))), IOOBE, outs): return outs
    return outs + RET(st, lget(eng, st, o.segs, i))
UOE = 'java/lang/UnsupportedOperationException'
def frozen(eng, st, segs):
    """a list of fixed size"""
    r = eng.alloc(st, Lst(segs, None)); st.heap[('frozen', r.id)] = 1; return r
def l_add(eng, st, a):
    o = lst(st, a[0])
    if len(a) == 3: raise Unsupported('add(int, E)')
    if ('frozen', a[0].id) in st.heap: return [eng.exc(st, UOE)]
    if any(isinstance(g, LSym) for g in o.segs): flag_mut(eng, st, a[0])
    st.heap[a[0].id] = Lst(o.segs + (LOne(a[1]),), o.et)
    return RET(st, 1)
def flag_mut(eng, st, r): st.heap[('mutated',)] = 1
def l_iter(eng, st, a):
    if len(a) > 1: raise Unsupported('list iterator from an index')
    return eng.alloc(st, Itr(a[0], 0))
def it_hasNext(eng, st, a):
    it = st.heap[a[0].id]; return If(icmp('lt', it.idx, llen(lst(st, it.lst).segs)), 1, 0)
def it_next(eng, st, a):
    it = st.heap[a[0].id]; outs = []
    o = lst(st, it.lst)
    if not eng.guard(st, icmp('lt', it.idx, llen(o.segs)), 'java/util/NoSuchElementException', outs): return outs
    v = lget(eng, st, o.segs, it.idx)
    st.heap[a[0].id] = Itr(it.lst, iop('add', it.idx, 1))
    return outs + RET(st, v)
def l_clear(eng, st, a):
    if ('frozen', a[0].id) in st.heap: return [eng.exc(st, UOE)] if lst(st, a[0]).segs else RET(st)
    if any(isinstance(g, LSym) for g in lst(st, a[0]).segs): flag_mut(eng, st, a[0])
    st.heap[a[0].id] = Lst((), lst(st, a[0]).et); return RET(st)
def l_forEach(eng, st, a):
    import loops
    return loops.foreach(eng, st, a[0], a[1])
LIST = dict(toArray=l_toArray, size=l_size, isEmpty=l_isEmpty, get=l_get, add=l_add, iterator=l_iter, listIterator=l_iter, clear=l_clear, forEach=l_forEach, ensureCapacity=lambda e, s, a: RET(s),
            )

# ================================================================= equality and hashing of values
def fkey(v, kind):
    """canonical bits of a float / double (all NaNs equal, as in floatToIntBits)"""
    if kind == 'F':
        t = b32(v); nan = z3.And((t & 0x7f800000) == 0x7f800000, (t & 0x7fffff) != 0)
        return simp(z3.If(nan, b32(0x7fc00000), t))
    t = b64(v); nan = z3.And((t & 0x7ff0000000000000) == 0x7ff0000000000000, (t & 0xfffffffffffff) != 0)
    return z3.simplify(z3.If(nan, b64(0x7ff8000000000000), t))
def eqv(eng, st, a, b):
    if isinstance(a, Alt) or isinstance(b, Alt):
        la = a.alts if isinstance(a, Alt) else [(True, a)]; lb = b.alts if isinstance(b, Alt) else [(True, b)]
        r = Or(*[And(c1, c2, eqv(eng, st, x, y)) for c1, x in la for c2, y in lb])
        return simp(r) if isz(r) else r
    if a is NULL or b is NULL: return a is b
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b: return True
        x = st.heap[a.id]; y = st.heap[b.id]
        if isinstance(x, Obj) and isinstance(y, Obj):
            if x.content is not None and y.content is not None: return eq(eqcM(x.content), eqcM(y.content))
            if x.cls != y.cls and x.cls and y.cls: return False
            raise Unsupported('equality of explicit objects')
        if isinstance(x, Lst) and isinstance(y, Lst):
            if len(x.segs) == 1 and len(y.segs) == 1 and isinstance(x.segs[0], LSym) and isinstance(y.segs[0], LSym): return eq(eqcL(x.segs[0].t), eqcL(y.segs[0].t))
            if all(isinstance(g, LOne) for g in x.segs + y.segs): return len(x.segs) == len(y.segs) and And(*[eqv(eng, st, g.v, h.v) for g, h in zip(x.segs, y.segs)])
            raise Unsupported('equality of built lists')
        return False
    if isinstance(a, Str) and isinstance(b, Str):
        if a.t is not None and b.t is not None: return eq(a.t, b.t)
        raise Unsupported('equality of built text')
    if isinstance(a, Box) and isinstance(b, Box):
        if a.kind != b.kind: return False
        if a.kind in 'FD': return eq(fkey(a.v, a.kind), fkey(b.v, b.kind))
        return eq(a.v, b.v)
    if isinstance(a, Opq) and isinstance(b, Opq): return eq(a.t, b.t)
    if isinstance(a, (Tok, Clo)) and isinstance(b, (Tok, Clo)): return a == b
    if isinstance(a, Opq) or isinstance(b, Opq): raise Unsupported('equality with an unknown object')
    if isinstance(a, (int, z3.ExprRef)) or isinstance(b, (int, z3.ExprRef)): raise Unsupported('equality of unboxed values')
    return False
hbox = lambda v, k: (v if k in 'BSIC' else If(eq(v, 1), 1231, 1237) if k == 'Z' else fkey(v, 'F') if k == 'F' else simp(z3.Extract(31, 0, b64(v) ^ z3.LShR(b64(v), 32))) if k == 'J'
                     else simp(z3.Extract(31, 0, fkey(v, 'D') ^ z3.LShR(fkey(v, 'D'), 32))))
def hashv(eng, st, v):
    if v is NULL: return 0
    if isinstance(v, Alt):
        r = None
        for c, x in reversed(v.alts): r = hashv(eng, st, x) if r is None else If(c, hashv(eng, st, x), r)
        return r
    if isinstance(v, Str) and v.t is not None:
        c = lit(v)
        if c is not None and c.isascii():
            h = 0
            for x in c: h = (31 * h + ord(x)) & 0xffffffff
            h -= (h >> 31) << 32; eng.facts.append(eq(hS(v.t), h)); return h
        return simp(hS(v.t))
    if isinstance(v, Box): return hbox(v.v, v.kind)
    if isinstance(v, Ref):
        o = st.heap[v.id]
        if isinstance(o, Obj) and o.content is not None: return simp(hE(eqcM(o.content)))
        if isinstance(o, Lst) and len(o.segs) == 1 and isinstance(o.segs[0], LSym): return simp(hE(eqcL(o.segs[0].t)))
        if isinstance(o, Lst) and all(isinstance(g, LOne) for g in o.segs):
            r = 1
            for g in o.segs: r = iop('add', iop('mul', 31, r), hashv_call(eng, st, g.v))
            return r
    if isinstance(v, Opq): return simp(uf('hashV', V, I32)(v.t))
    raise Unsupported('hash of %r' % (v,))
def o_hash(eng, st, a):
    ar = st.heap[a[0].id]; r = 1
    for x in ar.items: r = iop('add', iop('mul', 31, r), hashv_call(eng, st, x))
    return r
def hashv_call(eng, st, v):
    """hash of a value, executing the in-repo hashCode of explicit objects"""
    if isinstance(v, Ref) and isinstance(st.heap[v.id], Obj) and st.heap[v.id].content is None: raise Unsupported('hash of explicit object')
    return hashv(eng, st, v)
def obj_equals(eng, st, a):
    r = eqv(eng, st, a[0], a[1]); return If(r, 1, 0)

# ================================================================= maps
def keyeq(a, b):
    if isinstance(a, Alt) or isinstance(b, Alt):
        la = a.alts if isinstance(a, Alt) else [(True, a)]; lb = b.alts if isinstance(b, Alt) else [(True, b)]
        r = Or(*[And(c1, c2, keyeq(x, y)) for c1, x in la for c2, y in lb]); return simp(r) if isz(r) else r
    if a is NULL or b is NULL: return a is b
    if isinstance(a, Box) and isinstance(b, Box): return eq(a.v, b.v) if a.kind == b.kind else False
    if isinstance(a, Str) and isinstance(b, Str): return eq(a.t, b.t)
    if isinstance(a, Opq) and isinstance(b, Opq): return eq(a.t, b.t)
    if isinstance(a, (Tok, Ref)) and isinstance(b, (Tok, Ref)): return a == b
    if isinstance(a, (Tok, Opq)) and isinstance(b, (Tok, Opq)): return eq(*[z3.Const('tok:' + x.name, V) if isinstance(x, Tok) else x.t for x in (a, b)])
    if isinstance(a, Opq) or isinstance(b, Opq): raise Unsupported('map key')
    if type(a) is not type(b): return False
    raise Unsupported('map key')
def mbase(base, key):
    """value of a symbolic initial map: (has, value)"""
    if base is None: return (False, NULL)
    nm = base
    if isinstance(key, Alt):
        h = False; v = NULL
        for c, k in key.alts:
            h2, v2 = mbase(base, k); h = If(c, h2, h) if isz(c) else h2; v = ite_val(c, v2, v)
        return h, v
    if isinstance(key, Str): has, val = uf('has$' + nm, S, BOOL)(key.t), uf('val$' + nm, S, V)(key.t)
    elif isinstance(key, Box):
        t = b64(key.v) if is64(key.v) else z3.SignExt(32, b32(key.v))
        t = z3.simplify(t)
        has, val = uf('has$%s$%s' % (nm, key.kind), z3.BitVecSort(64), BOOL)(t), uf('val$%s$%s' % (nm, key.kind), z3.BitVecSort(64), V)(t)
    elif isinstance(key, Tok):
        t = z3.Const('tok:' + key.name, V); has, val = uf('has$%s$T' % nm, V, BOOL)(t), uf('val$%s$T' % nm, V, V)(t)
    elif isinstance(key, Opq): has, val = uf('has$%s$T' % nm, V, BOOL)(key.t), uf('val$%s$T' % nm, V, V)(key.t)
    elif key is NULL: has, val = z3.Const('has$%s$null' % nm, BOOL), z3.Const('val$%s$null' % nm, V)
    else: raise Unsupported('map key')
    return has, Opq(val)
MAPVAL = {}   # symbolic map name -> function(term) giving the value
def mlookup(eng, st, mp, key):
    """-> (has condition, value when present)"""
    has, v = mbase(mp.base, key)
    if mp.base in MAPVAL and not isinstance(v, _Null): v = MAPVAL[mp.base](v)
    for g, k, val in mp.upd:
        if k == '*clear':
            has = If(g, False, has); continue
        c = And(g, keyeq(k, key))
        c = simp(c) if isz(c) else c
        if c is False: continue
        if val is None: has = If(c, False, has)
        else: has = If(c, True, has); v = ite_val(c, val, v)
    return has, v
from engine import _Null
def m_get(eng, st, a):
    mp = st.heap[a[0].id]; has, v = mlookup(eng, st, mp, a[1])
    return ite_val(has, v, NULL)
def m_getOrDefault(eng, st, a):
    mp = st.heap[a[0].id]; has, v = mlookup(eng, st, mp, a[1]); return ite_val(has, v, a[2])
def m_containsKey(eng, st, a):
    mp = st.heap[a[0].id]; has, v = mlookup(eng, st, mp, a[1]); return If(has, 1, 0)
def m_put(eng, st, a):
    mp = st.heap[a[0].id]; has, v = mlookup(eng, st, mp, a[1]) if (mp.base or len(mp.upd) < 400) else (False, Opq(fresh('prev', V)))
    st.heap[a[0].id] = Mp(mp.base, mp.upd + ((True, a[1], a[2]),))
    return ite_val(has, v, NULL)
def m_putIfAbsent(eng, st, a):
    mp = st.heap[a[0].id]; has, v = mlookup(eng, st, mp, a[1])
    st.heap[a[0].id] = Mp(mp.base, mp.upd + ((Not(has), a[1], a[2]),))
    return ite_val(has, v, NULL)
def m_remove(eng, st, a):
    mp = st.heap[a[0].id]; has, v = mlookup(eng, st, mp, a[1])
    st.heap[a[0].id] = Mp(mp.base, mp.upd + ((True, a[1], None),))
    return ite_val(has, v, NULL)
def m_clear(eng, st, a):
    mp = st.heap[a[0].id]; st.heap[a[0].id] = Mp(None, ()); return RET(st)
def m_computeIfAbsent(eng, st, a):
    mp = st.heap[a[0].id]; has, v = mlookup(eng, st, mp, a[1]); base = len(st.pc); outs = []
    d = has if isinstance(has, bool) else eng.decide(st, has)
    if d is not False:
        t = st.fork()
        if d is not True: t.pc.append(has)
        outs += RET(t, v)
    if d is not True:
        t = st.fork()
        if d is not False: t.pc.append(Not(has))
        for o in callf(eng, t, a[2], [a[1]]):
            if o.kind == 'ret':
                if null_cond(o.val) is not False: raise Unsupported('computeIfAbsent with null')
                mp2 = o.st.heap[a[0].id]; o.st.heap[a[0].id] = Mp(mp2.base, mp2.upd + ((True, a[1], o.val),))
            outs.append(o)
    return eng.join_outs(base, outs)
def m_copy(eng, st, a):
    if not (isinstance(a[1], Ref) and isinstance(st.heap[a[1].id], Mp)) or ('nonull', a[0].id) in st.heap: raise Unsupported('copy of a map')
    o = st.heap[a[1].id]; st.heap[a[0].id] = Mp(o.base, o.upd); return RET(st)
def m_size(eng, st, a): raise Unsupported('size of a map')
def callf(eng, st, f, args):
    """apply a functional object"""
    def on(t, g):
        if isinstance(g, Clo): return eng.call_closure(t, g, args)
        if isinstance(g, Opq) and not args: return RET(t, Models.supply(None, eng, t, [g]))
        if isinstance(g, Ref) and isinstance(t.heap[g.id], Obj) and t.heap[g.id].cls in eng.prog.classes:
            c = eng.prog.classes[t.heap[g.id].cls]
            ms = [m for m in c.methods.values() if m.name in ('get', 'apply', 'accept', 'test') and not m.abstract and len(parse_desc(m.desc)[0]) == len(args)]
            if len(ms) >= 1:
                m = [x for x in ms if not (x.flags & 0x40)] or ms
                return eng.invoke_method(t, m[0], [g] + list(args))
        raise Unsupported('call of a functional object')
    return eng.split(st, f, on)
def keyed(nm, f):
    def g(eng, st, a):
        kind = st.heap.get(('nonull', a[0].id)); outs = []
        if kind is not None:
            if len(a) > 1 and (kind != 'EnumMap' or nm.startswith('put')) and not eng.guard(st, Not(null_cond(a[1])), NPE, outs): return outs
            if nm.startswith('put') and kind == 'ConcurrentHashMap' and not eng.guard(st, Not(null_cond(a[2])), NPE, outs): return outs
            r = h(eng, st, a); return outs + (r if isinstance(r, list) else RET(st, r))
        return h(eng, st, a)
    def h(eng, st, a):
        for x in (a[1].alts if isinstance(a[1], Alt) else [(True, a[1])]) if len(a) > 1 else []:
            x = x[1]; o = st.heap[x.id] if isinstance(x, Ref) else None
            if o is not None and (not isinstance(o, (Obj, Arr)) or isinstance(o, Obj) and eng.prog.find(o.cls, 'equals', '(Ljava/lang/Object;)Z') is not None): raise Unsupported('map key compared by its equals method')
        return f(eng, st, a)
    return g
MAP = dict(computeIfAbsent=m_computeIfAbsent, get=m_get, getOrDefault=m_getOrDefault, containsKey=m_containsKey, put=m_put, putIfAbsent=m_putIfAbsent, remove=m_remove, clear=m_clear)
MAP = {k: keyed(k, f) for k, f in MAP.items()}

# ================================================================= strings
def lit(s_):
    """value of a string constant"""
    return strval(s_.t) if isinstance(s_, Str) and s_.t is not None else None
units = lambda c: len(c.encode('utf-16-be')) // 2
def s_length(eng, st, a):
    if a[0].t is None: return simp(fresh('len'))
    if lit(a[0]) is not None: return units(lit(a[0]))
    return simp(slen(a[0].t))
def s_isEmpty(eng, st, a): return If(eq(a[0].t, EMPTY), 1, 0)
def s_charAt(eng, st, a):
    outs = []; i = a[1]; c = lit(a[0])
    if c is not None and isinstance(i, int) and 0 <= i < units(c): x = c.encode('utf-16-be'); return RET(st, x[2 * i] * 256 + x[2 * i + 1])
    if not eng.guard(st, And(icmp('ge', i, 0), icmp('lt', i, simp(slen(a[0].t)))), 'java/lang/StringIndexOutOfBoundsException', outs): return outs
    return outs + RET(st, zx(chr_(a[0].t, b32(i))))
def s_substring(eng, st, a):
    c = lit(a[0])
    if c is not None and c.isascii() and all(isinstance(x, int) for x in a[1:]):
        j = a[2] if len(a) > 2 else len(c)
        if 0 <= a[1] <= j <= len(c): return RET(st, Str(strc(c[a[1]:j])))
    t = a[0].t; i = a[1]; j = a[2] if len(a) > 2 else simp(slen(t)); outs = []
    ok = And(icmp('ge', i, 0), icmp('le', i, j), icmp('le', j, simp(slen(t))))
    if not eng.guard(st, ok, 'java/lang/StringIndexOutOfBoundsException', outs): return outs
    return outs + RET(st, Str(subF(t, b32(i), b32(j))))
def s_getBytes(eng, st, a):
    s_ = a[0]
    if len(a) > 1 and isinstance(a[1], Tok) and a[1] == UTF8 and s_.t is not None:
        t = s_.t
        if lit(s_) is not None and len(lit(s_)) < 64:
            x = lit(s_).encode('utf-8', 'replace'); return eng.alloc(st, Arr('B', tuple(y - 256 if y > 127 else y for y in x), None, len(x), ('utf8', t)))
        return eng.alloc(st, Arr('B', None, lambda i: sx(ub(t, b32(i))), simp(ulen(t)), ('utf8', t)))
    n = fresh('enclen'); eng.facts.append(n >= 0)
    b = fresh('enc', BA)
    return eng.alloc(st, Arr('B', None, lambda i: sx(rawb(b, b32(i))), n, ('segs', (Raw(b, 0, n),))))
def s_equals(eng, st, a): return If(eqv(eng, st, a[0], a[1]), 1, 0)
def s_concat(eng, st, a):
    return eng.split(st, a[1], lambda t, x: RET(t, eng.mkstr(parts_of(a[0]) + parts_of(x))))
def s_toCharArray(eng, st, a):
    t = a[0].t
    return eng.alloc(st, Arr('C', None, lambda i: zx(chr_(t, b32(i))), simp(slen(t)), ('chars', t)))
STRING = dict(toCharArray=s_toCharArray, length=s_length, isEmpty=s_isEmpty, charAt=s_charAt, substring=s_substring, getBytes=s_getBytes, equals=s_equals, toString=ident, concat=s_concat,
              hashCode=lambda e, s, a: hashv(e, s, a[0]), subSequence=s_substring,
              trim=lambda e, s, a: Str(uf('jtrim', S, S)(a[0].t)), intern=ident)
def nullorempty(eng, st, v):
    return Or(null_cond(v), *[And(c, eq(x.t, EMPTY)) for c, x in nonnull(v)])

# ================================================================= StringBuilder
def sb_append(eng, st, a, d):
    sb = st.heap[a[0].id]
    st.heap[a[0].id] = SBd(norm_parts(sb.parts + tuple(eng_show(eng, st, a[1], d)))); return RET(st, a[0])
def eng_show(eng, st, v, d):
    if d in ('J', 'F', 'D', 'C', 'Z', 'I'):
        if d == 'C' and isinstance(v, int): return [('lit', chr(v))]
        if d == 'I' and isinstance(v, int): return [('lit', str(v))]
        return [(d, eng.vkey(st, v))]
    if isinstance(v, Box): return eng_show(eng, st, v.v, {'B': 'I', 'S': 'I'}.get(v.kind, v.kind))
    if isinstance(v, Ref) and isinstance(st.heap[v.id], SBd): return list(st.heap[v.id].parts)
    return eng.show(st, v)
def sb_toString(eng, st, a): return eng.mkstr(st.heap[a[0].id].parts)

# ================================================================= java.util.Optional
Opt = namedtuple('Opt', 'v')     # v may be null: empty
def o_present(v): return simp(Not(null_cond(v))) if isz(null_cond(v)) else Not(null_cond(v))
def o_val(v):
    nn = nonnull(v)
    return mk_alt(nn) if len(nn) > 1 else nn[0][1]
def o_cases(eng, st, v, some, none):
    base = len(st.pc); c = null_cond(v); outs = []
    d = c if isinstance(c, bool) else eng.decide(st, c)
    if d is not True:
        t = st.fork()
        if d is None: t.pc.append(Not(c))
        outs += some(t, o_val(v))
    if d is not False:
        t = st.fork()
        if d is None: t.pc.append(c)
        outs += none(t)
    return eng.join_outs(base, outs)
def o_orElseThrow(eng, st, a):
    def none(t):
        if len(a) == 1: return [eng.exc(t, 'java/util/NoSuchElementException')]
        r = []
        for o in callf(eng, t, a[1], []):
            if o.kind == 'exc': r.append(o)
            elif isinstance(o.val, Ref) and isinstance(o.st.heap[o.val.id], Obj) and o.st.heap[o.val.id].cls: r.append(eng.exc(o.st, o.st.heap[o.val.id].cls))
            else: raise Unsupported('orElseThrow')
        return r
    return o_cases(eng, st, a[0].v, lambda t, x: RET(t, x), none)
def o_map(eng, st, a): return o_cases(eng, st, a[0].v, lambda t, x: [o if o.kind != 'ret' else Out('ret', o.st, Opt(o.val), None, None) for o in callf(eng, t, a[1], [x])], lambda t: RET(t, Opt(NULL)))
def o_filter(eng, st, a):
    def some(t, x):
        r = []
        for o in callf(eng, t, a[1], [x]):
            if o.kind == 'ret': o = Out('ret', o.st, Opt(ite_val(ne0(o.val), x, NULL)), None, None)
            r.append(o)
        return r
    return o_cases(eng, st, a[0].v, some, lambda t: RET(t, Opt(NULL)))
def ne0(v): return v != 0 if isinstance(v, int) else icmp('ne', v, 0)
OPT = dict(isPresent=lambda e, s, a: If(o_present(a[0].v), 1, 0), isEmpty=lambda e, s, a: If(o_present(a[0].v), 0, 1), get=lambda e, s, a: o_orElseThrow(e, s, a[:1]),
           orElse=lambda e, s, a: ite_val(null_cond(a[0].v), a[1], o_val(a[0].v)) if nonnull(a[0].v) else a[1], orElseThrow=o_orElseThrow, map=o_map, filter=o_filter,
           flatMap=lambda e, s, a: o_cases(e, s, a[0].v, lambda t, x: callf(e, t, a[1], [x]), lambda t: RET(t, Opt(NULL))),
           orElseGet=lambda e, s, a: o_cases(e, s, a[0].v, lambda t, x: RET(t, x), lambda t: callf(e, t, a[1], [])),
           ifPresent=lambda e, s, a: o_cases(e, s, a[0].v, lambda t, x: [o if o.kind != 'ret' else Out('ret', o.st, None, None, None) for o in callf(e, t, a[1], [x])], lambda t: RET(t)))

# ================================================================= text formatting
def fmt(eng, st, f, args):
    """String.format restricted to %s, %d (no flags) and %%, %n excluded"""
    c = strval(f.t) if isinstance(f, Str) and f.t is not None else None
    if c is None: raise Unsupported('format that is not a literal')
    parts = []; i = 0; k = 0
    while i < len(c):
        if c[i] != '%': parts.append(('lit', c[i])); i += 1; continue
        x = c[i + 1] if i + 1 < len(c) else ''
        if x == '%': parts.append(('lit', '%'))
        elif x in 'sd' and x:
            if k >= len(args): raise Unsupported('missing format argument')
            v = args[k]; k += 1
            if x == 'd' and not (isinstance(v, Box) and v.kind in 'BSIJ' or v is NULL): raise Unsupported('%d of a value that is not an integer')
            parts += eng_show(eng, st, v, None)
        else: raise Unsupported('format %' + x)
        i += 2
    return eng.mkstr(tuple(parts))
def items_of(eng, st, r):
    o = st.heap[r.id]
    if isinstance(o, Arr) and o.items is not None: return list(o.items)
    if isinstance(o, Lst) and all(isinstance(g, LOne) for g in o.segs): return [g.v for g in o.segs]
    raise Unsupported('elements of unknown number')
def joined(eng, st, sep, xs):
    ps = []
    for i, x in enumerate(xs):
        if i: ps += list(parts_of(sep))
        ps += eng_show(eng, st, x, None)
    return ps
def j_init(eng, st, a):
    st.heap[a[0].id] = Joi(a[1], a[2] if len(a) > 2 else Str(EMPTY), a[3] if len(a) > 3 else Str(EMPTY), ()); return RET(st)
def j_add(eng, st, a):
    o = st.heap[a[0].id]; st.heap[a[0].id] = Joi(o.sep, o.pre, o.suf, o.items + (a[1],)); return RET(st, a[0])
def j_toString(eng, st, a):
    o = st.heap[a[0].id]; return eng.mkstr(tuple(parts_of(o.pre)) + tuple(joined(eng, st, o.sep, o.items)) + tuple(parts_of(o.suf)))

# ================================================================= lookup
class Models:
    def joiner(s): return Joi(Str(EMPTY), Str(EMPTY), Str(EMPTY), ())
    def static_field(s, o, f):
        if o == 'java/nio/charset/StandardCharsets' or o == 'io/netty/util/CharsetUtil': return Tok('charset:' + f.replace('_', '-'))
        if (o, f) == ('java/lang/Integer', 'MAX_VALUE'): return 2147483647
        return None
    def lookup(s, eng, st, o, n, d, a):
        ad, rt = parse_desc(d)
        r0 = a[0] if a else None
        if o == 'java/lang/String' and n == '<init>': return s.newString
        if o == 'java/lang/String' and n == 'format' and ad[0] == 'Ljava/lang/String;': return lambda e, t, x: fmt(e, t, x[0], items_of(e, t, x[1]))
        if o == 'java/lang/String' and n == 'join': return lambda e, t, x: e.mkstr(tuple(joined(e, t, x[0], items_of(e, t, x[1]))))
        if o == 'java/util/Optional' and n in ('ofNullable', 'empty'): return lambda e, t, x: Opt(x[0] if x else NULL)
        if o == 'java/util/Optional' and n == 'of':
            def of(e, t, x):
                outs = []
                if not e.guard(t, Not(null_cond(x[0])), NPE, outs): return outs
                return outs + RET(t, Opt(o_val(x[0])))
            return of
        if isinstance(r0, Opt) and n in OPT: return OPT[n]
        if isinstance(r0, Ref) and not o.startswith('java/util/Objects') and o not in ('java/lang/String', 'java/lang/Integer'):
            ob = st.heap[r0.id]
            if isinstance(ob, Buf) and n in BUF: return BUF[n]
            if isinstance(ob, Lst):
                if n == '<init>': return s.list_init
                if n == 'addAll': return s.addAll
                if n in LIST: return LIST[n]
                if n == 'equals': return obj_equals
                if n == 'hashCode': return lambda e, t, x: hashv(e, t, x[0])
                if n == 'toString': return lambda e, t, x: e.mkstr(tuple(e.show(t, x[0])))
            if isinstance(ob, Mp):
                if n == '<init>':
                    if ad and ad[0] == 'Ljava/util/Map;': return m_copy
                    return (lambda e, t, x: RET(t)) if not ad or ad[0] in ('I', 'Ljava/lang/Class;') else None
                if n in MAP: return MAP[n]
            if isinstance(ob, Joi):
                if n == '<init>': return j_init
                if n == 'add': return j_add
                if n == 'toString': return j_toString
            if isinstance(ob, SBd):
                if n == '<init>':
                    return (lambda e, t, x: RET(t)) if not ad or ad[0] == 'I' else (lambda e, t, x: sb_append(e, t, x, ad[0]))
                if n == 'append' and len(ad) == 1: return lambda e, t, x: sb_append(e, t, x, ad[0])
                if n == 'toString': return sb_toString
            if isinstance(ob, Itr):
                if n == 'hasNext': return it_hasNext
                if n == 'next': return it_next
            if isinstance(ob, Obj):
                if n == '<init>': return lambda e, t, x: RET(t)
                if n == 'getClass': return (lambda e, t, x: Tok('class:' + ob.cls)) if ob.cls else None
                if n == 'ordinal' and '$ordinal' in (ob.fields or {}): return lambda e, t, x: ob.fields['$ordinal']
                if n in ('name', 'toString') and '$name' in (ob.fields or {}): return lambda e, t, x: ob.fields['$name']
                if n == 'toString' : return lambda e, t, x: e.mkstr(tuple(e.show(t, x[0])))
                if n == 'equals' and ob.content is not None: return obj_equals
                if n == 'equals' and eng.prog.find(ob.cls, 'encode', '(Lio/netty/buffer/ByteBuf;)V') is None: return lambda e, t, x: If(e.ref_eq(t, x[0], x[1]), 1, 0)
                if n == 'hashCode' and ob.content is not None: return lambda e, t, x: hashv(e, t, x[0])
                if n == 'hashCode' and ob.cls in eng.prog.classes: return lambda e, t, x: fresh('identityHash')
            if isinstance(ob, Arr) and n == 'clone': return lambda e, t, x: e.alloc(t, t.heap[x[0].id])
        if isinstance(r0, Str) and n in STRING and o in ('java/lang/String', 'java/lang/CharSequence', 'java/lang/Object'): return STRING[n]
        if isinstance(r0, Clo) and n == '<init>': return None
        if o == 'java/util/Objects':
            if n == 'equals': return s.objects_equals
            if n == 'hash': return o_hash
            if n == 'hashCode': return lambda e, t, x: hashv(e, t, x[0])
            if n == 'isNull': return lambda e, t, x: If(null_cond(x[0]), 1, 0)
            if n == 'nonNull': return lambda e, t, x: If(null_cond(x[0]), 0, 1)
            if n == 'requireNonNull':
                def rnn(e, t, x):
                    outs = []
                    if not e.guard(t, Not(null_cond(x[0])), NPE, outs): return outs
                    nn = nonnull(x[0]); return outs + RET(t, mk_alt(nn) if len(nn) > 1 else nn[0][1])
                return rnn
            if n == 'toString': return lambda e, t, x: e.mkstr(tuple(e.show(t, x[0])))
        if o == 'java/lang/System' and n == 'arraycopy': return arraycopy
        if o == 'java/util/Arrays':
            if n in ('asList',): return s.asList
            if n == 'hashCode': return o_hash
            if n == 'fill' and len(a) == 2: return s.arr_fill
            if n == 'fill' and len(a) == 4: return s.arr_fill_range
            if n == 'copyOfRange': return s.arr_copyOfRange
            if n == 'copyOf' : return s.arr_copyOf
        if o == 'io/netty/util/internal/StringUtil' and n == 'isNullOrEmpty': return lambda e, t, x: If(nullorempty(e, t, x[0]), 1, 0)
        if o in BOXK:
            k = BOXK[o]
            prim = {'byteValue': 'B', 'shortValue': 'S', 'intValue': 'I', 'longValue': 'J', 'floatValue': 'F', 'doubleValue': 'D', 'charValue': 'C', 'booleanValue': 'Z'}
            if n == 'valueOf' and ad[0] == k: return lambda e, t, x: Box(k, x[0])
            if n in prim: return s.unbox(prim[n])
            if n == 'equals': return obj_equals
            if n == 'hashCode': return lambda e, t, x: hashv(e, t, x[0]) if isinstance(x[0], Box) else hbox(x[0], k)
            if n == 'toString': return lambda e, t, x: e.mkstr(tuple(eng_show(e, t, x[0], None if isinstance(x[0], Box) else ad[0])))
            if n == 'compare' and k in 'BSIC': return lambda e, t, x: If(icmp('lt', x[0], x[1]), -1, If(icmp('gt', x[0], x[1]), 1, 0))
            if n == 'compare' and k == 'J': return lambda e, t, x: simp(z3.If(x[0] < x[1], b32(-1), z3.If(x[0] > x[1], b32(1), b32(0))))
            if n == 'compare' and k in 'FD': return lambda e, t, x: If(eq(fkey(x[0], k), fkey(x[1], k)), 0, If(fresh('fcmp', BOOL), -1, 1))
            if n in ('floatToIntBits', 'doubleToLongBits'): return lambda e, t, x: fkey(x[0], k)
            if n in ('floatToRawIntBits', 'doubleToRawLongBits', 'intBitsToFloat', 'longBitsToDouble'): return lambda e, t, x: x[0]
            if n in ('toUnsignedInt',): return lambda e, t, x: ext(x[0], 32, {'B': 8, 'S': 16}[k], False)
            if n == 'toUnsignedLong': return lambda e, t, x: ux(b32(x[0]))
            if n == 'reverseBytes' and k in 'SI': return lambda e, t, x: (sx(z3.Concat(low(x[0], 8), z3.Extract(15, 8, b32(x[0])))) if k == 'S' else simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, b32(x[0])) for i in range(4)])))
            if n == 'reverseBytes' and k == 'J': return lambda e, t, x: z3.simplify(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x[0]) for i in range(8)]))
            if n in ('max', 'min') and k == 'I': return s.minmax(n)
        if o == 'java/lang/Number' or o == 'java/lang/Object':
            prim = {'byteValue': 'B', 'shortValue': 'S', 'intValue': 'I', 'longValue': 'J', 'floatValue': 'F', 'doubleValue': 'D'}
            if n in prim: return s.unbox(prim[n])
            if n == 'equals' and not isinstance(r0, Opq): return obj_equals
            if n == 'hashCode': return lambda e, t, x: hashv(e, t, x[0])
            if n == 'toString': return lambda e, t, x: e.mkstr(tuple(eng_show(e, t, x[0], None)))
            if n == 'getClass': return lambda e, t, x: Tok('class:' + (e.class_of(t, x[0]) or 'unknown'))
        if o == 'java/lang/Math':
            if n in ('min', 'max') and ad[0] in ('I', 'J'): return s.minmax(n)
            if n == 'abs' and ad == ['J']: return lambda e, t, x: z3.simplify(z3.If(b64(x[0]) < 0, -b64(x[0]), b64(x[0])))
            if n == 'abs' and ad == ['I']: return lambda e, t, x: If(icmp('lt', x[0], 0), iop('sub', 0, x[0]), x[0])
            if n == 'toIntExact': return s.toIntExact
        if o == 'java/lang/String':
            if n == 'valueOf': return lambda e, t, x: e.mkstr(tuple(eng_show(e, t, x[0], ad[0])))
            if n == '<init>': return s.newString
        if o == 'java/lang/Enum' and n == '<init>': return lambda e, t, x: RET(t)
        if o.endswith('Enum') and n == 'valueOf': return None
        if n == 'get' and o == 'java/util/function/Supplier' and isinstance(r0, Opq): return s.supply
        if n == '<init>' and (o in EXC_SUPER): return lambda e, t, x: RET(t)
        if o == 'java/lang/Class' and isinstance(r0, Tok):
            if n == 'getSimpleName': return lambda e, t, x: Str(strc(x[0].name.split('/')[-1].split('$')[-1]))
            if n == 'equals': return obj_equals
            if n == 'isInstance': return lambda e, t, x: If(Or(*[g for g, v in (x[1].alts if isinstance(x[1], Alt) else [(True, x[1])]) if v is not NULL and e.inst(t, v, x[0].name[6:], False)]), 1, 0)
            if n == 'desiredAssertionStatus': return lambda e, t, x: 0
        if o == 'io/netty/buffer/Unpooled' and n in ('wrappedBuffer', 'copiedBuffer') and len(a) == 1 and isinstance(r0, Ref) and isinstance(st.heap[r0.id], Arr):
            return lambda e, t, x: e.alloc(t, Buf((), arr_segs(e, t, x[0], 0, t.heap[x[0].id].ln), {'readonly': True}))
        if o == 'io/netty/buffer/Unpooled' and n in ('buffer', 'directBuffer') and len(ad) < 2: return lambda e, t, x: e.alloc(t, Buf((), (), {'own': True}))
        if o == 'java/lang/Throwable' or n in ('printStackTrace', 'getMessage'): return None
        if o == 'java/util/Collections' and n in ('emptyList',): return lambda e, t, x: frozen(e, t, ())
        if o == 'java/util/Collections' and n == 'singletonList': return lambda e, t, x: frozen(e, t, (LOne(x[0]),))
        return None
    def supply(s, eng, st, a):
        f = z3.Function('supplied', V, M)
        cnt = eng.notes_supply = getattr(eng, 'notes_supply', 0) + 1
        st.heap[('supplied',)] = iop('add', st.heap.get(('supplied',), 0), 1)
        return eng.alloc(st, Obj(None, None, f(a[0].t)))
    def list_init(s, eng, st, a):
        if len(a) == 2 and isinstance(a[1], (int, z3.ExprRef)):
            outs = []
            if not eng.guard(st, icmp('ge', a[1], 0), 'java/lang/IllegalArgumentException', outs): return outs
            if not eng.prove(st, icmp('le', a[1], 0x10000)): st.heap[('prealloc',)] = 1
            return outs + RET(st)
        if len(a) == 2: return s.addAll(eng, st, a)
        return RET(st)
    def addAll(s, eng, st, a):
        if ('frozen', a[0].id) in st.heap: raise Unsupported('addAll to a list of fixed size')
        def on(t, x):
            o = lst(t, a[0]); g = lst(t, x).segs
            if any(isinstance(y, LSym) for y in o.segs): flag_mut(eng, t, a[0])
            t.heap[a[0].id] = Lst(o.segs + g, o.et); return RET(t, If(eq(llen(g), 0), 0, 1))
        return eng.split(st, a[1], on)
    def lget(s, eng, st, gs, i): return lget(eng, st, gs, i)
    def put(s, eng, st, r, i, w): splice(eng, st, r, i, 1, lambda: (Num(low(w, 8), 1, 'be'),), lambda j: w)
    def asList(s, eng, st, a):
        return frozen(eng, st, tuple(LOne(x) for x in st.heap[a[0].id].items))
    def arr_fill(s, eng, st, a):
        o = st.heap[a[0].id]
        v = eng.trunc(a[1], o.kind)
        if o.items is not None: st.heap[a[0].id] = Arr(o.kind, (v,) * len(o.items), None, o.ln, None)
        else: st.heap[a[0].id] = Arr(o.kind, None, lambda i: v, o.ln, ('fill', v))
        return RET(st)
    def arr_copyOf(s, eng, st, a):
        o = st.heap[a[0].id]
        if eng.prove(st, eq(o.ln, a[1])): return eng.alloc(st, o)
        outs = []
        if not eng.guard(st, icmp('ge', a[1], 0), 'java/lang/NegativeArraySizeException', outs): return outs
        n = a[1]
        if o.kind != 'B': raise Unsupported('Arrays.copyOf')
        # shorter: a prefix; longer: followed by zeros
        short = eng.decide(st, simp(b32(n) <= b32(o.ln)))
        def z(): return (Rep(fresh('kz'), iop('sub', n, o.ln), (Num(z3.BitVecVal(0, 8), 1, 'be'),)),)
        def pre(): return arr_segs(eng, st, a[0], 0, n)
        if short is True: segs = pre()
        elif short is False: segs = arr_whole(o) + z()
        else: segs = (It(simp(b32(n) <= b32(o.ln)), pre(), arr_whole(o) + z()),)
        return outs + RET(st, eng.alloc(st, seg_arr(eng, st, Arr('B', None, None, n, None), segs)))
    def arr_copyOfRange(s, eng, st, a):
        o = st.heap[a[0].id]; outs = []; n = iop('sub', a[2], a[1])
        if not eng.guard(st, icmp('le', a[1], a[2]), 'java/lang/IllegalArgumentException', outs): return outs
        if not eng.guard(st, And(icmp('ge', a[1], 0), icmp('le', a[1], o.ln)), 'java/lang/ArrayIndexOutOfBoundsException', outs): return outs
        if o.kind != 'B' or eng.decide(st, icmp('le', a[2], o.ln)) is not True: raise Unsupported('Arrays.copyOfRange')
        return outs + RET(st, eng.alloc(st, seg_arr(eng, st, Arr('B', None, None, n, None), arr_segs(eng, st, a[0], a[1], n))))
    def arr_fill_range(s, eng, st, a):
        o = st.heap[a[0].id]; outs = []; n = iop('sub', a[2], a[1]); v = eng.trunc(a[3], o.kind)
        if not eng.guard(st, icmp('le', a[1], a[2]), 'java/lang/IllegalArgumentException', outs): return outs
        if not eng.guard(st, And(icmp('ge', a[1], 0), icmp('le', a[2], o.ln)), 'java/lang/ArrayIndexOutOfBoundsException', outs): return outs
        splice(eng, st, a[0], a[1], n, lambda: (Rep(fresh('kz'), n, (Num(low(v, 8), 1, 'be'),)),), lambda j: v)
        return outs + RET(st)
    def unbox(s, to):
        def f(eng, st, a):
            v = a[0]
            if not isinstance(v, Box): raise Unsupported('unboxing of %r' % (v,))
            if v.kind == to: return RET(st, v.v)
            x = v.v
            if v.kind in 'BSIJ' and to in 'BSIJ':
                if v.kind == 'J': x = simp(z3.Extract(31, 0, x)) if to != 'J' else x
                if to == 'J': return RET(st, z3.simplify(z3.SignExt(32, b32(x))))
                return RET(st, eng.trunc(x, to))
            raise Unsupported('numeric conversion')
        return f
    def minmax(s, n):
        def f(eng, st, a):
            x, y = a
            if is64(x): c = simp(x <= y)
            else: c = icmp('le', x, y)
            return RET(st, If(c, x, y) if n == 'min' else If(c, y, x))
        return f
    def toIntExact(s, eng, st, a):
        outs = []
        lo = simp(z3.Extract(31, 0, a[0]))
        if not eng.guard(st, eq(z3.SignExt(32, b32(lo)), a[0]), 'java/lang/ArithmeticException', outs): return outs
        return outs + RET(st, lo)
    def objects_equals(s, eng, st, a):
        x, y = a
        # explicit in-repo objects with their own equals are executed
        if isinstance(x, Ref) and isinstance(st.heap[x.id], Obj) and st.heap[x.id].content is None and st.heap[x.id].cls in eng.prog.classes:
            return eng.invoke(st, 'virtual', ('ref', 'java/lang/Object', 'equals', '(Ljava/lang/Object;)Z', False), [x, y])
        return RET(st, If(eqv(eng, st, x, y), 1, 0))
    def newString(s, eng, st, a):
        outs = []
        if len(a) == 1: v = Str(EMPTY)
        elif len(a) == 3 and isinstance(a[1], Ref) and isinstance(a[2], Tok):
            o = st.heap[a[1].id]; v = str_of(eng, st, arr_segs(eng, st, a[1], 0, o.ln), a[2])
        elif len(a) == 2 and isinstance(a[1], Str): v = a[1]
        elif len(a) == 5 and isinstance(a[1], Ref) and isinstance(a[4], Tok) and st.heap[a[1].id].kind == 'B':
            o = st.heap[a[1].id]; outs = []
            if not eng.guard(st, in_range(a[2], a[3], o.ln), 'java/lang/StringIndexOutOfBoundsException', outs): return outs
            v = str_of(eng, st, arr_segs(eng, st, a[1], a[2], a[3]), a[4])
        elif len(a) in (2, 4) and isinstance(a[1], Ref) and st.heap[a[1].id].src and st.heap[a[1].id].src[0] == 'chars':
            t = st.heap[a[1].id].src[1]; v = Str(t); outs = []
            if len(a) == 4:
                if not eng.guard(st, in_range(a[2], a[3], slen(t)), 'java/lang/StringIndexOutOfBoundsException', outs): return outs
                r = s_substring(eng, st, [v, a[2], iop('add', a[2], a[3])])
                outs += [o for o in r if o.kind == 'exc']; r = [o for o in r if o.kind == 'ret']
                if len(r) != 1: raise Unsupported('new String')
                st = r[0].st; v = r[0].val
        else: raise Unsupported('new String')
        st.stk = [v if x == a[0] and isinstance(x, Ref) else x for x in st.stk]
        st.loc = [v if isinstance(x, Ref) and x == a[0] else x for x in st.loc]
        return outs + RET(st)
