"""Byte-sequence terms ("segments"): what a method appended to a buffer, or what a reader
has in front of it.  A sequence is a tuple of segments; lengths may be symbolic."""
from collections import namedtuple
import z3
from terms import *

Num = namedtuple('Num', 'v w e')           # w bytes of bit-vector v (8*w bits); e: 'be' | 'le'
Sl = namedtuple('Sl', 's off ln')          # UTF-8 bytes off..off+ln of string content s
Fix = namedtuple('Fix', 'null s n pad left')   # contract of writeFixedString: n bytes
Rep = namedtuple('Rep', 'k n body')        # body[0] body[1] .. body[n-1]; k is the index variable
Mg = namedtuple('Mg', 'm cls')             # the encoding of message content m
It = namedtuple('It', 'c a b')
Raw = namedtuple('Raw', 'b off ln')        # unknown bytes
Mark = namedtuple('Mark', 'id ln')         # what earlier iterations of the current loop appended
Bytes8 = namedtuple('Bytes8', 'fn ln')     # bytes fn(0..ln-1) (array contents)

class Mismatch(Exception): pass

def sub_t(t, k, v):
    if t is None or isinstance(t, (bool, int, str)): return t
    return simp(z3.substitute(t, (k, b32(v)))) if z3.is_bv(t) or z3.is_bool(t) else z3.substitute(t, (k, b32(v)))
def sub_seg(g, k, v):
    T = type(g)
    if T is Num:
        t = sub_t(g.v, k, v)
        return Num(low(t, 8 * g.w), g.w, g.e)
    if T is Sl: return Sl(sub_t(g.s, k, v), sub_t(g.off, k, v), sub_t(g.ln, k, v))
    if T is Fix: return Fix(sub_t(g.null, k, v), sub_t(g.s, k, v), sub_t(g.n, k, v), sub_t(g.pad, k, v), sub_t(g.left, k, v))
    if T is Rep: return Rep(g.k, sub_t(g.n, k, v), sub_segs(g.body, k, v))
    if T is Mg: return Mg(sub_t(g.m, k, v), g.cls)
    if T is It: return It(sub_t(g.c, k, v), sub_segs(g.a, k, v), sub_segs(g.b, k, v))
    if T is Raw: return Raw(g.b, sub_t(g.off, k, v), sub_t(g.ln, k, v))
    if T is Mark: return g
    raise TypeError(g)
def sub_segs(gs, k, v): return tuple(sub_seg(g, k, v) for g in gs)

_replen = {}
def seg_len(g):
    T = type(g)
    if T is Num: return g.w
    if T is Sl: return g.ln
    if T is Fix: return g.n
    if T is Mg: return simp(mlen(g.m))
    if T is It: return If(g.c, segs_len(g.a), segs_len(g.b))
    if T in (Raw, Mark, Bytes8): return g.ln
    if T is Rep:
        bl = segs_len(g.body)
        if isinstance(bl, int) or not _mentions(bl, g.k): return iop('mul', g.n, bl)
        # uninterpreted sum, named by the summand (with a canonical index variable)
        cv = z3.BitVec('k!canon', 32)
        key = z3.substitute(bl, (g.k, cv)).sexpr()
        f = _replen.get(key)
        if f is None: f = z3.Function('sum$%d' % len(_replen), I32, I32); _replen[key] = f
        return simp(f(b32(g.n)))
    raise TypeError(g)
def _mentions(t, k):
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(k): return True
        st.extend(x.children())
    return False
def segs_len(gs):
    r = 0
    for g in gs: r = iop('add', r, seg_len(g))
    return r
def seg_same(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    T = type(a)
    if T is It: return same(a.c, b.c) and segs_same(a.a, b.a) and segs_same(a.b, b.b)
    if T is Rep:
        if not same(a.n, b.n): return False
        if a.k.eq(b.k): return segs_same(a.body, b.body)
        return segs_same(a.body, sub_segs(b.body, b.k, a.k))
    if T is Bytes8: return a.fn is b.fn and same(a.ln, b.ln)
    return all((x is y) or (x == y if not (isz(x) or isz(y)) else same(x, y)) for x, y in zip(a, b))
def segs_same(A, B): return len(A) == len(B) and all(seg_same(x, y) for x, y in zip(A, B))

def num_bytes(g):
    """a Num as single bytes"""
    if g.w == 1: return (g,)
    r = []
    for i in range(g.w):
        j = g.w - 1 - i if g.e == 'be' else i
        r.append(Num(z3.simplify(z3.Extract(8 * j + 7, 8 * j, g.v)), 1, 'be'))
    return tuple(r)
def from_bytes(bs, e):
    """bytes (Num w=1) -> Num"""
    ts = [b.v for b in bs]
    if e == 'le': ts = ts[::-1]
    v = ts[0] if len(ts) == 1 else z3.simplify(z3.Concat(*ts))
    return Num(v, len(bs), e)
def fix_def(g):
    """the definition of the fixed-width text contract, as plain segments"""
    pad = Num(low(g.pad, 8), 1, 'be')
    k = fresh('kp')
    def padding(n): return Rep(k, n, (pad,))
    u = simp(ulen(g.s))
    cut = If(icmp('lt', u, g.n), u, g.n)
    cut = If(simp(b32(g.n) < 0), 0, cut)
    txt = Sl(g.s, 0, cut)
    padn = iop('sub', g.n, cut)
    def side(left): return (padding(padn), txt) if left else (txt, padding(padn))
    def nonnull():
        if isinstance(g.left, bool): return side(g.left)
        return (It(g.left, side(True), side(False)),)
    if g.null is False: return nonnull()
    return (It(g.null, (padding(g.n),), nonnull()),)

class Cmp:
    """proves equality of byte sequences under hypotheses"""
    def __init__(s, facts=()): s.facts = list(facts); s.why = None; s.steps = 0; s.extra = None
    def pv(s, pc, g):
        s.steps += 1
        if g is True: return True
        if g is False: return check(list(pc) + s.facts)[0] == 'unsat'
        return prove(list(pc) + s.facts, g)
    def fail(s, why, a=None, b=None):
        if s.why is None: s.why = why
        return False
    def norm(s, pc, A):
        """drop empty heads; resolve decided conditionals at the head"""
        A = list(A)
        while A:
            g = A[0]; T = type(g)
            if T is It:
                if g.c is True or s.pv(pc, g.c): A[0:1] = list(g.a); continue
                if g.c is False or s.pv(pc, Not(g.c)): A[0:1] = list(g.b); continue
                return A
            if T in (Num, Fix) and isinstance(seg_len(g), int) and seg_len(g) > 0: return A
            l = seg_len(g)
            if same(l, 0): A.pop(0); continue
            return A
        return A
    def empty(s, pc, A):
        for g in A:
            l = seg_len(g)
            if same(l, 0): continue
            if isinstance(l, int): return False
            if type(g) is It and any(isinstance(x, (Rep, It)) for x in g.a + g.b):
                if not (s.empty(list(pc) + [bo(g.c)], g.a) and s.empty(list(pc) + [bo(Not(g.c))], g.b)): return False
                continue
            if type(g) is Rep and s.pv(pc, eq(g.n, 0)): continue
            if not s.pv(pc, eq(l, 0)): return False
        return True
    def prefix(s, pc, P, B, depth):
        """P equals a prefix of B: what remains of B (None: not established)"""
        P = list(P); B = list(B)
        while True:
            P = s.norm(pc, P)
            if not P: return B
            B = s.norm(pc, B)
            if not B: return B if s.empty(pc, P) else None
            x, y = P[0], B[0]; tx, ty = type(x), type(y)
            if seg_same(x, y): P.pop(0); B.pop(0); continue
            if tx is It or ty is It:
                r = s.local(pc, P, B, depth + 1)
                if r is None: return None
                P, B = r; continue
            if tx is ty:
                if tx is Num and not (x.w == y.w and (x.e == y.e or x.w == 1)): P[0:1] = num_bytes(x); B[0:1] = num_bytes(y); continue
                if tx is Num: ok = x.w == y.w and (x.e == y.e or x.w == 1) and s.pv(pc, eq(simp(x.v), simp(y.v)))
                elif tx is Fix: ok = s.fix_same(pc, x, y)
                elif tx is Mg: ok = s.pv(pc, eq(x.m, y.m))
                elif tx is Sl: ok = s.pv(pc, And(eq(x.off, y.off), eq(x.ln, y.ln), eq(x.s, y.s)))
                elif tx is Raw: ok = same(x.b, y.b) and s.pv(pc, And(eq(x.off, y.off), eq(x.ln, y.ln)))
                elif tx is Rep:
                    ok = s.pv(pc, eq(x.n, y.n))
                    if ok:
                        k = fresh('k'); save = s.why
                        ok = s.eqsegs(pc + [And(simp(b32(0) <= k), simp(k < b32(x.n)))], sub_segs(x.body, x.k, k), sub_segs(y.body, y.k, k), depth + 1); s.why = save
                else: ok = False
                if ok: P.pop(0); B.pop(0); continue
            lx, ly = seg_len(x), seg_len(y)
            if not isinstance(lx, int) and s.empty(pc, (x,)): P.pop(0); continue
            if not isinstance(ly, int) and s.empty(pc, (y,)): B.pop(0); continue
            return None
    def local(s, pc, A, B, depth=0):
        """a conditional at the head whose two branches meet again: what remains of both sides, or None"""
        if depth > 6: return None
        for X, Y, swap in ((A, B, False), (B, A, True)):
            g = X[0]
            if type(g) is not It: continue
            p1 = list(pc) + [bo(g.c)]; p2 = list(pc) + [bo(Not(g.c))]
            r1 = s.prefix(p1, g.a, Y, depth)
            if r1 is None: continue
            r2 = s.prefix(p2, g.b, Y, depth)
            if r2 is None: continue
            n = 0
            while n < len(r1) and n < len(r2) and (r1[-1 - n] is r2[-1 - n] or seg_same(r1[-1 - n], r2[-1 - n])): n += 1
            if not (s.empty(p1, r1[:len(r1) - n]) and s.empty(p2, r2[:len(r2) - n])): continue
            S = list(r1[len(r1) - n:]); X2 = list(X[1:])
            return (S, X2) if swap else (X2, S)
        return None
    def eqsegs(s, pc, A, B, depth=0):
        pc = list(pc)
        A = list(A); B = list(B)
        while True:
            if depth > 60: return s.fail('comparison too deep')
            A = s.norm(pc, A); B = s.norm(pc, B)
            if not A or not B:
                R = A or B
                if s.empty(pc, R): return True
                return s.fail('one side ends while the other continues with %s' % short(R))
            x, y = A[0], B[0]
            if seg_same(x, y): A.pop(0); B.pop(0); continue
            tx, ty = type(x), type(y)
            if tx is It and ty is It and (same(x.c, y.c) or s.pv(pc, simp(bo(x.c) == bo(y.c)))):
                save = s.why
                if s.eqsegs(pc + [x.c], x.a, y.a, depth + 1) and s.eqsegs(pc + [Not(x.c)], x.b, y.b, depth + 1):
                    A.pop(0); B.pop(0); continue
                if tx is It and not (len(A) == 1 and len(B) == 1): s.why = save
                else: return False
            if tx is It or ty is It:
                r = s.local(pc, A, B)
                if r is not None: A, B = r; continue
                c = x.c if tx is It else y.c
                if check(list(pc) + s.facts)[0] == 'unsat': return True
                return s.eqsegs(pc + [c], A, B, depth + 1) and s.eqsegs(pc + [Not(c)], A, B, depth + 1)
            if tx is Num and ty is Num:
                if x.w == y.w and (x.e == y.e or x.w == 1):
                    if s.pv(pc, eq(simp(x.v), simp(y.v))): A.pop(0); B.pop(0); continue
                    return s.fail('different value: %s vs %s' % (short((x,)), short((y,))))
                A[0:1] = num_bytes(x); B[0:1] = num_bytes(y)
                x, y = A[0], B[0]
                if s.pv(pc, eq(simp(x.v), simp(y.v))): A.pop(0); B.pop(0); continue
                return s.fail('different width or byte order: %s vs %s' % (short((x,)), short((y,))))
            if tx is Fix and ty is Fix:
                if s.fix_same(pc, x, y): A.pop(0); B.pop(0); continue
                if same(x.n, y.n) and same(x.pad, y.pad) and same(x.left, y.left):
                    return s.fail('different text: %s vs %s' % (short((x,)), short((y,))))
            if tx is Fix or ty is Fix:
                if tx is Fix and not (ty is Fix and isinstance(x.n, int) and isinstance(y.n, int) and x.n == 0): A[0:1] = list(fix_def(x))
                if ty is Fix: B[0:1] = list(fix_def(y))
                continue
            if tx is Mg and ty is Mg:
                if s.pv(pc, eq(x.m, y.m)): A.pop(0); B.pop(0); continue
                return s.fail('different nested message')
            if tx is Sl and ty is Sl:
                if s.pv(pc, And(eq(x.off, y.off), eq(x.ln, y.ln), eq(x.s, y.s))): A.pop(0); B.pop(0); continue
            if tx is Rep and ty is Rep:
                if s.pv(pc, eq(x.n, y.n)):
                    k = fresh('k')
                    rng = And(simp(b32(0) <= k), simp(k < b32(x.n)))
                    if s.eqsegs(pc + [rng], sub_segs(x.body, x.k, k), sub_segs(y.body, y.k, k), depth + 1): A.pop(0); B.pop(0); continue
                    return s.fail('different list element')
            if tx is Raw and ty is Raw and same(x.b, y.b):
                if s.pv(pc, And(eq(x.off, y.off), eq(x.ln, y.ln))): A.pop(0); B.pop(0); continue
            # possibly empty heads
            lx, ly = seg_len(x), seg_len(y)
            if not (isinstance(lx, int) and lx > 0) and s.empty(pc, (x,)): A.pop(0); continue
            if not (isinstance(ly, int) and ly > 0) and s.empty(pc, (y,)): B.pop(0); continue
            # constant-size repetition against single bytes
            if tx is Rep and isinstance(x.n, int) and 0 < x.n <= 64: A[0:1] = [z for i in range(x.n) for z in sub_segs(x.body, x.k, i)]; continue
            if ty is Rep and isinstance(y.n, int) and 0 < y.n <= 64: B[0:1] = [z for i in range(y.n) for z in sub_segs(y.body, y.k, i)]; continue
            # split on emptiness
            if tx is not Num and not isinstance(lx, int) and not (depth > 20):
                c = eq(lx, 0)
                if not (c is True or c is False) and check(pc + s.facts + [c])[0] != 'unsat':
                    if not s.eqsegs(pc + [c], A[1:], B, depth + 1): return False
                    pc = pc + [Not(c)]
                    if check(pc + s.facts)[0] == 'unsat': return True
                    lx = None
            if lx is None and ty is not Num and not isinstance(ly, int) and not (depth > 20):
                c = eq(ly, 0)
                if not (c is True or c is False) and check(pc + s.facts + [c])[0] != 'unsat':
                    if not s.eqsegs(pc + [c], A, B[1:], depth + 1): return False
                    pc = pc + [Not(c)]
                    if check(pc + s.facts)[0] == 'unsat': return True
            if lx is None and type(A[0]) is type(B[0]) and not getattr(s, '_again', False):
                s._again = True
                try: return s.eqsegs(pc, A, B, depth + 1)
                finally: s._again = False
            return s.fail('%s vs %s' % (short((x,)), short((y,))))
    def fix_same(s, pc, x, y):
        if not (same(x.n, y.n) or s.pv(pc, eq(x.n, y.n))): return False
        if not (same(x.pad, y.pad) or s.pv(pc, eq(x.pad, y.pad))): return False
        if not (same(x.left, y.left) or s.pv(pc, eq(x.left, y.left))): return False
        return s.pv(pc, eq(If(x.null, EMPTY, x.s), If(y.null, EMPTY, y.s)))

def short(gs):
    out = []
    for g in gs:
        T = type(g)
        if T is Num: out.append('num%d%s(%s)' % (g.w, g.e, clip(g.v)))
        elif T is Sl: out.append('utf8(%s,%s,%s)' % (clip(g.s), clip(g.off), clip(g.ln)))
        elif T is Fix: out.append('text(%s,n=%s,pad=%s,left=%s)' % (clip(g.s), clip(g.n), clip(g.pad), g.left))
        elif T is Rep: out.append('rep(%s){%s}' % (clip(g.n), short(g.body)))
        elif T is Mg: out.append('msg(%s)' % clip(g.m))
        elif T is It: out.append('if(%s){%s}{%s}' % (clip(g.c), short(g.a), short(g.b)))
        elif T is Raw: out.append('raw(%s,%s,%s)' % (g.b, clip(g.off), clip(g.ln)))
        else: out.append(T.__name__)
    return ' '.join(out)
def clip(t):
    x = ' '.join(str(t).split())
    return x if len(x) < 90 else x[:87] + '...'
