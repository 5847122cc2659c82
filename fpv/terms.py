"""Term layer: 32/64-bit machine integers (Python int when constant and 32 bit, z3
bit-vector otherwise), the string theory, proof queries and their statistics."""
import z3, time

def b32(x): return z3.BitVecVal(x & 0xffffffff, 32) if isinstance(x, int) else x
def b64(x): return z3.BitVecVal(x & (2**64 - 1), 64) if isinstance(x, int) else x
def s32(x):
    x &= 0xffffffff
    return x - (1 << 32) if x >> 31 else x
def s64(x):
    x &= 2**64 - 1
    return x - (1 << 64) if x >> 63 else x
def is64(x): return not isinstance(x, (int, bool)) and z3.is_bv(x) and x.size() == 64
def isz(x): return isinstance(x, z3.ExprRef)

def simp(t):
    """z3 term -> simplified; 32-bit numerals become Python ints, boolean literals Python bools"""
    if not isz(t): return t
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        if t.size() == 32: return t.as_signed_long()
        return t
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return t

def bo(c): return z3.BoolVal(c) if isinstance(c, bool) else c
def Not(c): return (not c) if isinstance(c, bool) else (c.arg(0) if z3.is_not(c) else z3.Not(c))
def And(*cs):
    r = []
    for c in cs:
        if c is False: return False
        if c is True: continue
        r.append(c)
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(*r)
def Or(*cs):
    r = []
    for c in cs:
        if c is True: return True
        if c is False: continue
        r.append(c)
    if not r: return False
    return r[0] if len(r) == 1 else z3.Or(*r)
def Implies(a, b): return Or(Not(a), b)
def same(a, b):
    """syntactic equality of terms / constants"""
    if a is b: return True
    if isz(a) and isz(b): return a.eq(b)
    if isz(a) or isz(b):
        if isinstance(a, int) and not isinstance(a, bool): a, b = b, a
        if isinstance(b, int) and not isinstance(b, bool) and z3.is_bv_value(a): return s32(a.as_long()) == b if a.size() == 32 else s64(a.as_long()) == b
        return False
    return a == b
def If(c, a, b):
    if c is True: return a
    if c is False: return b
    if same(a, b): return a
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
        return simp(z3.If(c, bo(a), bo(b)))
    if isz(a) and not isz(b): b = z3.BitVecVal(b, a.size())
    if isz(b) and not isz(a): a = z3.BitVecVal(a, b.size())
    if not isz(a): a, b = b32(a), b32(b)
    return simp(z3.If(c, a, b))
def eq(a, b):
    if same(a, b): return True
    if not isz(a) and not isz(b): return a == b
    if isz(a) and isz(b) and a.sort() == S:
        x, y = strval(a), strval(b)
        if x is not None and y is not None: return x == y
    if isz(a) and not isz(b): b = bo(b) if isinstance(b, bool) else z3.BitVecVal(b, a.size())
    if isz(b) and not isz(a): a = bo(a) if isinstance(a, bool) else z3.BitVecVal(a, b.size())
    return simp(a == b)

_I = {
 'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}
def iop(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        if op in _I: return s32(_I[op](a, b))
        if op == 'shl': return s32(a << (b & 31))
        if op == 'shr': return a >> (b & 31)
        if op == 'ushr': return s32((a & 0xffffffff) >> (b & 31))
        if op == 'div': q = abs(a) // abs(b); return s32(q if (a < 0) == (b < 0) else -q)
        if op == 'rem': r = abs(a) % abs(b); return -r if a < 0 else r
    x, y = b32(a), b32(b)
    if op in _I: return simp(_I[op](x, y))
    if op == 'shl': return simp(x << (y & 31))
    if op == 'shr': return simp(x >> (y & 31))
    if op == 'ushr': return simp(z3.LShR(x, y & 31))
    if op == 'div': return simp(x / y)
    if op == 'rem': return simp(z3.SRem(x, y))
    raise KeyError(op)
def lop(op, a, b):
    x = b64(a)
    if op in ('shl', 'shr', 'ushr'):
        y = z3.SignExt(32, b32(b)) & 63
        return z3.simplify(x << y if op == 'shl' else x >> y if op == 'shr' else z3.LShR(x, y))
    y = b64(b)
    if op in _I: return z3.simplify(_I[op](x, y))
    if op == 'div': return z3.simplify(x / y)
    if op == 'rem': return z3.simplify(z3.SRem(x, y))
def icmp(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'ge': a >= b, 'gt': a > b, 'le': a <= b}[op]
    x, y = b32(a), b32(b)
    return simp({'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'ge': lambda: x >= y, 'gt': lambda: x > y, 'le': lambda: x <= y}[op]())
def ext(v, n, lo_bits, signed=True):
    """low lo_bits of v (32-bit) extended to n bits"""
    if isinstance(v, int):
        x = v & ((1 << lo_bits) - 1)
        if signed and x >> (lo_bits - 1): x -= 1 << lo_bits
        return x if n == 32 else z3.BitVecVal(x, n)
    t = z3.Extract(lo_bits - 1, 0, v) if v.size() > lo_bits else v
    if n > lo_bits: t = z3.SignExt(n - lo_bits, t) if signed else z3.ZeroExt(n - lo_bits, t)
    return simp(t)
def low(v, bits):
    """low bits of a value as a bit-vector of that size"""
    if isinstance(v, int): return z3.BitVecVal(v & ((1 << bits) - 1), bits)
    if v.size() == bits: return v
    assert v.size() > bits
    return z3.simplify(z3.Extract(bits - 1, 0, v))

# ---------------------------------------------------------------- sorts and functions
S = z3.DeclareSort('Str')         # contents of java.lang.String
M = z3.DeclareSort('Msg')         # contents of a message object
L = z3.DeclareSort('List')        # contents of a list whose elements are unknown
V = z3.DeclareSort('Obj')         # other opaque objects (services, suppliers)
BA = z3.DeclareSort('Bytes')      # unknown byte content
I32 = z3.BitVecSort(32); I16 = z3.BitVecSort(16); I8 = z3.BitVecSort(8); BOOL = z3.BoolSort()
slen = z3.Function('slen', S, I32)
chr_ = z3.Function('chr', S, I32, I16)
ulen = z3.Function('ulen', S, I32)
ub = z3.Function('ub', S, I32, I8)
trimF = {True: z3.Function('trimL', S, I16, S), False: z3.Function('trimR', S, I16, S)}
subF = z3.Function('substr', S, I32, I32, S)
mlen = z3.Function('mlen', M, I32)
norm = z3.Function('norm', M, M)
clsid = z3.Function('clsid', M, z3.IntSort())
lsize = z3.Function('lsize', L, I32)
lel8 = z3.Function('lel8', L, I32, I8)
lel16 = z3.Function('lel16', L, I32, I16)
lel32 = z3.Function('lel32', L, I32, I32)
lel64 = z3.Function('lel64', L, I32, z3.BitVecSort(64))
lelnull = z3.Function('lelnull', L, I32, BOOL)
lelS = z3.Function('lelS', L, I32, S)
lelN = z3.Function('lelN', L, I32, z3.BoolSort())
lelM = z3.Function('lelM', L, I32, M)
rawb = z3.Function('rawb', BA, I32, I8)
decraw = z3.Function('decraw', BA, I32, I32, S)
EMPTY = z3.Const('str:', S)
_strs = {'': EMPTY}
_strv = {EMPTY.get_id(): ''}
def strc(text):
    t = _strs.get(text)
    if t is None:
        t = z3.Const('str:' + text, S); _strs[text] = t; _strv[t.get_id()] = text
    return t
def strval(t): return _strv.get(t.get_id())

_fresh = [0]
def fresh(name, sort=I32):
    _fresh[0] += 1
    return z3.Const('%s!%d' % (name, _fresh[0]), sort)

# ---------------------------------------------------------------- axiom instances
def _strfacts(t):
    if z3.is_app(t) and t.decl().name() == 'if': return []
    c = strval(t)
    r = []
    if c is not None:
        r.append(slen(t) == len(c)); u = c.encode('utf-8', 'surrogatepass'); r.append(ulen(t) == len(u))
        if len(c) <= 64:
            u16 = [x for ch in c for x in ([ord(ch)] if ord(ch) < 0x10000 else [0xD800 + ((ord(ch) - 0x10000) >> 10), 0xDC00 + ((ord(ch) - 0x10000) & 0x3ff)])]
            for i, x in enumerate(u16): r.append(chr_(t, i) == x)
            for i, x in enumerate(u): r.append(ub(t, i) == x)
        return r
    r += [slen(t) >= 0, ulen(t) >= slen(t), (slen(t) == 0) == (t == EMPTY), (ulen(t) == 0) == (t == EMPTY)]
    if z3.is_app(t):
        nm = t.decl().name()
        if nm in ('trimL', 'trimR'):
            a = t.arg(0); r += [z3.Implies(a == EMPTY, t == EMPTY), slen(t) <= slen(a), ulen(t) <= ulen(a)]
        if nm == 'substr':
            s, a, b = t.arg(0), t.arg(1), t.arg(2)
            r += [slen(t) == b - a, z3.Implies(z3.And(a == 0, b == slen(s)), t == s)]
    return r
def _cstrdistinct(ts):
    r = []
    ts = list(ts)
    if len(ts) > 1: r.append(z3.Distinct(*ts))
    return r
_subs_cache = {}
def subterms(e):
    """all S / M / L sorted subterms of e (cached by ast id)"""
    i = e.get_id()
    if i in _subs_cache: return _subs_cache[i][1]
    seen = set(); out = {}; stack = [e]
    while stack:
        x = stack.pop(); j = x.get_id()
        if j in seen: continue
        seen.add(j)
        if z3.is_quantifier(x): stack.append(x.body()); continue
        if z3.is_var(x): continue
        c = _subs_cache.get(j)
        if c is not None and x is not e: out.update(c[1]); continue
        so = x.sort()
        if (so == S or so == M or so == L) : out[j] = x
        elif z3.is_app(x) and x.decl().name().startswith('dlen$'): out[j] = x
        stack.extend(x.children())
    # drop terms with de Bruijn variables
    out = {j: x for j, x in out.items() if not _has_var(x)}
    _subs_cache[i] = (e, out)
    return out
_hv = {}
def _has_var(x):
    j = x.get_id()
    if j in _hv: return _hv[j][1]
    r = z3.is_var(x) or (not z3.is_quantifier(x) and any(_has_var(c) for c in x.children()))
    _hv[j] = (x, r)
    return r
SCHEMA = []     # preconditions instantiated for the terms that occur in a query
def set_schema(fs):
    SCHEMA[:] = fs; _qcache.clear()
def ground_facts(exprs):
    ts = {}
    for e in exprs:
        if isz(e): ts.update(subterms(e))
    r = []; consts = {}
    if SCHEMA:
        work = list(ts.values()); rounds = 0
        while work and rounds < 3:
            new = [x for t in work for f in SCHEMA for x in f(t)]
            r += new; work = []; rounds += 1
            for e in new:
                for i, t in subterms(e).items():
                    if i not in ts: ts[i] = t; work.append(t)
    for t in ts.values():
        so = t.sort()
        if so == S:
            r += _strfacts(t)
            if strval(t) is not None: consts[t.get_id()] = t
        elif so == M: r += [mlen(t) >= 0, mlen(t) <= 0x1fffffff]
        elif so == L: r.append(lsize(t) >= 0)
        else: r.append(t >= 0)
    consts.setdefault(EMPTY.get_id(), EMPTY)
    r += _cstrdistinct(consts.values())
    r += [slen(EMPTY) == 0, ulen(EMPTY) == 0]
    return r

class Stats:
    def __init__(s): s.queries = 0; s.time = 0.0; s.trivial = 0; s.unknown = 0; s.dump = None
STATS = Stats()
TIMEOUT = 20000
LASTSAT = None  # the assertions of the last query that was not unsat
DUMP = None    # when a list: receives (smt2 text) of every proof query answered unsat

_qcache = {}
def check(assertions, timeout=None, want_model=False):
    """z3 satisfiability of a conjunction plus axiom instances -> 'sat' / 'unsat' / 'unknown'"""
    global LASTSAT
    a = []
    for x in assertions:
        if x is True: continue
        if x is False: return ('unsat', None)
        a.append(x)
    key = None
    if not want_model:
        key = frozenset(x.get_id() for x in a)
        if key in _qcache:
            if _qcache[key][0] != 'unsat': LASTSAT = a
            return (_qcache[key][0], None)
    t0 = time.time()
    so = z3.Solver(); so.set('timeout', timeout or TIMEOUT)
    so.add(*a); so.add(*ground_facts(a))
    r = so.check()
    STATS.queries += 1; STATS.time += time.time() - t0
    r = str(r)
    if r == 'unknown': STATS.unknown += 1
    if r != 'unsat': LASTSAT = a
    if r == 'unsat' and DUMP is not None: DUMP.append(so.to_smt2())
    if key is not None: _qcache[key] = (r, a)
    return (r, so.model() if want_model and r == 'sat' else None)
def pure(hyps, goal, timeout=None):
    """pure bit-vector validity: applications of uninterpreted functions become variables"""
    a = [bo(h) for h in hyps if h is not True] + [z3.Not(bo(goal))]
    sub = {}; todo = list(a); seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and z3.is_bv(x): sub[x.get_id()] = (x, fresh('pv', x.sort())); continue
        todo.extend(x.children())
    a = [z3.substitute(x, *sub.values()) for x in a] if sub else a
    t0 = time.time(); so = z3.SolverFor('QF_BV'); so.set('timeout', timeout or TIMEOUT); so.add(*a)
    r = str(so.check()); STATS.queries += 1; STATS.time += time.time() - t0
    if r == 'unsat' and DUMP is not None: DUMP.append(so.to_smt2())
    return r == 'unsat'
def prove(hyps, goal, timeout=None):
    if goal is True: return True
    if isz(goal):
        g = simp(goal)
        if g is True: STATS.trivial += 1; return True
    return check(list(hyps) + [Not(goal) if not isinstance(goal, bool) else (not goal)], timeout)[0] == 'unsat'
