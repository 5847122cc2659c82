"""Counterexamples: turns the model of a failed obligation into values for the harness."""
import z3
import terms
from terms import *
from terms import _strv
from engine import *
import models, spec

def capture(msg, vals, eng):
    """lines for the harness: a <property> n <long> | s <hex utf-16> | 0 | l <size>; n <long> for the other numbers"""
    out = []
    if terms.LASTSAT is None: return out
    so = z3.Solver(); so.set('timeout', 10000)
    a = [x for x in terms.LASTSAT if isz(x)]
    so.add(*a); so.add(*ground_facts(a))
    if str(so.check()) != 'sat': return out
    md = so.model()
    ev = lambda t: md.eval(t, model_completion=True)
    num = lambda t: (lambda v: v.as_signed_long() if z3.is_bv_value(v) else None)(ev(t)) if isz(t) else int(t)
    tru = lambda c: c if isinstance(c, bool) else z3.is_true(ev(c))
    if vals:
        for p in msg.props:
            try:
                v = vals[p.name]
                x = spec.unboxed(v)
                if isinstance(x, (int, z3.ExprRef)): out.append('a %s n %d' % (p.name, num(x))); continue
                if tru(null_cond(v)):
                    out.append('a %s 0' % p.name); continue
                x = next(y for c, y in nonnull(v) if c is True or tru(c))
                if isinstance(x, Str) and x.t is not None:
                    e = ev(x.t); c = next((s for i, s in _strv.items() if any(ev(t).eq(e) for t in [z3.Const('str:' + s, S)])), None)
                    if c is None:
                        n = num(ulen(x.t))
                        if not 0 <= n <= 70000: continue
                        c = ''.join(chr(b) if 32 < b < 127 else 'x' for b in ([ev(ub(x.t, i)).as_long() for i in range(min(n, 60))] + [0] * max(0, n - 60)))
                    out.append('a %s s %s' % (p.name, c.encode('utf-16-be', 'surrogatepass').hex()))
                elif isinstance(x, Ref):
                    # lists: their size
                    n, gs = spec.list_of(eng, eng.cur_state, v) if p.kind == 'list' else (None, None)
                    if gs is not None:
                        k = num(models.llen(gs))
                        if 0 <= k <= 70000: out.append('a %s l %d' % (p.name, k))
            except Exception: pass
    nums = set()
    for d in md.decls():
        if d.arity() == 0:
            v = md[d]
            if z3.is_bv_value(v): nums.add(v.as_signed_long())
    out += ['n %d' % x for x in sorted(nums, key=abs)[:40]]
    return out
