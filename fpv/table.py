"""Which obligations decide which property, the units of the harness, what is trusted."""
import os, json, hashlib
import props, spec, props2
from spec import MSGS, FACS
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
BASE = os.path.join(ROOT, 'contracts', 'baseline.json')
SLOW = {'BasicPacket': 50, 'StringPacket': 20, 'NestedPacket': 20, 'ExecRptInfo': 10, 'QuoteResponse': 6}

def per_message(fn, *extra, only=None):
    r = []
    for m in MSGS.values():
        if only and not only(m): continue
        r.append(dict(name='%s %s' % (fn.__name__, m.name), fn=fn, args=(m,) + extra, units=[m.name], weight=SLOW.get(m.short, 1)))
    return r
computed = lambda m: any(p.kind in ('length', 'checksum') for p in m.props)
def rt(want):
    def roundtrip(eng, m): return props.roundtrip(eng, m, (want,))
    roundtrip.__name__ = 'roundtrip'; return roundtrip
def tasks(pid, eng, tier):
    T = []
    if pid == 'C01': T = per_message(rt('C01'))
    if pid == 'C02': T = per_message(props.c02_encode) + per_message(props.c02_decode)
    if pid == 'C03': T = per_message(rt('C03')) + per_message(props.c03_encode)
    if pid == 'C04': T = per_message(props.c04)
    if pid == 'C05': T = per_message(props.c05_causal)
    if pid == 'C06': T = per_message(props.c06, only=computed)
    if pid == 'C10': T = per_message(props.c10)
    if pid == 'C11': T = per_message(props.c11, only=lambda m: m.props)
    if pid == 'C15': T = per_message(props.c15)
    if pid == 'C16': T = per_message(props.c16)
    if pid == 'C17': T = per_message(props.c17)
    return T + props2.tasks(pid, eng, tier)
def units(pid):
    if pid in ('C07', 'C08', 'C12', 'C13', 'C14'): return None
    if pid == 'C09': return sorted(FACS)
    if pid == 'C06': return sorted(m.name for m in MSGS.values() if computed(m))
    return sorted(m.name for m in MSGS.values())
def seconds(pid, tier):
    q = {'C01': 14, 'C02': 14, 'C03': 12, 'C04': 12, 'C05': 12, 'C06': 10, 'C07': 8, 'C08': 6, 'C09': 8, 'C10': 12, 'C11': 8, 'C12': 8, 'C13': 6, 'C14': 6, 'C15': 12, 'C16': 12, 'C17': 8}[pid]
    return q if tier == 'quick' else q * 15

# ---------------------------------------------------------------- the pinned baseline: where to search first
def chash(c):
    h = hashlib.sha1()
    for f in sorted(c.fields.values(), key=lambda f: f.name): h.update(repr((f.name, f.desc, f.flags, f.const)).encode())
    for k in sorted(c.methods):
        m = c.methods[k]; h.update(repr((k, m.flags, [(i.op, i.a) for i in m.code] if m.code is not None else None, m.exc)).encode())
    return h.hexdigest()[:16]
def baseline(prog):
    try: return json.load(open(BASE))
    except FileNotFoundError: return {}
def changed(prog, base): return {n for n, c in prog.classes.items() if base and base.get(n) != chash(c)}
def write_baseline(prog): json.dump({n: chash(c) for n, c in sorted(prog.classes.items())}, open(BASE, 'w'), indent=0)
def near(prog, changed, units):
    """units of the harness that a change of these classes may affect, directly or one step away"""
    ch = {c.split('$')[0] for c in changed}; r = set()
    for u in units or ():
        if u in FACS: c = FACS[u].cls
        else: c = u.replace('.', '/')
        refs = {c.split('$')[0]}
        if u not in FACS: refs |= {p.cls.split('$')[0] for p in MSGS[c].props if p.kind == 'msg'} | {p.el.cls.split('$')[0] for p in MSGS[c].props if p.kind == 'list' and p.el.kind == 'msg'}
        if refs & ch: r.add(u)
    if not r and any(not x.replace('/', '.') in set(units or ()) for x in ch):
        r = set()       # shared code: everything, which the first run covers
    return r
def owner(mid):
    """class of a method id a.b.C.m(desc)"""
    return mid.split('(')[0].rsplit('.', 1)[0].replace('.', '/')

# ---------------------------------------------------------------- texts of the evidence
TRUSTED = ['z3', 'javac 11 -source 8 (the class files that are verified are compiled from /repo on every run)', "the verifier's bytecode semantics and proof rules (fpv/*.py)",
           'the pinned wire contracts (contracts/messages.txt) as the statement of the layout']
ASSUME = ['models of java.lang, java.util and io.netty.buffer methods (fpv/models.py, stubs/*.java) are trusted, except where library_contracts in the coverage says that the contract was proved from the library\'s class files (unpooled heap buffers and their slices, small JDK helpers)',
          'strings are abstract sequences with length, characters and UTF-8 bytes; UTF-8 decoding inverts encoding for well-formed text (trusted)',
          'messages are finite trees: contracts of nested messages are used by structural induction',
          'no memory exhaustion, no stack overflow, single-threaded use of each object',
          'int, long, short, byte and char arithmetic is exact machine arithmetic (bit-vectors); float and double values are moved, never computed with']
DOMAIN = 'round-trip domain: fixed-width text fits its width in UTF-8 and is well-formed, counts and lengths fit the positive range of their prefix, nested parts and list elements are present, the type of a variant part is the one registered for its discriminator'
ASSUME_BY = {
 'C01': [DOMAIN], 'C02': [DOMAIN + ' (decode half only)'], 'C03': [DOMAIN + ' (decode half only)'], 'C05': [DOMAIN, 'netty buffers check every read against the writer index (the model of ByteBuf)'],
 'C04': ['buffers hold at most 2^31-1 bytes; an object built while decoding fits the heap (its size is bounded by the bytes read: allocations ahead of the data are refuted)'],
 'C06': ['a registered service other than the four is any function of the bytes it is given (opaque, deterministic, no side effects)'],
 'C08': ['java.util.Map semantics of HashMap; services return a constant algorithm name'],
 'C09': ['suppliers registered by a caller are opaque; java.util.Map semantics'],
 'C10': ['java.util.Objects.equals/hash and the equals/hashCode of boxes, strings and lists are models of the JDK contracts'],
 'C12': ['padding characters below 128 where the byte form is concerned (a char above 127 is not one byte of UTF-8)'],
 'C15': ['variant factories are in an arbitrary but fixed state during the two decodes'],
 'C16': ['nested message parts and the messages and numbers in lists are present; text elements may be null'],
 'C17': ['String.valueOf/StringBuilder.append of a part is the textual form of that part'],
}
RULE = 'evaluations: runs of the real code by the harness (independent Java oracle, random messages, bytes and operations, always on, never counted as proof); obligations are generated from the compiled code of this run'
SCOPE = {p: 'all inputs of the property, no bound' for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17')}
