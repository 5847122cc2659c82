"""One-off aid: drafts contracts/messages.txt from the symbolic output of encode (the draft was
reviewed by hand against the sources and is pinned since; no check runs this)."""
import sys; sys.path.insert(0, '/verif/fpv')
exec(open('/tmp/t1.py').read().split('only=sys.argv')[0])
hook0=eng.hooks['method']
eng.hooks['method']=lambda e,st,m,a: (lambda e,st,a: models.RET(st,Box('I',z3.BitVec('CK',32)))) if m.name=='calc' else hook0(e,st,m,a)
def prop(t):
    n = t.decl().name(); assert t.num_args() == 1, t
    return n.rstrip('?').split('.')[-1]
def strip(t):
    while z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_EXTRACT, z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT): t = t.arg(0)
    return t
def numline(g):
    return g.w, g.e
def elem_of(gs):
    if len(gs) == 1:
        g = gs[0]
        if isinstance(g, Num): return 'num %d %s' % (g.w, g.e)
        if isinstance(g, Fix): return 'text %d %d %s' % (g.n, g.pad, 'left' if g.left else 'right')
        if isinstance(g, Mg): return 'msg %s' % g.cls.replace('/', '.')
        if isinstance(g, It): return 'dyn %d %s' % (g.b[0].w, g.b[0].e)
    raise Exception(short(gs))
out = []
for c in msgs:
    st = eng.new_state(); m = z3.Const('m', M)
    o = eng.symbolic_object(st, c, m)
    b = eng.alloc(st, Buf((Raw(fresh('pre', BA), 0, z3.BitVec('prelen', 32)),), (), {'enc': True}))
    eng.facts = [z3.BitVec('prelen', 32) >= 0]
    eng.hooks['iface'] = ifc = lambda e, st, owner, name, desc, a: enc_contract(e, st, a) if name == 'encode' else models.RET(st, Box('I', z3.BitVec('CK', 32))) if name == 'calc' else None
    models.take2 = lambda e, st, segs, n: (tuple(segs), (), True)
    outs = eng.invoke(st, 'virtual', ('ref', c, 'encode', '(Lio/netty/buffer/ByteBuf;)V', False), [o, b])
    r = [x for x in outs if x.kind == 'ret'][0]
    lines = []
    for g in r.st.heap[b.id].segs:
        T = type(g)
        if T is Num:
            t = strip(g.v)
            s = str(t)
            if 'mlen' in s: lines.append('length %s %d %s' % ('LEN', g.w, g.e)); continue
            if 'CK' in s or 'has$' in s: lines.append('checksum %s %d %s' % ('checksum', g.w, g.e)); continue
            lines.append('num %s %d %s' % (prop(t), g.w, g.e))
        elif T is Fix: lines.append('text %s %d %d %s' % (prop(g.s), g.n, g.pad, 'left' if g.left else 'right'))
        elif T is Mg: lines.append('msg %s %s' % (prop(g.m), g.cls.replace('/', '.')))
        elif T is It:
            x = g.a or g.b
            if len(x) == 1 and isinstance(x[0], Mg): lines.append('variant %s' % prop(x[0].m)); continue
            w = None; body = None; p = None
            st_ = [g.a, g.b]
            while st_:
                y = st_.pop()
                if len(y) == 2: w = y[0]; body = y[1]
                for z in y:
                    if isinstance(z, It): st_ += [z.a, z.b]
            if isinstance(body, Rep): lines.append('list %s %d %s %s' % (prop(body.n.arg(0)), w.w, w.e, elem_of(body.body)))
            elif isinstance(body, Sl): lines.append('dyn %s %d %s' % (prop(body.s), w.w, w.e))
            else: raise Exception(c + ' ' + short((g,)))
        else: raise Exception(c + ' ' + short((g,)))
    out.append('message ' + c.replace('/', '.')); out += ['  ' + l for l in lines]
print('\n'.join(out))
