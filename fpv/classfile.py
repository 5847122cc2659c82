"""JVM class-file reader (no third-party code): parses the class files that javac
produced from /repo's current sources into an instruction list per method."""
import struct, os, re

class CP: pass

OPN = {}
def _o(code, name, fmt=''):
    OPN[code] = (name, fmt)
for i, n in enumerate("nop aconst_null iconst_m1 iconst_0 iconst_1 iconst_2 iconst_3 iconst_4 iconst_5 lconst_0 lconst_1 fconst_0 fconst_1 fconst_2 dconst_0 dconst_1".split()):
    _o(i, n)
_o(16, 'bipush', 'b'); _o(17, 'sipush', 'h'); _o(18, 'ldc', 'c1'); _o(19, 'ldc', 'c2'); _o(20, 'ldc', 'c2')
for i, n in enumerate("iload lload fload dload aload".split()):
    _o(21 + i, n, 'v')
    for k in range(4): _o(26 + 4 * i + k, n, 'v%d' % k)
for i, n in enumerate("iaload laload faload daload aaload baload caload saload".split()): _o(46 + i, n)
for i, n in enumerate("istore lstore fstore dstore astore".split()):
    _o(54 + i, n, 'v')
    for k in range(4): _o(59 + 4 * i + k, n, 'v%d' % k)
for i, n in enumerate("iastore lastore fastore dastore aastore bastore castore sastore pop pop2 dup dup_x1 dup_x2 dup2 dup2_x1 dup2_x2 swap iadd ladd fadd dadd isub lsub fsub dsub imul lmul fmul dmul idiv ldiv fdiv ddiv irem lrem frem drem ineg lneg fneg dneg ishl lshl ishr lshr iushr lushr iand land ior lor ixor lxor".split()):
    _o(79 + i, n)
_o(132, 'iinc', 'vb')
for i, n in enumerate("i2l i2f i2d l2i l2f l2d f2i f2l f2d d2i d2l d2f i2b i2c i2s lcmp fcmpl fcmpg dcmpl dcmpg".split()): _o(133 + i, n)
for i, n in enumerate("ifeq ifne iflt ifge ifgt ifle if_icmpeq if_icmpne if_icmplt if_icmpge if_icmpgt if_icmple if_acmpeq if_acmpne goto jsr".split()): _o(153 + i, n, 'j')
_o(170, 'tableswitch', 'ts'); _o(171, 'lookupswitch', 'ls')
for i, n in enumerate("ireturn lreturn freturn dreturn areturn return".split()): _o(172 + i, n)
for i, n in enumerate("getstatic putstatic getfield putfield invokevirtual invokespecial invokestatic".split()): _o(178 + i, n, 'c2')
_o(185, 'invokeinterface', 'ci'); _o(186, 'invokedynamic', 'cd'); _o(187, 'new', 'c2'); _o(188, 'newarray', 'b')
_o(189, 'anewarray', 'c2'); _o(190, 'arraylength'); _o(191, 'athrow'); _o(192, 'checkcast', 'c2'); _o(193, 'instanceof', 'c2')
_o(194, 'monitorenter'); _o(195, 'monitorexit'); _o(197, 'multianewarray', 'c2b'); _o(198, 'ifnull', 'j'); _o(199, 'ifnonnull', 'j')
_o(200, 'goto', 'J')

class Insn:
    __slots__ = ('op', 'a', 'pc', 'idx', 'line')
    def __init__(s, op, a, pc): s.op = op; s.a = a; s.pc = pc; s.idx = -1; s.line = 0
    def __repr__(s): return '%d:%s %s' % (s.idx, s.op, s.a if s.a is not None else '')

class Method:
    def __init__(s, cls, name, desc, flags):
        s.cls = cls; s.name = name; s.desc = desc; s.flags = flags
        s.code = None; s.exc = []; s.maxlocals = 0
    @property
    def static(s): return bool(s.flags & 8)
    @property
    def abstract(s): return bool(s.flags & 0x400)
    @property
    def native(s): return bool(s.flags & 0x100)
    @property
    def id(s): return s.cls.name.replace('/', '.') + '.' + s.name + s.desc
    @property
    def short(s): return s.cls.name.split('/')[-1] + '.' + s.name

class Field:
    def __init__(s, name, desc, flags, const, sig=None):
        s.name = name; s.desc = desc; s.flags = flags; s.const = const; s.sig = sig
        s.elem = None
        if sig and '<L' in sig: s.elem = sig[sig.index('<L') + 2:].split(';')[0].split('<')[0].replace('.', '$')
    @property
    def static(s): return bool(s.flags & 8)

class ClassFile:
    def __init__(s): s.methods = {}; s.fields = {}; s.bootstraps = []
    def __repr__(s): return 'Class(%s)' % s.name

def parse_desc(desc):
    """-> (list of arg types, return type)"""
    i = 1; args = []
    while desc[i] != ')':
        j = i
        while desc[j] == '[': j += 1
        if desc[j] == 'L': j = desc.index(';', j)
        args.append(desc[i:j + 1]); i = j + 1
    return args, desc[i + 1:]

def _mutf8(b):
    try: return b.decode('utf-8')
    except UnicodeDecodeError:
        return b.replace(b'\xc0\x80', b'\0').decode('utf-8', 'surrogatepass')

def parse(data, rename=None):
    pos = 0
    def u1():
        nonlocal pos; v = data[pos]; pos += 1; return v
    def u2():
        nonlocal pos; v = struct.unpack_from('>H', data, pos)[0]; pos += 2; return v
    def u4():
        nonlocal pos; v = struct.unpack_from('>I', data, pos)[0]; pos += 4; return v
    assert u4() == 0xCAFEBABE
    u2(); major = u2()
    n = u2(); cp = [None] * n; i = 1
    while i < n:
        t = u1()
        if t == 1:
            l = u2(); x = _mutf8(data[pos:pos + l]); cp[i] = ('utf', rename(x) if rename else x); pos += l
        elif t == 3: cp[i] = ('int', struct.unpack_from('>i', data, pos)[0]); pos += 4
        elif t == 4: cp[i] = ('float', u4())
        elif t == 5: cp[i] = ('long', struct.unpack_from('>q', data, pos)[0]); pos += 8; i += 1
        elif t == 6: cp[i] = ('double', struct.unpack_from('>Q', data, pos)[0]); pos += 8; i += 1
        elif t == 7: cp[i] = ('class', u2())
        elif t == 8: cp[i] = ('string', u2())
        elif t in (9, 10, 11): cp[i] = ('ref', u2(), u2(), t)
        elif t == 12: cp[i] = ('nat', u2(), u2())
        elif t == 15: cp[i] = ('mh', u1(), u2())
        elif t == 16: cp[i] = ('mt', u2())
        elif t in (17, 18): cp[i] = ('indy', u2(), u2())
        elif t in (19, 20): cp[i] = ('mod', u2())
        else: raise ValueError('cp tag %d' % t)
        i += 1
    utf = lambda k: cp[k][1]
    cname = lambda k: utf(cp[k][1])
    def res(k):
        e = cp[k]
        if e[0] in ('int', 'float', 'long', 'double'): return (e[0], e[1])
        if e[0] == 'string': return ('string', utf(e[1]))
        if e[0] == 'class': return ('class', utf(e[1]))
        if e[0] == 'ref':
            nt = cp[e[2]]; return ('ref', cname(e[1]), utf(nt[1]), utf(nt[2]), e[3] == 11)
        if e[0] == 'indy':
            nt = cp[e[2]]; return ('indy', e[1], utf(nt[1]), utf(nt[2]))
        if e[0] == 'mh': return ('mh', e[1]) + res(e[2])[1:]
        if e[0] == 'mt': return ('mt', utf(e[1]))
        raise ValueError(e)
    c = ClassFile()
    c.flags = u2(); c.name = cname(u2()); sup = u2(); c.super = cname(sup) if sup else None
    c.interfaces = [cname(u2()) for _ in range(u2())]
    c.cp = cp
    def attrs():
        nonlocal pos
        r = {}
        for _ in range(u2()):
            nm = utf(u2()); l = u4(); r[nm] = (pos, l); pos += l
        return r
    for _ in range(u2()):
        fl = u2(); nm = utf(u2()); d = utf(u2()); at = attrs(); const = None
        if 'ConstantValue' in at:
            const = res(struct.unpack_from('>H', data, at['ConstantValue'][0])[0])
        sig = utf(struct.unpack_from('>H', data, at['Signature'][0])[0]) if 'Signature' in at else None
        c.fields[nm] = Field(nm, d, fl, const, sig)
    codes = []
    for _ in range(u2()):
        fl = u2(); nm = utf(u2()); d = utf(u2()); at = attrs()
        m = Method(c, nm, d, fl); c.methods[(nm, d)] = m
        if 'Code' in at: codes.append((m, at['Code'][0]))
    at = attrs()
    if 'BootstrapMethods' in at:
        save = pos; pos = at['BootstrapMethods'][0]
        for _ in range(u2()):
            mh = u2(); args = [u2() for _ in range(u2())]
            c.bootstraps.append((res(mh), [res(a) for a in args]))
        pos = save
    for m, p in codes:
        pos = p
        u2(); m.maxlocals = u2(); L = u4(); start = pos; end = pos + L
        code = []; bypc = {}
        while pos < end:
            pc = pos - start; op = u1()
            if op == 196:
                op = u1(); name, fmt = OPN[op]; v = u2()
                if name == 'iinc':
                    a = (v, struct.unpack_from('>h', data, pos)[0]); pos += 2
                else: a = v
                ins = Insn(name, a, pc)
            else:
                name, fmt = OPN[op]; a = None
                if fmt == '': pass
                elif fmt == 'b': a = struct.unpack_from('>b', data, pos)[0]; pos += 1
                elif fmt == 'h': a = struct.unpack_from('>h', data, pos)[0]; pos += 2
                elif fmt == 'c1': a = res(u1())
                elif fmt == 'c2': a = res(u2())
                elif fmt == 'c2b': a = (res(u2()), u1())
                elif fmt == 'v': a = u1()
                elif fmt[0] == 'v' and fmt[1:].isdigit(): a = int(fmt[1:])
                elif fmt == 'vb':
                    v = u1(); a = (v, struct.unpack_from('>b', data, pos)[0]); pos += 1
                elif fmt == 'j': a = pc + struct.unpack_from('>h', data, pos)[0]; pos += 2
                elif fmt == 'J': a = pc + struct.unpack_from('>i', data, pos)[0]; pos += 4
                elif fmt == 'ci': a = res(u2()); pos += 2
                elif fmt == 'cd': a = res(u2()); pos += 2
                elif fmt in ('ts', 'ls'):
                    while (pos - start) % 4: pos += 1
                    s4 = lambda: struct.unpack('>i', struct.pack('>I', u4()))[0]
                    dflt = pc + s4(); cases = []
                    if fmt == 'ts':
                        lo = s4(); hi = s4()
                        for k in range(lo, hi + 1): cases.append((k, pc + s4()))
                    else:
                        for _ in range(u4()):
                            k = s4(); cases.append((k, pc + s4()))
                    a = (dflt, cases); name = 'switch'
                ins = Insn(name, a, pc)
            ins.idx = len(code); bypc[pc] = ins.idx; code.append(ins)
        for ins in code:
            if ins.op.startswith('if') or ins.op == 'goto': ins.a = bypc[ins.a]
            elif ins.op == 'switch': ins.a = (bypc[ins.a[0]], [(k, bypc[t]) for k, t in ins.a[1]])
        bypc[L] = len(code)
        for _ in range(u2()):
            s, e, h, t = u2(), u2(), u2(), u2()
            m.exc.append((bypc[s], bypc[e], bypc[h], cname(t) if t else None))
        cat = attrs()
        if 'LineNumberTable' in cat:
            pos = cat['LineNumberTable'][0]
            tab = sorted((u2(), u2()) for _ in range(u2()))
            for ins in code:
                for s, l in tab:
                    if s <= ins.pc: ins.line = l
                    else: break
        m.code = code
    return c

def stub_name(x):
    """stub/java_util_X of a stub class stands for java/util/X"""
    return re.sub(r'stub/(?!ext_)([a-zA-Z0-9_]+)', lambda m: m.group(1).replace('_', '/'), x) if 'stub/' in x else x
class Program:
    """All classes compiled from /repo's main sources."""
    def __init__(s, root):
        s.classes = {}
        for d, _, fs in os.walk(root):
            for f in fs:
                if f.endswith('.class'):
                    c = parse(open(os.path.join(d, f), 'rb').read())
                    s.classes[c.name] = c
        # executable specifications of library methods (/verif/stubs), not part of the program
        s.stubs = {}; s.ext = {}
        import build
        for f in build.stub_classes(root):
            c = parse(open(f, 'rb').read(), stub_name); s.stubs[c.name] = c
            if c.name.startswith('stub/ext_'): s.ext[c.name[9:].replace('_', '/')] = c
        s.all = dict(s.stubs); s.all.update(s.classes)
        # instance fields declared again in a subclass (field names are taken to be unique along a class chain)
        s.shadowed = set()
        for c in s.all.values():
            p = s.all.get(c.super) if c.super else None
            while p is not None:
                for f in c.fields:
                    if not c.fields[f].static and f in p.fields and not p.fields[f].static: s.shadowed |= {(c.name, f), (p.name, f)}
                p = s.all.get(p.super) if p.super else None
    def find(s, cname, name, desc):
        """method resolution: superclass chain, then interfaces (defaults)."""
        c = s.all.get(cname); seen = []
        while c is not None:
            m = c.methods.get((name, desc))
            if m is not None: return m
            seen.append(c); c = s.all.get(c.super) if c.super else None
        work = [i for c in seen for i in c.interfaces]
        while work:
            i = work.pop(0); c = s.all.get(i)
            if c is None: continue
            m = c.methods.get((name, desc))
            if m is not None and not m.abstract: return m
            work += c.interfaces
        return None
    def field_owner(s, cname, fname):
        c = s.all.get(cname)
        while c is not None:
            if fname in c.fields: return c
            c = s.all.get(c.super) if c.super else None
        return None
    def is_subclass(s, a, b):
        """a <: b inside the program (b may be external)"""
        if a == b or b == 'java/lang/Object': return True
        c = s.all.get(a)
        if c is None: return False
        if c.super and s.is_subclass(c.super, b): return True
        return any(s.is_subclass(i, b) for i in c.interfaces)
    def subclasses(s, b):
        return [n for n in s.classes if s.is_subclass(n, b)]
