"""Lazy parser for textual LLVM 18 IR (opaque pointers), as produced by
   clang++-18 -O0 -Xclang -disable-O0-optnone  |  llvm-link | opt -passes=sroa."""
import re, subprocess

TOK = re.compile(r'''
   (?P<ws>[ \t\n]+|;[^\n]*)
 | (?P<cstr>c"(?:[^"])*")
 | (?P<str>"(?:[^"])*")
 | (?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)
 | (?P<id>[a-zA-Z_][-a-zA-Z_0-9.$]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)

class IRError(Exception):
    pass

def unq(s):
    # strip sigil and quotes; decode \xx
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
    return s

def decode_cstr(s):
    b = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\':
                b.append(0x5c); i += 2
            else:
                b.append(int(s[i+1:i+3], 16)); i += 3
        else:
            b += s[i].encode('utf-8') if ord(s[i]) > 127 else bytes([ord(s[i])]); i += 1
    return bytes(b)

I1 = ('i', 1); I8 = ('i', 8); I16=('i',16); I32 = ('i', 32); I64 = ('i', 64); PTR = ('ptr',); VOID = ('void',)
FPS = {'half': 2, 'float': 4, 'double': 8, 'x86_fp80': 16, 'fp128': 16}

class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'text', 'line')
    def __init__(self, op, dst, ty, a, x=None):
        self.op = op; self.dst = dst; self.ty = ty; self.a = a; self.x = x; self.text = ''

class Func:
    def __init__(self, name, ret, params, attrs_text):
        self.name = name; self.ret = ret; self.params = params   # [(type, name, byval/sret type)]
        self.blocks = None; self.order = None; self.entry = None
        self.attrs = attrs_text; self.vararg = False
        self._loops = None

class Module:
    def __init__(self, path):
        self.text = open(path, encoding='utf-8', errors='surrogateescape').read()
        self.types = {}; self.globals_src = {}; self.funcs_src = {}; self.decls = {}
        self._funcs = {}; self._gl = {}; self._sz = {}; self.aliases = {}
        self._index()
        self._dem = None

    def _index(self):
        t = self.text
        for m in re.finditer(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', t, re.M):
            self.types[unq(m.group(1))] = m.group(2)
        for m in re.finditer(r'^(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', t, re.M):
            rest = m.group(2)
            if re.search(r'(^|\s)(?:un)?alias\s|(^|\s)alias\s', rest.split('(')[0]) and ' alias ' in ' '+rest:
                mm = re.search(r'alias .*?ptr (@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', rest)
                if mm: self.aliases[unq(m.group(1))] = unq(mm.group(1))
                continue
            self.globals_src[unq(m.group(1))] = rest
        for m in re.finditer(r'^define [^\n]*?(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', t, re.M):
            e = t.index('\n}\n', m.start())
            self.funcs_src[unq(m.group(1))] = (m.start(), e)
        for m in re.finditer(r'^declare [^\n]*?(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', t, re.M):
            self.decls[unq(m.group(1))] = m.start()

    def _refs(self, name):
        c = self._refc.get(name)
        if c is None:
            if name in self.funcs_src:
                a, b = self.funcs_src[name]; t = self.text[a:b]
            else: t = self.globals_src.get(name, '')
            c = {unq(x) for x in re.findall(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', t)}
            c = {self.aliases.get(x, x) for x in c}
            self._refc[name] = c
        return c
    _refc = None
    def static_inits(self, root):
        """dynamic initialisers (in program order) of the globals reachable from root"""
        if self._refc is None: self._refc = {}
        order = []
        m = re.search(r'^@llvm.global_ctors = (.*)$', self.text, re.M)
        if not m: return []
        for f in re.findall(r'ptr (@(?:"[^"]*"|[-a-zA-Z$._0-9]+)), ptr', m.group(1)):
            f = unq(f)
            a, b = self.funcs_src[f]
            subs = [unq(x) for x in re.findall(r'call void (@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(\)', self.text[a:b])]
            order += subs if f.startswith('_GLOBAL__') else [f]
        order = [f for f in order if f in self.funcs_src]
        writes = {}
        for f in order:
            g = {x for x in self._refs(f) if x in self.globals_src and ' constant ' not in ' ' + self.globals_src[x][:60] and not x.startswith('_ZGV') and '__dso_handle' not in x}
            writes[f] = {x for x in g if 'ioinit' not in x and 'exception_ptr' not in x and 'in_place_init' not in x}
        seen = set(); todo = [root]; chosen = set()
        while todo:
            n = todo.pop()
            if n in seen: continue
            seen.add(n); todo.extend(self._refs(n) - seen)
            for f in order:
                if f not in chosen and n in writes[f]: chosen.add(f); todo.append(f)
        return [f for f in order if f in chosen]

    def demangle(self):
        """dict mangled -> demangled"""
        if self._dem is None:
            names = list(self.funcs_src) + list(self.decls) + list(self.globals_src)
            out = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(names), text=True, capture_output=True).stdout.split('\n')
            self._dem = dict(zip(names, out))
        return self._dem

    # ---- types
    def rtype(self, t):
        while t[0] == 'named':
            r = self.types[t[1]]
            if isinstance(r, str):
                if r == 'opaque':
                    return ('opaque',)
                r = Parser(self, r).type()
                self.types[t[1]] = r
            t = r
        return t

    def layout(self, t):
        """(size, align, field offsets)"""
        r = self._sz.get(t)
        if r is None:
            r = self._layout(t); self._sz[t] = r
        return r

    def _layout(self, t):
        t = self.rtype(t)
        k = t[0]
        if k == 'i':
            b = 1
            while b * 8 < t[1]: b *= 2
            if t[1] == 128: return (16, 16, None)
            return (b, min(b, 8), None)
        if k == 'ptr': return (8, 8, None)
        if k == 'fp': return (FPS[t[1]], FPS[t[1]], None)
        if k == 'arr':
            s, a, _ = self.layout(t[2]); return (s * t[1], a, None)
        if k == 'vec':
            s, a, _ = self.layout(t[2]); return (s * t[1], s * t[1], None)
        if k == 'st':
            off = 0; al = 1; offs = []
            for f in t[1]:
                s, a, _ = self.layout(f)
                if t[2]: a = 1
                off = (off + a - 1) // a * a
                offs.append(off); off += s; al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al, offs)
        if k == 'void': return (0, 1, None)
        raise IRError('size of %r' % (t,))

    def sizeof(self, t): return self.layout(t)[0]

    # ---- functions
    def func(self, name):
        name = self.aliases.get(name, name)
        f = self._funcs.get(name)
        if f is None and name in self.funcs_src:
            s, e = self.funcs_src[name]
            f = Parser(self, self.text[s:e+2]).function()
            self._funcs[name] = f
        return f

    def glob(self, name):
        name = self.aliases.get(name, name)
        g = self._gl.get(name)
        if g is None and name in self.globals_src:
            g = Parser(self, self.globals_src[name]).globaldef(name)
            self._gl[name] = g
        return g

PARAM_ATTR_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'inalloca', 'preallocated', 'elementtype', 'align', 'allocsize', 'memory', 'nofpclass', 'captures', 'range'}

class Parser:
    def __init__(self, mod, text):
        self.m = mod; self.toks = []; pos = 0
        ap = self.toks.append; n = len(text); match = TOK.match
        while pos < n:
            mo = match(text, pos)
            if not mo: raise IRError('lex: ' + text[pos:pos+40])
            k = mo.lastgroup
            if k != 'ws': ap((k, mo.group()))
            pos = mo.end()
        ap(('eof', ''))
        self.i = 0

    def pk(self, d=0): return self.toks[self.i + d][1] if self.i + d < len(self.toks) else ''
    def pkk(self, d=0): return self.toks[self.i + d][0]
    def nx(self):
        t = self.toks[self.i]; self.i += 1; return t[1]
    def ex(self, s):
        t = self.nx()
        if t != s: raise IRError('expected %r got %r at %r' % (s, t, [x[1] for x in self.toks[max(0,self.i-8):self.i+5]]))
    def acc(self, s):
        if self.toks[self.i][1] == s:
            self.i += 1; return True
        return False

    # ---- types
    def type(self):
        k, t = self.toks[self.i]
        self.i += 1
        if k == 'id':
            if t[0] == 'i' and t[1:].isdigit(): r = ('i', int(t[1:]))
            elif t == 'ptr':
                r = PTR
                if self.pk() == 'addrspace': raise IRError('addrspace')
            elif t == 'void': r = VOID
            elif t in FPS: r = ('fp', t)
            elif t in ('label', 'metadata', 'token'): r = (t,)
            elif t == 'opaque': r = ('opaque',)
            else: raise IRError('type ' + t)
        elif k == 'local': r = ('named', unq(t))
        elif t == '[':
            n = int(self.nx()); self.ex('x'); e = self.type(); self.ex(']'); r = ('arr', n, e)
        elif t == '{':
            fs = []
            if not self.acc('}'):
                while True:
                    fs.append(self.type())
                    if self.acc('}'): break
                    self.ex(',')
            r = ('st', tuple(fs), False)
        elif t == '<':
            if self.acc('{'):
                fs = []
                if not self.acc('}'):
                    while True:
                        fs.append(self.type())
                        if self.acc('}'): break
                        self.ex(',')
                self.ex('>'); r = ('st', tuple(fs), True)
            else:
                n = int(self.nx()); self.ex('x'); e = self.type(); self.ex('>'); r = ('vec', n, e)
        else: raise IRError('type tok ' + t)
        while self.pk() == '(' and r[0] != 'label':   # function type
            self.i += 1; ps = []; va = False
            if not self.acc(')'):
                while True:
                    if self.acc('...'): va = True
                    else:
                        ps.append(self.type()); self.skip_attrs()
                    if self.acc(')'): break
                    self.ex(',')
            r = ('fn', r, tuple(ps), va)
        return r

    def skip_attrs(self):
        """skip parameter / return attributes; return dict of interesting ones"""
        res = {}
        while True:
            k, t = self.toks[self.i]
            if k == 'id' and t not in TYPE_STARTS and not (t[0] == 'i' and t[1:].isdigit()):
                if t in VALUE_KW: break
                self.i += 1
                if t == 'align' and self.pkk() == 'num': self.nx(); continue
                if self.pk() == '(':
                    self.i += 1
                    if t in ('sret', 'byval', 'byref', 'elementtype', 'inalloca'):
                        res[t] = self.type(); self.ex(')')
                    else:
                        d = 1
                        while d:
                            x = self.nx()
                            if x == '(': d += 1
                            elif x == ')': d -= 1
                else: res[t] = True
            elif k == 'attr' or (k == 'str'):
                self.i += 1
                if self.acc('='): self.nx()
            else: break
        return res

    # ---- constants / operands
    def value(self, ty):
        k, t = self.toks[self.i]
        self.i += 1
        if k == 'local': return ('v', unq(t))
        if k == 'glob': return ('g', unq(t), 0)
        if k == 'num':
            if ty[0] == 'i': return ('c', int(t) & ((1 << ty[1]) - 1))
            return ('fp', t)
        if k == 'id':
            if t == 'true': return ('c', 1)
            if t == 'false': return ('c', 0)
            if t == 'null': return ('null',)
            if t in ('undef', 'poison'): return ('undef', ty)
            if t == 'zeroinitializer': return ('zero', ty)
            if t == 'none': return ('none',)
            if t == 'getelementptr':
                while self.pk() in ('inbounds', 'nuw', 'nusw'): self.nx()
                self.ex('('); ety = self.type(); self.ex(',')
                bt = self.type(); base = self.value(bt); idx = []
                while self.acc(','):
                    self.acc('inrange')
                    it = self.type(); idx.append(self.value(it))
                self.ex(')')
                off = self.const_gep(ety, [x[1] for x in idx])
                if base[0] == 'g': return ('g', base[1], base[2] + off)
                if base[0] == 'null': return ('c', off)
                raise IRError('const gep base %r' % (base,))
            if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                self.ex('('); st = self.type(); v = self.value(st); self.ex('to'); dt = self.type(); self.ex(')')
                if t == 'bitcast': return v
                if t == 'inttoptr' and v[0] == 'c': return ('pint', v[1])
                if t == 'ptrtoint': return ('p2i', v, dt)
                raise IRError('const cast ' + t)
            if t in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl'):
                while self.pk() in ('nsw', 'nuw'): self.nx()
                self.ex('('); a = self.value(self.type()); self.ex(','); b = self.value(self.type()); self.ex(')')
                return ('cbin', t, a, b, ty)
            if t == 'icmp':
                raise IRError('const icmp')
            if t == 'asm':
                raise IRError('asm')
            raise IRError('value kw ' + t)
        if k == 'cstr': return ('str', decode_cstr(t[2:-1]))
        if t == '[' :
            vs = []
            if not self.acc(']'):
                while True:
                    et = self.type(); vs.append((et, self.value(et)))
                    if self.acc(']'): break
                    self.ex(',')
            return ('agg', vs)
        if t == '{':
            vs = []
            if not self.acc('}'):
                while True:
                    et = self.type(); vs.append((et, self.value(et)))
                    if self.acc('}'): break
                    self.ex(',')
            return ('agg', vs)
        if t == '<':
            if self.acc('{'):
                vs = []
                if not self.acc('}'):
                    while True:
                        et = self.type(); vs.append((et, self.value(et)))
                        if self.acc('}'): break
                        self.ex(',')
                self.ex('>'); return ('agg', vs)
            vs = []
            while True:
                et = self.type(); vs.append((et, self.value(et)))
                if self.acc('>'): break
                self.ex(',')
            return ('agg', vs)
        raise IRError('value tok %s %s' % (k, t))

    def const_gep(self, ety, idx):
        m = self.m
        def sg(v, bits=64):
            return v - (1 << 64) if v >= (1 << 63) else (v - (1 << 32) if (1 << 31) <= v < (1 << 32) else v)
        off = sg(idx[0]) * m.sizeof(ety) if idx else 0
        t = ety
        for i in idx[1:]:
            r = m.rtype(t)
            if r[0] == 'st':
                off += m.layout(r)[2][i]; t = r[1][i]
            else:
                off += sg(i) * m.sizeof(r[2]); t = r[2]
        return off

    # ---- globals
    def globaldef(self, name):
        ext = False; const = False
        while True:
            t = self.pk()
            if t == 'global': self.nx(); break
            if t == 'constant': const = True; self.nx(); break
            if t in ('external', 'extern_weak'): ext = True
            self.nx()
            if self.pk() == '(':
                d = 0
                while True:
                    x = self.nx()
                    if x == '(': d += 1
                    if x == ')':
                        d -= 1
                        if d == 0: break
        ty = self.type()
        init = None
        if not ext: init = self.value(ty)
        return dict(name=name, type=ty, init=init, const=const)

    # ---- functions
    def function(self):
        self.ex('define')
        # linkage etc. until return type
        while True:
            k, t = self.toks[self.i]
            if k == 'id' and t not in TYPE_STARTS and not (t[0] == 'i' and t[1:].isdigit()):
                self.i += 1
                if self.pk() == '(':
                    d = 0
                    while True:
                        x = self.nx()
                        if x == '(': d += 1
                        if x == ')':
                            d -= 1
                            if d == 0: break
                elif t == 'align': self.nx()
            else: break
        ret = self.type_noargs()
        name = unq(self.nx())
        self.ex('(')
        params = []; va = False
        if not self.acc(')'):
            while True:
                if self.acc('...'): va = True
                else:
                    ty = self.type(); at = self.skip_attrs()
                    pn = unq(self.nx()) if self.pkk() == 'local' else str(len(params))
                    params.append((ty, pn, at))
                if self.acc(')'): break
                self.ex(',')
        pers = None
        while self.pk() != '{':
            self.nx()
        self.nx()
        f = Func(name, ret, params, '')
        f.vararg = va
        blocks = {}; order = []
        cur = None; ninstr = []
        # entry label may be implicit
        first = True
        while not self.acc('}'):
            k, t = self.toks[self.i]
            if self.toks[self.i+1][1] == ':' and k in ('id', 'num', 'str'):
                lab = t[1:-1] if k == 'str' else t
                self.i += 2
                ninstr = []; blocks[lab] = ninstr; order.append(lab)
                if first: f.entry = lab; first = False
                continue
            if first:
                n = sum(1 for p in params if p[1].isdigit())
                lab = str(n); blocks[lab] = ninstr; order.append(lab); f.entry = lab; first = False
            s = self.i
            ins = self.instr()
            if ins is not None:
                ninstr.append(ins)
        f.blocks = blocks; f.order = order
        return f

    def type_noargs(self):
        # a type not followed by function args (return type)
        save = None
        k, t = self.toks[self.i]
        if k == 'local':
            self.i += 1; return ('named', unq(t))
        # temporarily parse simple
        if k == 'id':
            self.i += 1
            if t[0] == 'i' and t[1:].isdigit(): return ('i', int(t[1:]))
            if t == 'ptr': return PTR
            if t == 'void': return VOID
            if t in FPS: return ('fp', t)
            raise IRError('rettype ' + t)
        return self.type()

    def skip_meta(self):
        # trailing ", !dbg !1" / ", align 8"
        while self.pk() == ',' and (self.pkk(1) == 'meta' or self.pk(1) == 'align'):
            self.nx()
            if self.pkk() == 'meta':
                self.nx()
                if self.pkk() == 'meta': self.nx()
            else:
                self.nx(); self.nx()

    def instr(self):
        dst = None
        if self.pkk() == 'local' and self.pk(1) == '=':
            dst = unq(self.nx()); self.nx()
        op = self.nx()
        if op in ('tail', 'musttail', 'notail'): op = self.nx()
        r = getattr(self, 'i_' + op, None)
        if r: ins = r(dst)
        elif op in BINOPS:
            fl = []
            while self.pk() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan'): fl.append(self.nx())
            ty = self.type(); a = self.value(ty); self.ex(','); b = self.value(ty)
            ins = Instr('bin', dst, ty, (op, a, b), fl)
        elif op in CASTS:
            while self.pk() in ('nneg', 'nuw', 'nsw'): self.nx()
            st = self.type(); v = self.value(st); self.ex('to'); dt = self.type()
            ins = Instr('cast', dst, dt, (op, v, st))
        else:
            raise IRError('instr ' + op + ' ' + ' '.join(x[1] for x in self.toks[self.i:self.i+12]))
        self.skip_meta()
        return ins

    def i_alloca(self, dst):
        self.acc('inalloca')
        ty = self.type(); n = ('c', 1)
        while self.acc(','):
            if self.pk() == 'align': self.nx(); self.nx()
            else:
                nt = self.type(); n = self.value(nt)
        return Instr('alloca', dst, PTR, (ty, n))
    def i_load(self, dst):
        at = self.acc('atomic'); self.acc('volatile')
        ty = self.type(); self.ex(','); pt = self.type(); p = self.value(pt)
        if at:
            while self.pk() in ('unordered','monotonic','acquire','release','acq_rel','seq_cst','syncscope'):
                self.nx()
        return Instr('load', dst, ty, p)
    def i_store(self, dst):
        at = self.acc('atomic'); self.acc('volatile')
        ty = self.type(); v = self.value(ty); self.ex(','); pt = self.type(); p = self.value(pt)
        if at:
            while self.pk() in ('unordered','monotonic','acquire','release','acq_rel','seq_cst','syncscope'):
                self.nx()
        return Instr('store', None, ty, (v, p))
    def i_getelementptr(self, dst):
        while self.pk() in ('inbounds', 'nuw', 'nusw'): self.nx()
        ety = self.type(); self.ex(','); bt = self.type(); base = self.value(bt); idx = []
        while self.pk() == ',' and self.pkk(1) != 'meta':
            self.nx(); it = self.type(); idx.append((it, self.value(it)))
        # steps: list of (const offset) or (scale, operand, type)
        m = self.m; off = 0; dyn = []
        def sg(v, bits): return v - (1 << bits) if v >= (1 << (bits - 1)) else v
        t = ety
        for n, (it, v) in enumerate(idx):
            if n == 0: es = m.sizeof(ety)
            else:
                r = m.rtype(t)
                if r[0] == 'st':
                    off += m.layout(r)[2][v[1]]; t = r[1][v[1]]; continue
                es = m.sizeof(r[2]); t = r[2]
            if v[0] == 'c': off += sg(v[1], it[1]) * es
            else: dyn.append((es, v, it))
        return Instr('gep', dst, PTR, (base, off, dyn))
    def i_icmp(self, dst):
        self.acc('samesign')
        pred = self.nx(); ty = self.type(); a = self.value(ty); self.ex(','); b = self.value(ty)
        return Instr('icmp', dst, I1, (pred, a, b, ty))
    def i_fcmp(self, dst):
        while self.pk() in ('fast','nnan','ninf','nsz'): self.nx()
        pred = self.nx(); ty = self.type(); a = self.value(ty); self.ex(','); b = self.value(ty)
        return Instr('unsupported', dst, I1, 'fcmp')
    def i_fneg(self, dst):
        ty = self.type(); self.value(ty)
        return Instr('unsupported', dst, ty, 'fneg')
    def i_select(self, dst):
        ct = self.type(); c = self.value(ct); self.ex(','); ty = self.type(); a = self.value(ty); self.ex(','); self.type(); b = self.value(ty)
        return Instr('select', dst, ty, (c, a, b))
    def i_phi(self, dst):
        ty = self.type(); inc = []
        while True:
            self.ex('['); v = self.value(ty); self.ex(','); l = unq(self.nx()); self.ex(']')
            inc.append((v, l))
            if self.pk() == ',' and self.pk(1) == '[': self.nx()
            else: break
        return Instr('phi', dst, ty, dict((l, v) for v, l in inc))
    def i_br(self, dst):
        if self.pk() == 'label':
            self.nx(); return Instr('jmp', None, None, unq(self.nx()))
        ty = self.type(); c = self.value(ty); self.ex(','); self.ex('label'); a = unq(self.nx()); self.ex(','); self.ex('label'); b = unq(self.nx())
        return Instr('br', None, None, (c, a, b))
    def i_switch(self, dst):
        ty = self.type(); v = self.value(ty); self.ex(','); self.ex('label'); d = unq(self.nx()); self.ex('['); cs = []
        while not self.acc(']'):
            t = self.type(); c = self.value(t); self.ex(','); self.ex('label'); cs.append((c[1], unq(self.nx())))
        return Instr('switch', None, ty, (v, d, cs))
    def i_ret(self, dst):
        ty = self.type()
        return Instr('ret', None, ty, None if ty == VOID else self.value(ty))
    def i_unreachable(self, dst): return Instr('unreachable', None, None, None)
    def i_fence(self, dst):
        while self.pk() in ('unordered','monotonic','acquire','release','acq_rel','seq_cst','syncscope'): self.nx()
        return Instr('nop', None, None, None)
    def i_resume(self, dst):
        ty = self.type(); v = self.value(ty); return Instr('resume', None, ty, v)
    def i_extractvalue(self, dst):
        ty = self.type(); v = self.value(ty); idx = []
        while self.pk() == ',' and self.pkk(1) == 'num': self.nx(); idx.append(int(self.nx()))
        t = ty
        for i in idx:
            r = self.m.rtype(t); t = r[1][i] if r[0] == 'st' else r[2]
        return Instr('extractvalue', dst, t, (v, idx))
    def i_insertvalue(self, dst):
        ty = self.type(); v = self.value(ty); self.ex(','); et = self.type(); e = self.value(et); idx = []
        while self.pk() == ',' and self.pkk(1) == 'num': self.nx(); idx.append(int(self.nx()))
        return Instr('insertvalue', dst, ty, (v, e, idx))
    def i_freeze(self, dst):
        ty = self.type(); return Instr('copy', dst, ty, self.value(ty))
    def i_landingpad(self, dst):
        ty = self.type(); cleanup = False; cl = []
        while True:
            if self.acc('cleanup'): cleanup = True
            elif self.pk() in ('catch', 'filter'):
                k = self.nx(); t = self.type(); cl.append((k, self.value(t)))
            else: break
        return Instr('landingpad', dst, ty, (cleanup, cl))
    def i_atomicrmw(self, dst):
        self.acc('volatile'); op = self.nx(); pt = self.type(); p = self.value(pt); self.ex(','); ty = self.type(); v = self.value(ty)
        while self.pk() in ('unordered','monotonic','acquire','release','acq_rel','seq_cst','syncscope'): self.nx()
        return Instr('atomicrmw', dst, ty, (op, p, v))
    def i_cmpxchg(self, dst):
        return Instr('unsupported', dst, None, 'cmpxchg')
    def call_common(self, dst, invoke):
        while self.pk() in ('fast', 'nnan', 'fastcc', 'ccc', 'coldcc'): self.nx()
        self.skip_attrs()
        ty = self.type_noargs()
        fnty = None
        if self.pk() == '(':
            # full function type (varargs)
            self.i += 1
            d = 1
            while d:
                x = self.nx()
                if x == '(': d += 1
                elif x == ')': d -= 1
        if self.pk() == 'asm':
            while self.pk() != '(': self.nx()
            callee = ('asm',)
        else:
            callee = self.value(PTR)
        self.ex('('); args = []
        if not self.acc(')'):
            while True:
                t = self.type(); at = self.skip_attrs()
                if t[0] == 'metadata':
                    self.nx(); args.append((t, ('none',), at))
                    while self.pk() not in (',', ')'): self.nx()
                else:
                    args.append((t, self.value(t), at))
                if self.acc(')'): break
                self.ex(',')
        while self.pkk() in ('attr', 'id', 'str') and self.pk() in ATTR_AFTER or self.pkk() == 'attr':
            self.nx()
        if self.pk() == '[':   # operand bundles
            while self.nx() != ']': pass
        nrm = unw = None
        if invoke:
            self.ex('to'); self.ex('label'); nrm = unq(self.nx()); self.ex('unwind'); self.ex('label'); unw = unq(self.nx())
        return Instr('call', dst, ty, (callee, args, nrm, unw))
    def i_call(self, dst): return self.call_common(dst, False)
    def i_invoke(self, dst): return self.call_common(dst, True)

ATTR_AFTER = {'nounwind', 'noreturn', 'cold', 'builtin', 'memory', 'readonly', 'willreturn'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext'}
TYPE_STARTS = {'ptr', 'void', 'half', 'float', 'double', 'x86_fp80', 'fp128', 'label', 'metadata', 'token', 'opaque'}
VALUE_KW = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'none', 'getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'sub', 'add', 'mul', 'asm', 'icmp', 'and', 'or', 'xor', 'shl'}

def loops_of(f):
    """natural loops: header -> set(blocks)"""
    if f._loops is not None: return f._loops
    succ = {}
    for b, ins in f.blocks.items():
        t = ins[-1]; s = []
        if t.op == 'jmp': s = [t.a]
        elif t.op == 'br': s = [t.a[1], t.a[2]]
        elif t.op == 'switch': s = [t.a[1]] + [x[1] for x in t.a[2]]
        elif t.op == 'call' and t.a[2]: s = [t.a[2], t.a[3]]
        succ[b] = s
    # DFS order and dominators (iterative)
    order = []; seen = set(); st = [(f.entry, iter(succ[f.entry]))]; seen.add(f.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(succ[s]))); break
        else:
            order.append(b); st.pop()
    rpo = order[::-1]; idx = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]: pred[s].append(b)
    dom = {f.entry: f.entry}; ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            nd = None
            for p in pred[b]:
                if p in dom:
                    if nd is None: nd = p
                    else:
                        x, y = p, nd
                        while x != y:
                            while idx[x] > idx[y]: x = dom[x]
                            while idx[y] > idx[x]: y = dom[y]
                        nd = x
            if dom.get(b) != nd: dom[b] = nd; ch = True
    def dominates(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = dom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if dominates(s, b):
                body = loops.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x); work += pred[x]
    f._loops = loops
    return loops
