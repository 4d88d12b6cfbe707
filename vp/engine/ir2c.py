#!/usr/bin/env python3
"""Translate LLVM-18 textual IR into C for CBMC.

The translation is purely structural: every IR instruction becomes one C
statement over unsigned integers of explicit width, basic blocks become labels,
phi nodes become parallel copies on the incoming edges.  The C text that comes
out is compiled both by CBMC (for the verdict) and by a native compiler (to
validate the translation against the original program on concrete inputs).

Anything not understood raises Unsupported; nothing is silently dropped except
the calls listed in IGNORED (debug/lifetime markers and optimiser hints).
"""
import re
import sys


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ lexer

TOK = re.compile(r'''
   \s+
 | (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glo>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]*))
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+\.[0-9]+(?:[eE][-+]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)
 | (?P<word>\.\.\.|[-a-zA-Z$._][-a-zA-Z$._0-9]*)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def lex(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('lex: ' + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    return out


# ------------------------------------------------------------------ types

class Ty:
    __slots__ = ('k', 'n', 'el', 'fs', 'name', 'packed')

    def __init__(self, k, n=0, el=None, fs=None, name=None, packed=False):
        self.k, self.n, self.el, self.fs, self.name, self.packed = k, n, el, fs, name, packed

    def key(self):
        if self.k == 'int':
            return 'i%d' % self.n
        if self.k == 'arr':
            return 'A%d_%s_' % (self.n, self.el.key())
        if self.k == 'vec':
            return 'V%d_%s_' % (self.n, self.el.key())
        if self.k == 'struct':
            if self.name:
                return 'N' + self.name
            return ('P' if self.packed else 'S') + '_'.join(f.key() for f in self.fs) + '_E'
        return self.k


VOID, PTR, FLOAT, DOUBLE = Ty('void'), Ty('ptr'), Ty('float'), Ty('double')
META, LABEL = Ty('metadata'), Ty('label')


def I(n):
    return Ty('int', n)


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def at(self, v):
        return self.peek()[1] == v

    def eat(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.eat(v):
            raise Unsupported('expected %r at %r' % (v, self.t[self.i:self.i + 8]))

    # types -------------------------------------------------------------
    def ty(self):
        k, v = self.next()
        if k == 'word':
            if re.fullmatch(r'i[0-9]+', v):
                return I(int(v[1:]))
            if v == 'ptr':
                if self.at('addrspace'):
                    raise Unsupported('addrspace')
                return PTR
            if v == 'void':
                return VOID
            if v == 'float':
                return FLOAT
            if v == 'double':
                return DOUBLE
            if v == 'metadata':
                return META
            if v == 'label':
                return LABEL
            raise Unsupported('type ' + v)
        if v == '[':
            n = int(self.next()[1])
            self.need('x')
            e = self.ty()
            self.need(']')
            return Ty('arr', n, e)
        if v == '{':
            fs = []
            if not self.eat('}'):
                while True:
                    fs.append(self.ty())
                    if self.eat('}'):
                        break
                    self.need(',')
            return Ty('struct', fs=fs)
        if v == '<':
            if self.at('{'):
                t = self.ty()
                self.need('>')
                return Ty('struct', fs=t.fs, packed=True)
            n = int(self.next()[1])
            self.need('x')
            e = self.ty()
            self.need('>')
            return Ty('vec', n, e)
        if k == 'loc':
            return self.m.named(v)
        raise Unsupported('type at %r' % (v,))


# ------------------------------------------------------------------ module

IGNORED = (
    'llvm.dbg.', 'llvm.assume', 'llvm.donothing',
    'llvm.experimental.noalias', 'llvm.invariant.', 'llvm.stacksave',
    'llvm.stackrestore', 'llvm.prefetch',
)

NORETURN_FAIL = re.compile(
    r'^(_ZSt\d+__throw_|_ZSt9terminatev|_ZSt21__glibcxx_assert_fail|abort$|__assert_fail|'
    r'__cxa_pure_virtual|__cxa_allocate_exception|__cxa_throw|__cxa_rethrow|__cxa_bad|_ZSt20__throw|_Unwind_Resume|exit$|__clang_call_terminate|'
    r'__cxa_throw_bad_array_new_length|_Exit$|__stack_chk_fail)')

UBSAN = {0: 'add_overflow', 1: 'builtin_unreachable', 2: 'cfi', 3: 'divrem_overflow',
         4: 'dynamic_type_cache_miss', 5: 'float_cast_overflow', 6: 'function_type_mismatch',
         7: 'implicit_conversion', 8: 'invalid_builtin', 9: 'invalid_objc_cast',
         10: 'load_invalid_value', 11: 'missing_return', 12: 'mul_overflow',
         13: 'negate_overflow', 14: 'nullability_arg', 15: 'nullability_return',
         16: 'nonnull_arg', 17: 'nonnull_return', 18: 'out_of_bounds',
         19: 'pointer_overflow', 20: 'shift_out_of_bounds', 21: 'sub_overflow',
         22: 'type_mismatch', 23: 'alignment_assumption', 24: 'vla_bound'}

ATTR_WORDS = {
    'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'nofree',
    'nest', 'returned', 'immarg', 'readonly', 'readnone', 'writeonly', 'swiftself',
    'allocptr', 'dead_on_unwind', 'writable', 'noext', 'inrange'}
PAREN_ATTRS = {'byval', 'sret', 'align', 'dereferenceable', 'dereferenceable_or_null',
               'elementtype', 'captures', 'initializes', 'preallocated', 'inalloca', 'byref',
               'nofpclass', 'range', 'allocsize', 'memory', 'allockind', 'vscale_range', 'alignstack'}


def mangle(n):
    n = n[1:]
    if n.startswith('"'):
        n = n[1:-1]
    r = re.sub(r'[^A-Za-z0-9_]', lambda m: '_%02x' % ord(m.group(0)), n)
    return r


class Module:
    def __init__(self, text):
        self.types = {}      # %name -> token list / Ty
        self.typedefs = []   # C typedef lines
        self.done = {}       # type key -> C name
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.parse(text)

    # ------------------------------------------------------------ parsing
    def named(self, v):
        t = self.types.get(v)
        if t is None:
            raise Unsupported('unknown type ' + v)
        if isinstance(t, Ty):
            return t
        if t == 'opaque':
            return Ty('struct', fs=[], name=mangle(v))
        st = Ty('struct', name=mangle(v))
        self.types[v] = st
        p = P(t, self)
        r = p.ty()
        st.fs, st.packed = r.fs, r.packed
        return st

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        gl = []
        aliases = []
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln or ln[0] in ';!' or ln.startswith(('source_filename', 'target', 'attributes', '^')):
                continue
            if ln[0] == '%':
                m = re.match(r'(%(?:"[^"]*"|\S+)) = type (.*)', ln)
                if m:
                    self.types[m.group(1)] = 'opaque' if m.group(2) == 'opaque' else lex(m.group(2))
                continue
            if ln[0] == '$':
                continue
            if ln[0] == '@':
                if re.match(r'@(?:"[^"]*"|[^ ]+) = .*\balias\b', ln):
                    aliases.append(ln)
                    continue
                gl.append(ln)
                continue
            if ln.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                self.header(ln, body)
                continue
            if ln.startswith('declare'):
                self.header(ln, None)
                continue
            if ln.startswith('module asm'):
                raise Unsupported('module asm')
            raise Unsupported('top: ' + ln[:80])
        for ln in gl:
            self.parse_global(ln)
        self.alias = {}
        for ln in aliases:
            m = re.match(r'(@(?:"[^"]*"|[^ ]+)) = .*\balias [^@]*(@(?:"[^"]*"|[-\w.$]+))', ln)
            self.alias[m.group(1)] = m.group(2)

    def parse_global(self, ln):
        toks = lex(ln)
        p = P(toks, self)
        name = p.next()[1]
        p.need('=')
        ext = False
        while True:
            k, v = p.next()
            if v in ('global', 'constant'):
                const = v == 'constant'
                break
            if v == 'external':
                ext = True
            if v == '(':
                pass
            if k == 'eof':
                raise Unsupported('global ' + ln[:80])
        t = p.ty()
        self.globals[name] = (t, None if ext else p, const)

    def skip_attrs(self, p, info=None):
        while True:
            k, v = p.peek()
            if v in ATTR_WORDS or k == 'attr' or (k == 'str'):
                p.next()
                continue
            if v in PAREN_ATTRS:
                p.next()
                if p.at('('):
                    if v in ('byval', 'sret', 'elementtype'):
                        p.next()
                        t = p.ty()
                        if info is not None:
                            info[v] = t
                        p.need(')')
                    else:
                        d = 0
                        while True:
                            x = p.next()[1]
                            d += x == '('
                            d -= x == ')'
                            if d == 0:
                                break
                else:
                    p.next()   # align N
                continue
            return

    def header(self, ln, body):
        toks = lex(ln.rstrip('{ '))
        p = P(toks, self)
        p.next()
        while True:
            k, v = p.peek()
            if k == 'word' and not re.fullmatch(r'i[0-9]+|ptr|void|float|double', v) and v not in PAREN_ATTRS:
                p.next()
                continue
            if v in PAREN_ATTRS:
                self.skip_attrs(p)
                continue
            break
        if k == 'word' and v == 'x86_fp80':
            raise Unsupported('x86_fp80')
        rt = p.ty()
        name = p.next()[1]
        p.need('(')
        params = []
        va = False
        n = 0
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    va = True
                    p.need(')')
                    break
                t = p.ty()
                info = {}
                self.skip_attrs(p, info)
                if p.peek()[0] == 'loc':
                    nm = p.next()[1]
                else:
                    nm = '%%%d' % n
                n += 1
                params.append((t, nm, info))
                if p.eat(')'):
                    break
                p.need(',')
        if body is None:
            self.decls[name] = (rt, params, va)
        else:
            self.funcs[name] = (rt, params, va, body)

    # ---------------------------------------------------------- C types
    def size_align(self, t):
        if t.k == 'int':
            if t.n <= 8:
                return 1, 1
            if t.n <= 16:
                return 2, 2
            if t.n <= 32:
                return 4, 4
            if t.n <= 64:
                return 8, 8
            if t.n <= 128:
                return 16, 16
            raise Unsupported('int width %d' % t.n)
        if t.k == 'ptr' or t.k == 'double':
            return 8, 8
        if t.k == 'float':
            return 4, 4
        if t.k == 'arr':
            s, a = self.size_align(t.el)
            return s * t.n, a
        if t.k == 'struct':
            o, al = 0, 1
            for f in t.fs:
                s, a = self.size_align(f)
                if t.packed:
                    a = 1
                o = (o + a - 1) // a * a + s
                al = max(al, a)
            return (o + al - 1) // al * al, al
        raise Unsupported('sizeof ' + t.k)

    def field_off(self, t, i):
        o = 0
        for j, f in enumerate(t.fs):
            s, a = self.size_align(f)
            if t.packed:
                a = 1
            o = (o + a - 1) // a * a
            if j == i:
                return o
            o += s

    def ct(self, t):
        """C type name"""
        if t.k == 'int':
            if t.n <= 8:
                return 'uint8_t'
            if t.n <= 16:
                return 'uint16_t'
            if t.n <= 32:
                return 'uint32_t'
            if t.n <= 64:
                return 'uint64_t'
            if t.n <= 128:
                return 'vp_u128'
            raise Unsupported('int width %d' % t.n)
        if t.k == 'ptr':
            return 'vp_ptr'
        if t.k in ('float', 'double', 'void'):
            return t.k
        if t.k in ('arr', 'struct'):
            k = t.key()
            if k in self.done:
                return self.done[k]
            nm = 'T%d' % len(self.done)
            self.done[k] = nm
            if t.k == 'arr':
                e = self.ct(t.el)
                if self.size_align(t.el)[0] == 0 or t.n == 0:
                    self.typedefs.append('typedef struct { %s a[0]; } %s;' % (e, nm))
                else:
                    self.typedefs.append('typedef struct { %s a[%d]; } %s;' % (e, t.n, nm))
            else:
                fs = ' '.join('%s f%d;' % (self.ct(f), i) for i, f in enumerate(t.fs))
                self.typedefs.append('typedef struct %s{ %s } %s; /* %s */' % (
                    '__attribute__((packed)) ' if t.packed else '', fs, nm, t.name or ''))
            return nm
        if t.k == 'vec':
            raise Unsupported('vector type')
        raise Unsupported('ctype ' + t.k)


INT_BIN = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}
FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'disjoint', 'nneg', 'tail', 'musttail', 'notail', 'volatile', 'inbounds', 'fastcc', 'ccc', 'samesign'}


def cw(n):
    """container width"""
    for w in (8, 16, 32, 64, 128):
        if n <= w:
            return w
    raise Unsupported('width %d' % n)


def ut(n):
    w = cw(n)
    return 'vp_u128' if w == 128 else 'uint%d_t' % w


def wide(n):
    """type arithmetic is carried out in (no int promotion surprises)"""
    w = max(32, cw(n))
    return 'vp_u128' if w == 128 else 'uint%d_t' % w


def st(n):
    w = cw(n)
    return 'vp_s128' if w == 128 else 'int%d_t' % w


def mask(n):
    if n in (8, 16, 32, 64, 128):
        return None
    return '0x%xULL' % ((1 << n) - 1) if n <= 64 else None


def trunc_to(n, e):
    m = mask(n)
    if m:
        return '(%s)((%s) & %s)' % (ut(n), e, m)
    if n not in (8, 16, 32, 64, 128):
        return '(vp_u128)((%s) & ((((vp_u128)1) << %d) - 1))' % (e, n)
    return '(%s)(%s)' % (ut(n), e)


def sgn(n, e):
    """signed view of the n-bit value e"""
    w = cw(n)
    if n == w:
        return '((%s)(%s))' % (st(n), e)
    # shift up in the container, arithmetic shift down
    return '((%s)((%s)((%s)((%s)(%s) << %d))) >> %d)' % (st(n), st(n), ut(n), wide(n), e, w - n, w - n)


def arrange(blocks):
    """the blocks in an order in which each loop is contiguous, from its header to
    its latch, and everything else runs forward.  CBMC unwinds a loop by the order
    of the text: a jump back from the middle of an inner loop to an outer one would
    be followed once for each iteration of the inner one."""
    ins = dict(blocks)
    names = [b for b, _ in blocks]
    pos = {b: i for i, b in enumerate(names)}
    succ = {}
    for b, body in blocks:
        out = []
        for t in re.findall(r'label (%(?:"[^"]*"|[-a-zA-Z$._0-9]+))', body[-1] if body else ''):
            if t not in out and t in pos:
                out.append(t)
        succ[b] = out
    entry = names[0]
    # reverse post-order of the reachable blocks
    post, state, stack = [], {entry: 1}, [(entry, iter(succ[entry]))]
    while stack:
        b, it = stack[-1]
        for t in it:
            if t not in state:
                state[t] = 1
                stack.append((t, iter(succ[t])))
                break
        else:
            post.append(b)
            stack.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for t in succ[b]:
            pred[t].append(b)
    # dominators
    idom = {entry: entry}
    change = True
    while change:
        change = False
        for b in rpo[1:]:
            new = None
            for q in pred[b]:
                if q not in idom:
                    continue
                if new is None:
                    new = q
                    continue
                x, y = q, new
                while x != y:
                    while num[x] > num[y]:
                        x = idom[x]
                    while num[y] > num[x]:
                        y = idom[y]
                new = x
            if idom.get(b) != new:
                idom[b] = new
                change = True

    def dominates(a, b):
        while num[b] > num[a]:
            b = idom[b]
        return a == b

    loops = {}
    for b in rpo:
        for t in succ[b]:
            if num[t] <= num[b]:
                if not dominates(t, b):
                    return blocks  # irreducible: leave as it is
                body = loops.setdefault(t, {t})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work += pred[x]
    heads = sorted(loops, key=lambda h: len(loops[h]))
    inner = {}  # innermost loop of each block
    for h in heads:
        for b in loops[h]:
            inner.setdefault(b, h)
    outer = {}
    for i, h in enumerate(heads):
        outer[h] = next((g for g in heads[i + 1:] if h in loops[g]), None)

    def node(b, within):
        """what stands for block b on the level of the loop"""
        h = inner.get(b)
        last = b
        while h is not None and h != within:
            last, h = ('loop', h), outer[h]
        return last

    def order(within, members):
        nodes, edges, deg = [], {}, {}
        for b in members:
            n = node(b, within)
            if n not in edges:
                edges[n], deg[n] = [], 0
                nodes.append(n)
        inside = set(members)
        for b in members:
            n = node(b, within)
            for t in succ[b]:
                if t in inside and t != within and node(t, within) != n:
                    k = node(t, within)
                    if k not in edges[n]:
                        edges[n].append(k)
                        deg[k] += 1
        key = {n: pos[n[1] if isinstance(n, tuple) else n] for n in nodes}
        ready = [n for n in nodes if deg[n] == 0]
        out, prev = [], None
        while ready:
            near = [n for n in ready if prev is not None and n in edges[prev]]
            n = min(near or ready, key=lambda x: key[x])
            ready.remove(n)
            out.append(n)
            prev = n
            for k in edges[n]:
                deg[k] -= 1
                if deg[k] == 0:
                    ready.append(k)
        res = []
        for n in out:
            if isinstance(n, tuple):
                res += order(n[1], [b for b in rpo if b in loops[n[1]]])
            else:
                res.append(n)
        return res

    new = order(None, rpo)
    assert sorted(new) == sorted(rpo) and new[0] == entry
    return [(b, ins[b]) for b in new + [b for b in names if b not in num]]


class Func:
    def __init__(self, g, name):
        self.g, self.m = g, g.m
        self.name = name
        self.rt, self.params, self.va, self.body = g.m.funcs[name]
        self.locals = {}   # ir name -> (ctype)
        self.vt = {}       # ir name -> Ty
        self.decl = []
        self.out = []
        self.nund = 0
        self.allocas = {}

    def v(self, n):
        return 'v_' + mangle(n)

    # ------------------------------------------------------ operand values
    def undef(self, t):
        n = 'und%d' % self.nund
        self.nund += 1
        if self.m.size_align(t)[0] == 0:
            self.decl.append('%s %s;' % (self.m.ct(t), n))
            return n
        self.g.need_undef.add(self.m.ct(t))
        self.pre.append('%s = vp_nd_%s();' % (n, self.m.ct(t)))
        self.decl.append('%s %s;' % (self.m.ct(t), n))
        return n

    def value(self, p, t):
        k, v = p.peek()
        if k == 'loc':
            p.next()
            return self.v(v)
        return self.g.const(p, t, self)

    def tv(self, p):
        t = p.ty()
        info = {}
        self.m.skip_attrs(p, info)
        return t, self.value(p, t)

    # ------------------------------------------------------ function
    def emit(self):
        m = self.m
        blocks = []
        cur = None
        lines = self.body
        i = 0
        # implicit entry label number = number of unnamed params
        first = True
        while i < len(lines):
            ln = lines[i]
            i += 1
            mm = re.match(r'^("(?:[^"]*)"|[-a-zA-Z$._0-9]+):', ln)
            if mm:
                cur = ('%' + mm.group(1), [])
                blocks.append(cur)
                first = False
                continue
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            if first:
                cnt = sum(1 for (_, nm, _) in self.params if re.fullmatch(r'%\d+', nm))
                cur = ('%%%d' % cnt, [])
                blocks.append(cur)
                first = False
            # switch spans lines
            if s.startswith('switch') and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ]'
                i += 1
            elif 'landingpad' in s:
                while i < len(lines) and re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                    i += 1
            cur[1].append(s)
        blocks = arrange(blocks)
        # pass 1: collect phis
        self.phis = {}
        for b, ins in blocks:
            for s in ins:
                if re.match(r'%(?:"[^"]*"|\S+) = phi ', s):
                    toks = lex(s)
                    p = P(toks, m)
                    d = p.next()[1]
                    p.need('=')
                    p.need('phi')
                    while p.peek()[1] in FLAGS:
                        p.next()
                    t = p.ty()
                    inc = []
                    while True:
                        p.need('[')
                        j = p.i
                        dd = 0
                        # value tokens up to the comma at depth 0
                        while not (p.peek()[1] == ',' and dd == 0):
                            x = p.next()[1]
                            if x in '([{<':
                                dd += 1
                            if x in ')]}>':
                                dd -= 1
                        vt = toks[j:p.i]
                        p.need(',')
                        lab = p.next()[1]
                        p.need(']')
                        inc.append((lab, vt))
                        if not p.eat(','):
                            break
                    self.phis.setdefault(b, []).append((d, t, inc))
                    self.declare(d, t)
                    self.decl.append('%s %s_in;' % (m.ct(t), self.v(d)))
        # a phi group needs the two-step copy only if one of its incoming values
        # is itself a phi of the group
        self.direct = {}
        for b, ph in self.phis.items():
            names = {d for d, _, _ in ph}
            self.direct[b] = not any(tok[0] == 'loc' and tok[1] in names
                                     for _, _, inc in ph for _, vt in inc for tok in vt)
        groups = []
        for k, (b, ins) in enumerate(blocks):
            self.cur = b
            self.follow = blocks[k + 1][0] if k + 1 < len(blocks) else None
            self.out = []
            if b in self.phis and not self.direct[b]:
                for d, t, inc in self.phis[b]:
                    self.out.append('%s = %s_in;' % (self.v(d), self.v(d)))
            for s in ins:
                self.pre = []
                n0 = len(self.out)
                self.inst(s)
                if self.pre:
                    self.out[n0:n0] = self.pre
            groups.append((self.lab(b), self.out))
        # temporaries living in one block are declared there, so that symbolic
        # execution does not merge them at control-flow joins
        where = {}
        for i, (_, out) in enumerate(groups):
            for ln in out:
                for w in re.findall(r'\b(?:v_\w+|und\d+)', ln):
                    where.setdefault(w, set()).add(i)
        params = {self.v(nm) for _, nm, _ in self.params}
        top, local = [], {}
        for dl in self.decl:
            nm = re.search(r'(\w+)(?:\[\d+\])?;$', dl).group(1)
            if nm not in where:
                if nm.startswith('st_') or nm in params:
                    top.append(dl)
                continue
            if len(where[nm]) == 1 and not nm.startswith('st_'):
                local.setdefault(next(iter(where[nm])), []).append(dl)
            else:
                top.append(dl)
        sig = self.g.sig(self.name)
        head = ['%s {' % sig]
        pre = []
        for (t, nm, info) in self.params:
            if 'byval' in info:
                c = m.ct(info['byval'])
                pre.append('%s bv_%s; bv_%s = *(%s*)%s; %s = (vp_ptr)&bv_%s;' % (
                    c, mangle(nm), mangle(nm), c, self.v(nm), self.v(nm), mangle(nm)))
        text = head + ['  ' + d for d in top] + ['  ' + d for d in pre]
        for i, (lab, out) in enumerate(groups):
            text.append(' %s: {' % lab)
            text += ['  ' + d for d in local.get(i, [])]
            text += ['  ' + x for x in out if x]
            text.append(' }')
        return '\n'.join(text + ['}'])

    def lab(self, b):
        return 'L_' + mangle(b)

    def declare(self, n, t):
        self.vt[n] = t
        self.decl.append('%s %s;' % (self.m.ct(t), self.v(n)))

    def edge(self, to, last=False):
        """phi copies for the edge cur->to followed by goto; falling through to
        the next block instead lets CBMC restart its count of loop iterations"""
        r = []
        for d, t, inc in self.phis.get(to, []):
            for lab, vt in inc:
                if lab == self.cur:
                    p = P(vt, self.m)
                    e = self.value(p, t)
                    r.append('%s%s = %s;' % (self.v(d), '' if self.direct[to] else '_in', e))
                    break
            else:
                raise Unsupported('phi edge')
        if not (last and to == self.follow):
            r.append('goto %s;' % self.lab(to))
        return ' '.join(r)

    def inst(self, s):
        m = self.m
        s = re.sub(r'(, !\S+ !\S+)+$', '', s)
        s = re.sub(r', !(srcloc|tbaa|nosanitize|prof|range|noundef|nonnull|llvm\.loop|alias\.scope|noalias|tbaa\.struct|heapallocsite|invariant\.load|align|dereferenceable) ![0-9]+', '', s)
        toks = lex(s)
        p = P(toks, m)
        d = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            d = p.next()[1]
            p.next()
        op = p.next()[1]
        while op in FLAGS:
            op = p.next()[1]
        O = self.out.append

        def setd(t, e):
            self.declare(d, t)
            O('%s = %s;' % (self.v(d), e))

        def flags():
            while p.peek()[1] in FLAGS:
                p.next()

        if op == 'phi':
            return
        if op in INT_BIN:
            flags()
            t, a = self.tv(p)
            p.need(',')
            b = self.value(p, t)
            if t.k != 'int':
                raise Unsupported(op + ' on ' + t.k)
            w = wide(t.n)
            return setd(t, trunc_to(t.n, '(%s)%s %s (%s)%s' % (w, a, INT_BIN[op], w, b)))
        if op in ('shl', 'lshr', 'ashr'):
            flags()
            t, a = self.tv(p)
            p.need(',')
            b = self.value(p, t)
            n = t.n
            sh = '(unsigned)(%s)' % b
            # an out-of-range shift yields poison in the IR; the sanitizer has
            # already flagged source-level ones, so an arbitrary value is used.
            guard = '(%s) < %d' % (b, n)
            if op == 'shl':
                e = trunc_to(n, '(%s)%s << %s' % (wide(n), a, sh))
            elif op == 'lshr':
                e = trunc_to(n, '(%s)%s >> %s' % (wide(n), a, sh))
            else:
                e = trunc_to(n, '%s >> %s' % (sgn(n, a), sh))
            if re.fullmatch(r'\(?\(?\w*\)?\(?[0-9]+U?L*\)?\)?', b):
                return setd(t, e)
            return setd(t, '%s ? %s : %s' % (guard, e, self.undef(t)))
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            flags()
            t, a = self.tv(p)
            p.need(',')
            b = self.value(p, t)
            o = '/' if op[1:] == 'div' else '%'
            O('VP_UB((%s) != 0, "division by zero");' % b)
            const = re.fullmatch(r'\(?\(?\w*\)?\(?([0-9]+)U?L*\)?\)?', b)
            if const and t.n in (32, 64) and 0 < int(const.group(1)) < 1 << (t.n - 1):
                # one divider serves the quotient and the remainder by a constant
                q = ('(%s / %s)' % (a, b) if op[0] == 'u' else
                     '((%s)((int%d_t)%s / (int%d_t)%s))' % (wide(t.n), t.n, a, t.n, b))
                e = trunc_to(t.n, q if o == '/' else '%s - %s * %s' % (a, q, b))
            elif op[0] == 'u':
                e = trunc_to(t.n, '(%s)%s %s (%s)%s' % (wide(t.n), a, o, wide(t.n), b))
            else:
                sw = {32: 'int64_t', 64: 'vp_s128', 128: 'vp_s128'}[max(32, cw(t.n))]
                e = trunc_to(t.n, '(%s)%s %s (%s)%s' % (sw, sgn(t.n, a), o, sw, sgn(t.n, b)))
            return setd(t, e)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            flags()
            t, a = self.tv(p)
            p.need(',')
            b = self.value(p, t)
            return setd(t, '%s %s %s' % (a, {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}[op], b))
        if op == 'fneg':
            flags()
            t, a = self.tv(p)
            return setd(t, '-%s' % a)
        if op == 'icmp':
            flags()
            pr = p.next()[1]
            t, a = self.tv(p)
            p.need(',')
            b = self.value(p, t)
            if t.k == 'ptr':
                if pr in ('eq', 'ne'):
                    e = '%s %s %s' % (a, '==' if pr == 'eq' else '!=', b)
                else:
                    o = {'gt': '>', 'lt': '<', 'ge': '>=', 'le': '<='}[pr[1:]]
                    if pr[0] == 's':
                        e = '(int64_t)(%s) %s (int64_t)(%s)' % (a, o, b)
                    else:
                        e = '(uint64_t)(%s) %s (uint64_t)(%s)' % (a, o, b)
            elif pr in ('eq', 'ne'):
                e = '%s %s %s' % (a, '==' if pr == 'eq' else '!=', b)
            else:
                o = {'gt': '>', 'lt': '<', 'ge': '>=', 'le': '<='}[pr[1:]]
                if pr[0] == 'u':
                    e = '(%s)%s %s (%s)%s' % (wide(t.n), a, o, wide(t.n), b)
                else:
                    e = '%s %s %s' % (sgn(t.n, a), o, sgn(t.n, b))
            return setd(I(1), '(uint8_t)(%s)' % e)
        if op == 'fcmp':
            flags()
            pr = p.next()[1]
            t, a = self.tv(p)
            p.need(',')
            b = self.value(p, t)
            un = '((%s) != (%s) || (%s) != (%s))' % (a, a, b, b)
            o = {'eq': '==', 'gt': '>', 'lt': '<', 'ge': '>=', 'le': '<=', 'ne': '!='}
            if pr == 'ord':
                e = '!' + un
            elif pr == 'uno':
                e = un
            elif pr == 'true':
                e = '1'
            elif pr == 'false':
                e = '0'
            elif pr[0] == 'o':
                e = '(!%s && (%s) %s (%s))' % (un, a, o[pr[1:]], b)
            else:
                e = '(%s || (%s) %s (%s))' % (un, a, o[pr[1:]], b)
            return setd(I(1), '(uint8_t)(%s)' % e)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptrunc', 'fpext',
                  'fptoui', 'fptosi', 'uitofp', 'sitofp', 'freeze'):
            flags()
            t, a = self.tv(p)
            if op == 'freeze':
                return setd(t, a)
            p.need('to')
            t2 = p.ty()
            return setd(t2, self.g.cast(op, t, a, t2))
        if op == 'select':
            flags()
            t, c = self.tv(p)
            p.need(',')
            t1, a = self.tv(p)
            p.need(',')
            t2, b = self.tv(p)
            if t.k != 'int':
                raise Unsupported('vector select')
            if t1.k in ('arr', 'struct'):
                self.declare(d, t1)
                O('if (%s) %s = %s; else %s = %s;' % (c, self.v(d), a, self.v(d), b))
                return
            return setd(t1, '%s ? %s : %s' % (c, a, b))
        if op == 'alloca':
            p.eat('inalloca')
            t = p.ty()
            n = 1
            al = 1
            while p.eat(','):
                if p.eat('align'):
                    al = int(p.next()[1])
                else:
                    tt, c = self.tv(p)
                    mm = re.search(r'(\d+)', c.replace('uint32_t', '').replace('uint64_t', ''))
                    if not mm or 'v_' in c:
                        raise Unsupported('dynamic alloca')
                    n = int(mm.group(1))
            sz = m.size_align(t)[0]
            nm = 'st_' + mangle(d)
            if sz == 0:
                self.decl.append('uint8_t %s[1];' % nm)
                return setd(PTR, '(vp_ptr)%s' % nm)
            if n != 1:
                self.decl.append('VP_ALIGN(%d) %s %s[%d];' % (al, m.ct(t), nm, n))
                return setd(PTR, '(vp_ptr)%s' % nm)
            self.decl.append('VP_ALIGN(%d) %s %s;' % (al, m.ct(t), nm))
            self.allocas[self.v(d)] = (m.ct(t), nm)
            return setd(PTR, '(vp_ptr)&%s' % nm)
        if op == 'load':
            at = p.eat('atomic')
            flags()
            t = p.ty()
            p.need(',')
            _, a = self.tv(p)
            if m.size_align(t)[0] == 0:
                return setd(t, self.undef(t))
            if t.k == 'int' and (t.n + 7) // 8 not in (1, 2, 4, 8, 16):
                return setd(t, trunc_to(t.n, 'vp_load%d(%s)' % ((t.n + 7) // 8, a)))
            if t.k == 'int' and mask(t.n):
                return setd(t, trunc_to(t.n, '*(%s*)%s' % (m.ct(t), a)))
            return setd(t, '*(%s*)%s' % (m.ct(t), a))
        if op == 'store':
            p.eat('atomic')
            flags()
            t, a = self.tv(p)
            p.need(',')
            _, b = self.tv(p)
            if m.size_align(t)[0] == 0:
                return
            if t.k == 'int' and (t.n + 7) // 8 not in (1, 2, 4, 8, 16):
                if t.n > 64:
                    raise Unsupported('store i%d' % t.n)
                O('vp_store%d(%s, %s);' % ((t.n + 7) // 8, b, a))
                return
            O('*(%s*)%s = %s;' % (m.ct(t), b, a))
            return
        if op == 'getelementptr':
            flags()
            return setd(PTR, self.g.gep(p, self))
        if op == 'extractvalue':
            t, a = self.tv(p)
            e = a
            while p.eat(','):
                i = int(p.next()[1])
                if t.k == 'struct':
                    e += '.f%d' % i
                    t = t.fs[i]
                else:
                    e += '.a[%d]' % i
                    t = t.el
            if d is None:
                return
            if m.size_align(t)[0] == 0:
                self.declare(d, t)
                return
            return setd(t, e)
        if op == 'insertvalue':
            t, a = self.tv(p)
            p.need(',')
            vt, b = self.tv(p)
            self.declare(d, t)
            if a:
                O('%s = %s;' % (self.v(d), a))
            e = self.v(d)
            tt = t
            while p.eat(','):
                i = int(p.next()[1])
                if tt.k == 'struct':
                    e += '.f%d' % i
                    tt = tt.fs[i]
                else:
                    e += '.a[%d]' % i
                    tt = tt.el
            if m.size_align(tt)[0]:
                O('%s = %s;' % (e, b))
            return
        if op == 'br':
            if p.eat('label'):
                O(self.edge(p.next()[1], True))
                return
            t, c = self.tv(p)
            p.need(',')
            p.need('label')
            a = p.next()[1]
            p.need(',')
            p.need('label')
            b = p.next()[1]
            if a == self.follow and a != b:
                O('if (!%s) { %s }' % (c, self.edge(b)))
                O(self.edge(a, True))
            else:
                O('if (%s) { %s }' % (c, self.edge(a)))
                O(self.edge(b, True))
            return
        if op == 'switch':
            t, c = self.tv(p)
            p.need(',')
            p.need('label')
            dflt = p.next()[1]
            p.need('[')
            while not p.eat(']'):
                tt, cv = self.tv(p)
                p.need(',')
                p.need('label')
                O('if (%s == %s) { %s }' % (c, cv, self.edge(p.next()[1])))
            O(self.edge(dflt, True))
            return
        if op == 'ret':
            if p.eat('void'):
                if self.name in self.g.roots:
                    O('VP_COVER(1, "COVER END");')
                O('return;')
                return
            t, a = self.tv(p)
            O('return %s;' % a)
            return
        if op == 'unreachable':
            O('VP_UB(0, "unreachable code reached"); VP_STOP();')
            if self.rt.k == 'void':
                O('return;')
            else:
                O('{ %s vp_dead; return vp_dead; }' % m.ct(self.rt))
            return
        if op in ('call', 'invoke'):
            if op == 'invoke':
                raise Unsupported('invoke')
            return self.call(p, d)
        if op in ('landingpad', 'resume', 'cleanupret', 'catchswitch'):
            # exceptional edges are cut by lowerinvoke; blocks left over are dead
            if d:
                self.declare(d, Ty('struct', fs=[PTR, I(32)]))
            O('VP_UB(0, "exception path"); VP_STOP();')
            return
        if op == 'fence':
            return
        if op in ('atomicrmw', 'cmpxchg'):
            raise Unsupported(op)
        raise Unsupported('inst ' + op + ' : ' + s[:80])

    # ------------------------------------------------------ calls
    def call(self, p, d):
        m = self.m
        while True:
            k, v = p.peek()
            if v in FLAGS or v in ATTR_WORDS or k == 'attr':
                p.next()
                continue
            if v in PAREN_ATTRS:
                m.skip_attrs(p)
                continue
            if v in ('coldcc', 'cc'):
                raise Unsupported('cc')
            break
        rt = p.ty()
        if p.at('('):  # function type for varargs callee
            dd = 0
            while True:
                x = p.next()[1]
                dd += x == '('
                dd -= x == ')'
                if dd == 0:
                    break
        if p.peek()[1] == 'asm':
            # an empty asm statement with memory clobber is a compiler barrier
            s = ''.join(x[1] for x in p.t)
            if re.search(r'asm(sideeffect)?""', s) and rt.k == 'void':
                return
            raise Unsupported('inline asm')
        k, callee = p.next()
        p.need('(')
        args = []
        if not p.eat(')'):
            while True:
                t = p.ty()
                if t.k == 'metadata':
                    p.next()
                    if not p.at(',') and not p.at(')'):
                        p.next()
                    args.append((t, '0'))
                else:
                    m.skip_attrs(p)
                    args.append((t, self.value(p, t)))
                if p.eat(')'):
                    break
                p.need(',')
        A = [a for _, a in args]
        O = self.out.append

        def setd(e):
            if d is None:
                O('%s;' % e)
            else:
                self.declare(d, rt)
                O('%s = %s;' % (self.v(d), e))

        if k == 'loc':
            self.g.need_ptrcall = True
            ft = '%s (*)(%s)' % (m.ct(rt), ', '.join(m.ct(t) for t, _ in args) or 'void')
            e = '((%s)%s)(%s)' % (ft, self.v(callee), ', '.join(A))
            return setd(e) if rt.k != 'void' else O(e + ';')
        if callee in m.alias:
            callee = m.alias[callee]
        n = callee[1:].strip('"')
        if n.startswith(IGNORED):
            if n.startswith('llvm.stacksave'):
                self.declare(d, PTR)
                O('%s = 0;' % self.v(d))
            return
        if n.startswith('llvm.lifetime.'):
            # contents are indeterminate before and after an object's lifetime,
            # so a read through a dangling reference yields an arbitrary value
            a = self.allocas.get(A[1])
            if a:
                self.g.need_undef.add(a[0])
                O('%s = vp_nd_%s();' % (a[1], a[0]))
            return
        if n.startswith('llvm.'):
            return self.intrinsic(n, rt, args, d, setd)
        if n == 'vp_check':
            lab = self.g.cstring(args[1][1])
            cid = self.g.check_id(lab)
            O('VP_CHECK(%s, %d, "CHECK %s");' % (A[0], cid, lab))
            return
        if n == 'vp_cover':
            lab = self.g.cstring(args[1][1])
            O('VP_COVER(%s, "COVER %s");' % (A[0], lab))
            self.g.covers.add(lab)
            return
        if n == 'vp_assume':
            O('VP_ASSUME(%s);' % A[0])
            return
        if n == 'vp_observe':
            O('VP_OBSERVE(%s);' % A[0])
            return
        if n == '__cxa_atexit':
            if d:
                self.declare(d, rt)
                O('%s = 0;' % self.v(d))
            return
        if NORETURN_FAIL.match(n) and callee not in m.funcs:
            O('VP_UB(0, "call to %s"); VP_STOP();' % n)
            if d:
                self.declare(d, rt)
            return
        if callee in m.funcs:
            if callee not in self.g.emitted:
                self.g.work.append(callee)
        else:
            self.g.use_extern(callee, n)
        e = '%s(%s)' % (self.g.fname(callee), ', '.join(A))
        if rt.k == 'void':
            O(e + ';')
        else:
            setd(e)

    def intrinsic(self, n, rt, args, d, setd):
        O = self.out.append
        m = self.m
        A = [a for _, a in args]
        w = rt.n if rt.k == 'int' else 0
        if n == 'llvm.ubsantrap':
            kd = int(re.search(r'(\d+)', A[0].replace('uint8_t', '')).group(1))
            O('VP_UB(0, "UB %s"); VP_STOP();' % UBSAN.get(kd, str(kd)))
            return
        if n in ('llvm.trap', 'llvm.debugtrap'):
            O('VP_UB(0, "trap"); VP_STOP();')
            return
        if n.startswith(('llvm.memcpy.', 'llvm.memmove.')):
            sz = self.g.constval(A[2])
            if sz is None:
                O('vp_memmove(%s, %s, %s);' % (A[0], A[1], A[2]))
            elif sz:
                if self.g.byte_copy:
                    O('vp_memmove(%s, %s, %s);' % (A[0], A[1], A[2]))
                else:
                    O('{ typedef struct { uint8_t b[%d]; } B; B vp_t = *(B*)%s; *(B*)%s = vp_t; }' % (sz, A[1], A[0]))
            return
        if n.startswith('llvm.memset.'):
            sz = self.g.constval(A[2])
            cv = self.g.constval(A[1])
            if sz is None:
                O('vp_memset(%s, %s, %s);' % (A[0], A[1], A[2]))
            elif sz:
                if cv is not None:
                    O('{ typedef struct { uint8_t b[%d]; } B; static const B vp_z = {{%s}}; *(B*)%s = vp_z; }' % (
                        sz, ','.join([str(cv & 255)] * sz), A[0]))
                else:
                    O('vp_memset(%s, %s, %s);' % (A[0], A[1], A[2]))
            return
        if n.startswith('llvm.expect.'):
            return setd(A[0])
        if n.startswith('llvm.is.constant'):
            return setd('0')
        if n.startswith('llvm.objectsize.'):
            return setd('~(uint64_t)0')
        if n.startswith('llvm.launder.') or n.startswith('llvm.strip.'):
            return setd(A[0])
        base = n.split('.')[1]
        if base in ('ctpop', 'cttz', 'ctlz'):
            return setd('(%s)vp_%s(%s, %d)' % (ut(w), base, A[0], w))
        if base == 'bswap':
            return setd('vp_bswap%d(%s)' % (w, A[0]))
        if base == 'bitreverse':
            return setd('(%s)vp_bitrev(%s, %d)' % (ut(w), A[0], w))
        if base in ('umin', 'umax'):
            return setd('%s %s %s ? %s : %s' % (A[0], '<' if base == 'umin' else '>', A[1], A[0], A[1]))
        if base in ('smin', 'smax'):
            return setd('%s %s %s ? %s : %s' % (sgn(w, A[0]), '<' if base == 'smin' else '>', sgn(w, A[1]), A[0], A[1]))
        if base == 'abs':
            return setd(trunc_to(w, '%s < 0 ? (%s)0 - (%s)%s : (%s)%s' % (sgn(w, A[0]), wide(w), wide(w), A[0], wide(w), A[0])))
        if base in ('fshl', 'fshr'):
            c = '((unsigned)(%s) %% %d)' % (A[2], w)
            if base == 'fshl':
                e = '%s == 0 ? (%s)%s : (((%s)%s << %s) | ((%s)%s >> (%d - %s)))' % (
                    c, wide(w), A[0], wide(w), A[0], c, wide(w), A[1], w, c)
            else:
                e = '%s == 0 ? (%s)%s : (((%s)%s >> %s) | ((%s)%s << (%d - %s)))' % (
                    c, wide(w), A[1], wide(w), A[1], c, wide(w), A[0], w, c)
            return setd(trunc_to(w, e))
        mm = re.match(r'llvm\.([su])(add|sub|mul)\.with\.overflow\.i(\d+)', n)
        if mm:
            b = int(mm.group(3))
            o = {'add': '+', 'sub': '-', 'mul': '*'}[mm.group(2)]
            self.declare(d, rt)
            dv = self.v(d)
            W = wide(b)
            if mm.group(1) == 'u':
                if b > 64:
                    raise Unsupported('uovf128')
                big = 'uint64_t' if b <= 32 else 'vp_u128'
                O('{ %s vp_r = (%s)%s %s (%s)%s; %s.f0 = %s; %s.f1 = (uint8_t)(vp_r != (%s)%s.f0); }' % (
                    big, big, A[0], o, big, A[1], dv, trunc_to(b, 'vp_r'), dv, big, dv))
            else:
                if b > 64:
                    raise Unsupported('sovf128')
                big = 'int64_t' if b <= 32 else 'vp_s128'
                O('{ %s vp_r = (%s)%s %s (%s)%s; %s.f0 = %s; %s.f1 = (uint8_t)(vp_r != (%s)%s); }' % (
                    big, big, sgn(b, A[0]), o, big, sgn(b, A[1]), dv, trunc_to(b, 'vp_r'), dv, big, sgn(b, dv + '.f0')))
            return
        mm = re.match(r'llvm\.([us])(add|sub)\.sat\.i(\d+)', n)
        if mm:
            b = int(mm.group(3))
            if b > 64:
                raise Unsupported('sat128')
            self.declare(d, rt)
            dv = self.v(d)
            o = '+' if mm.group(2) == 'add' else '-'
            if mm.group(1) == 'u':
                if o == '+':
                    O('{ vp_u128 vp_r = (vp_u128)%s + %s; vp_u128 vp_m = (((vp_u128)1) << %d) - 1; %s = (%s)(vp_r > vp_m ? vp_m : vp_r); }' % (
                        A[0], A[1], b, dv, ut(b)))
                else:
                    O('%s = %s < %s ? 0 : %s;' % (dv, A[0], A[1], trunc_to(b, '%s - %s' % (A[0], A[1]))))
            else:
                O('{ vp_s128 vp_r = (vp_s128)%s %s (vp_s128)%s; vp_s128 vp_hi = (((vp_s128)1) << %d) - 1; vp_s128 vp_lo = -vp_hi - 1; '
                  'if (vp_r > vp_hi) vp_r = vp_hi; if (vp_r < vp_lo) vp_r = vp_lo; %s = %s; }' % (
                      sgn(b, A[0]), o, sgn(b, A[1]), b - 1, dv, trunc_to(b, 'vp_r')))
            return
        if base == 'fabs':
            return setd('(%s) < 0 ? -(%s) : (%s)' % (A[0], A[0], A[0]))
        if base == 'ptrmask':
            return setd('(vp_ptr)((uint64_t)%s & %s)' % (A[0], A[1]))
        if n == 'llvm.eh.typeid.for':
            return setd('0')
        raise Unsupported('intrinsic ' + n)


class Gen:
    def __init__(self, mod):
        self.m = mod
        self.emitted = {}
        self.work = []
        self.externs = {}
        self.used_globals = []
        self.seen_globals = set()
        self.need_undef = set()
        self.labels = []
        self.covers = set()
        self.byte_copy = False

    # -- names
    def fname(self, n):
        return 'f_' + mangle(n)

    def gname(self, n):
        return 'g_' + mangle(n)

    def sig(self, n):
        rt, params, va = self.m.funcs[n][:3]
        if va:
            raise Unsupported('varargs definition')
        return '%s %s(%s)' % (self.m.ct(rt), self.fname(n), ', '.join(
            '%s v_%s' % (self.m.ct(t), mangle(nm)) for t, nm, _ in params) or 'void')

    def use_extern(self, callee, n):
        if n not in EXTERN_OK:
            raise Unsupported('external function ' + n)
        self.externs[callee] = n

    def check_id(self, lab):
        self.labels.append(lab)
        return len(self.labels) - 1

    # -- constants
    def constval(self, e):
        m = re.fullmatch(r'\(*(?:\(\w+\))?\(?\s*(\d+)U?L*\)*', e)
        return int(m.group(1)) if m else None

    def cstring(self, e):
        m = re.fullmatch(r'\(vp_ptr\)&(g_\w+)', e)
        if not m:
            return 'unlabelled'
        for n in self.m.globals:
            if self.gname(n) == m.group(1):
                t, p, c = self.m.globals[n]
                k, v = p.t[p.i]
                if k == 'str' and v.startswith('c'):
                    s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda q: chr(int(q.group(1), 16)), v[2:-1])
                    return re.sub(r'[^ -!#-\[\]-~]', '_', s.rstrip('\0'))
        return 'unlabelled'

    def use_global(self, n):
        if n in self.m.alias:
            n = self.m.alias[n]
        if n in self.m.funcs:
            if n not in self.emitted:
                self.work.append(n)
            return '(vp_ptr)&%s' % self.fname(n)
        if n in self.m.decls:
            self.use_extern(n, n[1:].strip('"'))
            return '(vp_ptr)&%s' % self.fname(n)
        if n not in self.seen_globals:
            self.seen_globals.add(n)
            self.used_globals.append(n)
        return '(vp_ptr)&%s' % self.gname(n)

    def const(self, p, t, f=None, init=False):
        """expression for a constant; init=True -> brace initialiser form"""
        k, v = p.next()
        if k == 'num':
            if t.k == 'int':
                x = int(v) & ((1 << t.n) - 1)
                if t.n > 64:
                    return '((((vp_u128)0x%xULL) << 64) | 0x%xULL)' % (x >> 64, x & (2**64 - 1))
                return '((%s)%d%s)' % (self.m.ct(t), x, 'ULL' if t.n > 32 else 'U')
            if t.k in ('double', 'float'):
                if v.startswith('0x'):
                    import struct
                    b = int(v[2:], 16)
                    dv = struct.unpack('<d', struct.pack('<Q', b))[0]
                    if dv != dv:
                        return '(0.0/0.0)' if not init else '(0.0/0.0)'
                    if dv in (float('inf'), float('-inf')):
                        return '(1.0/0.0)' if dv > 0 else '(-1.0/0.0)'
                    return '((%s)%s)' % (t.k, dv.hex())
                return '((%s)%s)' % (t.k, float(v).hex())
        if v == 'true':
            return '((uint8_t)1U)'
        if v == 'false':
            return '((uint8_t)0U)'
        if v == 'null' or v == 'none':
            return '((vp_ptr)0)'
        if v in ('undef', 'poison'):
            if init:
                return self.zero(t)
            return f.undef(t)
        if v == 'zeroinitializer':
            if init:
                return self.zero(t)
            return '((%s)%s)' % (self.m.ct(t), self.zero(t))
        if k == 'glo':
            return self.use_global(v)
        if k == 'str' and v.startswith('c'):
            raw = v[2:-1]
            by = []
            i = 0
            while i < len(raw):
                if raw[i] == '\\':
                    if raw[i + 1] == '\\':
                        by.append(92)
                        i += 2
                    else:
                        by.append(int(raw[i + 1:i + 3], 16))
                        i += 3
                else:
                    by.append(ord(raw[i]))
                    i += 1
            b = '{{%s}}' % ','.join(map(str, by))
            return b if init else '((%s)%s)' % (self.m.ct(t), b)
        if v == '{' or v == '[' or v == '<':
            packed = False
            if v == '<':
                p.need('{')
                packed = True
            vals = []
            close = {'{': '}', '[': ']', '<': '}'}[v]
            i = 0
            if not p.eat(close):
                while True:
                    tt = p.ty()
                    e = self.const(p, tt, f, True)
                    if self.m.size_align(tt)[0] or t.k == 'arr':
                        vals.append(e if t.k == 'arr' else '.f%d = %s' % (i, e))
                    i += 1
                    if p.eat(close):
                        break
                    p.need(',')
            if packed:
                p.need('>')
            b = ('{{%s}}' if t.k == 'arr' else '{%s}') % ', '.join(vals)
            return b if init else '((%s)%s)' % (self.m.ct(t), b)
        if v == 'getelementptr':
            while p.peek()[1] in FLAGS:
                p.next()
            if p.peek()[1] == 'inrange':
                p.next()
            p.need('(')
            e = self.gep(p, f, const=True)
            p.need(')')
            return e
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            p.need('(')
            t1 = p.ty()
            a = self.const(p, t1, f)
            p.need('to')
            t2 = p.ty()
            p.need(')')
            return '(' + self.cast(v, t1, a, t2) + ')'
        if v in INT_BIN:
            while p.peek()[1] in FLAGS:
                p.next()
            p.need('(')
            t1 = p.ty()
            a = self.const(p, t1, f)
            p.need(',')
            t2 = p.ty()
            b = self.const(p, t2, f)
            p.need(')')
            return '(' + trunc_to(t1.n, '(%s)%s %s (%s)%s' % (wide(t1.n), a, INT_BIN[v], wide(t1.n), b)) + ')'
        raise Unsupported('const %s %s' % (k, v))

    def zero(self, t):
        if t.k in ('arr', 'struct'):
            if self.m.size_align(t)[0] == 0:
                return '{}'
            if t.k == 'arr':
                return '{{%s}}' % self.zero(t.el)
            for i, f in enumerate(t.fs):
                if self.m.size_align(f)[0]:
                    return '{.f%d = %s}' % (i, self.zero(f))
        return '0'

    def cast(self, op, t, a, t2):
        if op in ('zext', 'trunc'):
            return trunc_to(t2.n, a) if op == 'trunc' else '(%s)%s' % (ut(t2.n), a)
        if op == 'sext':
            if t.n == 1:
                return trunc_to(t2.n, '(%s)0 - (%s)%s' % (wide(t2.n), wide(t2.n), a))
            return trunc_to(t2.n, '(%s)%s' % (st(t2.n), sgn(t.n, a)))
        if op == 'ptrtoint':
            return trunc_to(t2.n, '(uint64_t)%s' % a)
        if op == 'inttoptr':
            return '(vp_ptr)(uint64_t)%s' % a
        if op == 'bitcast':
            if t.k == t2.k and (t.k != 'int' or t.n == t2.n):
                return a
            if t.k == 'int' and t2.k in ('float', 'double'):
                return 'vp_bits_to_%s(%s)' % (t2.k, a)
            if t2.k == 'int' and t.k in ('float', 'double'):
                return 'vp_%s_to_bits(%s)' % (t.k, a)
            raise Unsupported('bitcast %s->%s' % (t.k, t2.k))
        if op in ('fptrunc', 'fpext'):
            return '(%s)%s' % (t2.k, a)
        if op == 'fptoui':
            return trunc_to(t2.n, '(%s)%s' % (wide(t2.n), a))
        if op == 'fptosi':
            return trunc_to(t2.n, '(%s)%s' % (st(max(32, t2.n)), a))
        if op == 'uitofp':
            return '(%s)(%s)' % (t2.k, a)
        if op == 'sitofp':
            return '(%s)%s' % (t2.k, sgn(t.n, a))
        raise Unsupported('cast ' + op)

    def gep(self, p, f, const=False):
        m = self.m
        t = p.ty()
        p.need(',')
        pt = p.ty()
        base = f.value(p, pt) if f else self.const(p, pt)
        idx = []
        while p.eat(','):
            p.eat('inrange')
            it = p.ty()
            e = f.value(p, it) if f else self.const(p, it)
            c = self.constval(e)
            if c is not None and c >= 1 << (it.n - 1):
                c -= 1 << it.n
            idx.append((it, e, c))
        if m.size_align(t)[0] == 0:
            off = '0'
            return base
        if const or f is None:
            # numeric offset
            off = 0
            tt = t
            for j, (it, e, c) in enumerate(idx):
                if c is None:
                    raise Unsupported('nonconst const gep')
                if j == 0:
                    off += c * m.size_align(tt)[0]
                elif tt.k == 'struct':
                    off += m.field_off(tt, c)
                    tt = tt.fs[c]
                else:
                    tt = tt.el
                    off += c * m.size_align(tt)[0]
            return '(vp_ptr)((char*)%s + (%d))' % (base, off)

        def ix(it, e, c):
            if c is not None:
                return str(c)
            return sgn(it.n, e) if it.n != 64 else '(int64_t)%s' % e

        e = '((%s*)%s)[%s]' % (m.ct(t), base, ix(*idx[0]))
        tt = t
        for (it, x, c) in idx[1:]:
            if tt.k == 'struct':
                e += '.f%d' % c
                tt = tt.fs[c]
            elif tt.k == 'arr':
                e += '.a[%s]' % ix(it, x, c)
                tt = tt.el
                if m.size_align(tt)[0] == 0:
                    break
            else:
                raise Unsupported('gep into ' + tt.k)
        return '(vp_ptr)&%s' % e

    # -- whole output
    def generate(self, roots):
        bodies = []
        self.roots = set(roots)
        self.work = list(roots)
        while self.work:
            n = self.work.pop()
            if n in self.emitted:
                continue
            self.emitted[n] = True
            bodies.append(Func(self, n).emit())
        gl = []
        gdecl = []
        i = 0
        while i < len(self.used_globals):
            n = self.used_globals[i]
            i += 1
            t, p, c = self.m.globals[n]
            ct = self.m.ct(t)
            if self.m.size_align(t)[0] == 0:
                gdecl.append('static uint8_t %s[1];' % self.gname(n))
                continue
            if p is None:
                raise Unsupported('external global ' + n)
            q = P(p.t, self.m)
            q.i = p.i
            init = self.const(q, t, None, True)
            gdecl.append('static %s %s;' % (ct, self.gname(n)))
            gl.append('static %s %s = %s;' % (ct, self.gname(n), init))
            # constants may have pulled in functions
            while self.work:
                k = self.work.pop()
                if k in self.emitted:
                    continue
                self.emitted[k] = True
                bodies.append(Func(self, k).emit())
        protos = [self.sig(n) + ';' for n in self.emitted]
        ext = []
        for c, n in self.externs.items():
            ext.append('#define %s %s' % (self.fname(c), EXTERN_OK[n]))
        und = []
        for c in sorted(self.need_undef):
            und.append('VP_ND_DECL(%s)' % c)
        return '\n'.join(['#include "prelude.h"'] + self.m.typedefs + und + ext + protos + gdecl + gl + bodies) + '\n'


EXTERN_OK = {
    'vp_u8': 'vp_u8', 'vp_u16': 'vp_u16', 'vp_u32': 'vp_u32', 'vp_u64': 'vp_u64', 'vp_bool': 'vp_bool',
    'memcmp': 'vp_memcmp', 'bcmp': 'vp_memcmp', 'strlen': 'vp_strlen', 'memchr': 'vp_memchr',
    'memcpy': 'vp_memmove', 'memmove': 'vp_memmove', 'memset': 'vp_memset',
}


def translate(m, roots=None):
    """-> (C text, info)"""
    m.typedefs, m.done = [], {}
    g = Gen(m)
    if roots is None:
        roots = [n for n in m.funcs if n.startswith('@h_')]
    ctors = '@llvm.global_ctors' in m.globals
    c = g.generate(roots)
    return c, {'functions': len(g.emitted), 'labels': g.labels, 'covers': sorted(g.covers), 'ctors': ctors,
               'emitted': sorted(g.emitted)}


if __name__ == '__main__':
    # ir2c.py in.ll outdir : one C file per harness plus all.c, and info.json
    import json
    import os
    txt = open(sys.argv[1]).read()
    out = sys.argv[2]
    mod = Module(txt)
    res = {}
    good = []
    for r in [n for n in mod.funcs if n.startswith('@h_')]:
        try:
            c, info = translate(mod, [r])
            open(os.path.join(out, r[1:] + '.c'), 'w').write(c)
            res[r[1:]] = info
            good.append(r)
        except Unsupported as e:
            res[r[1:]] = {'error': str(e)}
    if good:
        c, info = translate(mod, good)
        open(os.path.join(out, 'all.c'), 'w').write(c)
    json.dump(res, open(os.path.join(out, 'info.json'), 'w'))
