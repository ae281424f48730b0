"""Symbolic executor for LLVM IR over z3 bit-vectors.

Concrete values are Python ints, symbolic ones z3 expressions (Bool for i1).  Memory is a set of
objects with concrete addresses (object number in the upper 32 bits), byte contents, bounds and
lifetimes.  A byte is an int, a z3 BV8, None (uninitialised) or (value, k) = byte k of a value.
"""
import random, struct, time
import z3
import llvmc as L
from ir import Module, Undef, const_int, zero_of

SHIFT = 32
OFFMASK = (1 << SHIFT) - 1


class Violation(Exception):
    def __init__(self, kind, msg, model=None):
        Exception.__init__(self, msg)
        self.kind, self.msg, self.model = kind, msg, model

class Unsupported(Exception):
    pass

class PathEnd(Exception):
    pass

class Concretize(Exception):
    def __init__(self, expr): self.expr = expr

class CaseStop(Exception):
    pass


class Obj:
    __slots__ = ('size', 'data', 'owner', 'kind', 'name', 'ro', 'pad', 'dead')
    def __init__(self, size, data, owner, kind, name, pad, ro=False):
        self.size, self.data, self.owner, self.kind, self.name, self.pad, self.ro = size, data, owner, kind, name, pad, ro
        self.dead = None
    def clone(self, owner):
        o = Obj(self.size, list(self.data), owner, self.kind, self.name, self.pad, self.ro)
        o.dead = self.dead
        return o

class State:
    __slots__ = ('mem', 'owner', 'pc', 'assign', 'conc', 'ninputs', 'inputs', 'log', 'nextid', 'nalloc', 'nlive',
                 'caught', 'steps', 'udep', 'atexit')
    def __init__(self):
        self.mem = {}; self.owner = object(); self.pc = (); self.assign = {}; self.conc = {}
        self.ninputs = 0; self.inputs = (); self.log = (); self.nextid = 1; self.nalloc = 0; self.nlive = 0
        self.caught = (); self.steps = 0; self.udep = False; self.atexit = ()
    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.owner = object(); self.owner = object()
        s.pc = self.pc; s.assign = dict(self.assign); s.conc = dict(self.conc)
        s.ninputs = self.ninputs; s.inputs = self.inputs; s.log = self.log; s.nextid = self.nextid
        s.nalloc = self.nalloc; s.nlive = self.nlive; s.caught = self.caught; s.steps = self.steps
        s.udep = self.udep; s.atexit = self.atexit
        return s

def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    return e

class Stats:
    def __init__(self):
        self.paths = self.instrs = self.branches = self.forks = self.merges = 0
        self.queries = self.queries_cached = self.guessed = self.asserts = self.asserts_structural = 0
        self.solver_s = 0.0
        self.bytes_checked = 0
        self.unknown = 0

class Fn:
    __slots__ = ('name', 'ref', 'decl', 'decoded', 'template', 'blocks', 'params', 'byval', 'nparams', 'vararg', 'file',
                 'addr', 'retty', 'model')

class Block:
    __slots__ = ('code', 'phis')

M64 = (1 << 64) - 1

class Engine:
    def __init__(self, path, ub=False, uninit=False, align=None, max_steps=6_000_000, deadline=None, seed=1, log=None):
        self.m = Module(path)
        self.ub, self.uninit = ub, uninit
        self.align = ub if align is None else align
        self.max_steps = max_steps
        self.deadline = deadline
        self.stats = Stats()
        self.rng = random.Random(seed)
        self.little = self.m.little
        self.pbits = self.m.pbits
        self.psize = self.m.psize
        self.fns = {}
        self.addr2fn = {}
        self.gaddr = {}
        self.executed = set()
        self.solver = z3.SolverFor('QF_BV')
        self.lits = {}
        self.vars_cache = {}
        self.qcache = {}
        self.ucount = 0
        self.covers = {}
        self.violations = []
        self.max_violations = 4
        self.vseen = set()
        self.loc = None
        self.stack = []
        self.paths_done = []     # (assign, inputs, log, udep)
        self.ubsites = 0
        self.base = State()
        self.max_enum = 1500
        self.incomplete = False  # some values of a pointer were left out, because others violate already
        self.hunt = False        # follow one feasible outcome of each fork, drawn at random
        self.stop = None         # called now and then: true when there is no point in going on
        self._layout()

    # ------------------------------------------------------------------ module set-up
    def _layout(self):
        st = self.base
        m = self.m
        for name, ref in m.functions.items():
            f = Fn()
            f.name, f.ref, f.decoded = name, ref, False
            f.decl = bool(L.LLVMIsDeclaration(ref))
            f.nparams = L.LLVMCountParams(ref)
            f.model = self._model_for(name)
            oid = st.nextid; st.nextid += 1
            f.addr = (oid << SHIFT) + 16
            self.fns[name] = f
            self.addr2fn[f.addr] = f
            self.gaddr[ref] = f.addr
        todo = []
        for name, ref in m.globals.items():
            if name.startswith('llvm.'):
                continue
            ty = m.ty(L.LLVMGlobalGetValueType(ref))
            al = L.LLVMGetAlignment(ref) or ty.align or 1
            oid = st.nextid; st.nextid += 1
            isdecl = bool(L.LLVMIsDeclaration(ref))
            size = ty.alloc if not isdecl else max(ty.alloc, 64)
            ro = bool(L.LLVMIsGlobalConstant(ref)) and not isdecl
            pad = al
            st.mem[oid] = Obj(size, [0] * size if isdecl else [None] * size, st.owner, 'global', name, pad, ro)
            self.gaddr[ref] = (oid << SHIFT) + pad
            if not isdecl:
                todo.append((ref, ty, oid))
        for name, ref in m.aliases.items():
            t = L.LLVMAliasGetAliasee(ref)
            self.gaddr[ref] = self.const(t)
            # calls through an alias
            if self.gaddr[ref] in self.addr2fn:
                self.fns[name] = self.addr2fn[self.gaddr[ref]]
        for ref, ty, oid in todo:
            init = L.LLVMGetInitializer(ref)
            if init:
                v = self.const(init)
                o = st.mem[oid]
                o.data[:] = [0] * o.size
                self._init_bytes(o.data, 0, v, ty)
                # vtables and such hold ints only
        self.ctors = []
        gc = m.globals.get('llvm.global_ctors')
        if gc:
            v = self.const(L.LLVMGetInitializer(gc))
            self.ctors = [x[1] for x in sorted(v, key=lambda x: x[0])]

    def _init_bytes(self, data, off, v, ty):
        if isinstance(v, Undef):
            for i in range(ty.size): data[off + i] = None
            return
        if ty.k == 's':
            for e, o, t in zip(v, ty.offs, ty.elems): self._init_bytes(data, off + o, e, t)
        elif ty.k in ('a', 'v'):
            for i, e in enumerate(v): self._init_bytes(data, off + i * ty.stride, e, ty.elem)
        else:
            n = ty.size
            data[off:off + n] = list(v.to_bytes(n, 'little' if self.little else 'big'))

    def const(self, v):
        k = L.LLVMGetValueKind(v)
        if k in (5, 6, 8):
            r = self.gaddr.get(v)
            if r is None and k == 6:
                r = self.const(L.LLVMAliasGetAliasee(v))
            return r
        ty = self.m.ty(L.LLVMTypeOf(v))
        if k == 18: return const_int(v, ty.w)
        if k == 20: return 0
        if k in (14, 25): return Undef(ty)
        if k == 15: return zero_of(ty)
        if k in (16, 17): return [self.const(L.LLVMGetElementAsConstant(v, i)) for i in range(ty.n)]
        if k in (11, 12, 13): return [self.const(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
        if k == 19:
            s = L.tostr(v).split()[-1]
            if ty.w == 64:
                return int(s, 16) if s.startswith('0x') else struct.unpack('<Q', struct.pack('<d', float(s)))[0]
            if ty.w == 32:
                d = struct.unpack('<d', struct.pack('<Q', int(s, 16)))[0] if s.startswith('0x') else float(s)
                return struct.unpack('<I', struct.pack('<f', d))[0]
            return 0
        if k == 10:
            op = L.LLVMGetConstOpcode(v)
            if op == 29:
                base = self.const(L.LLVMGetOperand(v, 0))
                t = self.m.ty(L.LLVMGetGEPSourceElementType(v))
                idx = [self.const(L.LLVMGetOperand(v, i)) for i in range(1, L.LLVMGetNumOperands(v))]
                ws = [self.m.ty(L.LLVMTypeOf(L.LLVMGetOperand(v, i))).w for i in range(1, L.LLVMGetNumOperands(v))]
                off = 0
                for j, (x, w) in enumerate(zip(idx, ws)):
                    if x >> (w - 1): x -= 1 << w
                    if j == 0: off += x * t.alloc
                    elif t.k == 's': off += t.offs[x]; t = t.elems[x]
                    else: off += x * t.stride; t = t.elem
                return (base + off) & M64
            if op in (39, 40, 41, 60): return self.const(L.LLVMGetOperand(v, 0))
            a = self.const(L.LLVMGetOperand(v, 0))
            if op == 30: return a & ((1 << ty.w) - 1)
            b = self.const(L.LLVMGetOperand(v, 1))
            mask = (1 << ty.w) - 1
            if op == 8: return (a + b) & mask
            if op == 10: return (a - b) & mask
            if op == 42: return int({32: a == b, 33: a != b}[L.LLVMGetICmpPredicate(v)])
            raise Unsupported('constant expression opcode %d' % op)
        if k in (22, 23): return None
        raise Unsupported('constant kind %d: %s' % (k, L.tostr(v)[:100]))

    # ------------------------------------------------------------------ solver
    def vars_of(self, e):
        i = e.get_id()
        r = self.vars_cache.get(i)
        if r is not None: return r[1]
        seen = set(); out = set(); todo = [e]
        while todo:
            x = todo.pop()
            xi = x.get_id()
            if xi in seen: continue
            seen.add(xi)
            c = self.vars_cache.get(xi)
            if c is not None:
                out |= c[1]; continue
            if z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            else:
                todo.extend(x.children())
        out = frozenset(out)
        self.vars_cache[i] = (e, out)
        return out

    def lit(self, e):
        i = e.get_id()
        r = self.lits.get(i)
        if r is None:
            p = z3.Bool('!p%d' % len(self.lits))
            self.solver.add(z3.Implies(p, e))
            r = (p, e)
            self.lits[i] = r
        return r[0]

    def slice_pc(self, pc, vs):
        """Conjuncts of pc connected to the variables vs."""
        items = [(c, self.vars_of(c)) for c in pc]
        vs = set(vs)
        used = []
        changed = True
        while changed and items:
            changed = False
            rest = []
            for c, cv in items:
                if cv & vs:
                    vs |= cv; used.append(c); changed = True
                else:
                    rest.append((c, cv))
            items = rest
        return used, vs

    def check(self, st, e):
        """Is st.pc /\\ e satisfiable?  Returns None (unsat) or an assignment dict for the slice."""
        if isinstance(e, int):
            return {} if e else None
        used, vs = self.slice_pc(st.pc, self.vars_of(e))
        conj = used + [e]
        key = frozenset(c.get_id() for c in conj)
        r = self.qcache.get(key)
        if r is not None:
            self.stats.queries_cached += 1
            return r[0]
        g = self.guess(conj, vs)
        if g is not None:
            self.stats.guessed += 1
            self.qcache[key] = (g, conj)
            return g
        t = time.time()
        if len(self.lits) > 400:
            self.solver = z3.SolverFor('QF_BV'); self.lits = {}
        ls = [self.lit(c) for c in conj]
        self.stats.queries += 1
        self.solver.set('timeout', 8000 if self.hunt else 60000)
        res = self.solver.check(*ls)
        if res == z3.unknown:
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'bit-blast', 'sat').solver()
            s.set('timeout', 8000 if self.hunt else 120000)
            s.add(*conj)
            res = s.check()
            sol = s
        else:
            sol = self.solver
        if res == z3.sat:
            mod = sol.model()
            out = {}
            for v in vs:
                x = mod[self.symvars[v]]
                out[v] = 0
                if x is not None:
                    out[v] = (1 if z3.is_true(x) else 0) if z3.is_bool(x) else x.as_long()
        elif res == z3.unsat:
            out = None
        else:
            self.stats.solver_s += time.time() - t
            self.stats.unknown += 1
            raise Unsupported('solver gave no answer: ' + sol.reason_unknown())
        self.stats.solver_s += time.time() - t
        self.qcache[key] = (out, conj)
        if getattr(self, 'dump', None) is not None:
            self.dump.append((conj, res == z3.sat))
        return out

    def guess(self, conj, vs):
        """A satisfying assignment found without the solver, for small queries."""
        if len(conj) > 5 or len(vs) > 8: return None
        for k in range(4):
            sub = []; out = {}
            for v in vs:
                var = self.symvars[v]
                if z3.is_bool(var): return None
                w = var.size()
                x = (0, 1 << (w - 1), 1, (1 << w) - 1)[k]
                out[v] = x
                sub.append((var, z3.BitVecVal(x, w)))
            for c in conj:
                if not z3.is_true(z3.simplify(z3.substitute(c, *sub))): break
            else:
                return out
        return None

    def evalc(self, st, e, assign=None):
        """Value of e under the state's current assignment (which satisfies its path condition)."""
        if isinstance(e, int): return e
        a = st.assign if assign is None else assign
        sub = []
        for v in self.vars_of(e):
            val = a.get(v, 0)
            var = self.symvars[v]
            sub.append((var, z3.BoolVal(bool(val)) if z3.is_bool(var) else z3.BitVecVal(val, var.size())))
        r = z3.simplify(z3.substitute(e, *sub))
        if z3.is_true(r): return 1
        if z3.is_false(r): return 0
        return r.as_long()

    symvars = {}

    def var(self, name, bits):
        v = self.symvars.get(name)
        if v is None:
            v = z3.BitVec(name, bits)
            self.symvars[name] = v
        return v

    def add_pc(self, st, e, assign):
        st.pc = st.pc + (e,)
        st.assign.update(assign)

    def branch(self, st, c):
        """Feasible truth values of the Bool c: list of (value, assignment)."""
        self.stats.branches += 1
        cur = self.evalc(st, c)
        other = self.check(st, z3.Not(c) if cur else c)
        if self.uninit and other is not None and any(v.startswith('!u') for v in self.vars_of(c)):
            if self.depends_on_uninit(st, c):
                raise Violation('uninit', 'control flow depends on uninitialised memory')
        if other is None:
            return [(cur, None)]
        if self.hunt:
            v, asg = (cur, {}) if self.rng.getrandbits(1) else (1 - cur, other)
            self.add_pc(st, c if v else simp(z3.Not(c)), asg)
            return [(v, None)]
        return [(cur, {}), (1 - cur, other)]

    def depends_on_uninit(self, st, e):
        us = [v for v in self.vars_of(e) if v.startswith('!u')]
        if not us: return False
        # two copies of the uninitialised variables, same inputs
        allv = set()
        for c in st.pc: allv |= self.vars_of(c)
        allu = set(v for v in allv if v.startswith('!u')) | set(us)
        sub = [(self.symvars[v], self.var(v + "'", self.symvars[v].size())) for v in allu]
        e2 = z3.substitute(e, *sub)
        pc2 = [z3.substitute(c, *sub) for c in st.pc if self.vars_of(c) & allu]
        return self.check(st, z3.And(*(pc2 + [e != e2]))) is not None

    def enumerate(self, st, e):
        """All feasible values of e, each with its own state."""
        out = []
        cur = self.evalc(st, e)
        asg = {}
        excl = []
        while True:
            out.append((cur, asg))
            if len(out) == 24:
                # many values: any that leads outside the object the first one points into?
                bad = self.outside(st, e, out[0][0])
                if bad is not None:
                    self.incomplete = True
                    return [bad]
            if self.hunt and len(out) >= 8: break
            if len(out) > self.max_enum:
                raise Unsupported('too many values for a symbolic address/size')
            excl.append(e != z3.BitVecVal(cur, e.size()))
            asg = self.check(st, z3.And(*excl) if len(excl) > 1 else excl[0])
            if asg is None: break
            a = dict(st.assign); a.update(asg)
            cur = self.evalc(st, e, a)
        if len(out) > 1 and self.uninit and any(v.startswith('!u') for v in self.vars_of(e)):
            if self.depends_on_uninit(st, e):
                raise Violation('uninit', 'address or size depends on uninitialised memory')
        if self.hunt: return [self.rng.choice(out)]
        return out

    def outside(self, st, e, v):
        o = st.mem.get(v >> SHIFT)
        if e.size() != self.pbits or o is None: return None
        base = ((v >> SHIFT) << SHIFT) + o.pad
        asg = self.check(st, z3.Or(z3.ULT(e, base), z3.UGT(e, base + o.size)))
        if asg is None: return None
        a = dict(st.assign); a.update(asg)
        w = self.evalc(st, e, a)
        p = st.mem.get(w >> SHIFT)
        if p is not None and not p.dead and 0 <= (w & OFFMASK) - p.pad <= p.size: return None
        return w, asg

    def conc(self, st, v):
        """Concrete value of v (forks through Concretize when several are possible)."""
        if type(v) is int: return v
        if isinstance(v, Undef): v = self.fresh(v.ty.w)
        if z3.is_bool(v): v = z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        r = st.conc.get(v.get_id())
        if r is not None: return r[1]
        raise Concretize(v)

    def fresh(self, w):
        self.ucount += 1
        v = self.var('!u%d' % self.ucount, w if w > 1 else 1)
        if w == 1: return v == z3.BitVecVal(1, 1)
        return v

    # ------------------------------------------------------------------ memory
    def find(self, st, addr, n, write):
        oid = addr >> SHIFT
        o = st.mem.get(oid)
        if o is None:
            if oid == 0: raise Violation('memory', 'null pointer dereference')
            if addr in self.addr2fn: raise Violation('memory', 'access to a function as data')
            raise Violation('memory', 'access through an invalid or dangling pointer (lifetime ended)')
        off = (addr & OFFMASK) - o.pad
        if o.dead:
            raise Violation('memory', 'access to %s after its lifetime ended (%s)' % (o.name or o.kind, o.dead))
        if off < 0 or off + n > o.size:
            raise Violation('memory', 'out-of-bounds %s of %d byte(s) at offset %d of %s of %d byte(s)' %
                            ('write' if write else 'read', n, off, o.name or o.kind, o.size))
        if write:
            if o.ro: raise Violation('memory', 'write to constant ' + o.name)
            if o.owner is not st.owner:
                o = o.clone(st.owner)
                st.mem[oid] = o
        self.stats.bytes_checked += n
        return o, off

    def byte_expr(self, b):
        if type(b) is int: return z3.BitVecVal(b, 8)
        if type(b) is tuple:
            v, k = b
            return z3.simplify(z3.Extract(8 * k + 7, 8 * k, v))
        return b

    def uninit_byte(self):
        self.ucount += 1
        return self.var('!u%d' % self.ucount, 8)

    def load_bits(self, st, addr, n):
        o, off = self.find(st, addr, n, False)
        d = o.data[off:off + n]
        try:
            return int.from_bytes(bytes(d), 'little' if self.little else 'big')
        except TypeError:
            pass
        if None in d:
            if o.owner is not st.owner:
                o = o.clone(st.owner); st.mem[addr >> SHIFT] = o
            for i in range(n):
                if d[i] is None:
                    d[i] = o.data[off + i] = self.uninit_byte()
        if not self.little: d.reverse()
        b0 = d[0]
        if type(b0) is tuple and b0[1] == 0 and b0[0].size() == 8 * n:
            v = b0[0]
            if all(type(b) is tuple and b[0] is v and b[1] == k for k, b in enumerate(d)):
                return v
        if n == 1: return simp(self.byte_expr(b0))
        return simp(z3.Concat(*[self.byte_expr(b) for b in reversed(d)]))

    def store_bits(self, st, addr, v, n):
        o, off = self.find(st, addr, n, True)
        if type(v) is int:
            o.data[off:off + n] = v.to_bytes(n, 'little' if self.little else 'big')
            return
        if n == 1: lst = [v]
        else:
            lst = [(v, k) for k in range(n)]
            if not self.little: lst.reverse()
        o.data[off:off + n] = lst

    def load(self, st, addr, ty):
        k = ty.k
        if k == 's': return [self.load(st, addr + o, t) for o, t in zip(ty.offs, ty.elems)]
        if k == 'a' or (k == 'v' and ty.elem.w % 8 == 0):
            return [self.load(st, addr + i * ty.stride, ty.elem) for i in range(ty.n)]
        v = self.load_bits(st, addr, ty.size)
        w = ty.w
        if w == 8 * ty.size: return v
        if type(v) is int: return v & ((1 << w) - 1)
        return self.norm(z3.Extract(w - 1, 0, v), w)

    def norm(self, e, w):
        """Simplify; i1 values become Bool."""
        if w == 1 and z3.is_bv(e): e = (e == z3.BitVecVal(1, 1))
        return simp(e)

    def store(self, st, addr, v, ty):
        k = ty.k
        if k == 's':
            if isinstance(v, Undef): v = [Undef(t) for t in ty.elems]
            for x, o, t in zip(v, ty.offs, ty.elems): self.store(st, addr + o, x, t)
            return
        if k == 'a' or k == 'v':
            if isinstance(v, Undef): v = [Undef(ty.elem)] * ty.n
            for i, x in enumerate(v): self.store(st, addr + i * ty.stride, x, ty.elem)
            return
        n = ty.size
        if type(v) is int:
            self.store_bits(st, addr, v, n); return
        if isinstance(v, Undef):
            o, off = self.find(st, addr, n, True)
            o.data[off:off + n] = [None] * n
            return
        if z3.is_bool(v): v = z3.If(v, z3.BitVecVal(1, 8 * n), z3.BitVecVal(0, 8 * n))
        elif ty.w != 8 * n: v = z3.ZeroExt(8 * n - ty.w, v)
        self.store_bits(st, addr, v, n)

    def new_obj(self, st, size, kind, name, align=16, fill=None):
        oid = st.nextid; st.nextid += 1
        st.mem[oid] = Obj(size, [fill] * size, st.owner, kind, name, align)
        return (oid << SHIFT) + align

    def cstr(self, st, addr):
        addr = self.conc(st, addr)
        out = bytearray()
        while True:
            b = self.load_bits(st, addr, 1)
            if type(b) is not int: out += b'?'
            elif b == 0: break
            else: out.append(b)
            addr += 1
            if len(out) > 4000: break
        return out.decode(errors='replace')

    def memcpy(self, st, d, s, n):
        if n == 0: return
        so, soff = self.find(st, s, n, False)
        data = so.data[soff:soff + n]
        do, doff = self.find(st, d, n, True)
        do.data[doff:doff + n] = data

    # ------------------------------------------------------------------ decoding
    def decode(self, f):
        f.decoded = True
        m = self.m
        ref = f.ref
        sp = L.LLVMGetSubprogram(ref)
        f.file = ''
        if sp:
            fl = L.LLVMDIScopeGetFile(sp)
            if fl:
                n = L.U()
                p = L.LLVMDIFileGetFilename(fl, L.C.byref(n))
                f.file = L.C.string_at(p, n.value).decode() if p else ''
        slots = {}
        template = [()]        # slot 0: stack objects of this activation
        f.params = []
        f.byval = []
        for i in range(f.nparams):
            p = L.LLVMGetParam(ref, i)
            slots[p] = len(template); template.append(None)
            f.params.append(slots[p])
            a = L.LLVMGetEnumAttributeAtIndex(ref, i + 1, m.ATTR_BYVAL)
            f.byval.append(m.ty(L.LLVMGetTypeAttributeValue(a)) if a else None)
        blocks = []
        bidx = {}
        b = L.LLVMGetFirstBasicBlock(ref)
        while b:
            bidx[b] = len(blocks); blocks.append(b)
            ins = L.LLVMGetFirstInstruction(b)
            while ins:
                slots[ins] = len(template); template.append(None)
                ins = L.LLVMGetNextInstruction(ins)
            b = L.LLVMGetNextBasicBlock(b)
        consts = {}
        def slot(v):
            s = slots.get(v)
            if s is not None: return s
            s = consts.get(v)
            if s is None:
                s = len(template)
                template.append(self.const(v))
                consts[v] = s
            return s
        f.blocks = []
        for b in blocks:
            B = Block(); B.phis = {}; B.code = []
            ins = L.LLVMGetFirstInstruction(b)
            while ins:
                op = L.LLVMGetInstructionOpcode(ins)
                if op == 44:
                    for i in range(L.LLVMCountIncoming(ins)):
                        pb = bidx[L.LLVMGetIncomingBlock(ins, i)]
                        B.phis.setdefault(pb, {})[slots[ins]] = slot(L.LLVMGetIncomingValue(ins, i))
                else:
                    B.code.append(self.dec_instr(ins, op, slots[ins], slot, bidx))
                ins = L.LLVMGetNextInstruction(ins)
            B.phis = {k: list(v.items()) for k, v in B.phis.items()}
            f.blocks.append(B)
        f.template = template
        f.retty = None

    def line(self, ins):
        n = L.U()
        p = L.LLVMGetDebugLocFilename(ins, L.C.byref(n))
        fn = L.C.string_at(p, n.value).decode() if p else '?'
        return '%s:%d' % (fn, L.LLVMGetDebugLocLine(ins))

    K_SIMPLE, K_CALL, K_BR, K_CONDBR, K_SWITCH, K_RET, K_UNREACH, K_RESUME, K_SYMSEL = range(9)

    def dec_instr(self, ins, op, dst, slot, bidx):
        m = self.m
        ty = m.ty(L.LLVMTypeOf(ins))
        O = lambda i: L.LLVMGetOperand(ins, i)
        K = Engine
        if op == 1:
            return (K.K_RET, slot(O(0)) if L.LLVMGetNumOperands(ins) else None, None, ins)
        if op == 2:
            if L.LLVMIsConditional(ins):
                return (K.K_CONDBR, slot(L.LLVMGetCondition(ins)), (bidx[L.LLVMGetSuccessor(ins, 0)], bidx[L.LLVMGetSuccessor(ins, 1)]), ins)
            return (K.K_BR, bidx[L.LLVMGetSuccessor(ins, 0)], None, ins)
        if op == 3:
            n = L.LLVMGetNumOperands(ins)
            w = m.ty(L.LLVMTypeOf(O(0))).w
            cases = []
            for i in range(2, n, 2):
                cases.append((const_int(O(i), w), bidx[O(i + 1)] if O(i + 1) in bidx else None))
            succ = [bidx[L.LLVMGetSuccessor(ins, i)] for i in range(L.LLVMGetNumSuccessors(ins))]
            cases = [(c, succ[i + 1]) for i, (c, _) in enumerate(cases)]
            return (K.K_SWITCH, slot(O(0)), (w, cases, succ[0]), ins)
        if op == 7: return (K.K_UNREACH, None, None, ins)
        if op == 58: return (K.K_RESUME, slot(O(0)), None, ins)
        if op in (5, 45): return self.dec_call(ins, op, dst, slot, bidx, ty)
        return (K.K_SIMPLE, self.dec_simple(ins, op, dst, slot, ty), None, ins)

    def dec_call(self, ins, op, dst, slot, bidx, ty):
        m = self.m
        n = L.LLVMGetNumArgOperands(ins)
        callee = L.LLVMGetCalledValue(ins)
        name = None
        kind = L.LLVMGetValueKind(callee)
        if kind == 23:
            text = L.tostr(callee)
            return (self.K_SIMPLE, self.dec_asm(text, L.tostr(ins)), None, ins)
        if kind in (5, 6):
            name = L.name(callee)
            if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.experimental.noalias'):
                return (self.K_SIMPLE, lambda st, r: None, None, ins)
        args = []
        for i in range(n):
            o = L.LLVMGetOperand(ins, i)
            if L.LLVMGetValueKind(o) == 22: args.append(None)
            else: args.append(slot(o))
        argtys = [m.ty(L.LLVMTypeOf(L.LLVMGetOperand(ins, i))) for i in range(n)]
        byval = []
        for i in range(n):
            a = L.LLVMGetCallSiteEnumAttribute(ins, i + 1, m.ATTR_BYVAL)
            byval.append(m.ty(L.LLVMGetTypeAttributeValue(a)) if a else None)
        normal = unwind = None
        lp = None
        if op == 5:
            normal = bidx[L.LLVMGetNormalDest(ins)]
            unwind = bidx[L.LLVMGetUnwindDest(ins)]
        fn = self.fns.get(name) if name is not None else None
        intr = None
        if name is not None and name.startswith('llvm.'):
            intr = self.dec_intrinsic(name, args, argtys, dst, ty, ins)
            if op == 45:
                return (self.K_SIMPLE, intr, None, ins)
        return (self.K_CALL, (fn, slot(callee) if fn is None and intr is None else None, args, argtys, byval if any(byval) else None,
                              dst if ty.k != 'void' else None, ty, normal, unwind, intr), None, ins)

    def dec_asm(self, text, full):
        def h(st, r):
            # empty asm used as a compiler barrier is the only form supported
            if 'asm sideeffect ""' in full or 'asm ""' in full: return
            raise Unsupported('inline assembly: ' + full[:120])
        return h

    def lift(self, v, w):
        if type(v) is int:
            return z3.BitVecVal(v, w)
        if isinstance(v, Undef):
            v = self.fresh(w)
        if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return v

    def liftb(self, v):
        if type(v) is int: return z3.BoolVal(bool(v))
        if isinstance(v, Undef): return self.fresh(1)
        return v

    def ub_check(self, st, bad, msg):
        """bad: Bool or int; raise if it can be true, else nothing."""
        if type(bad) is int:
            if bad: raise Violation('ub', msg)
            return
        bad = simp(bad)
        if type(bad) is int:
            if bad: raise Violation('ub', msg)
            return
        a = self.check(st, bad)
        if a is not None:
            m = dict(st.assign); m.update(a)
            raise Violation('ub', msg, m)

    def dec_binop(self, op, dst, a, b, w, nsw, nuw):
        mask = (1 << w) - 1
        sgn = 1 << (w - 1)
        ub = self.ub
        def s(x): return x - (mask + 1) if x & sgn else x
        names = {8: 'addition', 10: 'subtraction', 12: 'multiplication'}
        if op in (8, 10, 12):
            if op == 8: ci = lambda x, y: x + y; zi = lambda x, y: x + y
            elif op == 10: ci = lambda x, y: x - y; zi = lambda x, y: x - y
            else: ci = lambda x, y: x * y; zi = lambda x, y: x * y
            if ub and nsw and w > 1:
                lo, hi = -sgn, sgn - 1
                def h(st, r):
                    x = r[a]; y = r[b]
                    if type(x) is int and type(y) is int:
                        v = ci(s(x), s(y))
                        if v < lo or v > hi: raise Violation('ub', 'signed integer overflow in ' + names[op])
                        r[dst] = v & mask; return
                    x = self.lift(x, w); y = self.lift(y, w)
                    if op == 12: e = w
                    else: e = 1
                    X = z3.SignExt(e, x); Y = z3.SignExt(e, y)
                    V = zi(X, Y)
                    V0 = zi(x, y)
                    self.ub_check(st, V != z3.SignExt(e, V0), 'signed integer overflow in ' + names[op])
                    r[dst] = simp(V0)
                return h
            def h(st, r):
                x = r[a]; y = r[b]
                if type(x) is int and type(y) is int: r[dst] = ci(x, y) & mask
                elif w == 1: r[dst] = self.norm(zi(self.lift(x, 1), self.lift(y, 1)), 1)
                else: r[dst] = simp(zi(self.lift(x, w), self.lift(y, w)))
            return h
        if op in (14, 15, 17, 18):
            def h(st, r):
                x = r[a]; y = r[b]
                if type(x) is int and type(y) is int:
                    if y == 0: raise Violation('memory', 'division by zero')
                    if op == 14: v = x // y
                    elif op == 17: v = x % y
                    else:
                        X, Y = s(x), s(y)
                        if ub and X == -sgn and Y == -1: raise Violation('ub', 'signed division overflow')
                        q = abs(X) // abs(Y)
                        if (X < 0) != (Y < 0): q = -q
                        v = q if op == 15 else X - q * Y
                    r[dst] = v & mask; return
                x = self.lift(x, w); y = self.lift(y, w)
                bad = simp(y == 0)
                if type(bad) is not int or bad:
                    am = self.check(st, bad) if type(bad) is not int else {}
                    if am is not None:
                        mm = dict(st.assign); mm.update(am)
                        raise Violation('memory', 'division by zero', mm)
                if ub and op in (15, 18):
                    self.ub_check(st, z3.And(x == sgn, y == mask), 'signed division overflow')
                v = {14: z3.UDiv, 15: lambda p, q: p / q, 17: z3.URem, 18: z3.SRem}[op](x, y)
                r[dst] = simp(v)
            return h
        if op in (20, 21, 22):
            def h(st, r):
                x = r[a]; y = r[b]
                if type(y) is int:
                    if y >= w:
                        if ub: raise Violation('ub', 'shift amount %d out of range for a %d-bit value' % (y, w))
                        y %= w     # what the hardware does
                    if type(x) is int:
                        if op == 20: r[dst] = (x << y) & mask
                        elif op == 21: r[dst] = x >> y
                        else: r[dst] = (s(x) >> y) & mask
                        return
                    Y = z3.BitVecVal(y, w)
                else:
                    Y = self.lift(y, w)
                    if ub: self.ub_check(st, z3.UGE(Y, w), 'shift amount out of range')
                    elif w & (w - 1) == 0: Y = Y & (w - 1)
                X = self.lift(x, w)
                v = X << Y if op == 20 else z3.LShR(X, Y) if op == 21 else X >> Y
                r[dst] = self.norm(v, w)
            return h
        # and or xor
        def h(st, r):
            x = r[a]; y = r[b]
            if type(x) is int and type(y) is int:
                r[dst] = (x & y) if op == 23 else (x | y) if op == 24 else (x ^ y)
                return
            if w == 1:
                X = self.liftb(x); Y = self.liftb(y)
                r[dst] = simp(z3.And(X, Y) if op == 23 else z3.Or(X, Y) if op == 24 else z3.Xor(X, Y))
            else:
                X = self.lift(x, w); Y = self.lift(y, w)
                r[dst] = simp(X & Y if op == 23 else X | Y if op == 24 else X ^ Y)
        return h

    def icmp(self, pred, x, y, w):
        if type(x) is int and type(y) is int:
            if pred >= 38:
                sg = 1 << (w - 1)
                x = x - (sg << 1) if x & sg else x
                y = y - (sg << 1) if y & sg else y
            return int(x == y if pred == 32 else x != y if pred == 33 else x > y if pred in (34, 38) else
                       x >= y if pred in (35, 39) else x < y if pred in (36, 40) else x <= y)
        X = self.lift(x, w); Y = self.lift(y, w)
        if pred == 32: e = X == Y
        elif pred == 33: e = X != Y
        elif pred == 34: e = z3.UGT(X, Y)
        elif pred == 35: e = z3.UGE(X, Y)
        elif pred == 36: e = z3.ULT(X, Y)
        elif pred == 37: e = z3.ULE(X, Y)
        elif pred == 38: e = X > Y
        elif pred == 39: e = X >= Y
        elif pred == 40: e = X < Y
        else: e = X <= Y
        return simp(e)

    def ite(self, c, a, b, ty):
        if a is b: return a
        if type(c) is int: return a if c else b
        if ty.k == 's': return [self.ite(c, x, y, t) for x, y, t in zip(a, b, ty.elems)]
        if ty.k in ('a', 'v'): return [self.ite(c, x, y, ty.elem) for x, y in zip(a, b)]
        if type(a) is int and type(b) is int and a == b: return a
        if ty.w == 1:
            return simp(z3.If(c, self.liftb(a), self.liftb(b)))
        return simp(z3.If(c, self.lift(a, ty.w), self.lift(b, ty.w)))

    def lanes(self, h1, ty, dst, srcs):
        """Apply a scalar handler to every lane of vectors."""
        def h(st, r):
            vs = [r[s] for s in srcs]
            vs = [[Undef(ty.elem)] * ty.n if isinstance(v, Undef) else v for v in vs]
            out = []
            for i in range(ty.n):
                rr = {}
                for s, v in zip(srcs, vs): rr[s] = v[i]
                h1(st, rr)
                out.append(rr[dst])
            r[dst] = out
        return h

    def dec_simple(self, ins, op, dst, slot, ty):
        m = self.m
        O = lambda i: L.LLVMGetOperand(ins, i)
        T = lambda i: m.ty(L.LLVMTypeOf(O(i)))
        if 8 <= op <= 25 and op not in (9, 11, 13, 16, 19):
            nsw = op in (8, 10, 12, 20) and bool(L.LLVMGetNSW(ins))
            a, b = slot(O(0)), slot(O(1))
            h = self.dec_binop(op, dst, a, b, ty.elem.w if ty.k == 'v' else ty.w, nsw, False)
            return self.lanes(h, ty, dst, (a, b)) if ty.k == 'v' else h
        if op == 26:
            at = m.ty(L.LLVMGetAllocatedType(ins))
            al = L.LLVMGetAlignment(ins) or at.align or 1
            cnt = slot(O(0))
            size = at.alloc
            nm = 'stack object'
            def h(st, r):
                n = r[cnt]
                if type(n) is not int: n = self.conc(st, n)
                p = self.new_obj(st, size * n, 'stack', nm, al)
                r[0] = r[0] + (p >> SHIFT,)
                r[dst] = p
            return h
        if op == 27:
            p = slot(O(0))
            al = L.LLVMGetAlignment(ins)
            chk = self.align and al > 1
            if ty.k in ('i', 'p') and ty.w == 8 * ty.size:
                n = ty.size
                def h(st, r):
                    a = r[p]
                    if type(a) is not int: a = self.conc(st, a)
                    if chk and a % al and a >> SHIFT: raise Violation('ub', 'misaligned load')
                    r[dst] = self.load_bits(st, a, n)
                return h
            def h(st, r):
                a = r[p]
                if type(a) is not int: a = self.conc(st, a)
                if chk and a % al and a >> SHIFT: raise Violation('ub', 'misaligned load')
                r[dst] = self.load(st, a, ty)
            return h
        if op == 28:
            v, p = slot(O(0)), slot(O(1))
            t = T(0)
            al = L.LLVMGetAlignment(ins)
            chk = self.align and al > 1
            def h(st, r):
                a = r[p]
                if type(a) is not int: a = self.conc(st, a)
                if chk and a % al and a >> SHIFT: raise Violation('ub', 'misaligned store')
                self.store(st, a, r[v], t)
            return h
        if op == 29:
            base = slot(O(0))
            t = m.ty(L.LLVMGetGEPSourceElementType(ins))
            const = 0; terms = []
            for i in range(1, L.LLVMGetNumOperands(ins)):
                o = O(i); w = T(i).w
                if i > 1 and t.k == 's':
                    x = const_int(o, w); const += t.offs[x]; t = t.elems[x]; continue
                if i == 1: stride = t.alloc
                else: stride = t.stride; t = t.elem
                if L.LLVMGetValueKind(o) == 18:
                    x = const_int(o, w)
                    if x >> (w - 1): x -= 1 << w
                    const += x * stride
                else:
                    terms.append((slot(o), w, stride))
            if not terms:
                def h(st, r):
                    b = r[base]
                    if type(b) is int: r[dst] = (b + const) & M64
                    else: r[dst] = simp(self.lift(b, 64) + const)
                return h
            def h(st, r):
                b = r[base]; c = const
                sym = None
                for s, w, stride in terms:
                    x = r[s]
                    if type(x) is int:
                        if x >> (w - 1): x -= 1 << w
                        c += x * stride
                    else:
                        x = self.lift(x, w)
                        if w < 64: x = z3.SignExt(64 - w, x)
                        elif w > 64: x = z3.Extract(63, 0, x)
                        x = x * stride
                        sym = x if sym is None else sym + x
                if sym is None and type(b) is int: r[dst] = (b + c) & M64
                else:
                    e = self.lift(b, 64) + z3.BitVecVal(c & M64, 64)
                    r[dst] = simp(e if sym is None else e + sym)
            return h
        if op in (30, 31, 32):
            a = slot(O(0)); t0 = T(0)
            w0 = t0.elem.w if t0.k == 'v' else t0.w; w = ty.elem.w if ty.k == 'v' else ty.w
            mask = (1 << w) - 1
            if op == 30:
                def h(st, r):
                    x = r[a]
                    if type(x) is int: r[dst] = x & mask
                    else: r[dst] = self.norm(z3.Extract(w - 1, 0, self.lift(x, w0)), w)
            elif op == 31:
                def h(st, r):
                    x = r[a]
                    if type(x) is int: r[dst] = x
                    elif w0 == 1: r[dst] = z3.If(self.liftb(x), z3.BitVecVal(1, w), z3.BitVecVal(0, w))
                    else: r[dst] = simp(z3.ZeroExt(w - w0, self.lift(x, w0)))
            else:
                def h(st, r):
                    x = r[a]
                    if type(x) is int: r[dst] = (x | (mask ^ ((1 << w0) - 1))) if x >> (w0 - 1) else x
                    elif w0 == 1: r[dst] = z3.If(self.liftb(x), z3.BitVecVal(mask, w), z3.BitVecVal(0, w))
                    else: r[dst] = simp(z3.SignExt(w - w0, self.lift(x, w0)))
            return self.lanes(h, ty, dst, (a,)) if ty.k == 'v' else h
        if op in (39, 40):
            a = slot(O(0)); w0 = T(0).w; w = ty.w
            def h(st, r):
                x = r[a]
                if w == w0: r[dst] = x
                elif type(x) is int: r[dst] = x & ((1 << w) - 1)
                elif w < w0: r[dst] = self.norm(z3.Extract(w - 1, 0, self.lift(x, w0)), w)
                else: r[dst] = simp(z3.ZeroExt(w - w0, self.lift(x, w0)))
            return h
        if op in (41, 60):
            a = slot(O(0)); t0 = T(0)
            if t0.k == ty.k or {t0.k, ty.k} <= {'i', 'f', 'p'}:
                def h(st, r): r[dst] = r[a]
                return h
            def h(st, r):       # vector <-> integer through memory
                p = self.new_obj(st, max(t0.alloc, ty.alloc), 'stack', 'cast', 16)
                self.store(st, p, r[a], t0); r[dst] = self.load(st, p, ty)
                del st.mem[p >> SHIFT]
            return h
        if op == 42:
            a, b = slot(O(0)), slot(O(1)); t0 = T(0)
            pred = L.LLVMGetICmpPredicate(ins)
            if t0.k == 'v':
                w = t0.elem.w
                def h(st, r): r[dst] = [self.icmp(pred, x, y, w) for x, y in zip(r[a], r[b])]
                return h
            w = t0.w
            icmp = self.icmp
            def h(st, r): r[dst] = icmp(pred, r[a], r[b], w)
            return h
        if op == 46:
            c, a, b = slot(O(0)), slot(O(1)), slot(O(2))
            def h(st, r):
                x = r[c]
                if type(x) is int: r[dst] = r[a] if x else r[b]
                elif type(x) is list: r[dst] = [self.ite(self.liftb(k), p, q, ty.elem) for k, p, q in zip(x, r[a], r[b])]
                else: r[dst] = self.ite(self.liftb(x), r[a], r[b], ty)
            return h
        if op == 53:
            a = slot(O(0)); n = L.LLVMGetNumIndices(ins); idx = [L.LLVMGetIndices(ins)[i] for i in range(n)]
            t0 = T(0)
            def h(st, r):
                v = r[a]
                for i in idx:
                    if isinstance(v, Undef): break
                    v = v[i]
                if isinstance(v, Undef): v = Undef(ty)
                r[dst] = v
            return h
        if op == 54:
            a, b = slot(O(0)), slot(O(1)); n = L.LLVMGetNumIndices(ins); idx = [L.LLVMGetIndices(ins)[i] for i in range(n)]
            def expand(v, t):
                if isinstance(v, Undef):
                    return [Undef(e) for e in t.elems] if t.k == 's' else [Undef(t.elem)] * t.n
                return list(v)
            def h(st, r):
                root = v = expand(r[a], ty); t = ty
                for i in idx[:-1]:
                    t2 = t.elems[i] if t.k == 's' else t.elem
                    v[i] = expand(v[i], t2); v = v[i]; t = t2
                v[idx[-1]] = r[b]
                r[dst] = root
            return h
        if op == 50:
            a, b = slot(O(0)), slot(O(1))
            def h(st, r):
                v = r[a]; i = self.conc(st, r[b])
                r[dst] = Undef(ty) if isinstance(v, Undef) else v[i]
            return h
        if op == 51:
            a, b, c = slot(O(0)), slot(O(1)), slot(O(2))
            def h(st, r):
                v = r[a]; i = self.conc(st, r[c])
                v = [Undef(ty.elem)] * ty.n if isinstance(v, Undef) else list(v)
                v[i] = r[b]; r[dst] = v
            return h
        if op == 52:
            a, b = slot(O(0)), slot(O(1)); n0 = T(0).n
            n = L.LLVMGetNumMaskElements(ins)
            mk = [L.LLVMGetMaskValue(ins, i) for i in range(n)]
            def h(st, r):
                x, y = r[a], r[b]
                x = [Undef(ty.elem)] * n0 if isinstance(x, Undef) else x
                y = [Undef(ty.elem)] * n0 if isinstance(y, Undef) else y
                z = x + y
                r[dst] = [z[i] if 0 <= i < len(z) else Undef(ty.elem) for i in mk]
            return h
        if op == 68:
            a = slot(O(0))
            def h(st, r):
                v = r[a]
                r[dst] = self.fresh(ty.w) if isinstance(v, Undef) and ty.k in ('i', 'p') else v
            return h
        if op == 55:
            return lambda st, r: None
        if op == 57:
            p, v = slot(O(0)), slot(O(1)); bop = L.LLVMGetAtomicRMWBinOp(ins); w = ty.w; n = ty.size
            def h(st, r):
                a = self.conc(st, r[p]); old = self.load_bits(st, a, n); x = r[v]
                X, Y = self.lift(old, w), self.lift(x, w)
                new = {0: lambda: Y, 1: lambda: X + Y, 2: lambda: X - Y, 3: lambda: X & Y, 5: lambda: X | Y, 6: lambda: X ^ Y}[bop]()
                self.store(st, a, simp(new), ty); r[dst] = old
            return h
        if op == 59:      # landingpad
            n = L.LLVMGetNumClauses(ins)
            cl = []
            for i in range(n):
                c = L.LLVMGetClause(ins, i)
                t = m.ty(L.LLVMTypeOf(c))
                if t.k == 'a': cl.append(('filter', [x for x in (self.const(c) or [])]))
                else: cl.append(('catch', self.const(c)))
            cleanup = bool(L.LLVMIsCleanup(ins))
            def h(st, r):
                ptr, ti = st.caught[-1] if st.caught and st.caught[-1][0] == 'fly' else (None, None)
                raise Unsupported('landingpad reached without exception')
            h.clauses = cl; h.cleanup = cleanup; h.dst = dst
            return h
        if op in (9, 11, 13, 16, 19, 66, 33, 34, 35, 36, 37, 38, 43):
            return self.dec_float(ins, op, dst, slot, ty)
        text = L.tostr(ins)
        def h(st, r): raise Unsupported('instruction: ' + text[:160])
        return h

    # floating point: concrete, or z3 FP terms on bit patterns
    def dec_float(self, ins, op, dst, slot, ty):
        m = self.m
        O = lambda i: L.LLVMGetOperand(ins, i)
        T = lambda i: m.ty(L.LLVMTypeOf(O(i)))
        sort = {32: z3.Float32(), 64: z3.Float64()}
        rm = z3.RNE()
        n = L.LLVMGetNumOperands(ins)
        a = slot(O(0)); t0 = T(0)
        b = slot(O(1)) if n > 1 else None
        pred = L.LLVMGetFCmpPredicate(ins) if op == 43 else 0
        text = L.tostr(ins)
        def fp(v, w): return z3.fpBVToFP(self.lift(v, w), sort[w])
        def bits(e): return simp(z3.fpToIEEEBV(e))
        def h(st, r):
            try:
                if op == 66: r[dst] = bits(z3.fpNeg(fp(r[a], ty.w)))
                elif op in (9, 11, 13, 16):
                    x, y = fp(r[a], ty.w), fp(r[b], ty.w)
                    e = {9: z3.fpAdd, 11: z3.fpSub, 13: z3.fpMul, 16: z3.fpDiv}[op](rm, x, y)
                    r[dst] = bits(e)
                elif op == 33: r[dst] = simp(z3.fpToUBV(z3.RTZ(), fp(r[a], t0.w), z3.BitVecSort(ty.w)))
                elif op == 34: r[dst] = simp(z3.fpToSBV(z3.RTZ(), fp(r[a], t0.w), z3.BitVecSort(ty.w)))
                elif op == 35: r[dst] = bits(z3.fpUnsignedToFP(rm, self.lift(r[a], t0.w), sort[ty.w]))
                elif op == 36: r[dst] = bits(z3.fpSignedToFP(rm, self.lift(r[a], t0.w), sort[ty.w]))
                elif op in (37, 38): r[dst] = bits(z3.fpFPToFP(rm, fp(r[a], t0.w), sort[ty.w]))
                elif op == 43:
                    x, y = fp(r[a], t0.w), fp(r[b], t0.w)
                    un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
                    base = {1: z3.fpEQ, 2: z3.fpGT, 3: z3.fpGEQ, 4: z3.fpLT, 5: z3.fpLEQ, 6: lambda p, q: z3.Not(z3.fpEQ(p, q))}
                    if pred == 7: e = z3.Not(un)
                    elif pred == 8: e = un
                    elif pred < 8: e = z3.And(z3.Not(un), base[pred](x, y))
                    else: e = z3.Or(un, base[pred - 8](x, y))
                    r[dst] = simp(e)
                else: raise KeyError
            except KeyError:
                raise Unsupported('floating-point instruction: ' + text[:120])
        return h

    # ------------------------------------------------------------------ intrinsics
    def dec_intrinsic(self, name, args, argtys, dst, ty, ins):
        base = name.split('.')
        nm = base[1]
        A = args
        if nm in ('memcpy', 'memmove', 'memset'):
            isset = nm == 'memset'
            nocheck = nm != 'memcpy'
            def h(st, r):
                d = self.conc(st, r[A[0]])
                n = self.conc(st, r[A[2]])
                if isset:
                    if n:
                        o, off = self.find(st, d, n, True)
                        v = r[A[1]]
                        o.data[off:off + n] = [None if isinstance(v, Undef) else v] * n
                else:
                    s = self.conc(st, r[A[1]])
                    self.memcpy(st, d, s, n)
            return h
        if nm in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul') and base[2] == 'with':
            w = argtys[0].w
            def h(st, r):
                x, y = self.lift(r[A[0]], w), self.lift(r[A[1]], w)
                e = w if 'mul' in nm else 1
                X, Y = (z3.SignExt(e, x), z3.SignExt(e, y)) if nm[0] == 's' else (z3.ZeroExt(e, x), z3.ZeroExt(e, y))
                op = {'add': lambda p, q: p + q, 'sub': lambda p, q: p - q, 'mul': lambda p, q: p * q}[nm[1:]]
                V = op(X, Y); v = op(x, y)
                ext = z3.SignExt(e, v) if nm[0] == 's' else z3.ZeroExt(e, v)
                r[dst] = [simp(v), simp(V != ext)]
            return h
        if nm in ('sadd', 'uadd', 'ssub', 'usub') and base[2] == 'sat':
            pass
        if nm in ('smax', 'smin', 'umax', 'umin'):
            w = argtys[0].w
            def h(st, r):
                x, y = r[A[0]], r[A[1]]
                p = {'smax': 38, 'smin': 40, 'umax': 34, 'umin': 36}[nm]
                r[dst] = self.ite(self.icmp(p, x, y, w), x, y, ty)
            return h
        if nm == 'abs':
            w = argtys[0].w
            def h(st, r):
                x = self.lift(r[A[0]], w)
                r[dst] = simp(z3.If(x < 0, -x, x))
            return h
        if nm == 'bswap':
            w = argtys[0].w
            def h(st, r):
                x = self.lift(r[A[0]], w)
                r[dst] = simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)]))
            return h
        if nm in ('fshl', 'fshr'):
            w = argtys[0].w
            def h(st, r):
                x, y, s = (self.lift(r[A[i]], w) for i in range(3))
                s = z3.URem(s, z3.BitVecVal(w, w))
                c = z3.Concat(x, y); s2 = z3.ZeroExt(w, s)
                r[dst] = simp(z3.Extract(2 * w - 1, w, c << s2)) if nm == 'fshl' else simp(z3.Extract(w - 1, 0, z3.LShR(c, s2)))
            return h
        if nm in ('ctpop', 'ctlz', 'cttz'):
            w = argtys[0].w
            def h(st, r):
                x = self.lift(r[A[0]], w)
                bs = [z3.Extract(i, i, x) for i in range(w)]
                if nm == 'ctpop': v = sum([z3.ZeroExt(w - 1, b) for b in bs[1:]], z3.ZeroExt(w - 1, bs[0])) if w > 1 else x
                else:
                    v = z3.BitVecVal(w, w)
                    order = range(w) if nm == 'ctlz' else range(w - 1, -1, -1)
                    for i in order:
                        v = z3.If(bs[i] == 1, z3.BitVecVal((w - 1 - i) if nm == 'ctlz' else i, w), v)
                r[dst] = simp(v)
            return h
        if nm == 'bitreverse':
            w = argtys[0].w
            def h(st, r):
                x = self.lift(r[A[0]], w)
                r[dst] = simp(z3.Concat(*[z3.Extract(i, i, x) for i in range(w)]))
            return h
        if nm == 'threadlocal' and base[2] == 'address':
            def h(st, r): r[dst] = r[A[0]]
            return h
        if nm == 'expect':
            def h(st, r): r[dst] = r[A[0]]
            return h
        if nm == 'assume':
            def h(st, r):
                c = r[A[0]]
                if type(c) is int:
                    if not c: raise Violation('ub', 'assumption violated')
            return h
        if nm in ('ubsantrap',):
            def h(st, r): raise Violation('ub', 'undefined behaviour (UBSan check %s)' % r[A[0]])
            return h
        if nm in ('trap', 'debugtrap'):
            def h(st, r): raise Violation('abort', 'trap')
            return h
        if nm == 'objectsize':
            def h(st, r): r[dst] = (1 << ty.w) - 1 if not r[A[1]] else 0
            return h
        if nm == 'is' and base[2] == 'constant':
            def h(st, r): r[dst] = 0
            return h
        if nm == 'eh' and base[2] == 'typeid':
            def h(st, r): r[dst] = self.typeid(r[A[0]])
            return h
        if nm in ('stacksave',):
            def h(st, r): r[dst] = 0
            return h
        if nm in ('stackrestore', 'donothing', 'prefetch', 'invariant', 'var', 'sideeffect', 'pseudoprobe', 'annotation', 'launder', 'strip'):
            if nm in ('launder', 'strip'):
                def h(st, r): r[dst] = r[A[0]]
                return h
            return lambda st, r: r.__setitem__(dst, 0) if ty.k != 'void' else None
        def h(st, r): raise Unsupported('intrinsic ' + name)
        return h

    def typeid(self, addr):
        return ((addr >> SHIFT) & 0x7fffffff) + 1 if addr else 1

    # ------------------------------------------------------------------ library models
    def _model_for(self, name):
        return getattr(self, 'lib_' + name, None) or LIBALIAS.get(name)

    # each model: (st, args, argtys) -> value
    def _alloc(self, st, n, what, align=16):
        n = self.conc(st, n)
        if n > 1 << 24: raise Violation('memory', 'allocation of %d bytes' % n)
        st.nalloc += 1; st.nlive += 1
        return self.new_obj(st, n, 'heap', 'heap block (%s)' % what, align)

    def _free(self, st, p, what):
        p = self.conc(st, p)
        if p == 0: return
        o = st.mem.get(p >> SHIFT)
        if o is None or o.kind != 'heap' or (p & OFFMASK) != o.pad:
            raise Violation('memory', 'invalid deallocation')
        if o.dead: raise Violation('memory', 'double deallocation')
        if ('new' in o.name) != (what == 'delete') and o.name:
            kinds = {'heap block (new)': 'delete', 'heap block (new[])': 'delete[]', 'heap block (malloc)': 'free'}
        if {'heap block (new)': 'delete', 'heap block (new[])': 'delete[]', 'heap block (malloc)': 'free'}.get(o.name) != what:
            raise Violation('memory', 'mismatched deallocation of %s by %s' % (o.name, what))
        o = o.clone(st.owner); o.dead = 'freed'; o.data = []
        st.mem[p >> SHIFT] = o
        st.nlive -= 1

    def lib_malloc(self, st, a, t): return self._alloc(st, a[0], 'malloc')
    def lib_free(self, st, a, t): self._free(st, a[0], 'free')
    def lib__Znwm(self, st, a, t): return self._alloc(st, a[0], 'new')
    def lib__Znam(self, st, a, t): return self._alloc(st, a[0], 'new[]')
    def lib__ZnwmSt11align_val_t(self, st, a, t): return self._alloc(st, a[0], 'new', self.conc(st, a[1]))
    def lib__ZnwmRKSt9nothrow_t(self, st, a, t): return self._alloc(st, a[0], 'new')
    def lib__ZdlPv(self, st, a, t): self._free(st, a[0], 'delete')
    def lib__ZdaPv(self, st, a, t): self._free(st, a[0], 'delete[]')
    def lib__ZdlPvm(self, st, a, t): self._free(st, a[0], 'delete')
    def lib__ZdaPvm(self, st, a, t): self._free(st, a[0], 'delete[]')
    def lib__ZdlPvSt11align_val_t(self, st, a, t): self._free(st, a[0], 'delete')
    def lib__ZdlPvmSt11align_val_t(self, st, a, t): self._free(st, a[0], 'delete')
    def lib_calloc(self, st, a, t):
        p = self._alloc(st, self.conc(st, a[0]) * self.conc(st, a[1]), 'malloc')
        o = st.mem[p >> SHIFT]; o.data[:] = [0] * o.size
        return p

    def lib_memcpy(self, st, a, t):
        d, s, n = self.conc(st, a[0]), self.conc(st, a[1]), self.conc(st, a[2])
        self.memcpy(st, d, s, n); return d
    lib_memmove = lib_memcpy
    def lib_memset(self, st, a, t):
        d, n = self.conc(st, a[0]), self.conc(st, a[2])
        if n:
            o, off = self.find(st, d, n, True)
            v = a[1] & 255 if type(a[1]) is int else simp(z3.Extract(7, 0, self.lift(a[1], 32)))
            o.data[off:off + n] = [v] * n
        return d
    def lib___cxa_demangle(self, st, a, t):
        import subprocess
        n = self.cstr(st, a[0])
        # type names (unlike symbols) have no prefix
        r = subprocess.run(['c++filt', '-t', n], stdout=subprocess.PIPE).stdout.decode().strip().encode()
        p = self._alloc(st, len(r) + 1, 'malloc')
        st.mem[p >> SHIFT].data[:] = list(r) + [0]
        q = self.conc(st, a[3])
        if q: self.store_bits(st, q, 0, 4)
        return p
    def lib_strcpy(self, st, a, t):
        d, n = self.conc(st, a[0]), self.lib_strlen(st, [a[1]], t)
        self.memcpy(st, d, self.conc(st, a[1]), n + 1)
        return d
    def lib_memchr(self, st, a, t):
        p, c, n = self.conc(st, a[0]), self.conc(st, a[1]) & 255, self.conc(st, a[2])
        for i in range(n):
            if self.conc(st, self.load_bits(st, p + i, 1)) == c: return p + i
        return 0
    def lib_strlen(self, st, a, t):
        p = self.conc(st, a[0]); n = 0
        while True:
            b = self.conc(st, self.load_bits(st, p + n, 1))
            if b == 0: return n
            n += 1
    def lib_strcmp(self, st, a, t):
        p, q = self.conc(st, a[0]), self.conc(st, a[1]); i = 0
        while True:
            x = self.conc(st, self.load_bits(st, p + i, 1)); y = self.conc(st, self.load_bits(st, q + i, 1))
            if x != y: return (1 if x > y else -1) & 0xffffffff
            if x == 0: return 0
            i += 1
    def lib_memcmp(self, st, a, t):
        p, q, n = self.conc(st, a[0]), self.conc(st, a[1]), self.conc(st, a[2])
        res = z3.BitVecVal(0, 32)
        for i in reversed(range(n)):
            x = self.lift(self.load_bits(st, p + i, 1), 8); y = self.lift(self.load_bits(st, q + i, 1), 8)
            res = z3.If(x == y, res, z3.If(z3.ULT(x, y), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
        return simp(res)
    lib_bcmp = lib_memcmp
    def lib_memchr(self, st, a, t):
        p, n = self.conc(st, a[0]), self.conc(st, a[2]); c = self.conc(st, a[1]) & 255
        for i in range(n):
            if self.conc(st, self.load_bits(st, p + i, 1)) == c: return p + i
        return 0
    # std::list bookkeeping lives in libstdc++.so; node: next@0, prev@8
    def lib__ZNSt8__detail15_List_node_base7_M_hookEPS0_(self, st, a, t):
        me, pos = self.conc(st, a[0]), self.conc(st, a[1])
        prev = self.conc(st, self.load_bits(st, pos + 8, 8))
        self.store_bits(st, me, pos, 8); self.store_bits(st, me + 8, prev, 8)
        self.store_bits(st, prev, me, 8); self.store_bits(st, pos + 8, me, 8)
    def lib__ZNSt8__detail15_List_node_base9_M_unhookEv(self, st, a, t):
        me = self.conc(st, a[0])
        nxt, prev = self.conc(st, self.load_bits(st, me, 8)), self.conc(st, self.load_bits(st, me + 8, 8))
        self.store_bits(st, prev, nxt, 8); self.store_bits(st, nxt + 8, prev, 8)
    def lib___cxa_atexit(self, st, a, t): return 0
    def lib___cxa_thread_atexit(self, st, a, t): return 0
    def lib_atexit(self, st, a, t): return 0
    def lib___cxa_guard_acquire(self, st, a, t):
        p = self.conc(st, a[0])
        return 0 if self.load_bits(st, p, 1) else 1
    def lib___cxa_guard_release(self, st, a, t): self.store_bits(st, self.conc(st, a[0]), 1, 1)
    def lib___cxa_guard_abort(self, st, a, t): pass
    def lib_abort(self, st, a, t): raise Violation('abort', 'abort() called')
    def lib__ZSt9terminatev(self, st, a, t): raise Violation('abort', 'std::terminate() called')
    def lib___cxa_pure_virtual(self, st, a, t): raise Violation('abort', 'pure virtual function called')
    def lib___assert_fail(self, st, a, t): raise Violation('abort', 'assertion failed: ' + self.cstr(st, a[0]))

    # exceptions
    def lib___cxa_allocate_exception(self, st, a, t):
        n = self.conc(st, a[0])
        return self.new_obj(st, n, 'exc', 'exception object', 16)
    def lib___cxa_free_exception(self, st, a, t):
        st.mem.pop(self.conc(st, a[0]) >> SHIFT, None)
    def lib___cxa_get_exception_ptr(self, st, a, t): return a[0]
    def lib___cxa_begin_catch(self, st, a, t):
        st.caught = st.caught + (a[0],)
        return a[0]

    # harness interface
    def lib_vp_sym(self, st, a, t):
        bits = self.conc(st, a[0])
        v = self.var('in%d_%d' % (st.ninputs, bits), bits)
        st.ninputs += 1
        st.inputs = st.inputs + ((v.decl().name(), bits),)
        return simp(z3.ZeroExt(64 - bits, v)) if bits < 64 else v
    def lib_vp_sym_bytes(self, st, a, t):
        p, n = self.conc(st, a[0]), self.conc(st, a[1])
        for i in range(n):
            v = self.var('in%d_8' % st.ninputs, 8); st.ninputs += 1
            st.inputs = st.inputs + ((v.decl().name(), 8),)
            self.store_bits(st, p + i, v, 1)
    def lib_vp_assume(self, st, a, t):
        c = a[0]
        if type(c) is int:
            if not c: raise PathEnd()
            return
        c = self.liftb(c)
        if self.evalc(st, c):
            st.pc = st.pc + (c,); return
        m = self.check(st, c)
        if m is None: raise PathEnd()
        self.add_pc(st, c, m)
    def lib_vp_assert(self, st, a, t):
        c = a[0]
        self.stats.asserts += 1
        if type(c) is int:
            self.stats.asserts_structural += 1
            if not c: raise Violation('assert', self.cstr(st, a[1]))
            return
        c = self.liftb(c)
        neg = z3.Not(c)
        m = None
        if not self.evalc(st, c): m = {}
        else: m = self.check(st, neg)
        if m is not None:
            full = dict(st.assign); full.update(m)
            self.record(st, Violation('assert', self.cstr(st, a[1]), full))
            pos = self.check(st, c)
            if pos is None: raise PathEnd()
            self.add_pc(st, c, pos)
    def lib_vp_cover(self, st, a, t):
        n = self.cstr(st, a[0]); self.covers[n] = self.covers.get(n, 0) + 1
    def lib_vp_log(self, st, a, t): st.log = st.log + (a[0],)
    def lib_vp_choose(self, st, a, t):
        n = self.conc(st, a[0])
        name = 'in%d_32' % st.ninputs
        v = self.var(name, 32)
        key = v.get_id()
        r = st.conc.get(key)
        if r is None:
            if n == 0: raise PathEnd()
            c = z3.ULT(v, n)
            if c.get_id() not in [x.get_id() for x in st.pc[-1:]]:
                st.pc = st.pc + (c,)
                if st.assign.get(name, 0) >= n: st.assign[name] = 0
            raise Concretize(v)
        st.ninputs += 1
        st.inputs = st.inputs + ((name, 32),)
        return r[1]
    def lib_vp_conc(self, st, a, t): return self.conc(st, a[0])
    def lib_vp_is_symbolic(self, st, a, t): return 0 if type(a[0]) is int else 1
    def lib_vp_live(self, st, a, t): return st.nlive
    def lib_vp_allocs(self, st, a, t): return st.nalloc
    def lib_vp_undef(self, st, a, t):
        p, n = self.conc(st, a[0]), self.conc(st, a[1])
        if n:
            o, off = self.find(st, p, n, True)
            o.data[off:off + n] = [None] * n
    def lib_vp_assert_defined(self, st, a, t):
        p, n = self.conc(st, a[0]), self.conc(st, a[1])
        o, off = self.find(st, p, n, False)
        for i in range(n):
            b = o.data[off + i]
            self.stats.asserts += 1
            if b is None: raise Violation('uninit', self.cstr(st, a[2]))
            if type(b) is int: self.stats.asserts_structural += 1; continue
            e = self.byte_expr(b)
            if type(e) is int or not any(v.startswith('!u') for v in self.vars_of(e)):
                self.stats.asserts_structural += 1; continue
            if self.depends_on_uninit(st, e): raise Violation('uninit', self.cstr(st, a[2]))

    # ------------------------------------------------------------------ execution
    def record(self, st, v):
        key = (v.kind, v.msg, self.case)
        if key in self.vseen: return
        self.vseen.add(key)
        assign = v.model if v.model is not None else st.assign
        inputs = [(n, b, assign.get(n, 0)) for n, b in st.inputs]
        loc = self.where()
        self.violations.append(dict(case=self.case, kind=v.kind, msg=v.msg, inputs=inputs, where=loc,
                                    udep=any(n.startswith('!u') for c in st.pc for n in self.vars_of(c))))
        if len(self.violations) >= self.max_violations: raise CaseStop()

    def where(self):
        out = []
        for fn, ins in reversed(self.stack[-12:]):
            out.append((fn.name, self.line(ins[0]) if ins[0] else '?'))
        return out

    def call_fn(self, st, f, args, argtys, byval):
        """Outcomes [(state, kind, value)] of calling f."""
        if f.model is not None:
            return [(st, 'ret', f.model(st, args, argtys))]
        if f.decl:
            n = f.name
            if n == '__cxa_throw':
                p, ti = self.conc(st, args[0]), self.conc(st, args[1])
                o = st.mem[p >> SHIFT].clone(st.owner)
                o.name = 'exc:%d' % ti
                st.mem[p >> SHIFT] = o
                return [(st, 'exc', (p, ti))]
            if n == '__cxa_rethrow':
                if not st.caught: raise Violation('abort', 'rethrow without exception')
                p = st.caught[-1]; st.caught = st.caught[:-1]
                return [(st, 'exc', (p, self.exc_type(st, p)))]
            if n == '__cxa_end_catch':
                if st.caught:
                    p = st.caught[-1]; st.caught = st.caught[:-1]
                    if p not in st.caught: st.mem.pop(p >> SHIFT, None)
                return [(st, 'ret', None)]
            if n == '_Unwind_Resume':
                raise Unsupported('_Unwind_Resume')
            if n.startswith('_ZSt') and '__throw_' in n:
                raise Violation('abort', 'standard library exception thrown: ' + n)
            raise Unsupported('call of external function ' + n)
        if byval:
            args = list(args)
            extra = []
            for i, b in enumerate(byval):
                if b is not None:
                    p = self.new_obj(st, b.alloc, 'stack', 'byval argument', max(b.align, 8))
                    self.memcpy(st, p, self.conc(st, args[i]), b.alloc)
                    args[i] = p; extra.append(p >> SHIFT)
            return self.run(st, f, args, tuple(extra))
        return self.run(st, f, args, ())

    def exc_type(self, st, p):
        o = st.mem.get(p >> SHIFT)
        return int(o.name[4:]) if o is not None and o.name.startswith('exc:') else 0

    def run(self, st, f, args, extra=()):
        if not f.decoded: self.decode(f)
        self.executed.add(f.name)
        if len(self.stack) > 400: raise Violation('memory', 'unbounded recursion')
        regs = list(f.template)
        regs[0] = extra
        for s, v in zip(f.params, args): regs[s] = v
        n0 = len(st.pc)
        entry_depth = len(self.stack)
        cur = [None]
        self.stack.append((f, cur))
        outcomes = []
        work = [(st, regs, 0, 0)]
        stats = self.stats
        blocks = f.blocks
        try:
            while work:
                st, regs, bi, ip = work.pop()
                code = blocks[bi].code
                try:
                    while True:
                        ins = code[ip]
                        cur[0] = ins[3]
                        k = ins[0]
                        stats.instrs += 1
                        if k == 0:
                            ins[1](st, regs)
                            ip += 1
                            continue
                        nb = None
                        if k == 1:
                            fn, cs, argslots, argtys, byval, dst, ty, normal, unwind, intr = ins[1]
                            if intr is not None:
                                intr(st, regs)
                                res = None
                            else:
                                if fn is None:
                                    a = regs[cs]
                                    if type(a) is not int: a = self.conc(st, a)
                                    fn = self.addr2fn.get(a)
                                    if fn is None:
                                        if a == 0: raise Violation('memory', 'call through a null pointer')
                                        raise Violation('memory', 'call through an invalid function pointer')
                                st.steps += 1
                                if st.steps & 255 == 0: self.tick(st)
                                res = self.call_fn(st, fn, [regs[s] if s is not None else None for s in argslots], argtys, byval)
                            if res is None:
                                nb = normal
                            else:
                                if len(res) != 1:
                                    # several outcomes: continue each of them
                                    for (s2, kind, val) in res:
                                        r2 = list(regs)
                                        self.after_call(f, s2, r2, bi, ip, ins, kind, val, work, outcomes)
                                    break
                                s2, kind, val = res[0]
                                if kind == 'ret':
                                    st = s2
                                    if dst is not None: regs[dst] = val
                                    if normal is None:
                                        ip += 1
                                        continue
                                    nb = normal
                                else:
                                    self.after_call(f, s2, regs, bi, ip, ins, kind, val, work, outcomes)
                                    break
                        elif k == 2:
                            nb = ins[1]
                            st.steps += 1
                            if st.steps & 1023 == 0: self.tick(st)
                        elif k == 3:
                            c = regs[ins[1]]
                            if type(c) is int:
                                nb = ins[2][0] if c else ins[2][1]
                            else:
                                c = self.liftb(c)
                                br = self.branch(st, c)
                                if len(br) == 1:
                                    nb = ins[2][0] if br[0][0] else ins[2][1]
                                else:
                                    stats.forks += 1
                                    (v0, _), (v1, a1) = br
                                    s2 = st.fork()
                                    s2.pc = s2.pc + (c if v1 else simp(z3.Not(c)),)
                                    s2.assign.update(a1)
                                    r2 = list(regs)
                                    st.pc = st.pc + (c if v0 else simp(z3.Not(c)),)
                                    t1 = ins[2][0] if v1 else ins[2][1]
                                    self.do_phis(blocks[t1], bi, r2)
                                    work.append((s2, r2, t1, 0))
                                    nb = ins[2][0] if v0 else ins[2][1]
                        elif k == 4:
                            v = regs[ins[1]]
                            w, cases, default = ins[2]
                            nb = default
                            if type(v) is int:
                                for c, b in cases:
                                    if c == v: nb = b; break
                            else:
                                v = self.lift(v, w)
                                alts = {}
                                for c, b in cases: alts.setdefault(b, []).append(v == z3.BitVecVal(c, w))
                                rest = z3.And(*[v != z3.BitVecVal(c, w) for c, b in cases]) if cases else z3.BoolVal(True)
                                alts.setdefault(default, []).append(rest)
                                feas = []
                                for b, cs_ in alts.items():
                                    cond = simp(z3.Or(*cs_)) if len(cs_) > 1 else simp(cs_[0])
                                    if type(cond) is int:
                                        if cond: feas.append((b, None, {}))
                                        continue
                                    asg = {} if self.evalc(st, cond) else self.check(st, cond)
                                    if asg is not None: feas.append((b, cond, asg))
                                stats.branches += 1
                                if self.hunt: feas = [self.rng.choice(feas)]
                                stats.forks += len(feas) - 1
                                for b, cond, asg in feas[1:]:
                                    s2 = st.fork()
                                    if cond is not None: s2.pc = s2.pc + (cond,)
                                    s2.assign.update(asg)
                                    r2 = list(regs)
                                    self.do_phis(blocks[b], bi, r2)
                                    work.append((s2, r2, b, 0))
                                nb, cond, asg = feas[0]
                                if cond is not None: st.pc = st.pc + (cond,)
                                st.assign.update(asg)
                        elif k == 5:
                            val = regs[ins[1]] if ins[1] is not None else None
                            for oid in regs[0]: st.mem.pop(oid, None)
                            outcomes.append((st, 'ret', val))
                            break
                        elif k == 6:
                            raise Violation('ub', 'unreachable code reached')
                        elif k == 7:
                            v = regs[ins[1]]
                            p = self.conc(st, v[0])
                            for oid in regs[0]: st.mem.pop(oid, None)
                            outcomes.append((st, 'exc', (p, self.exc_type(st, p))))
                            break
                        # branch to nb
                        B = blocks[nb]
                        if B.phis: self.do_phis(B, bi, regs)
                        bi = nb; ip = 0
                        code = B.code
                except Concretize as c:
                    e = c.expr
                    vals = self.enumerate(st, e)
                    stats.forks += len(vals) - 1
                    todo = []
                    for i, (v, asg) in enumerate(vals):
                        s2 = st.fork() if i < len(vals) - 1 else st
                        eq = simp(e == z3.BitVecVal(v, e.size()))
                        if type(eq) is not int:
                            s2.pc = s2.pc + (eq,)
                        s2.assign.update(asg)
                        s2.conc[e.get_id()] = (e, v)
                        todo.append((s2, list(regs) if i < len(vals) - 1 else regs, bi, ip))
                    work.extend(reversed(todo))
                except Violation as v:
                    self.record(st, v)
                    stats.paths += 1
                except PathEnd:
                    stats.paths += 1
        finally:
            del self.stack[entry_depth:]
        if len(outcomes) > 1: outcomes = self.merge(outcomes, n0, f)
        return outcomes

    def tick(self, st):
        if st.steps > self.max_steps: raise Violation('abort', 'execution does not terminate within the step bound')
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget exceeded')
        if self.stop and self.stop(): raise Unsupported('given up, a violation was found elsewhere')

    def do_phis(self, B, pred, regs):
        ph = B.phis.get(pred)
        if not ph: return
        vals = [regs[s] for _, s in ph]
        for (d, _), v in zip(ph, vals): regs[d] = v

    def after_call(self, f, st, regs, bi, ip, ins, kind, val, work, outcomes):
        fn, cs, argslots, argtys, byval, dst, ty, normal, unwind, intr = ins[1]
        if kind == 'ret':
            if dst is not None: regs[dst] = val
            if normal is None: work.append((st, regs, bi, ip + 1))
            else:
                self.do_phis(f.blocks[normal], bi, regs)
                work.append((st, regs, normal, 0))
            return
        p, ti = val
        if unwind is not None:
            B = f.blocks[unwind]
            lp = B.code[0][1]
            sel = None
            for kind2, c in lp.clauses:
                if kind2 == 'catch':
                    if c == 0: sel = 1; break
                    if c == ti or self.derives(ti, c): sel = self.typeid(c); break
                else:
                    if not any(x == ti for x in c): sel = (1 << 32) - 1; break
            if sel is None and lp.cleanup: sel = 0
            if sel is not None:
                self.do_phis(B, bi, regs)
                regs[lp.dst] = [p, sel]
                work.append((st, regs, unwind, 1))
                return
        for oid in regs[0]: st.mem.pop(oid, None)
        outcomes.append((st, 'exc', val))

    def derives(self, ti, base):
        """Follow __si_class_type_info chains in the type_info objects of the module."""
        seen = 0
        while ti and seen < 10:
            if ti == base: return True
            o = self.base.mem.get(ti >> SHIFT)
            if o is None or o.size < 3 * self.psize: return False
            try:
                ti = int.from_bytes(bytes(o.data[2 * self.psize:3 * self.psize]), 'little' if self.little else 'big')
            except TypeError:
                return False
            seen += 1
        return False

    # ------------------------------------------------------------------ merging
    def merge(self, outs, n0, f):
        res = []
        for o in outs:
            for i, r in enumerate(res):
                mm = self.try_merge(r, o, n0)
                if mm is not None:
                    res[i] = mm
                    self.stats.merges += 1
                    break
            else:
                res.append(o)
        return res

    def try_merge(self, A, B, n0):
        s1, k1, v1 = A; s2, k2, v2 = B
        if k1 != 'ret' or k2 != 'ret': return None
        if s1.inputs != s2.inputs or len(s1.log) != len(s2.log) or s1.nalloc != s2.nalloc or s1.nlive != s2.nlive \
           or s1.caught != s2.caught: return None
        c1 = s1.pc[n0:]; c2 = s2.pc[n0:]
        if not c1 or not c2: return None
        m1, m2 = s1.mem, s2.mem
        if len(m1) != len(m2) or m1.keys() != m2.keys(): return None
        # return value
        if not self.mergeable_val(v1, v2): return None
        diffs = []
        for oid, o1 in m1.items():
            o2 = m2[oid]
            if o1 is o2: continue
            if o1.size != o2.size or o1.dead != o2.dead or o1.kind != o2.kind or o1.pad != o2.pad: return None
            if o1.dead: continue
            for i, (x, y) in enumerate(zip(o1.data, o2.data)):
                if x is y: continue
                tx, ty = type(x), type(y)
                if tx is int and ty is int:
                    if x != y: return None
                    continue
                if x is None or y is None: return None
                if tx is tuple and ty is tuple and x[0] is y[0] and x[1] == y[1]: continue
                diffs.append((oid, i, x, y))
                if len(diffs) > 4096: return None
        C1 = z3.And(*c1) if len(c1) > 1 else c1[0]
        C2 = z3.And(*c2) if len(c2) > 1 else c2[0]
        C1 = z3.simplify(C1)
        st = s1
        st.owner = object()
        ds = simp(z3.Or(C1, C2))
        newpc = s1.pc[:n0]
        if type(ds) is not int: newpc = newpc + (ds,)
        cond = C1
        # contents
        cache = {}
        for oid, i, x, y in diffs:
            o = st.mem[oid]
            if o.owner is not st.owner:
                o = o.clone(st.owner); st.mem[oid] = o
            o.data[i] = simp(z3.If(cond, self.byte_expr(x), self.byte_expr(y)))
        log = []
        for x, y in zip(s1.log, s2.log):
            if x is y or (type(x) is int and type(y) is int and x == y): log.append(x)
            else: log.append(simp(z3.If(cond, self.lift(x, 64), self.lift(y, 64))))
        st.log = tuple(log)
        st.pc = newpc
        st.conc = {k: v for k, v in s1.conc.items() if k in s2.conc and s2.conc[k][1] == v[1]}
        st.nextid = max(s1.nextid, s2.nextid)
        st.steps = max(s1.steps, s2.steps)
        return (st, 'ret', self.merge_val(cond, v1, v2))

    def mergeable_val(self, a, b):
        if a is b: return True
        if isinstance(a, Undef) or isinstance(b, Undef): return False
        if a is None or b is None: return False
        if type(a) is list:
            return type(b) is list and all(self.mergeable_val(x, y) for x, y in zip(a, b))
        if type(a) is int and type(b) is int:
            return a == b
        if type(b) is list: return False
        return True

    def merge_val(self, c, a, b):
        if a is b: return a
        if type(a) is list: return [self.merge_val(c, x, y) for x, y in zip(a, b)]
        if type(a) is int and type(b) is int: return a
        e = a if type(a) is not int else b
        if z3.is_bool(e): return simp(z3.If(c, self.liftb(a), self.liftb(b)))
        w = e.size()
        return simp(z3.If(c, self.lift(a, w), self.lift(b, w)))

    # ------------------------------------------------------------------ entry point
    def cases(self):
        return sorted(n[8:] for n, f in self.fns.items() if n.startswith('vp_case_') and not f.decl)

    def run_case(self, case):
        self.case = case
        self.stack = []
        st = self.base.fork()
        try:
            states = [st]
            for c in self.ctors:
                f = self.addr2fn[c]
                nxt = []
                for s in states:
                    nxt += [o[0] for o in self.call_fn(s, f, [], [], None)]
                states = nxt
            for s in states:
                for (s2, kind, val) in self.call_fn(s, self.fns['vp_case_' + case], [], [], None):
                    self.stats.paths += 1
                    if kind == 'exc':
                        self.record(s2, Violation('abort', 'uncaught exception'))
                        continue
                    self.paths_done.append(s2)
        except CaseStop:
            pass
        return self

    def hunt_case(self, case, until):
        """Looks for violations along paths drawn at random: what can still be said when there are too many of them.
        Each path stands for all the values that lead along it, and the solver decides whether any violates the property."""
        self.hunt = True
        self.paths_done = []
        runs = 0
        while time.time() < until and not self.violations and not (self.stop and self.stop()):
            runs += 1
            self.deadline = min(until, time.time() + 20)
            try:
                self.run_case(case)
            except Unsupported:
                pass
            self.paths_done = []
            if runs % 50 == 0: self.qcache.clear(); self.vars_cache.clear(); self.lits = {}; self.solver = z3.SolverFor('QF_BV')
        return runs

    def traces(self, k):
        """Up to k completed paths as (inputs, log) with concrete values, for comparison with native runs."""
        out = []
        ps = self.paths_done
        if len(ps) > k: ps = self.rng.sample(ps, k)
        for st in ps:
            vs = set()
            bad = False
            for x in st.log:
                if type(x) is not int:
                    vs |= self.vars_of(x)
            if any(v.startswith('!u') for v in vs) or any(v.startswith('!u') for c in st.pc for v in self.vars_of(c)):
                continue
            # a random assignment: perturb free inputs, keep the path condition
            assign = dict(st.assign)
            pcv = set()
            for c in st.pc: pcv |= self.vars_of(c)
            for n, b in st.inputs:
                if n not in pcv:
                    assign[n] = self.rng.choice([0, 1, (1 << b) - 1, 1 << (b - 1), (1 << (b - 1)) - 1, self.rng.getrandbits(b), self.rng.getrandbits(b)])
            out.append((self.case, [assign.get(n, 0) for n, b in st.inputs],
                        [self.evalc(st, x, assign) for x in st.log]))
        return out


LIBALIAS = {}
