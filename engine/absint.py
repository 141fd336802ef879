"""Abstract interpretation of LLVM IR into a gated value graph.

Forward dataflow over the (loop-nest ordered) control-flow graph of one function and its callees.
Abstract values:
  * integers        - constants (constant propagation) or opaque integer terms
  * memory          - field-sensitive points-to: (object, constant byte offset) -> value
  * field / real    - hash-consed *terms* (value numbering); nothing is evaluated numerically
  * booleans/joins  - decision diagrams over guard atoms (gated SSA), so that no path is enumerated
The result is the value graph of the outputs, which engine/poly.py normalises in a polynomial ring.
"""
import json
import sys
from fractions import Fraction
import dd as D
from dd import leaf, ite, TRUE, FALSE, and_, or_, not_

sys.setrecursionlimit(200000)


FUEL = [2_000_000]     # abstract block executions per obligation


class AnalysisError(Exception):
    pass


class Endless(AnalysisError):
    """a loop whose every exit test was decided against leaving it, far beyond any size in use"""


class OutOfFuel(AnalysisError):
    pass


class Undef:
    def __repr__(self): return "undef"
    def __hash__(self): return 7
    def __eq__(self, o): return isinstance(o, Undef)


UNDEF_P = Undef()
UNDEF = leaf(UNDEF_P)


class NPtr:
    """an integer minus the address of an object (a step of a pointer difference)"""
    __slots__ = ("obj", "off")
    def __init__(self, obj, off): self.obj = obj; self.off = off
    def __eq__(self, o): return isinstance(o, NPtr) and self.obj == o.obj and self.off == o.off
    def __hash__(self): return hash(("nptr", self.obj, self.off))
    def __repr__(self): return f"-({self.obj}) + {self.off}"


class Ptr(tuple):
    """(object id or None for null, byte offset)"""
    __slots__ = ()
    def __new__(cls, o, off): return tuple.__new__(cls, (o, off))
    @property
    def obj(self): return self[0]
    @property
    def off(self): return self[1]


class Fn(str):
    pass


class Agg(tuple):
    pass


class Cat(tuple):
    """raw bytes of several adjacent slots read by one wide access: ((offset, size, value DD), ...)"""


class Term:
    __slots__ = ("op", "p", "args", "id")
    def __repr__(self): return f"t{self.id}"


_terms = {}
_tid = [0]


def term(op, p, *args):
    k = (op, p) + tuple(a.id if isinstance(a, Term) else (("dd", a.id) if isinstance(a, D.DD) else ("v", type(a).__name__, a)) for a in args)
    t = _terms.get(k)
    if t is None:
        t = Term(); t.op = op; t.p = p; t.args = args; _tid[0] += 1; t.id = _tid[0]
        _terms[k] = t
    return t


def show(t, depth=6):
    if isinstance(t, D.DD):
        if t.leaf: return show(t.v, depth)
        if depth <= 0: return "..."
        return f"[{show_atom(t.var)} ? {show(t.hi, depth-1)} : {show(t.lo, depth-1)}]"
    if isinstance(t, Term):
        if depth <= 0: return "..."
        if t.op in ("in", "c", "iin"): return str(t.args[0])
        return f"{t.op}({', '.join(show(a, depth-1) for a in t.args)})"
    return str(t)


class Atoms:
    def __init__(self): self.k = {}; self.l = []
    def get(self, kind, p, *args):
        key = (kind, p) + tuple(a.id if isinstance(a, Term) else ("v", a) for a in args)
        i = self.k.get(key)
        if i is None:
            i = len(self.l); self.k[key] = i; self.l.append((kind, p, args))
        return D.node(i, TRUE, FALSE)


ATOMS = Atoms()


def show_atom(v):
    kind, p, args = ATOMS.l[v]
    return f"{kind}({', '.join(show(a, 5) for a in args)})"


def reset():
    D.reset(); _terms.clear()
    global TRUE, FALSE, UNDEF
    TRUE = D.TRUE; FALSE = D.FALSE
    UNDEF = leaf(UNDEF_P)
    ATOMS.k.clear(); ATOMS.l.clear()


# ---------------------------------------------------------------- field terms
def as_term(p, d):
    """A DD holding a field/real value -> Term."""
    if isinstance(d, D.DD):
        if d.leaf:
            v = d.v
            if isinstance(v, Term): return v
            if isinstance(v, Undef): return term("undef", p)
            if isinstance(v, (int, Fraction)): return const_term(p, v)
            raise AnalysisError(f"not a scalar: {v!r}")
        return term("gate", p, d)
    return d


def const_term(p, v):
    if p is not None:
        v = v % p
    return term("c", p, v if isinstance(v, (int, Fraction)) else int(v))


def isc(t): return t.op == "c"


def fold(p, v):
    """constant result as DD"""
    if p is None: return leaf(Fraction(v))
    return leaf(v % p)


def f_bin(op, p, a, b):
    a = as_term(p, a); b = as_term(p, b)
    if isc(a) and isc(b):
        x, y = a.args[0], b.args[0]
        if op == "add": return fold(p, x + y)
        if op == "sub": return fold(p, x - y)
        if op == "mul": return fold(p, x * y)
        if op == "div" and y != 0:
            if p is None: return fold(p, Fraction(x) / y)
            return fold(p, x * pow(y, -1, p))
    # neutral elements only: everything else is left to the polynomial normal form
    if op == "add":
        if isc(a) and a.args[0] == 0: return leaf(b)
        if isc(b) and b.args[0] == 0: return leaf(a)
    if op == "sub" and isc(b) and b.args[0] == 0: return leaf(a)
    if op == "mul":
        if isc(a) and a.args[0] == 0: return fold(p, 0)
        if isc(b) and b.args[0] == 0: return fold(p, 0)
        if isc(a) and a.args[0] == 1: return leaf(b)
        if isc(b) and b.args[0] == 1: return leaf(a)
    return leaf(term(op, p, a, b))


def f_un(op, p, a):
    a = as_term(p, a)
    if isc(a):
        x = a.args[0]
        if op == "neg": return fold(p, -x)
        if op == "inv" and x != 0:
            return fold(p, Fraction(1) / x if p is None else pow(x, -1, p))
    return leaf(term(op, p, a))


def f_eq(p, a, b):
    a = as_term(p, a); b = as_term(p, b)
    if a is b: return TRUE
    if isc(a) and isc(b): return TRUE if a.args[0] == b.args[0] else FALSE
    if b.id < a.id: a, b = b, a
    return ATOMS.get("eq", p, a, b)


def f_lt(p, a, b):
    a = as_term(p, a); b = as_term(p, b)
    if a is b: return FALSE
    if isc(a) and isc(b): return TRUE if a.args[0] < b.args[0] else FALSE
    return ATOMS.get("lt", p, a, b)


# ---------------------------------------------------------------- module
class Module:
    def __init__(self, path):
        self.fns = {}; self.globals = {}
        with open(path) as f:
            for line in f:
                o = json.loads(line)
                if o["k"] == "fn": self.fns[o["name"]] = o
                else: self.globals[o["name"]] = o
        self.prep = {}

    def prepared(self, name):
        r = self.prep.get(name)
        if r is None:
            r = self.prep[name] = prepare(self.fns[name])
        return r


def succs(insts):
    t = insts[-1]
    op = t["op"]
    if op == "br": return list(t["tgt"])
    if op == "switch": return [t["def"]] + [c[1] for c in t["cases"]]
    if op == "invoke": return [t["normal"]]
    return []


def prepare(fn):
    blocks = fn["blocks"]
    n = len(blocks)
    S = [list(dict.fromkeys(succs(b))) for b in blocks]
    reach = set(); st = [0]
    while st:
        b = st.pop()
        if b in reach: continue
        reach.add(b); st.extend(S[b])

    def decompose(bs, nohdr):
        """topological list of components; edges into nohdr are ignored"""
        idx = {}; low = {}; onst = set(); stack = []; comps = []; cnt = [0]

        def strong(v0):
            work = [(v0, iter(S[v0]))]
            idx[v0] = low[v0] = cnt[0]; cnt[0] += 1; stack.append(v0); onst.add(v0)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in bs or w == nohdr: continue
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]; cnt[0] += 1; stack.append(w); onst.add(w)
                        work.append((w, iter(S[w]))); adv = True; break
                    elif w in onst:
                        low[v] = min(low[v], idx[w])
                if adv: continue
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = stack.pop(); onst.discard(w); c.append(w)
                        if w == v: break
                    comps.append(c)
        order = sorted(bs)
        if nohdr is not None and nohdr in bs: strong(nohdr)
        for v in order:
            if v not in idx: strong(v)
        comps.reverse()
        out = []
        for c in comps:
            if len(c) == 1 and (c[0] not in S[c[0]] or c[0] == nohdr):
                out.append(("b", c[0]))
            else:
                cs = set(c)
                ext = [v for v in c if any(v in S[u] for u in bs if u not in cs)] or [min(c)]
                if 0 in cs: ext = [0]
                h = min(ext)
                out.append(("l", h, cs, decompose(cs, h)))
        return out
    return {"succ": S, "tree": decompose(reach, None), "fn": fn}


class State:
    __slots__ = ("env", "mem", "owned", "cond")
    def __init__(self, env, mem, cond):
        self.env = env; self.mem = mem; self.owned = set(); self.cond = cond

    def fork(self, cond):
        self.owned = set()
        return State(dict(self.env), dict(self.mem), cond)


class Result:
    def __init__(self):
        self.events = []   # (kind, cond, loc, detail)
        self.out = {}


MASK = lambda w: (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Interp:
    LOOP_LIMIT = 20000

    def __init__(self, module, hooks=None):
        self.m = module
        self.hooks = dict(DEFAULT_HOOKS)
        if hooks: self.hooks.update(hooks)
        self.prefix_hooks = []
        self.nobj = 0
        self.objs = {}       # obj -> info
        self.gobj = {}
        self.res = Result()
        self.stats = {"functions": set(), "blocks": 0, "insts": 0}
        self.ret_stack = []
        self.out_obj = None

    # ------------------------------------------------ memory
    def new_obj(self, st, kind, size=None):
        self.nobj += 1
        o = self.nobj
        self.objs[o] = (kind, size)
        st.mem[o] = {}
        st.owned.add(o)
        return o

    def global_obj(self, st, name):
        o = self.gobj.get(name)
        if o is None:
            g = self.m.globals.get(name)
            self.nobj += 1; o = self.nobj
            self.gobj[name] = o
            self.objs[o] = ("global " + name, g["size"] if g else None)
            init = {}
            if g and "init" in g:
                for off, size, v in g["init"]:
                    if size == 0: continue
                    if v[0] == "zero": init[off] = (size, leaf(0))
                    else: init[off] = (size, ("lazy", v))
            self.ginit = getattr(self, "ginit", {})
            self.ginit[o] = init
        if o not in st.mem:
            st.mem[o] = self.ginit[o]
            st.owned.discard(o)
        return o

    def slots(self, st, o):
        if o not in st.mem:
            if getattr(self, "ginit", None) and o in self.ginit:
                st.mem[o] = self.ginit[o]
            else:
                raise AnalysisError(f"dangling object {self.objs.get(o)}")
        return st.mem[o]

    def wslots(self, st, o):
        s = self.slots(st, o)
        if o not in st.owned:
            s = dict(s); st.mem[o] = s; st.owned.add(o)
        return s

    def load_slot(self, st, o, off, size, loc=None):
        s = self.slots(st, o)
        r = s.get(off)
        if r is not None and r[0] == size:
            v = r[1]
            if isinstance(v, tuple):
                v = self.val(v[1], st)
                if o in getattr(self, "ginit", {}) and self.ginit[o] is s: s[off] = (size, v)
            return v
        info = self.objs[o]
        if info[1] is not None and (off < 0 or off + size > info[1]):
            self.event("oob-read", st.cond, loc, f"{info[0]} offset {off} size {size} of {info[1]}")
            return UNDEF
        # partial / composite access
        parts = []
        for so, (ss, sv) in s.items():
            if so < off + size and so + ss > off: parts.append((so, ss, sv))
        if not parts: return UNDEF
        if len(parts) == 1:
            so, ss, sv = parts[0]
            if isinstance(sv, tuple): sv = self.val(sv[1], st)
            if so <= off and so + ss >= off + size:
                if sv.leaf and isinstance(sv.v, int) and not isinstance(sv.v, bool):
                    return leaf((sv.v >> (8 * (off - so))) & MASK(8 * size))
                if not sv.leaf:
                    def ext(v):
                        if isinstance(v, int): return leaf((v >> (8 * (off - so))) & MASK(8 * size))
                        if isinstance(v, Undef): return UNDEF
                        raise AnalysisError(f"partial load of {v!r}")
                    return D.apply(None, ext, sv)
                if isinstance(sv.v, Undef): return UNDEF
                if ss > size and so == off: 
                    return sv
        val = 0; acc = leaf(0)
        cover = 0
        if any(not (x is not None and all(isinstance(q, (int, Undef)) for q in D.leaves(x))) for x in
               [self.val(sv[1], st) if isinstance(sv, tuple) else sv for _, _, sv in parts]):
            cat = []
            for so, ss, sv in sorted(parts, key=lambda q: q[0]):
                if so < off or so + ss > off + size:
                    raise AnalysisError(f"partial load across slots in {self.objs[o]} at {fmtloc(loc)}")
                cat.append((so - off, ss, self.val(sv[1], st) if isinstance(sv, tuple) else sv))
            return leaf(Cat(cat))
        for so, ss, sv in parts:
            if isinstance(sv, tuple): sv = self.val(sv[1], st)
            a = max(so, off); b = min(so + ss, off + size)
            cover += b - a
            def piece(cur, v, a=a, b=b, so=so):
                if isinstance(v, int) and isinstance(cur, int):
                    x = (v >> (8 * (a - so))) & MASK(8 * (b - a))
                    return leaf(cur | (x << (8 * (a - off))))
                if isinstance(v, Undef) or isinstance(cur, Undef): return UNDEF
                raise AnalysisError(f"composite load of {v!r} in {self.objs[o]} off {off} size {size} parts {[(q[0],q[1]) for q in parts]}")
            acc = D.apply(None, piece, acc, sv)
        if cover < size: return UNDEF
        return acc

    def store_slot(self, st, o, off, size, v, loc=None):
        info = self.objs[o]
        if info[1] is not None and (off < 0 or off + size > info[1]):
            self.event("oob-write", st.cond, loc, f"{info[0]} offset {off} size {size} of {info[1]}")
            return
        s = self.wslots(st, o)
        r = s.get(off)
        if v.leaf and isinstance(v.v, Cat):
            self.clear_range(st, s, off, size)
            for co, cs, cv in v.v: s[off + co] = (cs, cv)
            return
        if r is not None and r[0] == size:
            s[off] = (size, v); return
        self.clear_range(st, s, off, size)
        s[off] = (size, v)

    def clear_range(self, st, s, off, size):
        for so in [so for so, (ss, _) in s.items() if so < off + size and so + ss > off]:
            ss, sv = s.pop(so)
            if isinstance(sv, tuple): sv = self.val(sv[1], st)
            for a, b in ((so, min(off, so + ss)), (max(off + size, so), so + ss)):
                if a < b:
                    if sv.leaf and isinstance(sv.v, int):
                        s[a] = (b - a, leaf((sv.v >> (8 * (a - so))) & MASK(8 * (b - a))))
                    else:
                        s[a] = (b - a, UNDEF)

    def each_ptr(self, d):
        return D.leaf_guards(d)

    def load(self, st, p, size, loc):
        if p.leaf:
            return self.load1(st, p.v, size, loc)
        # relative to path condition
        p = D.constrain(p, st.cond)
        r = None
        for g, v in reversed(D.leaf_guards(p)):
            c = and_(st.cond, g)
            if c is FALSE: continue
            x = self.load1(st, v, size, loc)
            r = x if r is None else ite(g, x, r)
        return UNDEF if r is None else r

    def load1(self, st, v, size, loc):
        if isinstance(v, Ptr):
            if v.obj is None:
                self.event("null-deref", st.cond, loc, "load"); return UNDEF
            return self.load_slot(st, v.obj, v.off, size, loc)
        if isinstance(v, Undef):
            self.event("undef-deref", st.cond, loc, "load"); return UNDEF
        if isinstance(v, Fn): raise AnalysisError("load from function")
        raise AnalysisError(f"load from {v!r} at {fmtloc(loc)}")

    def store(self, st, p, size, v, loc):
        if p.leaf:
            q = p.v
            if isinstance(q, Ptr):
                if q.obj is None:
                    self.event("null-deref", st.cond, loc, "store"); return
                return self.store_slot(st, q.obj, q.off, size, v, loc)
            if isinstance(q, Undef):
                self.event("undef-deref", st.cond, loc, "store"); return
            raise AnalysisError(f"store to {q!r} at {fmtloc(loc)}")
        p = D.constrain(p, st.cond)
        if p.leaf: return self.store(st, p, size, v, loc)
        for g, q in D.leaf_guards(p):
            if and_(st.cond, g) is FALSE: continue
            old = self.load1(st, q, size, loc)
            self.store(st, leaf(q), size, ite(g, v, old), loc)

    def memcpy(self, st, dst, src, n, loc):
        if n == 0: return
        if not dst.leaf or not src.leaf:
            dst = D.constrain(dst, st.cond); src = D.constrain(src, st.cond)
        if not src.leaf:
            # gate: copy slotwise via union of shapes
            gs = [(g, q) for g, q in D.leaf_guards(src) if and_(st.cond, g) is not FALSE]
            sub = []
            for g, q in gs:
                if not isinstance(q, Ptr) or q.obj is None: raise AnalysisError("memcpy from odd pointer")
                sub.append((g, q))
            if not dst.leaf: raise AnalysisError("memcpy gated both sides")
            shapes = {}
            for g, q in sub:
                for so, (ss, sv) in self.slots(st, q.obj).items():
                    if so >= q.off and so + ss <= q.off + n: shapes[so - q.off] = ss
            vals = []
            for o2, ss in shapes.items():
                r = None
                for g, q in sub:
                    x = self.load_slot(st, q.obj, q.off + o2, ss, loc)
                    r = x if r is None else ite(g, x, r)
                vals.append((o2, ss, r))
            for o2, ss, r in vals: self.store(st, leaf(Ptr(dst.v.obj, dst.v.off + o2)), ss, r, loc)
            return
        q = src.v
        if not isinstance(q, Ptr) or q.obj is None:
            self.event("null-deref", st.cond, loc, "memcpy"); return
        info = self.objs[q.obj]
        if info[1] is not None and (q.off < 0 or q.off + n > info[1]):
            self.event("oob-read", st.cond, loc, f"memcpy {info[0]} offset {q.off} size {n} of {info[1]}"); return
        s = self.slots(st, q.obj)
        items = []
        for so, (ss, sv) in list(s.items()):
            a = max(so, q.off); b = min(so + ss, q.off + n)
            if a >= b: continue
            if isinstance(sv, tuple): sv = self.val(sv[1], st)
            if (a, b) != (so, so + ss):
                if sv.leaf and isinstance(sv.v, int): sv = leaf((sv.v >> (8 * (a - so))) & MASK(8 * (b - a)))
                elif sv.leaf and isinstance(sv.v, Undef): pass
                elif sv.leaf and isinstance(sv.v, Term) and a == so and sv.v.op != "gate": pass  # padding bytes of a wide slot
                else: raise AnalysisError(f"partial memcpy at {fmtloc(loc)}")
            items.append((a - q.off, b - a, sv))
        for g, d in D.leaf_guards(dst):
            if and_(st.cond, g) is FALSE: continue
            if not isinstance(d, Ptr) or d.obj is None:
                self.event("null-deref", st.cond, loc, "memcpy"); continue
            info = self.objs[d.obj]
            if info[1] is not None and (d.off < 0 or d.off + n > info[1]):
                self.event("oob-write", st.cond, loc, f"memcpy {info[0]} offset {d.off} size {n} of {info[1]}"); continue
            if dst.leaf:
                w = self.wslots(st, d.obj)
                self.clear_range(st, w, d.off, n)
                for o2, ss, sv in items: w[d.off + o2] = (ss, sv)
            else:
                for o2, ss, sv in items:
                    p1 = leaf(Ptr(d.obj, d.off + o2))
                    old = self.load_slot(st, d.obj, d.off + o2, ss, loc)
                    self.store(st, p1, ss, ite(g, sv, old), loc)

    def memset(self, st, dst, byte, n, loc):
        if n == 0: return
        for g, d in D.leaf_guards(dst):
            if and_(st.cond, g) is FALSE: continue
            if not isinstance(d, Ptr) or d.obj is None:
                self.event("null-deref", st.cond, loc, "memset"); continue
            v = leaf(int.from_bytes(bytes([byte]) * n, "little"))
            if not dst.leaf:
                w = self.slots(st, d.obj)
                offs = {so: ss for so, (ss, _) in w.items() if so >= d.off and so + ss <= d.off + n}
                for so, ss in offs.items():
                    old = self.load_slot(st, d.obj, so, ss)
                    self.store_slot(st, d.obj, so, ss, ite(g, leaf(int.from_bytes(bytes([byte]) * ss, "little")), old), loc)
                if not offs: raise AnalysisError("gated memset on raw memory")
            else:
                self.store_slot(st, d.obj, d.off, n, v, loc)

    def event(self, kind, cond, loc, detail=""):
        if cond is FALSE: return
        self.res.events.append((kind, cond, loc, detail))

    # ------------------------------------------------ operands
    def val(self, j, st):
        k = j[0]
        if k == "r":
            v = st.env.get(j[1])
            if v is None: raise AnalysisError(f"use of undefined register {j[1]}")
            return v
        if k == "i":
            if j[1] == 1: return TRUE if int(j[2]) else FALSE
            return leaf(int(j[2]))
        if k == "null": return leaf(Ptr(None, 0))
        if k == "undef":
            return UNDEF
        if k == "g":
            return leaf(Ptr(self.global_obj(st, j[1]), 0))
        if k == "fn": return leaf(Fn(j[1]))
        if k == "gep": return self.gep(j, st)
        if k == "f": return leaf(fconst(j[1], int(j[2])))
        if k == "zeroagg": return zero_of(j[1])
        if k == "agg":
            return leaf(Agg(self.val(x, st) for x in j[2]))
        if k == "ce":
            if j[1] in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast"): return self.val(j[3][0], st)
            if j[1] in ("sub", "add"):
                a = self.val(j[3][0], st); b = self.val(j[3][1], st)
                return self.ibin(j[1], j[2][1], a, b, st, None)
        if k == "md": return leaf(0)
        raise AnalysisError(f"operand {j}")

    def gep(self, j, st):
        base = self.val(j[1], st)
        off = j[2]
        d = D.apply(None, lambda p: padd(p, off), base) if off else base
        for vj, scale in j[3]:
            ix = self.val(vj, st)
            def f(p, i, scale=scale):
                if isinstance(p, Undef) or isinstance(i, Undef): return UNDEF
                if isinstance(i, Term): return leaf(Ptr(("sym",), 0)) if False else self.sym_index(p, i, scale)
                i &= MASK(64)
                return padd(p, sgn(i, 64) * scale)
            d = D.apply(None, f, d, ix)
        return d

    def sym_index(self, p, i, scale):
        raise AnalysisError(f"symbolic index {show(i)}")

    # ------------------------------------------------ integer ops
    def ibin(self, op, w, a, b, st, loc):
        if w == 1:
            # booleans
            if op in ("and",): return bool_bin(and_, a, b)
            if op in ("or",): return bool_bin(or_, a, b)
            if op in ("xor", "add", "sub"): return bool_bin(D.xor_, a, b)
            if op == "mul": return bool_bin(and_, a, b)
            raise AnalysisError("i1 " + op)
        def f(x, y):
            return self.ibin1(op, w, x, y, st, loc)
        return D.apply(("i", op, w), f, a, b)

    def ibin1(self, op, w, x, y, st, loc):
        if isinstance(x, int) and isinstance(y, int):
            M = MASK(w)
            if op == "add": return leaf((x + y) & M)
            if op == "sub": return leaf((x - y) & M)
            if op == "mul": return leaf((x * y) & M)
            if op == "and": return leaf(x & y)
            if op == "or": return leaf(x | y)
            if op == "xor": return leaf(x ^ y)
            if op == "shl": return leaf((x << y) & M) if y < w else UNDEF
            if op == "lshr": return leaf(x >> y) if y < w else UNDEF
            if op == "ashr": return leaf((sgn(x, w) >> y) & M) if y < w else UNDEF
            if op in ("udiv", "urem", "sdiv", "srem"):
                if y == 0:
                    self.event("div-by-zero", st.cond if st else TRUE, loc, op); return UNDEF
                if op == "udiv": return leaf(x // y)
                if op == "urem": return leaf(x % y)
                sx, sy = sgn(x, w), sgn(y, w)
                q = abs(sx) // abs(sy)
                if (sx < 0) != (sy < 0): q = -q
                return leaf(q & M) if op == "sdiv" else leaf((sx - q * sy) & M)
        if isinstance(x, Undef) or isinstance(y, Undef): return UNDEF
        if isinstance(x, NPtr) or isinstance(y, NPtr):
            if op in ("add", "sub"):
                if isinstance(y, NPtr) and op == "add": x, y = y, x
                if isinstance(x, NPtr):
                    if isinstance(y, int): return leaf(NPtr(x.obj, x.off + (sgn(y, w) if op == "add" else -sgn(y, w))))
                    if isinstance(y, Ptr) and op == "add" and x.obj == y.obj: return leaf((x.off + y.off) & MASK(w))
            raise AnalysisError(f"pointer arithmetic {op} {x!r} {y!r} at {fmtloc(loc)}")
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == "xor" and isinstance(x, Ptr) and y == MASK(w) and w == 64: return leaf(NPtr(x.obj, -1 - x.off))
            if op == "sub" and isinstance(y, Ptr) and isinstance(x, int): return leaf(NPtr(y.obj, sgn(x, w) - y.off))
            if op == "add":
                if isinstance(x, Ptr) and isinstance(y, int): return leaf(Ptr(x.obj, x.off + sgn(y, w)))
                if isinstance(y, Ptr) and isinstance(x, int): return leaf(Ptr(y.obj, y.off + sgn(x, w)))
            if op == "sub":
                if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj: return leaf((x.off - y.off) & MASK(w))
                if isinstance(x, Ptr) and isinstance(y, int): return leaf(Ptr(x.obj, x.off - sgn(y, w)))
            if op == "and" and isinstance(x, Ptr) and isinstance(y, int) and y < 64: return leaf(x.off & y)
            raise AnalysisError(f"pointer arithmetic {op} {x!r} {y!r} at {fmtloc(loc)}")
        if isinstance(y, int):
            if y == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"): return leaf(x)
            if op == "and" and y == MASK(w): return leaf(x)
            if op == "and" and y == 0: return leaf(0)
        if isinstance(x, int) and x == 0 and op in ("and", "shl", "lshr", "mul"): return leaf(0)
        if isinstance(x, int) and x == 0 and op in ("or", "add", "xor"): return leaf(y)
        return leaf(term("i." + op, w, *[q if isinstance(q, Term) else term("ic", w, q) for q in (x, y)]))

    def icmp(self, pred, w, a, b, loc):
        if w == 1:
            if pred == "eq": return not_(bool_bin(D.xor_, a, b))
            if pred == "ne": return bool_bin(D.xor_, a, b)
        def f(x, y):
            if isinstance(x, Undef) or isinstance(y, Undef): return leaf(UNDEF_P)
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                if isinstance(x, int): x = Ptr(None, x)
                if isinstance(y, int): y = Ptr(None, y)
                if isinstance(x, Fn) or isinstance(y, Fn): eq = x == y
                else: eq = x == y
                if pred == "eq": return TRUE if eq else FALSE
                if pred == "ne": return FALSE if eq else TRUE
                if x.obj == y.obj: x, y = x.off, y.off; ww = 64; return TRUE if icmp_int(pred, x & MASK(64), y & MASK(64), 64) else FALSE
                raise AnalysisError(f"pointer order {x} {y} at {fmtloc(loc)}")
            if isinstance(x, Fn) or isinstance(y, Fn):
                return TRUE if (x == y) == (pred == "eq") else FALSE
            if isinstance(x, int) and isinstance(y, int):
                return TRUE if icmp_int(pred, x, y, w) else FALSE
            p = x.p if isinstance(x, Term) else y.p
            kind = None
            for q in (x, y):
                if isinstance(q, Term): kind = "int" if (q.op[0] == "i" and q.op != "in" and q.op != "inv") else kind or "fld"
            if kind == "int":
                X = x if isinstance(x, Term) else term("ic", w, x)
                Y = y if isinstance(y, Term) else term("ic", w, y)
                if X is Y: return TRUE if pred in ("eq", "ule", "uge", "sle", "sge") else FALSE
                neg = {"ne": "eq", "uge": "ult", "ule": "ugt", "sge": "slt", "sle": "sgt"}
                if pred in neg: return not_(self.iatom(neg[pred], w, X, Y))
                return self.iatom(pred, w, X, Y)
            X = x if isinstance(x, Term) else leaf(x)
            Y = y if isinstance(y, Term) else leaf(y)
            if pred == "eq": return f_eq(p, X, Y)
            if pred == "ne": return not_(f_eq(p, X, Y))
            if pred == "ult": return f_lt(p, X, Y)
            if pred == "ugt": return f_lt(p, Y, X)
            if pred == "ule": return not_(f_lt(p, Y, X))
            if pred == "uge": return not_(f_lt(p, X, Y))
            raise AnalysisError(f"icmp {pred} on field values at {fmtloc(loc)}")
        return as_bool(D.apply(("icmp", pred, w), f, a, b))

    def iatom(self, pred, w, X, Y):
        if pred == "ugt": return ATOMS.get("ult", w, Y, X)
        if pred == "sgt": return ATOMS.get("slt", w, Y, X)
        if pred == "eq" and Y.id < X.id: X, Y = Y, X
        return ATOMS.get(pred, w, X, Y)

    # ------------------------------------------------ calls
    def call(self, name, args, st, loc):
        h = self.hooks.get(name)
        if h is None:
            for pre, hh in self.prefix_hooks:
                if name.startswith(pre): h = hh; break
        if h is None and name.startswith("llvm."):
            for pre, hh in LLVM_HOOKS:
                if name.startswith(pre): h = hh; break
        if h is not None:
            return h(self, st, args, loc, name)
        fn = self.m.fns.get(name)
        if fn is None or fn["decl"]:
            raise AnalysisError(f"unmodelled external function {name} called at {fmtloc(loc)}")
        return self.run(name, args, st, loc)

    def run(self, name, args, st, loc=None):
        """Abstract call; mutates st (memory); returns value DD or None if it never returns."""
        pr = self.m.prepared(name)
        fn = pr["fn"]
        self.stats["functions"].add(name)
        saved_env = st.env
        cond0 = st.cond
        if sum(1 for r in self.ret_stack if r[1] == fn["name"]) > 40:
            self.event("endless-recursion", st.cond, loc, fn["name"])
            st.cond = FALSE
            return None
        env = {}
        for i, a in enumerate(fn["args"]):
            v = args[i]
            if "byval" in a:
                o = self.new_obj(st, "byval", a["byval"])
                self.memcpy(st, leaf(Ptr(o, 0)), v, a["byval"], None)
                v = leaf(Ptr(o, 0))
            env[i] = v
        s0 = State(env, dict(st.mem), cond0)
        s0.owned = set()
        rets = []
        pending = {0: [(-1, s0)]}
        allocas = []
        self.ret_stack.append((rets, fn["name"], allocas))
        self.exec_tree(pr, pr["tree"], pending, None)
        self.ret_stack.pop()
        if not rets:
            st.cond = FALSE
            return None
        if len(rets) == 1:
            s, v = rets[0]
        else:
            s, v = self.merge([(x, y) for x, y in rets])
        st.mem = s.mem; st.owned = set(s.owned) if len(rets) == 1 else set()
        st.owned = set()
        st.cond = s.cond
        for o in allocas:
            st.mem.pop(o, None)
        st.env = saved_env
        return v if v is not None else leaf(0)

    def merge(self, items):
        """items: [(state, extra value or None)] -> (state, value)"""
        items = [(s, v) for s, v in items if s.cond is not FALSE]
        if len(items) == 1: return items[0]
        C = FALSE
        for s, _ in items: C = or_(C, s.cond)
        conds = [D.constrain(s.cond, C) for s, _ in items]
        def mix(vals):
            v0 = vals[0]
            if all(v is v0 for v in vals): return v0
            r = vals[-1]
            for c, v in zip(reversed(conds[:-1]), reversed(vals[:-1])): r = mixv(c, v, r)
            return r
        env = {}
        s0 = items[0][0]
        envs = [s.env for s, _ in items]
        for k, v in s0.env.items():
            vals = []
            for e in envs:
                x = e.get(k)
                if x is None: break
                vals.append(x)
            else:
                env[k] = mix(vals)
        mem = {}
        objs = set()
        for s, _ in items: objs.update(s.mem.keys())
        for o in objs:
            ms = [s.mem.get(o) for s, _ in items]
            present = [(m, s) for m, (s, _) in zip(ms, items) if m is not None]
            if all(m is present[0][0] for m, _ in present):
                mem[o] = present[0][0]; continue
            offs = {}
            for m, _ in present:
                for off, (ss, _) in m.items():
                    offs.setdefault(off, ss)
                    if ss < offs[off]: offs[off] = ss
            # drop coarse slots overlapped by finer ones
            slots = sorted(offs.items())
            fine = []
            for off, ss in slots:
                fine.append((off, ss))
            nm = {}
            covered = []
            for off, ss in fine:
                vals = []
                ok = True
                for m, (s, _) in zip(ms, items):
                    if m is None: vals.append(UNDEF); continue
                    r = m.get(off)
                    if r is not None and r[0] == ss and not isinstance(r[1], tuple): vals.append(r[1])
                    else:
                        vals.append(self.load_slot(s, o, off, ss))
                nm[off] = (ss, mix(vals))
            # fill tails of coarse slots (zero ranges) not covered by fine slots
            for m, s in present:
                for off, (ss, sv) in m.items():
                    if offs[off] < ss:
                        pos = off + offs[off]
                        while pos < off + ss:
                            nxt = [x for x in nm if x >= pos]
                            if pos in nm: pos += nm[pos][0]; continue
                            e = min([x for x in nxt if x < off + ss] + [off + ss])
                            vals = [UNDEF if mm is None else self.load_slot(s2, o, pos, e - pos) for mm, (s2, _) in zip(ms, items)]
                            nm[pos] = (e - pos, mix(vals)); pos = e
            mem[o] = nm
        s = State(env, mem, C)
        s.owned = set()
        v = None
        if items[0][1] is not None: v = mix([v for _, v in items])
        return s, v

    # ------------------------------------------------ control flow
    def exec_tree(self, pr, tree, pending, header):
        """pending: block -> [(pred, state)].  Edges into `header` stay in pending[header]."""
        for comp in tree:
            if comp[0] == "b":
                b = comp[1]
                inc = pending.pop(b, None)
                if inc: self.exec_block(pr, b, inc, pending)
            else:
                _, h, bs, sub = comp
                rounds = 0
                while True:
                    inner = {b: pending.pop(b) for b in list(pending) if b in bs}
                    if not inner: break
                    rounds += 1
                    if rounds > self.LOOP_LIMIT:
                        k = Endless if all(s.cond is TRUE for l in inner.values() for _, s in l) else AnalysisError
                        raise k(f"loop bound exceeded in {pr['fn']['name']}")
                    self.exec_tree(pr, sub, inner, h)
                    for b, l in inner.items():
                        pending.setdefault(b, []).extend(l)

    def exec_block(self, pr, b, inc, pending):
        insts = pr["fn"]["blocks"][b]
        nphi = 0
        while insts[nphi]["op"] == "phi": nphi += 1
        items = []
        for pred, s in inc:
            if s.cond is FALSE: continue
            if nphi:
                new = {}
                for i in insts[:nphi]:
                    for vj, pb in i["in"]:
                        if pb == pred: new[i["id"]] = self.val(vj, s); break
                    else: raise AnalysisError("phi without edge")
                s.env.update(new)
            items.append((s, None))
        if not items: return
        st, _ = self.merge(items) if len(items) > 1 else items[0]
        self.stats["blocks"] += 1
        if self.stats["blocks"] > FUEL[0]: raise OutOfFuel("analysis budget exhausted (loop whose exit is never decided)")
        for i in insts[nphi:]:
            self.stats["insts"] += 1
            op = i["op"]
            loc = i.get("loc")
            if op in ("br", "switch", "ret", "unreachable", "invoke", "resume"):
                self.terminator(pr, b, i, st, pending, loc)
                return
            v = self.inst(i, op, st, loc)
            if st.cond is FALSE: return
            if v is not None: st.env[i["id"]] = v

    def edge(self, pending, b, t, st):
        if st.cond is FALSE: return
        pending.setdefault(t, []).append((b, st))

    def terminator(self, pr, b, i, st, pending, loc):
        op = i["op"]
        if op == "br":
            if "cond" not in i:
                self.edge(pending, b, i["tgt"][0], st); return
            c = as_bool(self.val(i["cond"], st))
            c = self.branch_cond(c, st, loc)
            t, f = i["tgt"]
            if c is TRUE or t == f: self.edge(pending, b, t, st)
            elif c is FALSE: self.edge(pending, b, f, st)
            else:
                ct = and_(st.cond, c); cf = and_(st.cond, not_(c))
                if cf is FALSE: self.edge(pending, b, t, st)
                elif ct is FALSE: self.edge(pending, b, f, st)
                else:
                    s2 = st.fork(cf); st.cond = ct
                    self.edge(pending, b, t, st); self.edge(pending, b, f, s2)
        elif op == "switch":
            c = self.val(i["cond"], st)
            rest = st.cond
            for cv, tb in i["cases"]:
                k = self.val(cv, st)
                g = self.icmp("eq", 1 if k in (TRUE, FALSE) else 64, c, k, loc)
                cc = and_(rest, g)
                rest = and_(rest, not_(g))
                if cc is not FALSE: self.edge(pending, b, tb, st.fork(cc))
            if rest is not FALSE: self.edge(pending, b, i["def"], st.fork(rest))
        elif op == "ret":
            v = self.val(i["a"][0], st) if i.get("a") else None
            self.ret_stack[-1][0].append((st, v if v is not None else leaf(0)))
        elif op == "unreachable":
            self.event("unreachable", st.cond, loc, pr["fn"]["name"])
        elif op == "invoke":
            v = self.do_call(i, st, loc)
            if st.cond is FALSE or v is None: return
            st.env[i["id"]] = v
            self.edge(pending, b, i["normal"], st)
        elif op == "resume":
            return

    def branch_cond(self, c, st, loc):
        if any(isinstance(x, Undef) for x in D.leaves(c)):
            self.event("undef-branch", st.cond, loc, "")
            def f(x): return FALSE if isinstance(x, Undef) else leaf(x)
            c = D.apply(None, f, c)
        return D.constrain(c, st.cond) if not c.leaf else c

    def do_call(self, i, st, loc):
        cal = self.val(i["callee"], st) if i["callee"][0] != "bad" else None
        if cal is None: raise AnalysisError(f"inline asm at {fmtloc(loc)}")
        if not cal.leaf: cal = D.constrain(cal, st.cond)
        if not cal.leaf or not isinstance(cal.v, Fn): raise AnalysisError(f"indirect call {cal} at {fmtloc(loc)}")
        args = [self.val(a, st) for a in i["args"]]
        return self.call(str(cal.v), args, st, loc)

    def inst(self, i, op, st, loc):
        V = lambda k: self.val(i["a"][k], st)
        if op == "load":
            ty = i["ty"]
            return self.load_ty(st, self.val(i["ptr"], st), ty, i["size"], loc)
        if op == "store":
            v = self.val(i["v"], st)
            vt = i["vty"]
            p = self.val(i["ptr"], st)
            if vt[0] in ("s", "a", "v"):
                self.store_agg(st, p, vt, v, loc); return None
            if vt[0] == "i" and vt[1] == 1: v = b2i(v)
            self.store(st, p, i["size"], v, loc); return None
        if op == "alloca":
            n = self.val(i["n"], st)
            o = self.new_obj(st, "alloca in " + self.ret_stack[-1][1], i["size"] * n.v)
            self.ret_stack[-1][2].append(o)
            return leaf(Ptr(o, 0))
        if op == "getelementptr": return self.gep(i["gep"], st)
        if op == "call":
            return self.do_call(i, st, loc)
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            return self.ibin(op, i["ty"][1], V(0), V(1), st, loc)
        if op == "icmp":
            w = i["aty"][1] if i["aty"][0] == "i" else 64
            return self.icmp(i["pred"], w, V(0), V(1), loc)
        if op == "select":
            c = as_bool(V(0)); c = self.branch_cond(c, st, loc)
            return mixv(c, V(1), V(2))
        if op == "zext":
            v = V(0)
            return b2i(v) if i["aty"] == ["i", 1] else v
        if op == "sext":
            fw = i["aty"][1]; tw = i["ty"][1]
            if fw == 1: return ite(as_bool(V(0)), leaf(MASK(tw)), leaf(0))
            def f(x):
                if isinstance(x, int): return leaf(sgn(x, fw) & MASK(tw))
                if isinstance(x, Undef): return UNDEF
                if isinstance(x, Term): return leaf(term("i.sext", tw, x, fw))
                raise AnalysisError("sext")
            return D.apply(("sext", fw, tw), f, V(0))
        if op == "trunc":
            tw = i["ty"][1]
            v = V(0)
            if tw == 1:
                return as_bool(D.apply(None, lambda x: leaf(bool(x & 1)) if isinstance(x, int) else (leaf(UNDEF_P) if isinstance(x, Undef) else self.bit0(x)), v))
            def f(x):
                if isinstance(x, int): return leaf(x & MASK(tw))
                if isinstance(x, (Undef, Ptr)): return leaf(x)
                return leaf(term("i.trunc", tw, x))
            return D.apply(("trunc", tw), f, v)
        if op in ("ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"): return V(0)
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            return f_bin({"fadd": "add", "fsub": "sub", "fmul": "mul", "fdiv": "div"}[op], None, V(0), V(1))
        if op == "fneg": return f_un("neg", None, V(0))
        if op in ("fpext", "fptrunc"): return V(0)
        if op in ("sitofp", "uitofp"):
            w = i["aty"][1]
            v = V(0)
            if w == 1: v = b2i(v)
            def f(x):
                if isinstance(x, int): return leaf(Fraction(sgn(x, w) if op == "sitofp" else x))
                if isinstance(x, Undef): return UNDEF
                return leaf(term("itof", None, x))
            return D.apply(None, f, v)
        if op in ("fptosi", "fptoui"):
            w = i["ty"][1]
            def f(x):
                if isinstance(x, Fraction): return leaf(int(x) & MASK(w))
                if isinstance(x, Undef): return UNDEF
                return leaf(term("i.ftoi", w, x))
            return D.apply(None, f, V(0))
        if op == "fcmp": return self.fcmp(i["pred"], V(0), V(1))
        if op == "extractvalue":
            def f(x):
                for k in i["idx"]:
                    if isinstance(x, Undef): return UNDEF
                    x = x[k]
                    if isinstance(x, D.DD):
                        if k is i["idx"][-1] and x.leaf is False: return x
                        last = x
                        if x.leaf and isinstance(x.v, Agg): x = x.v
                return last
            idx = i["idx"]
            def g(x):
                cur = leaf(x)
                for k in idx:
                    cur = D.apply(None, lambda y, k=k: UNDEF if isinstance(y, Undef) else y[k], cur)
                return cur
            r = D.apply(None, g, V(0))
            return as_bool(r) if i["ty"] == ["i", 1] else r
        if op == "insertvalue":
            idx = i["idx"]; ty = i["ty"]
            def ins(aggdd, ty, idx, v):
                if not idx: return v
                def h(x):
                    n = len(ty[1]) if ty[0] == "s" else ty[1]
                    xs = [UNDEF] * n if isinstance(x, Undef) else list(x)
                    sub = ty[1][idx[0]][1] if ty[0] == "s" else ty[3]
                    xs[idx[0]] = ins(xs[idx[0]], sub, idx[1:], v)
                    return leaf(Agg(xs))
                return D.apply(None, h, aggdd)
            return ins(V(0), ty, idx, V(1))
        if op == "landingpad": return UNDEF
        if op in ("fence",): return None
        if op == "insertelement":
            n = i["ty"][1]
            ix = V(2)
            if not ix.leaf: raise AnalysisError("vector index")
            def h(x):
                xs = [UNDEF] * n if isinstance(x, Undef) else list(x)
                xs[ix.v] = self.val(i["a"][1], st)
                return leaf(Agg(xs))
            return D.apply(None, h, V(0))
        if op == "extractelement":
            ix = V(1)
            return D.apply(None, lambda x: UNDEF if isinstance(x, Undef) else x[ix.v], V(0))
        raise AnalysisError(f"instruction {op} at {fmtloc(loc)}")

    def load_ty(self, st, p, ty, size, loc):
        if ty[0] in ("s", "a", "v"):
            return leaf(Agg(self.load_ty(st, D.apply(None, lambda z: padd(z, o), p), t, ty_size(t), loc) for o, t in elems(ty)))
        return self.typed(self.load(st, p, size, loc), ty)

    def bit0(self, x):
        return ATOMS.get("bit", 0, x)

    def fcmp(self, pred, a, b):
        if pred in ("true", "ord"): return TRUE
        if pred in ("false", "uno"): return FALSE
        p = pred[1:]
        if p == "eq": return f_eq(None, a, b)
        if p == "ne": return not_(f_eq(None, a, b))
        if p == "lt": return f_lt(None, a, b)
        if p == "gt": return f_lt(None, b, a)
        if p == "le": return not_(f_lt(None, b, a))
        if p == "ge": return not_(f_lt(None, a, b))
        raise AnalysisError("fcmp " + pred)

    def typed(self, v, ty):
        if ty == ["i", 1]:
            return as_bool(D.apply(None, lambda x: leaf(bool(x & 1)) if isinstance(x, int) else leaf(UNDEF_P), v))
        if ty[0] == "f":
            w = ty[1]
            if v.leaf and isinstance(v.v, int): return leaf(fconst(w, v.v))
            if not v.leaf: return D.apply(None, lambda x: leaf(fconst(w, x)) if isinstance(x, int) else leaf(x), v)
            return v
        if ty[0] in ("s", "a", "v"):
            raise AnalysisError("aggregate load")
        if ty[0] == "p":
            def f(x): return leaf(Ptr(None, x)) if isinstance(x, int) else leaf(x)
            return D.apply(None, f, v)
        return v

    def store_agg(self, st, p, ty, v, loc):
        items = elems(ty)
        for k, (o, t) in enumerate(items):
            x = D.apply(None, lambda y: UNDEF if isinstance(y, Undef) else y[k], v)
            q = D.apply(None, lambda z: padd(z, o), p)
            if t[0] in ("s", "a"): self.store_agg(st, q, t, x, loc)
            else:
                size = 8 if t[0] == "p" else (t[1] + 7) // 8
                if t == ["i", 1]: x = b2i(x)
                self.store(st, q, size, x, loc)


def ty_size(t):
    if t[0] == "p": return 8
    if t[0] in "if": return (t[1] + 7) // 8
    if t[0] == "a": return t[1] * t[2]
    if t[0] == "v": return t[1] * ty_size(t[2])
    return 0


def elems(ty):
    if ty[0] == "s": return [(o, t) for o, t in ty[1]]
    if ty[0] == "a": return [(k * ty[2], ty[3]) for k in range(ty[1])]
    es = ty_size(ty[2])
    return [(k * es, ty[2]) for k in range(ty[1])]


def mixv(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    # aggregates are merged memberwise
    if a.leaf and b.leaf and isinstance(a.v, Agg) and isinstance(b.v, Agg):
        return leaf(Agg(mixv(c, x, y) for x, y in zip(a.v, b.v)))
    return ite(c, a, b)


def padd(p, off):
    if isinstance(p, Ptr): return leaf(Ptr(p.obj, p.off + off))
    if isinstance(p, Undef): return UNDEF
    if isinstance(p, int): return leaf(Ptr(None, p + off))
    raise AnalysisError(f"gep on {p!r}")


def as_bool(d):
    if d is TRUE or d is FALSE: return d
    if d.leaf:
        if isinstance(d.v, bool): return d
        if isinstance(d.v, int): return TRUE if d.v & 1 else FALSE
        return d
    return d


def b2i(d):
    return D.apply(None, lambda x: leaf(1 if x else 0) if isinstance(x, (bool, int)) else leaf(x), d)


def bool_bin(f, a, b):
    a = as_bool(a); b = as_bool(b)
    hasu = any(isinstance(x, Undef) for x in D.leaves(a)) or any(isinstance(x, Undef) for x in D.leaves(b))
    if not hasu: return f(a, b)
    def g(x, y):
        if f is and_ and (x is False or y is False): return FALSE
        if f is or_ and (x is True or y is True): return TRUE
        if isinstance(x, Undef) or isinstance(y, Undef): return UNDEF
        return f(leaf(x), leaf(y))
    return D.apply(None, g, a, b)


def icmp_int(pred, x, y, w):
    if pred == "eq": return x == y
    if pred == "ne": return x != y
    if pred[0] == "s":
        M = MASK(w)
        x, y = sgn(x & M, w), sgn(y & M, w)
    p = pred[1:]
    return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p]


def fconst(w, bits):
    import struct
    if isinstance(bits, Fraction): return bits
    try:
        if w == 64: f = struct.unpack("<d", bits.to_bytes(8, "little"))[0]
        elif w == 32: f = struct.unpack("<f", bits.to_bytes(4, "little"))[0]
        else: raise AnalysisError("float width")
        return Fraction(f)
    except (OverflowError, ValueError):
        return Undef()


def zero_of(ty):
    if ty[0] == "i": return FALSE if ty[1] == 1 else leaf(0)
    if ty[0] == "p": return leaf(Ptr(None, 0))
    if ty[0] == "f": return leaf(Fraction(0))
    if ty[0] == "s": return leaf(Agg(zero_of(t) for _, t in ty[1]))
    if ty[0] == "a": return leaf(Agg(zero_of(ty[3]) for _ in range(ty[1])))
    if ty[0] == "v": return leaf(Agg(zero_of(ty[2]) for _ in range(ty[1])))
    raise AnalysisError("zero_of")


def fmtloc(loc):
    if not loc: return "?"
    return " <- ".join(f"{f}:{l} ({fn})" for f, l, fn in loc[:4])


# ---------------------------------------------------------------- hooks
def h_throw(I, st, args, loc, name):
    I.event("throw", st.cond, loc, name)
    st.cond = FALSE
    return None


def h_nop(I, st, args, loc, name): return leaf(0)


def h_new(I, st, args, loc, name):
    n = args[0]
    if not n.leaf: n = D.constrain(n, st.cond)
    sz = max([x for x in D.leaves(n) if isinstance(x, int)], default=None)
    if sz is None: raise AnalysisError("the size of an allocation is undefined or symbolic" + (" (undefined value)" if any(isinstance(x, Undef) for x in D.leaves(n)) else ""))
    return leaf(Ptr(I.new_obj(st, "heap", sz), 0))


def cint(I, st, d, what):
    if not d.leaf: d = D.constrain(d, st.cond)
    if not d.leaf or not isinstance(d.v, int): raise AnalysisError(f"{what}: non-constant size {d}")
    return d.v


def h_memcpy(I, st, args, loc, name):
    d = args[2]
    if not d.leaf: d = D.constrain(d, st.cond)
    if not d.leaf:
        for g, n in D.leaf_guards(d):
            if n == 0 or and_(st.cond, g) is FALSE: continue
            # guarded copy
            tmp = I.new_obj(st, "tmp", n)
            I.memcpy(st, leaf(Ptr(tmp, 0)), args[1], n, loc)
            for so, (ss, sv) in list(st.mem[tmp].items()):
                q = D.apply(None, lambda z: padd(z, so), args[0])
                old = I.load(st, q, ss, loc)
                I.store(st, q, ss, ite(g, sv, old), loc)
        return args[0]
    n = cint(I, st, d, "memcpy")
    if n:
        if "memmove" in name:
            tmp = I.new_obj(st, "tmp", n)
            I.memcpy(st, leaf(Ptr(tmp, 0)), args[1], n, loc)
            I.memcpy(st, args[0], leaf(Ptr(tmp, 0)), n, loc)
        else:
            I.memcpy(st, args[0], args[1], n, loc)
    return args[0]


def h_memset(I, st, args, loc, name):
    n = cint(I, st, args[2], "memset"); b = cint(I, st, args[1], "memset byte")
    I.memset(st, args[0], b & 255, n, loc)
    return args[0]


def h_strlen(I, st, args, loc, name):
    p = args[0].v; n = 0
    while True:
        c = I.load_slot(st, p.obj, p.off + n, 1)
        if c.v == 0: return leaf(n)
        n += 1


def width_of(name):
    return int(name.rsplit(".i", 1)[1].split(".")[0])


def h_minmax(I, st, args, loc, name):
    w = width_of(name); k = name.split(".")[1]
    pred = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[k]
    return ite(I.icmp(pred, w, args[0], args[1], loc), args[0], args[1])


def h_iabs(I, st, args, loc, name):
    w = width_of(name)
    neg = I.icmp("slt", w, args[0], leaf(0), loc)
    return ite(neg, I.ibin("sub", w, leaf(0), args[0], st, loc), args[0])


def h_usubsat(I, st, args, loc, name):
    w = width_of(name)
    lt = I.icmp("ult", w, args[0], args[1], loc)
    return ite(lt, leaf(0), I.ibin("sub", w, args[0], args[1], st, loc))


def h_ovf(I, st, args, loc, name):
    w = width_of(name); k = name.split(".")[1]
    def f(x, y):
        if isinstance(x, Undef) or isinstance(y, Undef): return leaf(Agg((UNDEF, UNDEF)))
        if not (isinstance(x, int) and isinstance(y, int)): raise AnalysisError("overflow op on symbols")
        o = k[1:4]
        sx, sy = (x, y) if k[0] == "u" else (sgn(x, w), sgn(y, w))
        r = {"add": sx + sy, "sub": sx - sy, "mul": sx * sy}[o]
        lo, hi = (0, MASK(w)) if k[0] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        return leaf(Agg((leaf(r & MASK(w)), FALSE if lo <= r <= hi else TRUE)))
    return D.apply(None, f, args[0], args[1])


def h_fsh(I, st, args, loc, name):
    w = width_of(name); left = "fshl" in name
    def f(a, b, s):
        if not all(isinstance(x, int) for x in (a, b, s)): raise AnalysisError("fsh on symbols")
        s %= w
        t = (a << w) | b
        return leaf(((t << s) >> w) & MASK(w)) if left else leaf((t >> s) & MASK(w))
    return D.apply(None, f, *args[:3])


def h_clz(I, st, args, loc, name):
    w = width_of(name)
    def f(x):
        if isinstance(x, Undef): return UNDEF
        if not isinstance(x, int): raise AnalysisError("bit count of symbol")
        if "ctlz" in name: return leaf(w - x.bit_length())
        if "cttz" in name: return leaf((x & -x).bit_length() - 1 if x else w)
        if "ctpop" in name: return leaf(bin(x).count("1"))
        if "bswap" in name: return leaf(int.from_bytes(x.to_bytes(w // 8, "little"), "big"))
        if "bitreverse" in name: return leaf(int(bin(x)[2:].zfill(w)[::-1], 2))
    return D.apply(None, f, args[0])


def h_assume(I, st, args, loc, name): return leaf(0)
def h_expect(I, st, args, loc, name): return args[0]


def h_fabs(I, st, args, loc, name):
    z = leaf(Fraction(0))
    return ite(f_lt(None, args[0], z), f_un("neg", None, args[0]), args[0])


def h_fmuladd(I, st, args, loc, name):
    return f_bin("add", None, f_bin("mul", None, args[0], args[1]), args[2])


def h_fminmax(I, st, args, loc, name):
    lt = f_lt(None, args[0], args[1])
    return ite(lt, args[0], args[1]) if "min" in name else ite(lt, args[1], args[0])


def h_guard(I, st, args, loc, name): return leaf(1)


LLVM_HOOKS = [
    ("llvm.lifetime", h_nop), ("llvm.dbg", h_nop), ("llvm.experimental.noalias", h_nop),
    ("llvm.memcpy", h_memcpy), ("llvm.memmove", h_memcpy), ("llvm.memset", h_memset),
    ("llvm.umin", h_minmax), ("llvm.umax", h_minmax), ("llvm.smin", h_minmax), ("llvm.smax", h_minmax),
    ("llvm.abs", h_iabs), ("llvm.usub.sat", h_usubsat), ("llvm.assume", h_assume), ("llvm.expect", h_expect),
    ("llvm.umul.with", h_ovf), ("llvm.uadd.with", h_ovf), ("llvm.usub.with", h_ovf),
    ("llvm.smul.with", h_ovf), ("llvm.sadd.with", h_ovf), ("llvm.ssub.with", h_ovf),
    ("llvm.fshl", h_fsh), ("llvm.fshr", h_fsh), ("llvm.ctlz", h_clz), ("llvm.cttz", h_clz), ("llvm.ctpop", h_clz),
    ("llvm.bswap", h_clz), ("llvm.bitreverse", h_clz), ("llvm.fabs", h_fabs), ("llvm.fmuladd", h_fmuladd),
    ("llvm.minnum", h_fminmax), ("llvm.maxnum", h_fminmax), ("llvm.stacksave", lambda I, st, a, l, n: leaf(0)),
    ("llvm.stackrestore", h_nop), ("llvm.launder", h_expect), ("llvm.invariant", h_nop),
    ("llvm.trap", h_throw), ("llvm.ubsantrap", h_throw),
    ("llvm.eh.typeid.for", h_nop),
]


def h_cxa_alloc(I, st, args, loc, name):
    return leaf(Ptr(I.new_obj(st, "exception", None), 0))


def pin(kind):
    def h(I, st, args, loc, name):
        k = cint(I, st, args[0], "input index")
        return leaf(term("in", None, f"x{k}")) if kind == "d" else leaf(term("iin", 32, f"n{k}"))
    return h


def h_out(I, st, args, loc, name):
    k = cint(I, st, args[0], "output index")
    outs = I.out_slots(st)
    I.store(st, leaf(Ptr(I.out_obj, k * 1024)), 8, args[1], loc)
    return leaf(0)


def out_slots(self, st):
    if self.out_obj not in st.mem: raise AnalysisError("no output object")


Interp.out_slots = out_slots

DEFAULT_HOOKS = {
    "__cxa_throw": h_throw, "__cxa_allocate_exception": h_cxa_alloc, "__cxa_free_exception": h_nop,
    "__cxa_begin_catch": h_nop, "__cxa_end_catch": h_nop, "_ZSt9terminatev": h_throw, "abort": h_throw,
    "__assert_fail": h_throw, "__cxa_rethrow": h_throw, "__cxa_call_unexpected": h_throw,
    "_Znwm": h_new, "_Znam": h_new, "_ZdlPv": h_nop, "_ZdlPvm": h_nop, "_ZdaPv": h_nop, "malloc": h_new, "free": h_nop,
    "_ZSt20__throw_length_errorPKc": h_throw, "_ZSt17__throw_bad_allocv": h_throw, "_ZSt28__throw_bad_array_new_lengthv": h_throw,
    "_ZSt24__throw_out_of_range_fmtPKcz": h_throw, "_ZSt20__throw_out_of_rangePKc": h_throw, "_ZSt19__throw_logic_errorPKc": h_throw,
    "_ZSt25__throw_bad_function_callv": h_throw,
    "memcpy": h_memcpy, "memmove": h_memcpy, "memset": h_memset, "strlen": h_strlen,
    "__cxa_guard_acquire": h_guard, "__cxa_guard_release": h_nop, "__cxa_atexit": h_nop,
    "vd_out": h_out, "vi_out": h_out,
    "vd_in": pin("d"), "vi_in": pin("i"),
}


def analyse(module, fname, args=(), hooks=None, prefix_hooks=(), init=()):
    """Analyse one entry point; returns (Interp, outputs: dict index -> DD, final cond)."""
    I = Interp(module, hooks)
    I.prefix_hooks = list(prefix_hooks)
    st = State({}, {}, TRUE)
    I.out_obj = I.new_obj(st, "OUT", None)
    for f in init:
        I.run(f, [], st)
    r = I.run(fname, list(args), st)
    outs = {}
    if r is not None:
        for off, (ss, v) in st.mem[I.out_obj].items(): outs[off // 1024] = v
    I.final_cond = st.cond
    I.ret = r
    return I, outs
