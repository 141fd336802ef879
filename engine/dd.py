"""Decision diagrams over guard atoms.

A Value in the analyser is a DD: either a Leaf holding an abstract value (an integer constant, a
pointer, a term of the value graph, ...) or an inner node testing one guard atom.  Booleans are DDs
with leaves True/False, so gates of the gated-SSA value graph are kept canonical.
"""
class DD:
    __slots__ = ("var", "hi", "lo", "v", "id")

    @property
    def leaf(self):
        return self.var is None

    def __repr__(self):
        return f"<{self.v!r}>" if self.var is None else f"(a{self.var}?{self.hi!r}:{self.lo!r})"


_nodes = {}
_leaves = {}
_ids = [0]


def reset():
    _nodes.clear(); _leaves.clear(); _ite_memo.clear(); _apply_memo.clear()
    global TRUE, FALSE
    TRUE = leaf(True); FALSE = leaf(False)


def leaf(v):
    k = (type(v), v)
    r = _leaves.get(k)
    if r is None:
        r = DD(); r.var = None; r.v = v; r.hi = r.lo = None
        _ids[0] += 1; r.id = _ids[0]
        _leaves[k] = r
    return r


CANON = None     # optional rewrite (var, hi, lo) -> DD or None, e.g. |x| recognition


def node(var, hi, lo):
    if hi is lo:
        return hi
    if CANON is not None and hi.var is None and lo.var is None:
        r = CANON(var, hi, lo)
        if r is not None: return r
    k = (var, hi.id, lo.id)
    r = _nodes.get(k)
    if r is None:
        r = DD(); r.var = var; r.hi = hi; r.lo = lo; r.v = None
        _ids[0] += 1; r.id = _ids[0]
        _nodes[k] = r
    return r


_ite_memo = {}
_apply_memo = {}
TRUE = leaf(True)
FALSE = leaf(False)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c.id, a.id, b.id)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    v = c.var
    if a.var is not None and a.var < v: v = a.var
    if b.var is not None and b.var < v: v = b.var
    c1, c0 = (c.hi, c.lo) if c.var == v else (c, c)
    a1, a0 = (a.hi, a.lo) if a.var == v else (a, a)
    b1, b0 = (b.hi, b.lo) if b.var == v else (b, b)
    r = node(v, ite(c1, a1, b1), ite(c0, a0, b0))
    _ite_memo[k] = r
    return r


def and_(a, b): return ite(a, b, FALSE)
def or_(a, b): return ite(a, TRUE, b)
def not_(a): return ite(a, FALSE, TRUE)
def xor_(a, b): return ite(a, not_(b), b)


def constrain(f, c):
    """Generalised cofactor: a diagram that agrees with f wherever c holds (c is not FALSE)."""
    if c is TRUE or f.var is None:
        return f
    if c is FALSE:
        return f
    k = ("c", f.id, c.id)
    r = _apply_memo.get(k)
    if r is not None:
        return r
    v = f.var if c.var is None or (f.var <= c.var) else c.var
    f1, f0 = (f.hi, f.lo) if f.var == v else (f, f)
    c1, c0 = (c.hi, c.lo) if c.var == v else (c, c)
    if c1 is FALSE:
        r = constrain(f0, c0)
    elif c0 is FALSE:
        r = constrain(f1, c1)
    elif f.var != v:
        # restrict: do not introduce variables f does not depend on
        r = constrain(f, or_(c1, c0))
    else:
        r = node(v, constrain(f1, c1), constrain(f0, c0))
    _apply_memo[k] = r
    return r


def apply(key, fn, *args):
    """Apply fn leaf-wise; fn gets leaf payloads and returns a DD (guards may appear in the result)."""
    for a in args:
        if a.var is not None:
            break
    else:
        return fn(*[a.v for a in args])
    k = (key,) + tuple(a.id for a in args)
    r = _apply_memo.get(k) if key is not None else None
    if r is not None:
        return r
    v = min(a.var for a in args if a.var is not None)
    hi = apply(key, fn, *[a.hi if a.var == v else a for a in args])
    lo = apply(key, fn, *[a.lo if a.var == v else a for a in args])
    r = ite(node(v, TRUE, FALSE), hi, lo)
    if key is not None:
        _apply_memo[k] = r
    return r


def leaves(d, acc=None, seen=None):
    """Distinct leaf payloads of d."""
    out, seen, st = [], set(), [d]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.var is None: out.append(x.v)
        else: st.append(x.hi); st.append(x.lo)
    return out


def leaf_guards(d):
    """[(guard, payload)] for each distinct leaf."""
    acc = {}
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None: return r
        if x.var is None:
            r = {x.id: (x, TRUE)}
        else:
            r = {}
            t = node(x.var, TRUE, FALSE)
            for lid, (l, g) in go(x.hi).items():
                r[lid] = (l, and_(t, g))
            nt = not_(t)
            for lid, (l, g) in go(x.lo).items():
                g2 = and_(nt, g)
                r[lid] = (l, or_(r[lid][1], g2) if lid in r else g2)
        memo[x.id] = r
        return r
    return [(g, l.v) for l, g in go(d).values()]


def support(d):
    s, seen, st = set(), set(), [d]
    while st:
        x = st.pop()
        if x.id in seen or x.var is None: continue
        seen.add(x.id); s.add(x.var); st.append(x.hi); st.append(x.lo)
    return s
