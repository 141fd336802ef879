"""O01: what printing an element writes.  The library's operator<< run on a recording stream, every character and every value being
an output of the analysed body; the text is then read back as JSON and compared with the element's coordinates."""
import json
from core import *
from harn import *
from absint import analyse, AnalysisError
import absint, vf
import elements, fields, pairing
from pairing import Res, CUR, mkob
VAL = 1000000                       # a value printed at position k stands in the text as the number VAL + k


def once(pairs):
    d = dict(pairs)
    if len(d) != len(pairs): raise ValueError("a name is written twice")
    return d


def leaves(x):
    if isinstance(x, dict): return [l for k in sorted(x) for l in leaves(x[k])]
    if isinstance(x, list): return [l for y in x for l in leaves(y)]
    return [x]


def compare(got, want, path=""):
    """first difference between the two, as text"""
    if isinstance(want, dict):
        if not isinstance(got, dict): return f"{path or 'the text'} is not an object"
        miss = [k for k in want if k not in got]; more = [k for k in got if k not in want]
        if miss: return f"{', '.join(miss)} is missing" + (f" ({', '.join(more)} is written instead)" if more else "")
        if more: return f"{', '.join(more)} is no coordinate"
        return next((m for m in (compare(got[k], want[k], f"{path}.{k}") for k in want) if m), None)
    if isinstance(want, list):
        if not isinstance(got, list): return f"{path or 'the text'} is not a list"
        if len(got) != len(want): return f"{path or 'the text'} lists {len(got)} values, not {len(want)}"
        return next((m for m in (compare(g, w, f"{path}[{i}]") for i, (g, w) in enumerate(zip(got, want))) if m), None)
    return None if got == want else f"{path or 'the value'} is input {got}, not input {want}"


class Text:
    def __init__(self, want, envs=None): self.want = want; self.envs = envs

    def read(self, I, outs, R, inp, val):
        r = Res(I, outs, R, inp)
        if r.bad: return r.bad
        n = r.size(9999); s = ""
        for k in range(n):
            v = r.size(k) if k in outs else None
            if v is None: return f"character {k} is never written"
            s += chr(v) if 0 <= v < 256 else str(VAL + k)
        if r.size(9998) != 1: return "the stream itself is not returned"
        try: t = json.loads(s, object_pairs_hook=once)
        except ValueError as e: return f"not well-formed: {e}: " + re.sub(r"10000\d\d|100\d\d\d\d", "#", s)[:160].replace("\n", " ")
        def back(x):
            if isinstance(x, dict): return {k: back(v) for k, v in x.items()}
            if isinstance(x, list): return [back(v) for v in x]
            if isinstance(x, int) and not isinstance(x, bool) and x >= VAL: return val(r, 20000 + x - VAL)
            return f"the text {x!r}"
        return compare(back(t), self.want)

    def __call__(self, check, o, mod, I, outs):
        n = len(leaves(self.want)); ks = leaves(self.want)
        strata = [("distinct", lambda k: 1000 + k, {})] + [(f"zero{k}", lambda j, k=k: 0 if j == k else 1000 + j, {}) for k in ks] + [("zero", lambda k: 0, {}), ("one", lambda k: 1, {})]
        for name, f, _ in strata if n < 30 else strata[:1] + strata[-2:]:
            R = Ring([]); inp = AutoInputs(R)
            for k in ks: inp[f"x{k}"] = Rat(R, R.const(f(k)))
            inv = {f(k): k for k in ks}
            def val(r, s):
                v = r.size(s); return inv.get(v, f"of another value ({v})")
            w = self.want
            if name in ("zero", "one"):
                def one(x): return {k: one(v) for k, v in x.items()} if isinstance(x, dict) else [one(v) for v in x] if isinstance(x, list) else inv[f(x)]
                t = Text(one(w))
            else: t = self
            bad = t.read(I, outs, R, inp, val)
            check.ob(f"{o.key}[{name}]", bad is None, bad or "holds", loc_of(o, mod) if bad else None)


END = " auto &r = (os << e); vi_out(9999, os.n); vi_out(9998, &r == &os);"


def insert(pre, at, what='#include <vos.hpp>\n'):
    i = pre.index(at); return pre[:i] + what + pre[i:]


def O01(c):
    A = "operator<<@"
    # group elements
    obs = []
    for k, v in elements.CLS.items():
        E = elements.ID[k]; has = elements.COORDS[k]
        want = {"X": 0, "Y": 1}
        if v[2] not in ("affine",): want["Z"] = 2
        if v[2].startswith("extended"): want["T"] = 3
        obs.append(Ob(f"{k}", f"std::vs_ostream os; {E} e = get<{E}>(0);" + END, anchor=A + elements.CV + v[0] + ".hpp", custom=Text(want), tu="e"))
    sets = [(obs, insert(elements.PRE_E, "#include <nil/"), {}, "oe")]
    # extension fields
    fp = lambda i, n: list(range(i, i + n))
    TOW = {"E2": (fp(0, 2), "fp2"), "E3": (fp(0, 3), "fp3"), "E4": ([[0, 1], [2, 3]], "fp4"), "E62": ([[0, 1, 2], [3, 4, 5]], "fp6_2over3"), "E63": ([[0, 1], [2, 3], [4, 5]], "fp6_3over2"),
           "E12": ([[[0, 1], [2, 3], [4, 5]], [[6, 7], [8, 9], [10, 11]]], "fp12_2over3over2")}
    fo = [Ob(f"fields/{f}", f"std::vs_ostream os; {E} e = get<{E}>(0);" + END, anchor=A + fields.EL + f + ".hpp", custom=Text(w), tu="f") for E, (w, f) in TOW.items()]
    sets.append((fo, insert(fields.prelude(), "#include <nil/"), {}, "of"))
    # precomputed pairing values
    J, M = ["ell_0", "ell_VW", "ell_VV"], (["c_H", "c_4C", "c_J", "c_L"], ["c_L1", "c_RZ"])
    for cn, d in CUR.items():
        if d["kind"] not in "jm": continue
        po = []
        ty = {"j": ("PP::g1_precomputed_type", ["PX", "PY"], "PP::g2_precomputed_type", ["QX", "QY"], [("coeffs", J)]),
              "m": ("PP::g1_precomputed_type", ["PX", "PY", "PX_twist", "PY_twist"], "PP::g2_precomputed_type", ["QX", "QY", "QY2", "QX_over_twist", "QY_over_twist"], [("dbl_coeffs", M[0]), ("add_coeffs", M[1])])}[d["kind"]]
        ff = "pairing/detail/forms/short_weierstrass/" + {"j": "jacobian_with_a4_0", "m": "projective"}[d["kind"]] + "/types.hpp"
        def add(key, body, want, st=None):
            o = mkob(cn, "pairing/" + key, body, "out", "g2", rel=Text(want)); o.key = "pairing/" + o.key.replace("/pairing", ""); o.anchor = A + "nil/crypto3/algebra/" + ff; po.append(o)
        st = lambda v, f, k: f"{v}.{f} = decltype({v}.{f})::mk(vd_in({k})); "
        add("g1", f"std::vs_ostream os; {ty[0]} e; " + "".join(st("e", f, i) for i, f in enumerate(ty[1])) + END, {f: i for i, f in enumerate(ty[1])})
        import itertools
        for lens in itertools.product((0, 1, 2, 3), repeat=len(ty[4])):
            if len(lens) == 2 and 3 in lens and lens not in ((3, 1), (1, 3), (3, 3)): continue
            b = "".join(st("e", f, i) for i, f in enumerate(ty[3])); want = {f: i for i, f in enumerate(ty[3])}; k = len(ty[3])
            for n, (vec, ms) in zip(lens, ty[4]):
                want[vec] = []
                for _ in range(n):
                    b += "{ std::decay_t<decltype(e.%s[0])> c; " % vec
                    row = []
                    for m in ms: b += st("c", m, k); row.append(k); k += 1
                    b += f"e.{vec}.push_back(c); }} "; want[vec].append(row)
            add(f"g2/{'-'.join(map(str, lens))}", f"std::vs_ostream os; {ty[2]} e; {b}" + END, want)
        pre = pairing.PRE(d["h"]).replace("#include <pmock.hpp>\n", "#include <pmock.hpp>\n#include <vos.hpp>\ninline std::vs_ostream &operator<<(std::vs_ostream &o, const vp::Q2 &x) { vd_out(o.val(), x.data); return o; }\nnamespace vp { using ::operator<<; }\n")
        sets.append((po, pre, {o.tu: o.fl for o in po}, "op" + d["h"]))
    # the prime field element prints its residue
    h, f = fields.FP_FIELDS["bls12-381"]
    sets.append(([Ob("fields/fp", "std::vs_ostream os; E e = get(0);" + END, anchor=A + fields.EL + "fp.hpp", custom="fp", tu="p")], (fields.PRE_FP % (h, f)).replace("#include <vf.hpp>", "#include <vf.hpp>\n#include <vos.hpp>"), {}, "ofp"))
    mods = {}
    tus = []
    for obs, pre, tf, px in sets: tus += make_tus(obs, pre, stub=True, flags=["-UNDEBUG"], tuflags=tf, prefix=px)
    mods = c.compile_all(tus)
    allobs = [o for s in sets for o in s[0]]
    for o in allobs:
        mod = mods[o.tuname]; absint.FUEL[0] = 3000000
        try: I, outs = analyse(mod, o.fn, hooks={**vf.HOOKS, **getattr(o, "hooks", {})})
        except (absint.OutOfFuel, absint.Endless): c.ob(o.key, False, "does not terminate", loc_of(o, mod)); continue
        except AnalysisError as e:
            if "output index" in str(e): c.ob(o.key, False, "what is written (names, separators) depends on the values of the coordinates", loc_of(o, mod)); continue
            raise Broken(f"obligation {o.key}: {e}")
        c.absorb(I)
        if o.custom == "fp":
            R = Ring([]); inp = AutoInputs(R); r = Res(I, outs, R, inp)
            bad = r.bad or (None if r.size(9999) == 1 and r.size(0) > 255 and r.size(9998) == 1 else "the residue alone is not what is written") or (None if r[20000].eq(inp["x0"]) else "another value than the residue is written")
            c.ob(o.key, bad is None, bad or "holds", loc_of(o, mod) if bad else None)
        else: o.custom(c, o, mod, I, outs)


PROPS = {"O01": O01}
