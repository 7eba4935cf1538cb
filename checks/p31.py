"""P31 finite element data and buffers are valid wherever they are used."""
from lab import *
from report import Check
from solver import *
from p08 import SOLVER
from p16 import hist_opaque
from p18 import DRIVERS, expressions
from vg import at
from linalg import cname
import workstream as W
import vg
import os
import terms as T

EXPL = ("Every function which creates or uses finite element evaluators is evaluated for arbitrary numbers of crystals, slip systems and degrees of freedom, "
        "the parallel loops' workers on the copies of the scratch and copy objects they really get. Each quantity taken from an evaluator is compared with "
        "the update flags it was created with, each buffer handed to one with its number of points, each element read or written with the size the container was given.")
NS, NC = var("n_slips"), var("n_crystals")
FLAGS = {"value": "update_values", "get_function_values": "update_values", "shape_value": "update_values", "shape_value_component": "update_values",
         "gradient": "update_gradients", "symmetric_gradient": "update_gradients", "divergence": "update_gradients", "curl": "update_gradients",
         "get_function_gradients": "update_gradients", "get_function_symmetric_gradients": "update_gradients", "get_function_divergences": "update_gradients",
         "shape_grad": "update_gradients", "shape_grad_component": "update_gradients",
         "hessian": "update_hessians", "get_function_hessians": "update_hessians", "get_function_laplacians": "update_hessians",
         "JxW": "update_JxW_values", "get_JxW_values": "update_JxW_values",
         "normal_vector": "update_normal_vectors", "get_normal_vectors": "update_normal_vectors", "get_all_normal_vectors": "update_normal_vectors",
         "quadrature_point": "update_quadrature_points", "get_quadrature_points": "update_quadrature_points",
         "jacobian": "update_jacobians", "get_jacobians": "update_jacobians", "inverse_jacobian": "update_inverse_jacobians"}
PER_POINT = ("get_JxW_values", "get_normal_vectors", "get_quadrature_points", "get_jacobians", "quadrature_point_indices")
INPUTS = {"solution_values": "update_values", "solution_gradients": "update_gradients", "solution_hessians": "update_hessians", "normals": "update_normal_vectors",
          "evaluation_points": "update_quadrature_points"}
GETTER = {"get_mapping_collection": 1, "get_fe_collection": 2, "get_quadrature_collection": 3, "get_update_flags": 4}


def top_atoms(t):
    """the atoms a number is a polynomial of"""
    if t.op != "poly":
        return [] if const(t) is not None else [t]
    out = []
    for _, m in t.args[0]:
        for a, _ in m.args[0]:
            if a not in out:
                out.append(a)
    return out


def check():
    c = Check("P31", "value graph with container extents: requested update flags, filled buffers and element accesses against sizes at construction", "", None)
    c.load()
    for d in (2, 3):
        pts = formulas(c, d)
        done = set()
        for f in users(c, d):
            analyse(c, d, f, pts, done)
        c.need(len(done) > 100, "evaluators and buffers in use (dim %d)" % d)
        postprocessors(c, d)
    if os.environ.get("P31DEBUG"):
        for k, v in sorted(getattr(c, "undecided", {}).items()):
            print("UNDECIDED", k, sorted(set(v))[:8])
    return c.finish(EXPL)


def evaluator_type(t):
    s = vg.strip_cv(t)
    return s.startswith(("dealii::hp::FEValues<", "dealii::hp::FEFaceValues<", "dealii::hp::FESubfaceValues<", "dealii::FEValues<", "dealii::FEFaceValues<", "dealii::FESubfaceValues<", "dealii::FEInterfaceValues<"))


def users(c, d):
    """the functions from which every use of an evaluator is reached: those
    which run the parallel loops and those which create one of their own"""
    out = []
    for n in DRIVERS:
        out.append(c.anchor(SOLVER % d + n))
    for f in c.prog.funcs.values():
        if f.get("body") is None or not f["q"].startswith("gCP::") or ("<%d>" % d) not in f["q"] or f["kind"] == "ctor":
            continue
        own = any(e["k"] == "ctor" and evaluator_type(e.get("t", "")) for e in expressions(f["body"]))
        stored = any(e["k"] == "mcall" and last(e["f"].get("q", "")) == "get_data" for e in expressions(f["body"])) and not worker(f)
        if (own or stored) and f not in out:
            if "compute_difference_quotients" in f["q"]:
                continue                       # debugging aid nothing calls
            out.append(f)
    return out


def worker(f):
    """takes scratch data: evaluated from the loop which runs it"""
    return any("AssemblyData::" in p["t"] for p in f["params"]) or "InterfaceDataStorage<" in f["q"]


def formulas(c, d):
    """number of points of the solver's quadrature formulas"""
    fs = [f for f in c.prog.by_q.get("gCP::GradientCrystalPlasticitySolver<%d>::GradientCrystalPlasticitySolver" % d, []) if f["kind"] == "ctor" and len(f["params"]) > 3]
    c.need(len(fs) == 1, "constructor of the solver")
    ev, _ = c.vg(fs[0], opaque=lambda q: "GradientCrystalPlasticitySolver" not in q)
    out = {}
    for n, k in (("quadrature_collection", d), ("face_quadrature_collection", d - 1)):
        t = ev.read(vg.Loc("$this", (("f", n),)), ("obj", ""))
        m = points(t)
        c.ob("%s holds one formula (dim %d)" % (n, d), m is not None, c.where(fs[0]), show(t, 5)[:300])
        out[at(mk("sym", "this"), (("f", n),))] = m if m is not None else 3 ** k
    return out


def points(t):
    """number of points of a collection with one Gauss formula"""
    t = as_atom(t)
    if t.op == "after" and last(str(t.args[0])) == "push_back":
        q = as_atom(t.args[2])
        b = as_atom(t.args[1])
        if b.op != "after" and q.op == "ctorobj" and str(q.args[0]).startswith("dealii::QGauss<"):
            n = const(q.args[1])
            return int(n) ** int(str(q.args[0]).split("<")[1].rstrip(">")) if n is not None else None
    if t.op == "ctorobj" and len(t.args) > 1 and str(t.args[0]).startswith("dealii::hp::QCollection<"):
        q = as_atom(t.args[1])
        if q.op == "ctorobj" and str(q.args[0]).startswith("dealii::QGauss<"):
            n = const(q.args[1])
            return int(n) ** int(str(q.args[0]).split("<")[1].rstrip(">")) if n is not None else None
    return None


class Where:
    """what is known in one function"""

    def __init__(self, c, d, ev, pts):
        self.c, self.d, self.ev, self.pts = c, d, ev, pts
        self.memo = {}

    # ---- evaluators
    def resolve(self, t):
        """constructor argument, copies undone"""
        t = as_atom(t)
        while cname(t) in GETTER and isinstance(t.args[1], Term) and t.args[1].op == "ctorobj":
            a = t.args[1].args
            if len(a) <= GETTER[cname(t)]:
                return None
            t = as_atom(a[GETTER[cname(t)]])
        return t

    def evaluator(self, t):
        """(constructor, moved to a cell?) of what an FEValues object came from"""
        t = as_atom(t)
        moved = False
        for _ in range(20):
            if cname(t) in ("get_present_fe_values", "operator[]", "get_fe_values", "present_fe_values") and isinstance(t.args[1], Term):
                t = as_atom(t.args[1])
            elif t.op == "after" and last(str(t.args[0])) == "reinit":
                moved = True
                t = as_atom(t.args[1])
            else:
                break
        if t.op == "ctorobj" and evaluator_type(str(t.args[0])):
            return t, moved
        return None, moved

    def flags(self, ctor):
        out = set()
        k = 4 if len(ctor.args) > 4 else len(ctor.args) - 1       # without a mapping: three arguments

        def go(t):
            t = as_atom(t)
            if cname(t) in GETTER:
                r = self.resolve(t)
                if r is None or cname(r) in GETTER:
                    return False
                return go(r)
            if t.op == "call" and str(t.args[0]) in ("op|", "operator|"):
                return all([go(x) for x in t.args[1:]])
            if t.op == "enum":
                out.add(str(t.args[-1]).rsplit("::", 1)[-1])
                return True
            s = show(t, 3)
            if s.startswith("update_"):
                out.add(s)
                return True
            return False
        return out if go(ctor.args[k]) else None

    def npoints(self, ctor):
        q = self.resolve(ctor.args[3] if len(ctor.args) > 4 else ctor.args[2])
        return self.collection(q) if q is not None else None

    def collection(self, q):
        n = self.pts.get(q)
        if n is None:
            n = points(q)
        return num(n) if n is not None else None

    # ---- numbers
    def canon(self, t):
        """size or index in the problem's numbers; other atoms are left"""
        if t in self.memo:
            return self.memo[t]
        r = t
        for a in list(top_atoms(t)):
            v = self.number(a)
            if v is not None:
                r = T.replace(r, a, v, {})
        self.memo[t] = r
        return r

    def number(self, a):
        if a.op == "at":
            st = a.args[1]
            names = [x[1] if x[0] == "f" else None for x in st]
            if names[-1] == "n_slips":
                return NS
            if names[-1] == "n_crystals":
                return NC
            if names[-1] == "n_quadrature_points":
                e, _ = self.evaluator(a.args[0])
                return self.npoints(e) if e is not None else None
            if names[-1] == "#size":
                if names[-2:] == ["displacement_extractors", "#size"] or names[-2:] == ["slips_extractors", "#size"]:
                    return NC
                if len(names) > 2 and names[-3] == "slips_extractors" and names[-2] is None:
                    return NS
                if names[-2:] == ["slip_resistances", "#size"]:
                    return NS
            return None
        n = cname(a)
        if n == "max_n_quadrature_points":
            return self.collection(self.resolve(a.args[1]))
        if n == "max_dofs_per_cell":
            return var("dofs of " + show(self.resolve(a.args[1]), 6))
        if n in ("n_quadrature_points", "dofs_per_cell"):
            e, _ = self.evaluator(a.args[1])
            return self.npoints(e) if e is not None and n == "n_quadrature_points" else None
        if a.op == "size":
            x = as_atom(a.args[0])
            if cname(x) in PER_POINT:
                e, _ = self.evaluator(x.args[1])
                return self.npoints(e) if e is not None else None
            if cname(x) == "get_data":
                return self.histories(x)
        return None

    def histories(self, x):
        o = x.args[1]
        s = show(o, 3)
        for n, q in (("interface_quadrature_point_history", "face_quadrature_collection"), ("quadrature_point_history", "quadrature_collection")):
            if any(y.op == "at" and y.args[1][-1] == ("f", n) for y in subterms(o)):
                return num(self.pts[at(mk("sym", "this"), (("f", q),))])
        return None

    def below(self, i, z, g):
        """is i < z?  None: not decided"""
        if mul(g, lnot(lt(i, z))) is ZERO:
            return True
        z = self.canon(z)
        s = single_atom(i)
        if s is not None and s.op == "var" and sub(i, atom(s)) is ZERO:
            r = self.ev.ranges.get(s.args[0])
            if r is None:
                return None
            hi = self.canon(r[1])
            return self.nonpositive(sub(hi, z))
        if s is not None and cname(s) in ("material_id", "active_fe_index"):
            return True if z is NC else None
        return self.nonpositive(sub(add(self.canon(i), ONE), z))

    def nonpositive(self, t):
        k = const(t)
        if k is not None:
            return k <= 0
        at_ = {a for a in top_atoms(t)}
        if not all(a.op == "var" and (a.args[0] in ("n_slips", "n_crystals") or a.args[0].startswith("dofs of")) for a in at_):
            return None
        # every number may be any integer >= 1 of its own
        low = t
        for a in at_:
            up = sub(T.replace(t, a, num(2), {}), T.replace(t, a, ONE, {}))
            k = const(up)
            if k is None:
                return None
            if k > 0:
                return False
            low = T.replace(low, a, ONE, {})
        k = const(low)
        return None if k is None else k <= 0


def analyse(c, d, f, pts, done):
    sites = []
    ev = vg.Eval(c.prog, opaque=hist_opaque, hooks={W.RUN: W.make_hook(sites, bind="worker")})
    ev.accesses = True
    args = [ev.newroot("$" + p["n"], mk("sym", p["n"])) for p in f["params"]]
    ev.call(f, ev.newroot("$this", mk("sym", "this")), args, 0)
    c.functions.add(f["q"])
    for q in ev.covered:
        c.functions.add(q[0] if isinstance(q, tuple) else q)
    k = Where(c, d, ev, pts)
    name = last(vg.strip_targs(f["q"]))
    for e in ev.events:
        if e[0] not in ("call", "filled", "access"):
            continue
        line = e[5]
        w = "%s:%s %s" % (f["relfile"], line, name)
        lab = " (%s, dim %d)" % (name, d)
        if e[0] == "call" and e[1] == "initialize" and "DataStorage<" in str(e[6]):
            n = k.histories(mk("call", "get_data", e[2]))
            got = k.canon(e[3][-1])
            c.ob("the storage initialised at line %s holds one history per quadrature point%s" % (line, lab), n is not None and sub(got, n) is ZERO, w, "points %s, histories %s" % (n and show(n, 3), show(got, 4)))
            done.add((f["q"], "i", line))
        elif e[0] == "call" and e[1] in FLAGS:
            x, moved = k.evaluator(e[2])
            if x is None:
                if evaluator_type(str(e[6])) or "FEValuesViews" in str(e[6]):
                    c.ob("the evaluator of %s is known%s" % (e[1], lab), False, w, show(e[2], 6)[:300])
                continue
            done.add((f["q"], "q", line, e[1]))
            fl = k.flags(x)
            c.ob("%s at line %s is asked of an evaluator created with %s%s" % (e[1], line, FLAGS[e[1]], lab), fl is not None and FLAGS[e[1]] in fl, w, "created with %s" % sorted(fl or ["?"]))
            c.ob("the evaluator of %s at line %s stands on a cell%s" % (e[1], line, lab), moved, w, show(e[2], 6)[:300])
        elif e[0] == "filled":
            l, z, fn = e[3]
            x, _ = k.evaluator(e[2])
            if x is None:
                continue
            n = k.npoints(x)
            done.add((f["q"], "f", line))
            c.ob("the buffer filled at line %s has one entry per quadrature point%s" % (line, lab), n is not None and sub(k.canon(z), n) is ZERO, w, "entries %s, points %s" % (show(k.canon(z), 5), show(n, 3) if n is not None else "?"))
        elif e[0] == "access":
            i, z = e[3]
            r = k.below(i, z, e[4])
            done.add((f["q"], "a", line, e[6]))
            c.count("accesses decided" if r is not None else "accesses to containers whose size is not known here")
            if r is None:
                c.undecided = getattr(c, "undecided", {})
                c.undecided.setdefault((show(i, 4)[:80], show(z, 5)[:120]), []).append(line)
                continue
            rg = k.ev.ranges.get(single_atom(i).args[0]) if single_atom(i) is not None and single_atom(i).op == "var" else None
            c.ob("the elements used at line %s exist%s" % (line, lab), r, w, "index %s, size %s" % ("below " + show(k.canon(rg[1]), 4) if rg else show(i, 4)[:200], show(k.canon(z), 4)[:200]))


def postprocessors(c, d):
    """the flags a postprocessor asks for are those of the inputs it evaluates"""
    n = 0
    for f in list(c.prog.funcs.values()):
        if f.get("body") is None or last(f["q"]) != "evaluate_vector_field" or ("<%d>" % d) not in f["q"]:
            continue
        n += 1
        used = {INPUTS[e["n"]] for e in expressions(f["body"]) if e["k"] == "mem" and e.get("n") in INPUTS}
        g = c.anchor(f["q"].rsplit("::", 1)[0] + "::get_needed_update_flags", 0)
        ev, r = c.vg(g, opaque=lambda q: False)
        out = set()

        def go(t):
            t = as_atom(t)
            if t.op == "call" and str(t.args[0]) in ("op|", "operator|"):
                for x in t.args[1:]:
                    go(x)
            elif t.op == "enum" or show(t, 3).startswith("update_"):
                out.add(show(t, 3).rsplit("::", 1)[-1])
        go(r)
        c.ob("%s asks for what it evaluates (dim %d)" % (vg.strip_targs(f["q"].rsplit("::", 1)[0]), d), used <= out and used, c.where(g), "uses %s, asks for %s" % (sorted(used), sorted(out)))
    c.need(n, "postprocessors (dim %d)" % d)
