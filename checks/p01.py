"""P01 crystal geometry: rotation per crystal, slip systems, Schmid tensors, counts."""
from crystal import *
from report import Check

EXPL = ("Value graph of the crystal-data initialisation for dim 2 and 3: the three input files are opaque tables "
        "identified by the stream they are read from; every component of every rotation, direction, normal, "
        "orthogonal and Schmid tensor returned by the getters is compared with its closed form in those tables for a "
        "symbolic crystal and slip system, and the two counts with the material ids and the table length.")


def mm(A, B):
    n = len(A)
    return [[add(*[A[i][k] * B[k][j] for k in range(n)]) for j in range(n)] for i in range(n)]


def rot(axis, a):
    c, s = fn1("cos", a), fn1("sin", a)
    if axis == "z":
        return [[c, -s, ZERO], [s, c, ZERO], [ZERO, ZERO, ONE]]
    return [[ONE, ZERO, ZERO], [ZERO, c, -s], [ZERO, s, c]]


def check():
    c = Check("P01", "value-graph equivalence (global value numbering with algebraic normal forms)",
              "rotations, slip systems, Schmid tensors and counts equal their closed forms in the tables read",
              ["source/crystal_data.cc"])
    c.load()
    for d in (2, 3):
        K = Crystal(c, d)
        L, CD = K.L, K.CD
        fi = K.f_init
        get = lambda n, *a: L.call(K.o, CD + "::" + n, *a)
        fix = K.assume_open
        k, a = var("crystal"), var("alpha")
        nc, ns = fix(get("get_n_crystals")), fix(get("get_n_slips"))
        L.ev.ranges["crystal"] = (ZERO, get("get_n_crystals"))
        L.ev.ranges["alpha"] = (ZERO, get("get_n_slips"))
        # ---- number of slip systems
        one = single_atom(ns)
        src = K.source(ns)
        c.ob("the number of slip systems is the number of rows read, dim %d" % d,
             one is not None and one.op == "size" and len(src) == 1 and "fo" not in src,
             c.where(fi), show(ns)[:600])
        # ---- number of crystals
        one = single_atom(nc)
        un = [x for x in subterms(nc) if cname(x) == "compute_set_union"]
        c.ob("the number of crystals is the size of the union over all processes, dim %d" % d,
             one is not None and one.op == "size" and len(un) == 1 and one.args[0] is un[0],
             c.where(L.fn(CD + "::count_n_crystals") if c.prog.by_q.get(CD + "::count_n_crystals") else fi), show(nc)[:600])
        ins = [e for e in K.events if e[0] == "call" and e[1] in ("emplace", "insert", "emplace_hint")
               and any(cname(x) == "material_id" for t in e[3] if isinstance(t, Term) for x in subterms(t))]
        c.must(ins, "no insertion of a material id found")
        for e in ins:
            g = e[4]
            flags = {"is_locally_owned": (ZERO, ONE), "is_ghost": (ZERO, ZERO), "is_artificial": (ONE, ZERO),
                     "is_artificial_on_level": (ONE, ZERO)}
            off, on, seen = g, g, False
            for x in list(subterms(g)):
                if is_bool_atom(x):
                    ns_ = {cname(y) for y in subterms(x)} & set(flags)
                    if ns_ and x.op == "b":
                        seen = True
                        off, on = replace(off, x, flags[min(ns_)][0]), replace(on, x, flags[min(ns_)][1])
            # a material id not yet in the set
            for x in list(subterms(g)):
                if cname(x) in ("count", "contains"):
                    on, off = replace(on, x, ZERO), replace(off, x, ZERO)
            c.ob("cells unknown to this process do not contribute material ids, dim %d" % d, off is ZERO and seen, "source/crystal_data.cc:%s" % e[5], show(g)[:500])
            c.ob("every locally owned cell with a new id contributes, dim %d" % d, equal(on, ONE), "source/crystal_data.cc:%s" % e[5], show(g)[:500])
        # ---- rotations
        R = [[fix(x) for x in r] for r in tm(get("get_rotation_tensor", k))]
        R3 = [[fix(x) for x in r] for r in tm(get("get_3d_rotation_tensor", k))]
        s = set()
        for r in R + R3:
            for x in r:
                q = K.source(x)
                c.ob("the rotation depends on the orientation file only, dim %d" % d, set(q) <= {"fo"}, c.where(fi), show(x)[:400])
                s |= q.get("fo", set())
        if not c.ob("one orientation table is read, dim %d" % d, len(s) == 1, c.where(fi)):
            continue
        E = s.pop()
        rad = lambda i: atom(at(E, (("i", k), ("i", num(i))))) * PI / 180
        if d == 2:
            Q3 = rot("z", rad(0))
            Q = [r[:2] for r in Q3[:2]]
        else:
            Q = Q3 = mm(mm(rot("z", rad(0)), rot("x", rad(1))), rot("z", rad(2)))
        fr, fr3 = L.fn(CD + "::get_rotation_tensor"), L.fn(CD + "::get_3d_rotation_tensor")
        for i in range(d):
            for j in range(d):
                c.same("rotation component %d%d, dim %d" % (i, j, d), R[i][j], Q[i][j], fr)
        for i in range(3):
            for j in range(3):
                c.same("three-dimensional rotation component %d%d, dim %d" % (i, j, d), R3[i][j], Q3[i][j], fr3)
        # ---- slip systems
        S = [fix(x) for x in tv(get("get_slip_direction", k, a))]
        N = [fix(x) for x in tv(get("get_slip_normal", k, a))]
        O = [fix(x) for x in tv(get("get_slip_orthogonal", k, a))]
        tabs = {}
        for vec_ in (S, N, O):
            for x in vec_:
                for f, ms in K.source(x).items():
                    tabs.setdefault(f, set()).update(ms)
        if not c.ob("one table per slip file is read, dim %d" % d, len(tabs.get("fd", ())) == 1 and len(tabs.get("fn", ())) == 1, c.where(fi)):
            continue
        D, M = tabs["fd"].pop(), tabs["fn"].pop()

        def unit(T_):
            v = [atom(at(T_, (("i", a), ("i", num(i))))) for i in range(d)]
            n = powr(add(*[x * x for x in v]), Fr(1, 2))
            return [x / n for x in v]
        app = lambda v: [add(*[Q[i][j] * v[j] for j in range(d)]) for i in range(d)]
        s0, m0 = unit(D), unit(M)
        ws, wm = app(s0), app(m0)
        fs, fn_, fo = (L.fn(CD + "::" + x) for x in ("get_slip_direction", "get_slip_normal", "get_slip_orthogonal"))
        for i in range(d):
            c.same("slip direction %d, dim %d" % (i, d), S[i], ws[i], fs)
            c.same("slip normal %d, dim %d" % (i, d), N[i], wm[i], fn_)
        if d == 2:
            wo = [ZERO, ZERO]
        else:
            dv = [atom(at(D, (("i", a), ("i", num(i))))) for i in range(d)]
            mv = [atom(at(M, (("i", a), ("i", num(i))))) for i in range(d)]
            cr = [mv[(i + 1) % 3] * dv[(i + 2) % 3] - mv[(i + 2) % 3] * dv[(i + 1) % 3] for i in range(3)]
            n = powr(add(*[x * x for x in cr]), Fr(1, 2))
            wo = app([x / n for x in cr])
        for i in range(d):
            c.same("slip orthogonal %d, dim %d" % (i, d), O[i], wo[i], fo)
        P = tm(get("get_schmid_tensor", k, a))
        Y = tm(get("get_symmetrized_schmid_tensor", k, a))
        fp, fy = L.fn(CD + "::get_schmid_tensor"), L.fn(CD + "::get_symmetrized_schmid_tensor")
        for i in range(d):
            for j in range(d):
                c.same("Schmid tensor %d%d, dim %d" % (i, j, d), fix(P[i][j]), ws[i] * wm[j], fp)
                c.same("symmetrised Schmid tensor %d%d, dim %d" % (i, j, d), fix(Y[i][j]), (ws[i] * wm[j] + ws[j] * wm[i]) / 2, fy)
        # ---- the plural getters list the same values
        for nm, w in (("get_slip_directions", ws), ("get_slip_normals", wm)):
            v = L.raw(K.o, CD + "::" + nm, k)
            for i in range(d):
                c.same("%s entry, component %d, dim %d" % (nm, i, d), fix(L.get(v, a, i)), w[i], L.fn(CD + "::" + nm))
        v = L.raw(K.o, CD + "::get_symmetrized_schmid_tensors", k)
        for i in range(d):
            for j in range(i, d):
                c.same("symmetrised Schmid list %d%d, dim %d" % (i, j, d), fix(L.get(v, a, i, j)), (ws[i] * wm[j] + ws[j] * wm[i]) / 2, L.fn(CD + "::get_symmetrized_schmid_tensors"))
    c.assumptions.append("the three files could be opened and their rows are the opaque tables; what happens otherwise is P02")
    return c.finish(EXPL)
