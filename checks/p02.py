"""P02 crystal input validation: nothing inconsistent is accepted, no access before a successful initialisation."""
from crystal import *
from report import Check

EXPL = ("Abstract interpretation of the crystal-data initialisation for dim 2 and 3: the guard of every exception is "
        "compared with the condition under which the input is inconsistent (missing file, number of entries per line, "
        "number of rows, zero length, non-orthogonality), over an arbitrary line of an arbitrary file; writes indexed "
        "by an unbounded counter must be dominated by a rejection of the first index out of range; every public "
        "getter is evaluated on the constructed object, on the object as it stands at every point where initialisation "
        "can fail, and on the initialised object.")


def ins(e):
    return [x[1] for x in e if isinstance(x, tuple) and len(x) == 2 and x[0] == "in"]


def union(gs):
    r = ZERO
    for g in gs:
        r = lor(r, g)
    return r


def check():
    c = Check("P02", "abstract interpretation: exception guards over value-numbered terms",
              "inconsistent input reaches an exception in every build; getters are unusable before initialisation",
              ["source/crystal_data.cc"])
    c.load()
    for d in (2, 3):
        K = Crystal(c, d)
        L, CD, fi = K.L, K.CD, K.f_init
        throws = [e for e in K.events if e[0] == "throw"]
        c.count("throw sites", len(throws))
        w = c.where(fi)
        # ---- missing files
        for lab, s in FILES:
            ok = False
            for e in throws:
                oa = K.open_atoms(e[1], s)
                if oa and not ins(e):
                    g0 = g1 = e[1]
                    for a in oa:
                        g0, g1 = replace(g0, a, ZERO), replace(g1, a, ONE)
                    ok = ok or (g0 is ONE and g1 is ZERO)
            c.ob("a missing file of %s is rejected, dim %d" % (lab, d), ok, w)
        # ---- from here on the files are open
        guard = {id(e): K.assume_open(e[1]) for e in throws}
        loops = {}                 # file -> ids of the loops that consume it
        for e in K.events:
            for t in e:
                if isinstance(t, Term):
                    for f, ms in K.source(t).items():
                        for m in ms:
                            loops.setdefault(f, set()).add(m.args[0])
        for lab, s in FILES:
            c.must(len(loops.get(s, ())) >= 1, "no loop reads the file of %s" % lab)
            lids = loops[s]
            mine = [e for e in throws if set(ins(e)) & lids]
            want = 1 if (d == 2 and s == "fo") else d
            # blank-line conditions are false on a line that carries data
            nonblank = lambda g: _nonblank(g)
            # counters: what the loop over the entries of one line leaves behind
            outer = [e for e in mine if ins(e) and ins(e)[0] in lids]
            nums = set()
            for e in outer:
                for x in subterms(guard[id(e)]):
                    if x.op in ("mu", "size") and _inner(x, lids):
                        nums.add(x)
            tops = [x for x in nums if not any(x is not y and x in set(subterms(y)) for y in nums)]
            ok, bad = False, "no counter of entries is tested"
            # entries already rejected while the line is being read
            early = set()
            for e in mine:
                if e not in outer:
                    for x in subterms(guard[id(e)]):
                        if x.op == "head" and x.args[0] == ins(e)[0]:
                            early |= {j for j in range(0, 8) if nonblank(replace(guard[id(e)], x, num(j))) is ONE}
            for x in tops:
                def rej(k):
                    if any(j < k for j in early):
                        return ONE
                    return union([nonblank(replace(guard[id(e)], x, num(k))) for e in outer])
                acc = rej(want)
                wrong = [k for k in range(0, 8) if k != want and rej(k) is not ONE]
                if acc is ZERO and not wrong:
                    ok = True
                else:
                    bad = "entries accepted: %s" % ([k for k in range(0, 8) if rej(k) is not ONE])
            c.ob("a line of the file of %s with other than %d entries is rejected, dim %d" % (lab, want, d), ok, w, bad)
            # unbounded subscripts
            for e in K.events:
                if e[0] == "loop-write" and set(ins(e)) & lids:
                    for st in e[3]:
                        if st[0] != "i" or not isinstance(st[1], Term):
                            continue
                        hs = [x for x in subterms(st[1]) if x.op == "head" and x.args[0] == e[1]]
                        h = single_atom(st[1])
                        if not hs or any(x.op == "size" for x in subterms(st[1])):
                            continue
                        thr = [t for t in throws if ins(t)[:1] == [e[1]]]
                        res = []
                        for k in range(0, d + 4):
                            g = ZERO
                            for t in thr:
                                g = lor(g, nonblank(replace(guard[id(t)], hs[0], num(k))))
                            res.append(g is ONE)
                        c.ob("an entry beyond the dimension is rejected before it is stored (%s), dim %d" % (lab, d),
                             h is not None and all(res[d:]) and not any(res[:d]), "source/crystal_data.cc:%s" % e[6],
                             "index %s, rejected for counter values %s" % (show(st[1])[:200], [k for k, b in enumerate(res) if b]))
            # stored values are the parsed entries
            for e in K.events:
                if e[0] == "loop-write" and set(ins(e)) & lids and isinstance(e[4], Term):
                    sto = [x for x in subterms(e[4]) if cname(x) in ("stod", "strtod", "atof", "stold", "stof", "from_chars", "string_to_double")]
                    if sto:
                        c.ob("entries are stored as read (%s), dim %d" % (lab, d), len(set(sto)) == 1 and single_atom(e[4]) is sto[0],
                             "source/crystal_data.cc:%s" % e[6], show(e[4])[:300])
                        c.ob("entries are read in double precision (%s), dim %d" % (lab, d), cname(sto[0]) not in ("stof",), "source/crystal_data.cc:%s" % e[6])
        # ---- number of rows
        nc = K.assume_open(L.call(K.o, CD + "::get_n_crystals"))
        sizes = {}
        for e in throws:
            for x in subterms(guard[id(e)]):
                if x.op == "size":
                    for f in K.source(x):
                        sizes.setdefault(f, set()).add(x)
        sizes = {f: [x for x in xs if not any(_isinner(y) for y in [x])] for f, xs in sizes.items()}
        flat = [e for e in throws if not ins(e)]
        ncs = [x for x in subterms(nc) if x.op == "size"]

        def pin(g, m):
            for f, v in m.items():
                for x in sizes.get(f, ()):
                    g = replace(g, x, v)
            return g
        X, Y = sc("rows_a"), sc("rows_b")

        def rejects(conf):
            g = union([pin(guard[id(e)], conf) for e in flat])
            return g
        if len(ncs) == 1:
            gs = [replace(pin(guard[id(e)], {"fo": X}), ncs[0], Y) for e in flat]
            c.ob("as many orientations as crystals are required, dim %d" % d,
                 any(equal(g, lnot(eq(X, Y))) and equal_on_boundaries(g, lnot(eq(X, Y))) for g in gs), w)
        else:
            c.ob("as many orientations as crystals are required, dim %d" % d, False, w)
        gs = [pin(guard[id(e)], {"fd": X, "fn": Y}) for e in flat]
        c.ob("as many slip directions as slip normals are required, dim %d" % d,
             any(equal(g, lnot(eq(X, Y))) and equal_on_boundaries(g, lnot(eq(X, Y))) for g in gs), w)
        # ---- zero length, orthogonality: per row
        rows = [e for e in throws if ins(e) and not any(set(ins(e)) & l for l in loops.values())]
        tabs = {}
        for e in rows:
            for f, ms in K.source(guard[id(e)]).items():
                tabs.setdefault(f, set()).update(m for m in ms)
        D, M = sorted(tabs.get("fd", ()), key=lambda t: t.dig), sorted(tabs.get("fn", ()), key=lambda t: t.dig)
        if not c.ob("slip directions and normals are validated row by row, dim %d" % d, len(D) == 1 and len(M) == 1, w):
            continue
        D, M = D[0], M[0]
        ix = set()
        for e in rows:
            for x in subterms(guard[id(e)]):
                if x.op == "at" and x.args[0] in (D, M) and len(x.args[1]) >= 1 and x.args[1][0][0] == "i":
                    ix.add(x.args[1][0][1])
        c.need(ix, "no row index found")
        for i in sorted(ix, key=lambda t: t.dig):
            vs = [v for v in i.fv if v in L.ev.ranges]
            ok, why = len(vs) == 1, show(i)
            if ok:
                lo, hi = [K.assume_open(x) for x in L.ev.ranges[vs[0]]]
                a, b = subst(i, {vs[0]: lo}), single_atom(add(subst(i, {vs[0]: sub(hi, ONE)}), ONE))
                ok = a is ZERO and b is not None and b.op == "size" and bool(set(K.source(b)) & {"fd", "fn"})
                why = "%s from %s to %s" % (show(i), show(lo), show(hi, 4)[:300])
            c.ob("every row is validated, dim %d" % d, ok, w, why)

        def withrow(g, dv, mv):
            for i in ix:
                for j in range(d):
                    g = replace(g, at(D, (("i", i), ("i", num(j)))), dv[j])
                    g = replace(g, at(M, (("i", i), ("i", num(j)))), mv[j])
            return g
        e1 = [ONE] + [ZERO] * (d - 1)
        e2 = [ZERO, ONE] + [ZERO] * (d - 2)
        z = [ZERO] * d
        P, Q = sc("p"), sc("q")

        def verdict(dv, mv):
            return union([withrow(guard[id(e)], dv, mv) for e in rows])
        sl = lambda v, s: [x * s for x in v]
        c.ob("a zero-length slip direction is rejected, dim %d" % d, equal(verdict(z, e1), ONE), w, "accepted: direction 0, normal (1,0..)")
        c.ob("a zero-length slip normal is rejected, dim %d" % d, equal(verdict(e1, z), ONE), w, "accepted: normal 0, direction (1,0..)")
        acc = [(e1, e2), (e2, e1), (sl(e1, num(7)), sl(e2, num(-3)))] + ([([ONE, ONE, ZERO], [ONE, num(-1), ONE]), ([ZERO, ONE, ONE], [ONE, num(1), num(-1)])] if d == 3 else [([ONE, ONE], [num(-1), ONE])])
        for a, b in acc:
            c.ob("an orthogonal pair is accepted, dim %d" % d, equal(verdict(a, b), ZERO), w, show(mk("pair", tuple(a), tuple(b))), key="orthogonal accepted dim %d" % d)
        bad = [(e1, e1), (e2, sl(e2, num(-1))), ([ONE] * d, e1), ([ONE] * d, sl([ONE] * d, num(-2))), (e1, [num(Fr(1, 10 ** 6)), ONE] + [ZERO] * (d - 2)),
               (e1, [num(-Fr(1, 10 ** 6)), ONE] + [ZERO] * (d - 2))]
        if d == 3:
            bad += [([ZERO, ZERO, ONE], [ONE, ZERO, ONE]), ([ZERO, ONE, ONE], [ONE, ONE, ONE])]
        for a, b in bad:
            c.ob("a non-orthogonal pair is rejected, dim %d" % d, equal(verdict(a, b), ONE), w, show(mk("pair", tuple(a), tuple(b))), key="non-orthogonal rejected dim %d" % d)
        # ---- getters
        gets = [f for f in c.prog.funcs.values() if f.get("cls") == CD and f["kind"] == "fn" and f.get("const") and f.get("access") == 0]
        c.need(len(gets) >= 8, "public getters of the crystal data: %d found" % len(gets))
        c.count("getters", len(gets))
        K0 = Lab(c)
        o0 = K0.new(CD)

        def refuses(lab_, obj, f):
            e0 = len(lab_.ev.events)
            lab_.raw(obj, f["q"], *["arg%d" % i for i in range(len(f["params"]))], pred=lambda h: h is f)
            return union([e[1] for e in lab_.ev.events[e0:] if e[0] == "throw"])
        flags = [f for f in gets if f["ret"] in ("bool", "const bool", "const bool &")]
        gets = [f for f in gets if f not in flags]
        for f in flags:
            c.same("the state query is false before initialisation, dim %d" % d, K0.call(o0, f["q"]), ZERO, f)
            c.same("the state query is true after initialisation, dim %d" % d, L.call(K.o, f["q"]), ONE, f)
        for f in gets:
            nm = f["q"].rsplit("::", 1)[-1]
            c.ob("%s refuses before initialisation, dim %d" % (nm, d), refuses(K0, o0, f) is ONE, c.where(f))
            c.ob("%s works after initialisation, dim %d" % (nm, d), refuses(L, K.o, f) is ZERO, c.where(f))
        # a failed initialisation leaves the object unusable
        keep = L.ev.logs
        f = [g for g in gets if g["q"].endswith("get_n_slips")] or gets[:1]
        for e, logs in K.throws:
            L.ev.logs = {r: list(x) for r, x in keep.items()}
            L.ev.logs.update({r: list(x) for r, x in logs.items()})
            c.ob("a failed initialisation leaves the object unusable, dim %d" % d, refuses(L, K.o, f[0]) is ONE, "source/crystal_data.cc:%s" % e[2])
        L.ev.logs = keep
    return c.finish(EXPL)


def _isinner(x):
    """a size that belongs to a nested (per-line) loop"""
    return any(y.op in ("head",) for y in subterms(x))


def _inner(x, lids):
    m = x if x.op == "mu" else next((y for y in subterms(x) if y.op == "mu"), None)
    return m is not None and m.args[0] not in lids


def _nonblank(g):
    """on a line that carries data: emptiness tests of strings are false"""
    for x in list(subterms(g)):
        if is_bool_atom(x) and any(cname(y) in ("empty",) for y in subterms(x)) and x.op == "b":
            g = replace(g, x, ZERO)
    return g
