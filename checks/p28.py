"""P28 prescribed displacements and time steps of the configured loading."""
from lab import *
from report import Check
from solver import *
import terms as T
import vg
import params as P
from p09 import replace_obj

EXPL = ("SimpleLoading's values are evaluated from what parse_parameters reads, then handed to its own time-step and extrapolation rules and to "
        "the boundary function, whose value is compared per component with the required load for both loading types, any time and any parameters.")
SL = "gCP::RunTimeParameters::SimpleLoading"
DC = "gCP::BoundaryConditions::DisplacementControl<%d>"
S = lambda n: atom(mk("sym", n))
KINDS = ("monotonic", "cyclic")
MAX, MIN = S("Maximum load"), S("Minimum load")
TM, NM = S("Duration of monotonic load"), S("Number of steps during monotonic load")
TR, NR = S("Duration of un- and loading phase"), S("Number of steps during un- and loading phase")
NC, PER, NQ_ = S("Number of cycles"), S("Period"), S("Number of steps during a quarter cycle")
SKIP = atom(mk("b", mk("sym", "Skip unloading phase")))
K, TIME, T0 = S("k"), S("t"), ZERO
ENTRIES = {"Loading type": 0, "Maximum load": 0, "Minimum load": 0, "Duration of monotonic load": 1, "Number of steps during monotonic load": 1,
           "Duration of un- and loading phase": 2, "Number of steps during un- and loading phase": 2, "Number of cycles": 2, "Period": 2,
           "Number of steps during a quarter cycle": 2, "Skip unloading phase": 2}
SECT = ("2. Temporal discretization parameters", "Simple loading")
SUB = (SECT, SECT + ("Monotonic load parameters",), SECT + ("Cyclic load parameters",))


def check():
    c = Check("P28", "value graph of loading parameters, step sizes and boundary functions against closed forms", "", None)
    c.load()
    L = Lab(c)
    o = L.new(SL)
    prm = L.ev.newroot("$prm", mk("sym", "prm"))
    f = c.anchor(SL + "::parse_parameters", 1)
    L.ev.call(f, o, [prm])
    w = c.where(f)
    for e in L.ev.events:
        if e[0] == "call" and last(e[1]) in P.GET:
            n = P.text(e[3][0])
            if n in ENTRIES:
                c.ob("'%s' is read from its own section" % n, P.section(e[2]) == SUB[ENTRIES[n]] and e[4] is ONE, w, str(P.section(e[2])))
    for kind in KINDS:
        parsed(c, L, o, kind, w)
        steps(c, L, o, kind)
        for d in (2, 3):
            for n in (1, 3):
                for comp in range(d):
                    load(c, L, o, kind, d, n, comp)
    return c.finish(EXPL)


def pick(t, kind):
    """the value for a given loading type, in the names of the parameter file"""
    t = clean(t)
    memo = {}
    for x in list(subterms(t)):
        if x.op == "b" and len(x.args) == 3 and x.args[0] == "==":
            s = [P.text(y) for y in x.args[1:] if P.text(y) in KINDS + ("",)]
            if len(s) == 1:
                t = T.replace(t, x, num(1 if s[0] == kind else 0), memo={})
        elif x.op in T.BOOL_OPS and any(isinstance(y, Term) and y.op == "sym" and y.args[0] == "Loading type" for y in x.args):
            s = [P.text(y) for y in x.args if P.text(y) in KINDS]
            if len(s) == 1:
                t = T.replace(t, x, num(1 if s[0] == kind else 0), memo={})
    return t


def clean(t):
    while isinstance(t, Term):
        x = [y for y in subterms(t) if y.op == "call" and last(str(y.args[0])) == "get_time"]
        if not x:
            return P.canon(t)
        t = replace_obj(t, x[0], mk("sym", "t"))


def same(a, b):
    return a is b or (T.equal(a, b) and T.equal_on_boundaries(a, b))


def parsed(c, L, o, kind, w):
    end = add(T0, TM) if kind == "monotonic" else add(T0, mul(add(num(2), neg(SKIP)), TR), mul(NC, PER))
    got = pick(L.get(o, "end_time"), kind)
    c.ob("the loading ends with its last phase (%s)" % kind, same(got, end), w, "computed %s\nrequired %s" % (show(got, 9), show(end, 9)))
    got = pick(L.get(o, "start_time"), kind)
    c.ob("the loading starts at the start time (%s)" % kind, same(got, T0), w, show(got, 9))


def steps(c, L, o, kind):
    f = c.anchor(SL + "::get_next_time_step_size", 1)
    got = pick(L.call(o, f["q"], "k"), kind)
    if kind == "monotonic":
        want = div(TM, NM)
    else:
        cyc = land(lnot(lt(K, NR)), lt(K, add(NR, mul(num(4), NQ_, NC))))
        want = add(mul(cyc, div(PER, mul(num(4), NQ_))), mul(lnot(cyc), div(TR, NR)))
    c.ob("size of every time step (%s)" % kind, same(got, want) and agree(got, want), c.where(f), "computed %s\nrequired %s" % (show(got, 12)[:1500], show(want, 12)[:1500]))
    f = c.anchor(SL + "::skip_extrapolation", 1)
    got = pick(L.call(o, f["q"], "k"), kind)
    if kind == "monotonic":
        c.ob("monotonic loading is always extrapolated", got is ZERO, c.where(f), show(got, 9)[:600])
        return
    bad = agree(got, None, lambda k, nr, nq, nc: k == nr or k == nr + 4 * nq * nc or (nr < k < nr + 4 * nq * nc and (k - nr) % nq == 0 and (k - nr) // nq % 2 == 1))
    c.ob("no extrapolation over the start of cyclic loading and unloading and over the extrema of the cycles", bad is True, c.where(f),
         "wrong for (step, steps of the loading phase, steps per quarter cycle, cycles) = %s\n%s" % (bad, show(got, 9)[:800]))


class At(T.Interp):
    """interpretation with given integers for the step counts"""

    def __init__(self, seed, given):
        super().__init__(seed, False)
        self.given = given

    def atom(self, a):
        if a in self.given:
            return self.given[a]
        n = last(str(a.args[0])) if a.op == "call" else a.op
        if n in ("modf", "fmod") and a.op == "call":
            x = self.num(a.args[2])
            return x - int(x) if n == "modf" else x % self.num(a.args[3])
        if a.op in ("mod", "%"):
            return float(int(self.num(a.args[0])) % int(self.num(a.args[1])))
        if a.op in ("idiv", "intdiv"):
            return float(int(self.num(a.args[0])) // int(self.num(a.args[1])))
        return super().atom(a)


def agree(got, want, fn=None):
    """equality of the two normal forms for all small step counts, where integer brackets are decided"""
    for nr in range(1, 4):
        for nq in range(1, 4):
            for nc in range(0, 3):
                for k in range(0, nr + 4 * nq * nc + nr + 1):
                    g = {single_atom(x): float(v) for x, v in ((K, k), (NR, nr), (NQ_, nq), (NC, nc))}
                    a = At(7, g).num(got)
                    b = At(7, g).num(want) if fn is None else float(fn(k, nr, nq, nc))
                    if abs(a - b) > 1e-9:
                        return (k, nr, nq, nc) if fn else False
    return True


def strain(kind):
    """the prescribed shear strain"""
    if kind == "monotonic":
        return mul(TIME, MAX)
    start = add(T0, TR)
    unload = add(start, mul(NC, PER))
    mean, amp = div(add(MAX, MIN), num(2)), div(sub(MAX, MIN), num(2))
    a, z = lt(TIME, start), lt(TIME, unload)
    return ite(a, mul(mean, div(sub(TIME, T0), TR)),
               ite(z, add(mean, mul(amp, fn1("sin", mul(num(2), PI, sub(TIME, start), powr(PER, -1))))), mul(mean, sub(ONE, div(sub(TIME, unload), TR)))))


def load(c, L, o, kind, d, n, comp):
    h, u = S("strip_height"), S("uc")
    b = L.new(DC % d, o, "n_components", num(n), "strip_height", "dec", "uc", num(comp))
    f = c.anchor(DC % d + "::vector_value", 2)
    rv = L.ev.newroot("$rv%d" % L.n, mk("sym", "rv"))
    L.ev.call(f, b, [L.sym("p"), rv])
    v = strain(kind)
    v = div(mul(v, h), u)
    dec = atom(mk("b", mk("sym", "dec")))
    lab = " (%s, %d crystals, direction %d, dim %d)" % (kind, n, comp, d)
    for i in range(n * d + 3):
        got = pick(L.get(rv, i), kind)
        j, x = divmod(i, d)
        want = ZERO if x != comp or j >= n else v if j == 0 else mul(dec, v)
        if want is ZERO:
            c.ob("component %d is held%s" % (i, lab), got is ZERO, c.where(f), show(got, 8)[:500])
        else:
            c.ob("load on component %d%s" % (i, lab), same(got, want), c.where(f), "computed %s\nrequired %s" % (show(got, 9)[:900], show(want, 9)[:900]))
