"""Model of dealii::WorkStream::run: worker and copier are evaluated once for a
symbolic cell, in the state of the calling function."""
from terms import *
from vg import Loc, Lam
import vg

RUN = "dealii::WorkStream::run"


class Site:
    """one call of WorkStream::run"""


def copied(ev, val, t, line):
    """what WorkStream hands to a worker: a copy of the object it was given"""
    cls = vg.strip_cv(t)
    name = cls.split("<")[0].rsplit("::", 1)[-1]
    fs = [f for f in ev.prog.by_q.get(cls + "::" + name, []) if f["kind"] == "ctor" and len(f["params"]) == 1 and name in f["params"][0]["t"]]
    if len(fs) != 1:
        return val                       # implicit: memberwise
    src = ev.newroot("%%sample%s" % line, val)
    dst = ev.newroot("%%copy%s" % line, vg.UNDEF)
    ev.call(fs[0], dst, [src], line)
    return ev.read(dst, ("obj", ""))


def make_hook(sites, before=None, after_worker=None, bind=False):
    def hook(ev, e):
        A = e["a"]
        s = Site()
        s.line = e.get("l", 0)
        s.guard = ev.full()
        vals = [ev.ev(a) for a in A]
        lams = [k for k, v in enumerate(vals) if isinstance(v, Lam)]
        if len(lams) != 2 or lams[1] != lams[0] + 1:
            raise vg.Unsupported("WorkStream::run without worker and copier lambdas")
        k = lams[0]
        s.range = tuple(ev.val(v, a.get("t", "")) for v, a in zip(vals[:k], A[:k]))
        s.scratch = ev.val(vals[k + 2], A[k + 2].get("t", ""))
        s.copy = ev.val(vals[k + 3], A[k + 3].get("t", ""))
        if before:
            before(ev, s)
        own = {}
        if bind:
            own = {"scratch": copied(ev, s.scratch, A[k + 2].get("t", ""), s.line), "data": copied(ev, s.copy, A[k + 3].get("t", ""), s.line)}
        s.pre = {r: len(l) for r, l in ev.logs.items()}
        cell, scratch, data = (ev.newroot("$" + n, own.get(n, mk("sym", n))) for n in ("cell", "scratch", "data"))
        n0, m0 = len(ev.events), len(ev.mutations)
        ev.call_lam(vals[k], [cell, scratch, data], s.line)
        s.worker_events = ev.events[n0:]
        s.worker_mutations = ev.mutations[m0:]
        if after_worker:
            after_worker(ev, s)
        s.worker_stores = changes(ev, s.pre)
        mid = {r: len(l) for r, l in ev.logs.items()}
        data2 = ev.newroot("$copied", ev.read(data, ("obj", "")) if bind is True else mk("sym", "copied"))
        n1 = len(ev.events)
        ev.call_lam(vals[k + 1], [data2], s.line)
        s.copier_events = ev.events[n1:]
        s.copier_stores = changes(ev, mid)
        s.mid = mid
        s.at = len(ev.events)
        s.loop = len(ev.frames[-1].loops)
        sites.append(s)
        return None
    return hook


def changes(ev, since):
    """stores to objects that outlive the call"""
    out = []
    for r, l in ev.logs.items():
        if r in ("$scratch", "$data", "$cell", "$copied") or str(r).startswith("%"):
            continue
        out += [(r, st) for st in l[since.get(r, 0):]]
    return out
