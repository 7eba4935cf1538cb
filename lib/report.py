"""Common harness of the checks: obligations, violations, evidence, exit codes."""
import json
import os
import re
import sys
import time
import traceback

import frontend
from frontend import AnalysisBroken, VERIF
import vg
import terms as T


class Missing(Exception):
    def __init__(self, check, what):
        Exception.__init__(self, what)
        self.check, self.what = check, what


class Unused(Exception):
    def __init__(self, check, q):
        Exception.__init__(self, q)
        self.check, self.q = check, q


class Check:
    last = None

    def __init__(self, pid, technique, rule, units=None):
        Check.last = self
        self.pid = pid
        self.technique = technique
        self.rule = rule
        self.units = units
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.obs = []              # (name, ok, where)
        self.viol = []             # dicts
        self.functions = set()
        self.stats = {}
        self.assumptions = []
        self.prog = None

    # ---- program
    def load(self, units=None):
        self.prog = frontend.load(only=units or self.units)
        for q, es in self.prog.enums.items():
            T.ENUM_DOMAIN[q] = list(es)
        return self.prog

    # ---- results
    def ob(self, name, ok, where="", detail="", key=None):
        """one obligation; a failed one is a violation"""
        self.obs.append((name, bool(ok), where))
        if not ok:
            self.violation(name, where, detail, key)
        return ok

    def violation(self, name, where, detail="", key=None):
        k = key or ("%s @ %s" % (name, where))
        if any(v["key"] == k for v in self.viol):
            return
        self.viol.append({"key": k, "obligation": name, "where": where, "detail": detail})

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def need(self, cond, what):
        """a precondition of the analysis itself"""
        if not cond:
            raise AnalysisBroken(what)

    def must(self, cond, what):
        """a construct the property requires: its absence is a violation, and nothing can be said about the rest"""
        if not cond:
            raise Missing(self, what)

    def anchor(self, q, n=None, pred=None):
        if not self.prog.by_q.get(q) and self.unused(q):
            raise Unused(self, q)
        f = self.prog.one(q, n, pred)
        self.functions.add(f["q"])
        self.here = f
        return f

    def unused(self, q):
        """a member function which is defined in the sources but, being a
        template's, does not exist in the program because nothing calls it"""
        cls, name = q.rsplit("::", 1)
        if not cls.endswith(">") or not any(x.startswith(cls + "::") for x in self.prog.by_q):
            return None
        pat = re.compile(r"\b%s\s*<\s*\w+\s*>\s*::\s*%s\s*\(" % (re.escape(vg.strip_targs(cls).rsplit("::", 1)[1]), re.escape(name)))
        for u in self.prog.units:
            path = os.path.join(self.prog.root, u)
            try:
                txt = open(path, errors="replace").read()
            except OSError:
                continue
            m = pat.search(txt)
            if m:
                return "%s:%d" % (u, txt.count("\n", 0, m.start()) + 1)
        return None

    def where(self, fn, line=None):
        return "%s:%s %s" % (fn.get("relfile"), line or fn.get("line"), vg.strip_targs(fn["q"]))

    # ---- value graph helpers
    def vg(self, fn, **kw):
        ev, r = vg.run(self.prog, fn, **kw)
        self.functions.add(fn["q"])
        for q in ev.covered:
            self.functions.add(q[0] if isinstance(q, tuple) else q)
        return ev, r

    def same(self, name, got, want, fn, line=None, key=None):
        """obligation: two terms denote the same value for all inputs"""
        ok = T.equal(got, want, 40) and T.equal_on_boundaries(got, want)
        d = "" if ok else "computed: %s\n  required: %s" % (T.show(got)[:1500], T.show(want)[:1500])
        return self.ob(name, ok, self.where(fn, line), d, key)

    # ---- ending
    def known(self):
        out = {}
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith("known:"):
                    parts = l[len("known:"):].strip().split(" | ")
                    head = parts[0].strip()
                    if head == "property=" + self.pid and len(parts) >= 2:
                        out[parts[1].strip()] = parts[2].strip() if len(parts) > 2 else ""
        return out

    def fresh(self):
        known = self.known()
        return any(v["key"] not in known for v in self.viol)

    def finish(self, explanation, samples=None):
        n, ok = len(self.obs), sum(1 for o in self.obs if o[1])
        if n == 0:
            raise AnalysisBroken("no obligation was generated")
        known = self.known()
        new = [v for v in self.viol if v["key"] not in known]
        old = [v for v in self.viol if v["key"] in known]
        ev = {
            "property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
            "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": explanation,
                "technique": self.technique,
                "rule": self.rule,
                "obligations": n, "discharged": ok,
                "functions_analysed": sorted(vg.strip_targs(f) + inst(f) for f in self.functions),
                "n_functions": len(self.functions),
                "units": self.prog.units if self.prog else [],
                "samples": samples or [("%s: %s" % (w, nm)) for nm, o, w in self.obs[:: max(1, n // 12)]][:16],
                "counts": self.stats,
                "known_findings": [v["key"] for v in old],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        print("%s: %d obligations, %d discharged, %d functions, %.1f s" % (self.pid, n, ok, len(self.functions), ev["wall_s"]))
        for v in old:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, v["key"]))
        if new:
            rp = os.path.join(VERIF, "build", "violation-%s.txt" % self.pid)
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            with open(rp, "w") as f:
                for v in new:
                    f.write("property %s\nobligation: %s\nat: %s\n%s\nkey: %s\n\n" % (self.pid, v["obligation"], v["where"], v["detail"], v["key"]))
            for v in new[:5]:
                print("  %s\n    at %s\n    %s" % (v["obligation"], v["where"], "\n    ".join(l[:400] for l in v["detail"].split("\n"))))
            if len(new) > 5:
                print("  ... and %d more in the replay file" % (len(new) - 5))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0


def inst(q):
    import re
    m = re.search(r"<(\d)>", q)
    return "<%s>" % m.group(1) if m else ""


def main(fn):
    sys.setrecursionlimit(60000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [3]

    def go():
        try:
            rc[0] = fn()
        except Unused as e:
            e.check.ob("%s is called" % vg.strip_targs(e.q), False, e.check.unused(e.q), "no call instantiates it: it is not part of the program")
            rc[0] = e.check.finish("The analysis ended at a function the property needs and no code calls.")
        except Missing as e:
            f = getattr(e.check, "here", None)
            e.check.ob("required: %s" % e.what, False, e.check.where(f) if f else "whole program", "not found in the program")
            rc[0] = e.check.finish("The analysis ended where a construct the property requires was not found.")
        except AnalysisBroken as e:
            print("ANALYSIS BROKEN: %s" % e)
            rc[0] = 2
        except vg.Unsupported as e:
            print("ANALYSIS BROKEN: unsupported construct: %s" % e)
            traceback.print_exc()
            rc[0] = 2
        except Exception:
            traceback.print_exc()
            rc[0] = 3
        if rc[0] in (2, 3) and Check.last is not None and Check.last.fresh():
            # what was decided before the analysis ended stands
            rc[0] = Check.last.finish("The analysis ended early; the violations reported were decided before.")
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
