"""Runs the obligations of one property and reports."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import load
import interp
import std
import kit
import callgraph
from terms import *


class Ctx:
    def __init__(self, pid, dumps, model):
        self.pid = pid
        self.dumps = dumps
        self.model = model
        self.progs = {}
        self.ips = {}
        self.graphs = {}
        self.obs = []
        self.counts = {"functions": 0, "segments": 0, "loop_heads": 0, "calls": 0}
        self.notes = []
        self.cfg = "A"

    # -------------------------------------------------- program access
    @property
    def P(self):
        p = self.progs.get(self.cfg)
        if p is None:
            p = self.progs[self.cfg] = load.Program(self.dumps[self.cfg], self.model)
        return p

    @property
    def ip(self):
        p = self.P
        i = self.ips.get(self.cfg)
        if i is None:
            i = self.ips[self.cfg] = interp.Interp(p, std.NAT, std.models())
        return i

    def roots(self, crate, name):
        c = self.P.crates.get(crate)
        if c is None:
            return []
        rs = [r for r in c.fns.get(name, []) if r["B"] is not None]
        return [r for r in rs if r["reach"]] or rs

    def root(self, crate, name):
        rs = self.roots(crate, name)
        if not rs:
            self.undecided(name, "function not found")
            return None
        return rs[0]

    def graph(self, root, name=None, quiet=False):
        if root is None:
            return None
        k = (self.cfg, root["B"].crate.name, root["B"].key)
        g = self.graphs.get(k)
        if g is None:
            g = self.graphs[k] = self.ip.analyse(root)
            self.counts["functions"] += 1
            self.counts["segments"] += len(g.segs)
            self.counts["loop_heads"] += len(g.nodes)
            self.counts["calls"] += sum(len(s.events) for s in g.segs)
        if g.status != "ok":
            if not quiet:
                self.undecided(name or root["d"].canon, "analysis stopped: " + g.status)
            return None
        return g

    def opaque_graph(self, root, pred, name=None, unless=None, erase=None):
        """graph of a function whose workspace callees satisfying pred(crate::module::name) are kept opaque,
        except those from which a function satisfying `unless` can be reached;
        erase(path) names arguments the result of an opaque callee is not made to depend on"""
        if root is None:
            return None
        ip = self.ip
        me = (root["B"].crate.name, root["B"].key)
        keep = ()
        if unless:
            last = {k for k in self.P.bodies if unless(interp.fn_path(k[1]))}
            keep = callgraph.of(self.P).reaching(lambda k: k in last) - last
        ip.opaque_bodies = {k for k in self.P.bodies if k != me and k not in keep and pred(interp.fn_path(k[1]))}
        e0 = ip.erase
        if erase:
            ip.erase = erase
        try:
            g = ip.analyse(root)
        finally:
            ip.opaque_bodies = frozenset()
            ip.erase = e0
        self.counts["functions"] += 1
        self.counts["segments"] += len(g.segs)
        self.counts["loop_heads"] += len(g.nodes)
        self.counts["calls"] += sum(len(s.events) for s in g.segs)
        if g.status != "ok":
            self.undecided(name or root["d"].canon, "analysis stopped: " + g.status)
            return None
        return g

    # -------------------------------------------------- obligations
    def ob(self, name, okay, detail="", where="", rule=""):
        """okay: True discharged, False violated, None undecided"""
        self.obs.append({"name": name, "verdict": okay, "detail": detail, "where": where, "rule": rule})
        return okay

    def violated(self):
        return any(o["verdict"] is False for o in self.obs)

    def undecided(self, name, detail):
        self.ob(name, None, detail)

    def where(self, root):
        if root is None:
            return ""
        return "%s (%s)" % (root["d"].canon, root["B"].loc)

    def sim(self, name, root, spec0, evmap, retmap, rule="", inv=None, g=None, panic=None):
        """obligation: the function behaves as the specification"""
        g = g or self.graph(root)
        if g is None:
            return None
        try:
            s = kit.Sim(self, g, spec0, evmap, retmap, inv, panic or kit.PANIC)
            w = s.run()
        except (interp.Limit, interp.Unsupported) as e:
            self.ob(name, None, "analysis stopped: %s" % e, self.where(root), rule)
            return None
        if w is None:
            self.ob(name, True, "%d paths" % len(g.segs), self.where(root), rule)
            return True
        seg, msg = w
        self.ob(name, False, msg + "; on the path where " + self.facts(seg), self.where(root), rule)
        return False

    def sim_any(self, name, root, specs, evmap, retmap, rule="", g=None, panic=None):
        """obligation: the function behaves as one of several equivalent formulations of the specification"""
        g = g or self.graph(root)
        if g is None:
            return None
        first = None
        sims = {}
        if self.violated() and time.process_time() > 150:
            self.ob(name, None, "not analysed: the verdict is known", self.where(root), rule)
            return None
        for modes in (kit.Sim.MODES[:2], kit.Sim.MODES[2:]):
            if first and first[0] and (self.violated() or time.process_time() > 300):
                break
            for spec0 in specs:
                try:
                    s = sims.get(spec0)
                    if s is None:
                        s = sims[spec0] = kit.Sim(self, g, spec0, evmap, retmap, None, panic or kit.PANIC)
                    w = s.run(modes)
                except (interp.Limit, interp.Unsupported) as e:
                    w = (None, "analysis stopped: %s" % e)
                if w is None:
                    self.ob(name, True, "%d paths" % len(g.segs), self.where(root), rule)
                    return True
                if first is None or first[0] is None:
                    first = w
        seg, msg = first
        if seg is None:
            self.ob(name, None, msg, self.where(root), rule)
            return None
        self.ob(name, False, msg + "; on the path where " + self.facts(seg), self.where(root), rule)
        return False

    def final(self, seg, ptr):
        """value behind the pointer argument when the path ends"""
        return self.ip.root_read(seg.st, mk("der", ptr))

    def init(self, ptr):
        return mk("*", ptr)

    def fn(self, name, root, f, obs=None, ev=None, rule="", inv=None, panic=None):
        """obligation: on every path the observation equals what f(q, *args) says.
        obs(seg) defaults to the returned value; ev(event) selects observed calls."""
        g = self.graph(root)
        if g is None:
            return None
        sn = "%s/%s/%d" % (self.pid, name, len(kit.SPEC))
        kit.SPEC[sn] = lambda q, *a: f(q, *g.args)
        return self.sim(name, root, kit.sp(sn), ev or (lambda e: None), obs or (lambda s: s.val), rule, inv, panic=panic)

    def each(self, name, root, pred, rule="", kinds=("return",), g=None):
        """obligation: pred(seg, env) is None (fine) or a complaint, for every ending path"""
        g = g or self.graph(root)
        if g is None:
            return None
        n = 0
        for s in g.segs:
            if s.kind not in kinds:
                continue
            env = kit.Env(self.ip, s.st)
            if not env.feasible():
                continue
            n += 1
            m = pred(s, env)
            if m:
                self.ob(name, False, m + "; on the path where " + self.facts(s), self.where(root), rule)
                return False
        self.ob(name, True, "%d paths" % n, self.where(root), rule)
        return True

    def adt(self, name):
        return self.P.adts.get(name)

    def fields(self, name, vi=0):
        a = self.P.adts.get(name)
        return a["variants"][vi][2] if a and a["variants"] else []

    def impls(self, crate, tyname):
        return [i for i in self.P.crates[crate].impls if i["self_ty"].k == "adt" and i["self_ty"].adt == tyname]

    def api(self, crate, derived=False):
        """functions a client can call (reachable from outside, or trait methods of this crate's impls)"""
        out = []
        for r in self.P.crates[crate].roots:
            if r["B"] is None:
                continue
            d = r["d"]
            if d.derived and not derived:
                continue
            if r["reach"] or d.trait:
                out.append(r)
        return out

    def facts(self, seg, n=8):
        out = []
        for f, b in list(seg.facts.items())[:n]:
            out.append(("" if b else "not ") + show(f, 6))
        for f, b in list(seg.isd.items())[:n]:
            out.append("%s is variant %s" % (show(f, 5), b))
        return ", ".join(out) or "always"


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    dumps = {"A": os.environ["MIRX_A"], "B": os.environ["MIRX_B"], "C": os.environ.get("MIRX_C", "")}
    t0 = float(os.environ.get("CHECK_T0", time.time()))
    ctx = Ctx(pid, dumps, os.environ["MIRX_M"])
    ctx.tier = tier
    mod, fn = INDEX(pid)
    info = None
    try:
        info = fn(ctx)
    except (interp.Limit, interp.Unsupported) as e:
        ctx.undecided("analysis", "stopped: %s" % e)
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"):
            raise
        tb = traceback.format_exc().strip().split("\n")
        ctx.undecided("analysis", "internal error: %s at %s" % (e, tb[-2].strip() if len(tb) > 1 else ""))
    report(ctx, tier, t0, info or {})


def INDEX(pid):
    import props
    return props.find(pid)


def known():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                out.append(json.loads(l))
    return out


def report(ctx, tier, t0, info):
    bad = [o for o in ctx.obs if o["verdict"] is False]
    und = [o for o in ctx.obs if o["verdict"] is None]
    good = [o for o in ctx.obs if o["verdict"] is True]
    kf = [k for k in known() if k.get("property") == ctx.pid and k.get("status") == "known"]
    new = []
    for o in bad:
        k = [x for x in kf if x["obligation"] == o["name"]]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (ctx.pid, k[0]["what"]))
            o["known"] = True
        else:
            new.append(o)
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    rules = sorted({o["rule"] for o in ctx.obs if o["rule"]})
    expl = ("%d obligations over %d functions (%d path segments, %d loop heads, %d calls): %d discharged, %d violated, %d undecided. Rules: %s"
            % (len(ctx.obs), ctx.counts["functions"], ctx.counts["segments"], ctx.counts["loop_heads"], ctx.counts["calls"], len(good), len(bad), len(und), "; ".join(rules)))
    ev = {
        "property": ctx.pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "proof",
        "coverage": {
            "obligations": len(ctx.obs), "discharged": len(good),
            "checker_cmd": "bin/check %s %s" % (ctx.pid, tier),
            "trusted_base": ["rustc nightly MIR of the current tree (driver/main.rs)", "analyzer/interp.py, kit.py: path-sensitive value-numbering dataflow and simulation inference",
                             "analyzer/std.py, model/mstd.rs: semantics given to the standard library and external crates"],
            "explanation": expl, "analysed": ctx.counts, "undecided": [{k: o[k] for k in ("name", "detail")} for o in und][:50],
            "obligation_list": [{"name": o["name"], "where": o["where"], "verdict": {True: "discharged", False: "violated", None: "undecided"}[o["verdict"]],
                                 "detail": o["detail"][:300]} for o in ctx.obs][:400],
        },
        "wall_s": round(time.time() - t0, 2),
    }
    ev.update(info.get("evidence", {}))
    with open(os.path.join(edir, ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n in ctx.notes:
        print("note:", n)
    print(expl)
    for o in und:
        print("undecided: %s: %s" % (o["name"], o["detail"][:300]))
    if new:
        rp = os.path.join(edir, ctx.pid + ".violation.txt")
        with open(rp, "w") as f:
            for o in new:
                f.write("property %s\nobligation %s\nrule %s\nat %s\n%s\n\n" % (ctx.pid, o["name"], o["rule"], o["where"], o["detail"]))
        for o in new[:10]:
            print("violated: %s at %s: %s" % (o["name"], o["where"], o["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    import check as _c
    _c.main()
