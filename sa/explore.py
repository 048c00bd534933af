"""Trace partitioning.

A scenario is a host function that drives the abstract interpreter through one
entry point of the repository.  Every abstract condition splits the trace set;
the explorer visits every partition.  Whether a cell of the partition is empty
is judged with a sign table (value numbers already decided on this trace) and a
pool of witness valuations of the *atoms*; cells for which no valuation is known
are searched for (`hunt`) before being counted as empty.  Nothing of the
repository is executed: valuations are only ever substituted into value numbers.
"""
from __future__ import annotations

import random

from mpmath import mp, mpf

from . import terms as tm
from .interp import AbsRaise, Interp, Stop, Unmodelled
from .terms import T, UNDEF, Point


class Finding:
    def __init__(self, rule, site, detail, path, witness, key=None):
        self.rule, self.site, self.detail, self.path, self.witness = rule, site, detail, path, witness
        self.key = key

    def as_dict(self):
        return {
            "rule": self.rule,
            "construct": "%s: %s (line %s)" % self.site if self.site else None,
            "detail": self.detail,
            "path": self.path,
            "witness": self.witness,
            "key": self.key,
        }


class Loop:
    """iteration bookkeeping with widening of loop counters"""

    def __init__(self, run, interp, fr, lid, widen_at, depth):
        self.run, self.I, self.fr, self.lid = run, interp, fr, lid
        self.widen_at, self.depth = widen_at, depth
        self.cursor = None
        self.snaps = []
        self.pos0 = run.pos

    def ints(self):
        d = {("v", k): v for k, v in self.fr.loc.items() if isinstance(v, int) and not isinstance(v, bool)}
        if isinstance(self.cursor, int):
            d[("c", "")] = self.cursor
        s = self.fr.loc.get("self")
        if s is not None and hasattr(s, "d"):
            for k, v in s.d.items():
                if isinstance(v, int) and not isinstance(v, bool):
                    d[("s", k)] = v
        return d

    def head(self, n):
        if self.widen_at is None:
            # passes that decide something split the analysis: few; others are followed further
            if n > 20000 or n > 400 and self.run.pos - self.pos0 > n // 2:
                raise Unmodelled("loop bound exceeded at %s" % (self.I.site(),))
            return
        if n <= self.widen_at:
            self.snaps.append(self.ints())
        if n == self.widen_at:
            k = tm.atom("iter%s" % self.lid, "i")
            replaced = 0
            for key, v in self.snaps[-1].items():
                vals = [s.get(key) for s in self.snaps]
                if any(x is None for x in vals):
                    continue
                st = vals[1] - vals[0]
                if st == 0 or any(vals[i + 1] - vals[i] != st for i in range(len(vals) - 1)):
                    continue
                new = tm.add(tm.const(vals[0]), tm.mul(tm.const(st), k))
                replaced += 1
                if key[0] == "v":
                    self.fr.loc[key[1]] = new
                elif key[0] == "c":
                    self.cursor = new
                else:
                    self.fr.loc["self"].d[key[1]] = new
            if not replaced:
                raise Unmodelled("no counter to widen at %s" % (self.I.site(),))
            self.run.assume(tm.le(tm.const(self.widen_at), k))
            if self.run.ex.widen_inv is not None:
                self.run.assume(self.run.ex.widen_inv(k))
            self.run.widened = True
        if n > self.widen_at + self.depth:
            raise Stop("loop body analysed up to the widened head")


class Run:
    """one partition being traced"""

    def __init__(self, ex, script):
        self.ex, self.script, self.pos = ex, script, 0
        self.alive = list(ex.pool)
        self.allowed = {}
        self.cons = []
        self.path = []
        self.nloops = 0
        self.loop_widen = None
        self.loop_depth = 1
        self.widened = False
        self.interp = None
        self.enriched = False

    # ---------------------------------------------------------------- splitting
    def fork(self, outcomes, label, site):
        """outcomes: list of keys; returns the one to follow"""
        if self.pos < len(self.script):
            o = self.script[self.pos]
        else:
            o = outcomes[0]
            for alt in outcomes[1:]:
                self.ex.push(self.script + [alt])
            self.script = self.script + [o]
        self.pos += 1
        if len(self.script) > self.ex.max_depth:
            raise Unmodelled("decision depth bound exceeded at %s" % (site,))
        return o

    def choose(self, options, label):
        """outcome of an opaque collaborator"""
        o = self.fork(list(range(len(options))), label, None)
        self.path.append("%s := %s" % (label, options[o]))
        return options[o]

    def assume(self, cond):
        self.alive = [p for p in self.alive if p.ev(cond) is True]
        self.cons.append((cond, True))
        want = True
        while cond.op == "not":
            cond, want = cond.args[0], not want
        if cond.op in ("lt", "eq"):
            key, sgn, _ = self.signkey(cond)
            al = self.allowed.get(key, (-1, 0, 1))
            self.allowed[key] = tuple(s for s in al if (s * sgn < 0 if cond.op == "lt" else s == 0) == want)

    def signkey(self, cond):
        d = tm.sub(cond.args[0], cond.args[1])
        f = tm.fp(d)
        fn = tm.fp(tm.neg(d))
        return ((f, 1) if repr(f) >= repr(fn) else (fn, -1)) + (d,)

    def decide(self, cond, site, interp=None):
        op = cond.op
        if cond is tm.TRUE:
            return True
        if cond is tm.FALSE:
            return False
        if op == "not":
            return not self.decide(cond.args[0], site)
        if op == "and":
            return self.decide(cond.args[0], site) and self.decide(cond.args[1], site)
        if op == "ite":
            return self.decide(cond.args[1] if self.decide(cond.args[0], site) else cond.args[2], site)
        if op == "batom":
            key = ("b", cond.id)
            if key in self.allowed:
                return self.allowed[key]
            o = self.fork([True, False], str(cond), site)
            self.allowed[key] = o
            self.note(cond, o, site)
            return o
        if op not in ("lt", "eq"):
            raise Unmodelled("condition %s" % op)
        a, b = cond.args
        d = tm.sub(a, b)
        if d.op == "const":
            v = d.args[0]
            return v < 0 if op == "lt" else v == 0
        key, sgn, d = self.signkey(cond)
        al = self.allowed.get(key, (-1, 0, 1))
        yes = tuple(s for s in al if (s * sgn < 0 if op == "lt" else s == 0))
        no = tuple(s for s in al if s not in yes)
        if not yes:
            return False
        if not no:
            return True
        if self.pos < len(self.script):
            o = self.fork(None, None, site)
        else:
            if self.alive:
                self.alive += self.ex.edge(self, cond, d)
            py = [p for p in self.alive if p.ev(cond) is True]
            pn = [p for p in self.alive if p.ev(cond) is False]
            pu = [p for p in self.alive if p.ev(cond) is UNDEF]
            outs = []
            if not py and self.alive:
                py = self.ex.hunt(self, cond, True, d)
            if not pn and self.alive:
                pn = self.ex.hunt(self, cond, False, d)
            if py:
                outs.append(True)
            if pn:
                outs.append(False)
            if pu:
                outs.append("undef")
            if not outs:
                raise Stop("empty partition")
            o = self.fork(outs, show(cond), site)
        self.ex.branch(site, o)
        if o == "undef":
            self.alive = [p for p in self.all_pool() if p.ev(cond) is UNDEF]
            self.cons.append((cond, UNDEF))
            self.path.append("%s:%s: %s is undefined" % (site[0], site[2], tm.show(cond, 4)))
            raise self.interp.exc("ArithmeticError", "undefined operation decides %s" % tm.show(cond, 5))
        self.allowed[key] = yes if o else no
        self.cons.append((cond, o))
        self.alive = [p for p in self.all_pool() if p.ev(cond) is o]
        self.note(cond, o, site)
        return o

    def watch(self, cond):
        """a condition that ends up inside a value number: no split, but witnesses
        on both sides of its boundary"""
        st = [cond]
        while st:
            c = st.pop()
            if c.op in ("not", "and"):
                st.extend(c.args)
            elif c.op in ("lt", "eq") and self.alive and self.pos >= len(self.script):
                d = tm.sub(*c.args)
                if d.op != "const":
                    self.alive += self.ex.edge(self, c, d)

    def all_pool(self):
        # points hunted after this partition started also count
        n = len(self.ex.pool)
        if getattr(self, "_seen", None) is None:
            self._seen = len(self.alive)
            self._n = n
        if n != self._n:
            extra = [p for p in self.ex.pool[self._n:] if all(p.ev(c) is o for c, o in self.cons[:-1])]
            self._n = n
            have = {id(p) for p in self.alive}
            self.alive += [p for p in extra if id(p) not in have]
        return self.alive

    def note(self, cond, o, site):
        self.path.append("%s:%s: %s%s" % (site[0], site[2], "" if o else "not ", tm.show(cond, 4)))

    def concretize(self, v, site):
        """case split of an abstract integer over the values it can take"""
        if self.pos < len(self.script):
            o = self.fork(None, None, site)
        else:
            vals = sorted({int(x) for x in (p.ev(v) for p in self.alive) if x is not UNDEF})
            if not vals:
                raise Stop("empty partition")
            if len(vals) > 40:
                raise Unmodelled("abstract integer with many values at %s" % (site,))
            o = self.fork(vals, tm.show(v, 3), site)
        c = tm.eq(v, tm.const(o))
        self.cons.append((c, True))
        self.alive = [p for p in self.alive if p.ev(c) is True]
        self.path.append("%s:%s: %s == %s" % (site[0], site[2], tm.show(v, 3), o))
        return o

    def loop_enter(self, interp, st, fr):
        self.nloops += 1
        return Loop(self, interp, fr, self.nloops, self.loop_widen, self.loop_depth)

    # ---------------------------------------------------------------- leaf obligations
    def points(self, want=6):
        """witness valuations of this partition (perturbed to be generic)"""
        if not self.enriched:
            self.enriched = True
            self.all_pool()
            if self.alive and len(self.alive) < want:
                self.alive += self.ex.perturb(self, want - len(self.alive))
        return self.alive

    def fail(self, rule, detail, point=None, site=None, key=None):
        I = self.interp
        if key is not None and any(f.key == key for f in self.ex.findings):
            return                      # one report per listed finding; keep exploring
        if site is None:
            site = I.exit_sites[-1] if I and I.exit_sites else ("?", "?", 0)
        w = None
        if point is not None:
            w = {k: mp.nstr(v, 12) if isinstance(v, mpf) else str(v) for k, v in sorted(point.vals.items())
                 if k in self.ex.atoms_of_interest or not self.ex.atoms_of_interest}
        self.ex.findings.append(Finding(rule, site, detail, list(self.path), w, key))

    def obligation(self, rule, ok, detail="", point=None, site=None, key=None):
        self.ex.obligations += 1
        if not ok:
            self.fail(rule, detail() if callable(detail) else detail, point, site, key)
        return ok

    def each_point(self, rule, fn, site=None, key=None):
        """fn(point) -> None if the obligation holds there, else a description"""
        for p in self.points():
            self.ex.obligations += 1
            r = fn(p)
            if r:
                # a difference counts only if it survives twice the precision and
                # the valuation still lies in this partition there
                with mp.workdps(160):
                    q = Point(p.name, p.vals)
                    r2 = fn(q)
                    ok = r2 and all(q.ev(c) is o for c, o in self.cons if c.op == "lt" or c.op == "not")
                if not ok:
                    continue
                self.fail(rule, r, p, site, key)
                return False
        return True


def show(c):
    return tm.show(c, 5)


class Explorer:
    def __init__(self, src, name, scenario, sampler=None, npoints=60, seed=1, valid=None, max_partitions=20000,
                 max_depth=400, constants=(), widen=None, depth=1, hunting=True, max_findings=12, widen_inv=None,
                 max_edges=40):
        self.src, self.name, self.scenario = src, name, scenario
        self.rng = random.Random("%s/%s" % (seed, name))
        self.valid = valid or (lambda p: True)
        self.sampler = sampler
        self.pool = []
        self.atoms_of_interest = set()
        self.constants = [mpf(c.numerator) / c.denominator if hasattr(c, "numerator") else mpf(c) for c in constants]
        self.work = [[]]
        self.findings = []
        self.obligations = 0
        self.partitions = 0
        self.stopped = 0
        self.empty = 0
        self.truncated = False
        self.max_partitions, self.max_depth = max_partitions, max_depth
        self.sites = {}
        self.entered = set()
        self.calls = 0
        self.hunt_fail = {}
        self.edge_done = set()
        self.max_edges = max_edges
        self.hunts = 0
        self.hunting = hunting
        self.widen, self.depth = widen, depth
        self.widen_inv = widen_inv
        self.max_findings = max_findings
        self.nclone = 0
        self.int_atoms = set()
        if sampler is not None:
            i = tries = 0
            while i < npoints and tries < npoints * 60:
                tries += 1
                vals = sampler(self.rng, i)
                if vals is None:
                    continue
                p = Point("%s#%d" % (name, i), {k: mpf(v) for k, v in vals.items()})
                self.atoms_of_interest.update(vals)
                if self.valid(p):
                    self.pool.append(p)
                    i += 1
        else:
            self.pool = [Point("%s#%d" % (name, i)) for i in range(8)]

    def push(self, script):
        self.work.append(script)

    def branch(self, site, o):
        self.sites.setdefault(site, set()).add(o)

    # ---------------------------------------------------------------- witness search
    def clone(self, p, /, **mods):
        self.nclone += 1
        vals = dict(p.vals)
        vals.update(mods)
        return Point(p.name, vals)

    def sat(self, run, p, cond=None, want=None):
        if not self.valid(p):
            return False
        if cond is not None and p.ev(cond) is not want:
            return False
        return all(p.ev(c) is o for c, o in run.cons)

    def edge(self, run, cond, d):
        """witnesses on and right beside the boundary of a condition met for the
        first time, inside the present partition: thresholds that are slightly
        off (or compared the wrong way) only show there"""
        key = tm.fp(d)
        if not self.hunting or key in self.edge_done or len(self.edge_done) >= self.max_edges:
            return []
        self.edge_done.add(key)
        found = []
        atoms = [a for a in atoms_of(d) if a in self.atoms_of_interest and a not in self.int_atoms]
        k = len(run.alive)
        for p in (run.alive if k <= 4 else [run.alive[i * (k - 1) // 3] for i in range(4)]):
            got = 0
            for a in atoms:
                scr = tm.Screen(d, p, a)
                if not scr.ok or scr.const:
                    continue
                cur = p.vals[a]
                f = lambda v: self.clone(p, **{a: v}).ev(d)
                grid = [cur * mpf(10) ** k for k in (-6, -3, -2, -1, 0, 1, 2, 3, 6)]
                grid += [cur * k for k in (mpf("0.5"), mpf("0.9"), mpf("1.1"), 2)]
                grid += [-g for g in grid] + [mpf(0)]
                grid += [x for c in self.constants for x in (c, -c)][:30]
                grid = sorted({g for g in grid if abs(g) < mpf(10) ** 150})
                vals = [(g, v) for g, v in ((g, scr(g)) for g in grid) if v is not None]
                brs = [(abs((g1 + g2) / 2 - cur), g1, v1, g2, v2) for (g1, v1), (g2, v2) in zip(vals, vals[1:]) if v1 * v2 < 0]
                brs += [(abs(g - cur), g, None, g, None) for g, v in vals if v == 0]
                for _, g1, v1, g2, v2 in sorted(brs, key=lambda x: x[0])[:2]:
                    if v1 is None:
                        r = g1 if f(g1) == 0 else None
                    else:
                        r = self.refine(run, p, a, f, scr, g1, v1, g2, v2)
                    if r is None:
                        continue
                    e = (abs(r) or 1) * mpf(10) ** -9
                    for g in (r, r + e, r - e):
                        q = self.clone(p, **{a: g})
                        if self.sat(run, q):
                            found.append(q)
                            got += 1
                    if got >= 3:
                        break
                if got >= 3:
                    break
        self.pool += found
        return found

    def hunt(self, run, cond, want, d):
        if not self.hunting:
            return []
        key = (tm.fp(d), cond.op, want)
        if self.hunt_fail.get(key, 0) >= 3:
            return []
        self.hunts += 1
        found = []
        atoms = [a for a in atoms_of(d) if a in self.atoms_of_interest]
        base = run.alive[:4]
        budget = 400
        isint = self.int_atoms
        for p in base:
            for a in atoms:
                cur = p.vals[a]
                # roots and sign changes of d along this atom: screened in double
                # precision, confirmed at full precision
                f = lambda v: self.clone(p, **{a: v}).ev(d)
                grid = [cur * mpf(10) ** k for k in (-12, -9, -6, -4, -3, -2, -1, 0, 1, 2, 3, 4, 6, 9, 12)]
                grid += [-g for g in grid] + [mpf(0)]
                grid += [x for c in self.constants for x in (c, -c, c * mpf("1.0001"), c * mpf("0.9999"))][:60]
                grid += [v for k, v in p.vals.items() if k != a] + [-v for k, v in p.vals.items() if k != a]
                grid += [cur * k for k in (mpf("0.5"), mpf("0.9"), mpf("1.1"), 2)]
                if a in isint:
                    grid = [mp.nint(g) + o for g in grid for o in (-1, 0, 1)]
                grid = sorted({g for g in grid if abs(g) < mpf(10) ** 150})
                scr = tm.Screen(d, p, a)
                if scr.ok:
                    if scr.const:
                        continue
                    h = scr
                else:
                    if budget < 0:
                        continue
                    budget -= len(grid)

                    def h(g):
                        v = f(g)
                        return None if v is UNDEF else v

                vals = [(g, v) for g, v in ((g, h(g)) for g in grid) if v is not None]
                cands = []
                for g, v in vals:
                    if (cond.op == "lt" and (v < 0) == want) or (cond.op == "eq" and (v == 0) == want):
                        cands.append(g)
                cands = cands[:: max(1, len(cands) // 12)]
                if a not in isint and (cond.op == "eq" or not cands):
                    brs = [(abs((g1 + g2) / 2 - cur), g1, v1, g2, v2)
                           for (g1, v1), (g2, v2) in zip(vals, vals[1:]) if v1 * v2 < 0]
                    for _, g1, v1, g2, v2 in sorted(brs, key=lambda x: x[0])[:5]:
                        r = self.refine(run, p, a, f, h if scr.ok else None, g1, v1, g2, v2)
                        if r is not None:
                            e = mpf(10) ** -12 * (abs(r) or 1)
                            cands += [r, r + e, r - e, r + e * 1000, r - e * 1000]
                for g in cands:
                    q = self.clone(p, **{a: g})
                    if self.sat(run, q, cond, want):
                        found.append(q)
                        if len(found) >= 3:
                            self.pool += found
                            return found
        if found:
            self.pool += found
            return found
        self.hunt_fail[key] = self.hunt_fail.get(key, 0) + 1
        self.empty += 1
        return []

    def refine(self, run, p, a, f, h, g1, v1, g2, v2):
        """root of d between g1 and g2 along atom a, if the rest of the partition
        still holds there"""
        if h is None:
            return root(f, g1, v1, g2, v2)
        lo, hi = float(g1), float(g2)
        for _ in range(90):
            m = (lo + hi) / 2
            if m == lo or m == hi:
                break
            vm = h(m)
            if vm is None:
                return None
            if (vm < 0) == (v1 < 0):
                lo = m
            else:
                hi = m
        r0 = mpf((lo + hi) / 2)
        if not self.sat(run, self.clone(p, **{a: r0})):
            return None
        e = mpf(10) ** -13 * (abs(r0) or 1)
        x0, x1 = r0 - e, r0 + e
        y0, y1 = f(x0), f(x1)
        for _ in range(14):
            if y0 is UNDEF or y1 is UNDEF:
                return None
            if y1 == 0:
                return x1
            if y1 == y0:
                return None
            x0, y0, x1 = x1, y1, x1 - y1 * (x1 - x0) / (y1 - y0)
            if abs(x1 - x0) < mpf(10) ** -74 * max(abs(x0), mpf(10) ** -20):
                return x1
            y1 = f(x1)
        return None

    def perturb(self, run, n):
        out = []
        base = list(run.alive)
        for t in range(n * 6):
            p = base[t % len(base)]
            scale = mpf(10) ** -self.rng.choice([1, 2, 3, 5, 8])
            mods = {}
            for a in sorted(self.atoms_of_interest):
                if a in self.int_atoms:
                    continue
                if self.rng.random() < 0.7:
                    v = p.vals[a]
                    r = mpf(self.rng.randrange(-10**9, 10**9)) / 10**9
                    mods[a] = v * (1 + scale * r) if v != 0 else (scale * r if self.rng.random() < 0.5 else v)
            q = self.clone(p, **mods)
            if self.sat(run, q):
                out.append(q)
                if len(out) >= n:
                    break
        return out

    # ---------------------------------------------------------------- main loop
    def explore(self):
        while self.work:
            if self.partitions >= self.max_partitions or len(self.findings) >= self.max_findings:
                self.truncated = bool(self.work) and self.partitions >= self.max_partitions
                break
            script = self.work.pop()
            run = Run(self, script)
            run.loop_widen, run.loop_depth = self.widen, self.depth
            I = Interp(self.src, run)
            run.interp = I
            self.partitions += 1
            tm.WATCH = run.watch
            try:
                self.scenario(run, I)
            except Stop:
                self.stopped += 1
            except AbsRaise as e:
                # the scenario only makes calls that must succeed outside `outcome`
                pts = run.points()
                if not pts:
                    self.stopped += 1
                else:
                    self.obligations += 1
                    v = e.value
                    nm = getattr(getattr(v, "cls", None), "name", None) or getattr(v, "name", str(v))
                    run.fail("call succeeds on valid input", "raises %s" % nm, pts[0], getattr(e, "site", None))
            finally:
                tm.WATCH = None
                I.close()
                self.entered |= I.entered
                self.calls += I.calls
        return self


def atoms_of(t):
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "atom":
            out.append(x.args[0])
        st.extend(a for a in x.args if isinstance(a, T))
    return sorted(out)


def root(f, a, fa, b, fb):
    """bracketed root to full precision (Illinois)"""
    for i in range(400):
        c = (a * fb - b * fa) / (fb - fa) if i % 3 else (a + b) / 2
        fc = f(c)
        if fc is UNDEF:
            return None
        if fc == 0 or abs(b - a) < mpf(10) ** -72 * max(abs(a), abs(b), mpf(10) ** -20):
            return c
        if fa * fc < 0:
            b, fb = c, fc
            fa = fa / 2 if i % 3 else fa
        else:
            a, fa = c, fc
            fb = fb / 2 if i % 3 else fb
        if i % 3 == 0:
            fa, fb = f(a), f(b)
            if fa is UNDEF or fb is UNDEF:
                return None
            if fa == 0:
                return a
            if fb == 0:
                return b
    return None
