"""Path exploration, obligations, loop invariants (the VC generator's core)."""
import sys
import contextlib
import time
import traceback
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

z3.set_param("smt.random_seed", 7)


class PathEnd(BaseException):
    """The rest of this path is covered elsewhere (or infeasible)."""


class Restart(BaseException):
    """Loop knowledge changed: explore again."""


class Unsupported(BaseException):
    """Construct outside the verifier's reach: the run is undecided."""


Q = z3.Int("Q")      # arbitrary position; invariants named "...[Q]..." are universally quantified over it


class Cell:
    """Ghost variable (z3 expression) that takes part in loop frames."""

    def __init__(self, name, value):
        self.name, self._v = name, value
        self.serial = ctx().new_serial(self)

    def get(self):
        return self._v

    def set(self, v):
        ctx().note_write(("cell", self.serial), self)
        self._v = v


class Obligation:
    __slots__ = ("name", "status", "path", "detail", "backend", "time", "exact")

    def __init__(self, name, status, path, detail="", backend="z3", time=0.0, exact=False):
        self.name, self.status, self.path, self.detail, self.backend, self.time = name, status, path, detail, backend, time
        self.exact = exact      # no loop was abstracted by an invariant on this path


class Ctx:
    """State of one path."""

    def __init__(self, run, prefix):
        self.run = run
        self.prefix = prefix
        self.decisions = []
        self.alternatives = []
        self.serial = 0
        self.objs = {}
        self.keep = []
        self.obj_serial = {}
        self.names = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", run.cfg.get("timeout_ms", 4000))
        self.pc = []
        from .lin import Lin
        self.lin = Lin(self.solver.add)
        self.frames = []      # active loop frames (write tracking)
        self.universals = []
        self.index_terms = {}
        self.depth = 0        # nesting of instantiations (terms made by instances of instances are not followed)
        self.registry = []    # reified applications (functions of vectors)
        self.events = []      # free-form ghost log
        self.pow_terms = []
        self.assumed = []
        self.congruent = set()
        self.havocked = False

    # ---- naming
    def fresh(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return "%s!%d" % (base, n)

    def real(self, base="r"):
        return z3.Real(self.fresh(base))

    def int(self, base="i"):
        return z3.Int(self.fresh(base))

    def bool(self, base="b"):
        return z3.Bool(self.fresh(base))

    def func(self, base, *sorts):
        return z3.Function(self.fresh(base), *sorts)

    # ---- heap
    def new_serial(self, obj):
        self.serial += 1
        self.objs[self.serial] = obj
        return self.serial

    def serial_of(self, obj):
        k = id(obj)
        if k not in self.obj_serial:
            self.keep.append(obj)
            self.obj_serial[k] = self.new_serial(obj)
        return self.obj_serial[k]

    def note_write(self, key, obj):
        for f in self.frames:
            if key[1] < f.entry_serial:
                f.writes[key] = obj

    # ---- path condition
    def assume(self, e):
        e = lift_bool(e)
        if z3.is_true(e):
            return
        self.pc.append(e)
        f = self.lin.formula(e)
        z3.Z3_solver_assert(f.ctx.ref(), self.solver.solver, f.as_ast())

    def check(self, *extra, ms=None):
        t0 = time.time()
        extra = [self.lin.formula(x) for x in extra]
        if ms is not None:
            self.solver.set("timeout", ms)
        r = self.solver.check(*extra)
        if ms is not None:
            self.solver.set("timeout", self.run.cfg.get("timeout_ms", 4000))
        self.run.solver_time += time.time() - t0
        self.run.queries += 1
        return r

    def feasible(self, e):
        return self.check(e) != z3.unsat

    def entails(self, e, ms=None):
        """pc |- e (False if unknown)."""
        e = z3.simplify(lift_bool(e))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return self.check(ms=ms) == z3.unsat
        return self.check(z3.Not(e), ms=ms) == z3.unsat

    def congruence(self):
        """Identify applications of uninterpreted functions of vectors with equal arguments (SMT, thorough)."""
        new = False
        n = len(self.registry)
        for i in range(n):
            k1, a1, r1 = self.registry[i]
            if not (isinstance(a1, tuple) and len(a1) == 3 and callable(a1[1])):
                continue
            for j in range(i):
                k2, a2, r2 = self.registry[j]
                if k2 != k1 or (i, j) in self.congruent or len(a1[0]) != len(a2[0]):
                    continue
                self.congruent.add((i, j))
                g = self.int("gi")
                eqs = [x == y for x, y in zip(a1[0], a2[0])]
                eqs += [toint(a1[2]) == toint(a2[2]), z3.Implies(z3.And(g >= 0, g < toint(a1[2])), a1[1](g) == a2[1](g))]
                if self.entails(z3.And(*eqs), ms=2000):
                    new = True
                    if z3.is_expr(r1):
                        self.assume(r1 == r2)
                    else:
                        self.universal(lambda t, r1=r1, r2=r2: r1(t) == r2(t))
                        self.assume(r1(z3.Int("I")) == r2(z3.Int("I")))
        return new

    def decide(self, e):
        e = z3.simplify(lift_bool(e))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            t = self.feasible(e)
            f = self.feasible(z3.Not(e))
            if t and f:
                v = True
                self.alternatives.append(self.decisions[:] + [False])
            elif t or f:
                v = t
                # record it so that re-execution is deterministic
            else:
                raise PathEnd("infeasible")
        self.decisions.append(v)
        if len(self.decisions) > self.run.cfg.get("max_decisions", 400):
            raise Unsupported("path too deep")
        self.assume(e if v else z3.Not(e))
        return v

    def choose(self, label):
        """Nondeterministic binary choice (explores both)."""
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = True
            self.alternatives.append(self.decisions[:] + [False])
        self.decisions.append(v)
        return v

    # ---- universally quantified facts, instantiated at index terms
    def universal(self, fn):
        """fn(idx) -> z3 Bool, true for every Int idx (guards inside)."""
        if not getattr(fn, "plain", False):
            fn = self.template(fn, 1)
        self.universals.append(fn)
        self.depth += 1
        try:
            for t in list(self.index_terms.values()):
                self.assume(fn(t))
        finally:
            self.depth -= 1

    def template(self, fn, n):
        """fn as a formula built once and instantiated by substitution (fn itself if building it has effects)."""
        xs = [z3.Int("template!%d" % i) for i in range(n)]
        before = (len(self.pc), len(self.registry), len(self.universals), len(self.decisions), dict(self.names))
        depth, self.depth = self.depth, 2
        try:
            with self.scratch():
                e = fn(*xs)
        finally:
            self.depth = depth
        if (len(self.pc), len(self.registry), len(self.universals), len(self.decisions), self.names) != before or not z3.is_expr(e) or z3.is_true(e):
            return fn
        e = z3.simplify(e)
        src = (z3.Ast * n)(*[x.as_ast() for x in xs])
        c, a = e.ctx, e.as_ast()

        def instance(*ts, keep=(xs, e)):
            return z3.BoolRef(z3.Z3_substitute(c.ref(), a, n, src, (z3.Ast * n)(*[t.as_ast() for t in ts])), c)
        return instance

    @contextlib.contextmanager
    def scratch(self):
        """Index terms registered inside are forgotten afterwards (facts about them stay)."""
        keep = dict(self.index_terms)
        try:
            yield
        finally:
            self.index_terms = keep

    def index_term(self, t):
        if isinstance(t, int):
            t = z3.IntVal(t)
        t = z3.simplify(t)
        k = t.get_id()
        if k in self.index_terms or self.depth >= 2:
            return
        self.index_terms[k] = t
        self.depth += 1
        try:
            for fn in list(self.universals):
                self.assume(fn(t))
        finally:
            self.depth -= 1


_CTX = [None]


def ctx():
    return _CTX[-1]


def lift_bool(e):
    if e is True or e is False:
        return z3.BoolVal(e)
    if hasattr(e, "e") and not z3.is_expr(e):
        return e.e
    if isinstance(e, z3.BoolRef):
        return e
    return z3.BoolVal(bool(e))


class AnyKey(dict):
    """Write set of a loop that is unrolled (unknown): treated as writing everything."""

    def __iter__(self):
        return iter([("stor", None), ("attr", None, "h")])


class LoopInfo:
    def __init__(self):
        self.writes = {}        # key -> description
        self.dropped = set()
        self.elem = {}          # list key -> element template
        self.rebind = set()
        self.cands = set()
        self.survived = set()


class Run:
    """One verification task: explores every path of `fn`, inferring loop invariants."""

    def __init__(self, name, cfg=None):
        self.name = name
        self.cfg = dict(cfg or {})
        self.loops = {}
        self.cut_sites = set(self.cfg.get("cut_sites", ()))
        self.obligations = []
        self.unsupported = []
        self.paths = 0
        self.solver_time = 0.0
        self.queries = 0
        self.proving = False
        self.changed = False
        self.bounded = self.cfg.get("mode") == "unroll"
        self.truncated = False
        self.notes = set()
        self.covers = {}
        self.candidates = self.cfg.get("candidates")
        self.max_paths = self.cfg.get("max_paths", 3000)
        self.deadline = time.time() + self.cfg.get("budget_s", 240)
        self.invs = set()
        self.only = self.cfg.get("only")       # names of the obligations of interest (None: all)
        self.stream = self.cfg.get("stream")   # called with every refuted obligation
        self.refuted = set()

    def skips(self, name):
        return not self.proving or self.bounded and name in self.refuted or self.only is not None and name not in self.only

    def add(self, o):
        o.exact = not ctx().havocked if ctx() else True
        self.obligations.append(o)
        if o.status == "refuted":
            self.refuted.add(o.name)
            if self.stream:
                self.stream(o)

    def hook(self, name, loop):
        f = getattr(self, "hooks", {}).get(name)
        if f:
            f(loop)

    def explore(self, fn):
        work = [[]]
        self.paths = 0
        sites = len(self.cut_sites)
        while work:
            prefix = work.pop()
            c = Ctx(self, prefix)
            _CTX.append(c)
            self.hooks = {}
            try:
                try:
                    fn()
                except PathEnd:
                    pass
                except Unsupported as u:
                    self.unsupported.append("%s [path %s]" % (u, pathstr(c)))
                    if self.cfg.get("debug"):
                        traceback.print_exc()
                except Restart:
                    self.changed = True
                    if len(self.cut_sites) != sites:    # decisions recorded so far belong to other loops: start over
                        return
                except RecursionError:
                    self.unsupported.append("recursion limit")
                except Exception as ex:  # the engine (or a construct) failed: undecided
                    tb = traceback.extract_tb(ex.__traceback__)
                    where = "; ".join("%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in tb[-4:])
                    self.unsupported.append("%s: %s (%s) [path %s]" % (type(ex).__name__, ex, where, pathstr(c)))
                    if self.cfg.get("debug"):
                        traceback.print_exc()
            finally:
                _CTX.pop()
            self.paths += 1
            work.extend(c.alternatives)
            if self.paths > self.max_paths or time.time() > self.deadline:
                self.unsupported.append("path or time budget exceeded (%d paths)" % self.paths)
                return
            if self.unsupported and not self.proving:
                return

    def verify(self, fn):
        t0 = time.time()
        if self.bounded:
            return self.verify_bounded(fn, t0)
        for it in range(40):
            self.changed = False
            self.unsupported = []
            self.proving = False
            self.explore(fn)
            if self.unsupported:
                break
            if not self.changed:
                break
        else:
            self.unsupported.append("loop invariant inference did not stabilise")
        self.proving = True
        self.changed = False
        self.obligations = []
        pre = list(self.unsupported)
        self.explore(fn)
        if self.changed:
            self.unsupported.append("loop knowledge changed in the proving pass")
        self.unsupported = sorted(set(self.unsupported + pre))
        self.wall = time.time() - t0
        return self

    def verify_bounded(self, fn, t0):
        """Exact exploration with loops unrolled: no more than 2, then 3, then 4 iterations; ends at the first refutation."""
        self.proving = True
        for bound in self.cfg.get("bounds", (1, 2, 3)):
            if bound > 1 and (self.unsupported or not self.truncated or time.time() - t0 > 0.3 * (self.deadline - t0)):
                break
            self.cfg["bound"], self.unsupported, self.truncated = bound, [], False
            self.obligations = []
            self.explore(fn)
            self.unsupported = sorted(set(self.unsupported))
            if self.refuted:
                break
        self.wall = time.time() - t0
        return self

    # ---- obligations
    def prove(self, name, cond, detail=None):
        if self.skips(name):
            return
        c = ctx()
        e = z3.simplify(lift_bool(cond))
        t0 = time.time()
        if z3.is_true(e):
            r = z3.unsat
            backend = "simplifier"
        else:
            backend = "z3"
            r = c.check(z3.Not(e))
            if r != z3.unsat and c.congruence():
                r = c.check(z3.Not(e))
            if r != z3.unsat and equal_by_ring(e):
                r, backend = z3.unsat, "ring normal form"
            if r != z3.unsat:
                r, backend = retry(c, e)
        dt = time.time() - t0
        st = "discharged" if r == z3.unsat else "refuted" if r == z3.sat else "unknown"
        d = ""
        if st == "refuted":
            d = model_str(c, e)
        elif st == "unknown":
            d = "z3: " + c.solver.reason_unknown()
        if detail and st != "discharged":
            d = str(detail) + " | " + d
        self.add(Obligation(name, st, pathstr(c), d, backend, dt))
        if self.cfg.get("dump") is not None and st == "discharged" and backend == "z3":
            self.cfg["dump"].append((name, list(c.pc), e))
        return st

    def record(self, name, ok, detail="", backend="evaluation"):
        """An obligation decided without the SMT solver (ground evaluation, ring normalisation)."""
        if self.skips(name):
            return
        self.add(Obligation(name, "discharged" if ok else "refuted", pathstr(ctx()) if ctx() else "", "" if ok else str(detail), backend))

    def cover(self, name):
        """Vacuity guard: this point must be reachable on some path (satisfiable path condition)."""
        if not self.proving:
            return
        if self.covers.get(name) == "sat":
            return
        c = ctx()
        r, _ = retry(c, z3.BoolVal(False))
        if r == z3.unknown and c.check() != z3.unsat:
            self.covers[name] = "unknown"
        elif r == z3.sat:
            self.covers[name] = "sat"

    def summary(self):
        d = sum(o.status == "discharged" for o in self.obligations)
        return dict(name=self.name, obligations=len(self.obligations), discharged=d,
                    refuted=[o for o in self.obligations if o.status == "refuted"],
                    unknown=[o for o in self.obligations if o.status == "unknown"],
                    unsupported=self.unsupported, paths=self.paths)


def equal_by_ring(e):
    from . import ring
    if z3.is_and(e):
        return all(equal_by_ring(x) for x in e.children())
    return z3.is_eq(e) and e.arg(0).is_real() and ring.equal(e.arg(0), e.arg(1))


def retry(c, e):
    """Full (nonlinear) query."""
    t0 = time.time()
    c.model = None
    try:
        ms = c.run.cfg.get("retry_ms", 8000)
        r = z3.unknown
        for mk in (z3.Solver, lambda: z3.Then("simplify", "propagate-values", "solve-eqs", "smt").solver()):
            s = mk()
            s.set("timeout", ms)
            for x in c.pc:
                s.add(x)
            s.add(z3.Not(e))
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.sat:
                c.model = s.model()
            if r != z3.unknown:
                break
        return r, "z3(nonlinear)"
    finally:
        c.run.solver_time += time.time() - t0


def model_str(c, e):
    try:
        m = c.model
        if m is None:
            return ""
        items = ["%s=%s" % (d.name(), m[d]) for d in m.decls()[:40] if d.arity() == 0]
        return ("goal: %s ; counterexample: " % str(e)[:400].replace("\n", " ")) + ", ".join(items)[:1200]
    except z3.Z3Exception as ex:
        return str(ex)


def pathstr(c):
    return "".join("T" if d else "F" for d in c.decisions) or "-"


# ------------------------------------------------------------------ loops

class Loop:
    """Cut point of a loop.

    unroll: plain execution (while the trip count stays concrete, or in bounded mode).
    cut:    rotated invariant rule.  Three cases are explored: the loop body is never
            entered (state = entry state); or an arbitrary iteration is executed from a
            havocked state satisfying the invariant; after it the invariant is
            re-established and either the loop goes on (covered by that arbitrary
            iteration) or stops right there (the path continues with the state after it).
    """

    LIMIT = 9

    def __init__(self, site, names, it=None, endless=False):
        self.endless = endless      # while True
        self.site, self.names, self.it = site, names, it
        self.c = ctx()
        self.run = self.c.run
        self.phase = 0
        self.count = 0
        self.ground = 0     # iterations entered by a condition without symbolic values (a few are simply executed)
        self.decided = -1
        self.cut = not self.run.bounded and (it is not None or site in self.run.cut_sites)
        self.iter = 0       # iteration index (int or z3 Int): number of completed iterations at this head
        self.in_body = False
        self.info = LoopInfo()
        if not self.cut:
            self.info.writes = AnyKey()

    def head(self, locs):
        if not self.cut:
            if self.phase:
                self.iter += 1
                self.run.hook("back", self)
            self.phase = 1
            self.decided = len(self.c.decisions)
            self.count += 1
            if self.run.bounded and self.count > self.run.cfg.get("bound", 3) + 1:
                self.run.truncated = True
                raise PathEnd("bound")
            return None
        if self.phase == 0:
            return self.entry(locs)
        if self.phase == 1 or self.phase == 3:
            # back edge
            self.back(locs)
            self.phase = 2
            return None
        raise Unsupported("loop head reached in phase %d" % self.phase)

    def body(self):
        """Called when the condition held."""
        if not self.cut:
            if self.it is None and not self.endless and self.ground < 2 and len(self.c.decisions) == self.decided:
                self.ground += 1
                self.count -= 1
            elif self.run.bounded:
                return
            elif self.count > self.run.cfg.get("loop_limit", self.LIMIT):
                self.run.cut_sites.add(self.site)
                raise Restart()
            return
        if self.phase == 9:      # zero-iteration case: condition must be false
            raise PathEnd("zero-iteration case")
        if self.phase == 2:      # after the arbitrary iteration: goes on -> covered
            raise PathEnd("covered by the arbitrary iteration")
        self.phase = 3

    def exit(self):
        if not self.cut:
            return
        if self.phase == 1:
            raise PathEnd("covered by the other cases")
        if self.frame in self.c.frames:
            self.c.frames.remove(self.frame)

    def has_next(self):
        n = self.it.length()
        from .sym import SI
        return SI(toint(self.iter)) < n if not isinstance(n, int) or not isinstance(self.iter, int) else self.iter < n

    def next(self):
        return self.it.item(self.iter)

    # -- cut mode
    def entry(self, locs):
        from . import loops
        c, run = self.c, self.run
        self.key = (self.site, pathstr(c))
        self.info = run.loops.setdefault(self.key, LoopInfo())
        self.frame = loops.Frame(c)
        c.frames.append(self.frame)
        if c.choose("zero iterations"):
            self.phase = 9
            return None
        run.hook("entry", self)
        self.state0 = loops.State(self, locs, 0)
        self.items = loops.items(self, locs)
        self.entry_vals = {k: loops.snapshot(v) for k, v in self.items.items()}
        cands = loops.candidates(self)
        # initiation
        for nm, fn in list(cands.items()):
            if nm in self.info.dropped:
                cands.pop(nm)
        for nm, fn in list(cands.items()):
            e = safe(fn, self.state0)
            ok = e is not None and c.entails(e)
            if not ok:
                self.info.dropped.add(nm)
                cands.pop(nm)
                run.changed = True
            elif run.proving:
                run.obligations.append(Obligation("loop %s: invariant holds on entry: %s" % (self.site, nm), "discharged", pathstr(c)))
        self.cands = cands
        self.iter = z3.Int(c.fresh("it"))
        c.assume(self.iter >= 0)
        env = loops.havoc(self, locs)
        c.havocked = True
        st = loops.State(self, {**locs, **env}, self.iter)
        for nm, fn in cands.items():
            e = safe(fn, st)
            if e is not None:
                c.assume(e)
                if "[Q]" in nm and not z3.is_true(e):   # proved for an arbitrary Q: holds for all
                    c.universal(lambda t, e=e: z3.substitute(e, (Q, t)))
        self.phase = 1
        run.hook("head", self)
        return env

    def back(self, locs):
        from . import loops
        c, run = self.c, self.run
        self.iter = z3.simplify(self.iter + 1)
        missing = loops.check_frame(self, locs)
        if missing:
            run.changed = True
            raise Restart()
        run.hook("back", self)
        st = loops.State(self, locs, self.iter)
        for nm, fn in list(self.cands.items()):
            e = safe(fn, st)
            ok = e is not None and c.entails(e)
            if not ok:
                self.info.dropped.add(nm)
                run.changed = True
            elif run.proving:
                run.invs.add((self.site, nm))
                run.obligations.append(Obligation("loop %s: invariant preserved: %s" % (self.site, nm), "discharged", pathstr(c)))


def toint(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def safe(fn, st):
    try:
        r = fn(st)
        return None if r is None else lift_bool(r)
    except (KeyError, AttributeError, IndexError, TypeError, z3.Z3Exception):
        return None
