"""Path-exhaustive symbolic executor.

The code under test is executed natively by CPython on *symbolic* values (see values.py, bitmap.py).  Whenever the
program needs a concrete truth value of a symbolic condition, the engine asks z3 which outcomes are feasible under the
current path condition and explores each of them (depth first, by re-execution).  Whenever it needs a concrete value of
a symbolic number (hash, index, C boundary), the engine branches over every feasible value.  A harness ends a path with
`prove(cond)`: z3 decides `path-condition and not cond`; a model is a counterexample.
"""
import time
import z3


class PathEnd(Exception):
    """abandon this path: infeasible or outside assumption"""


class CexFound(Exception):
    """the current path has produced a counterexample; stop it"""


class Unsupported(BaseException):
    """operation the symbolic model cannot perform faithfully. BaseException so that code under test cannot swallow it."""


class Truncated(BaseException):
    """concretisation over a domain larger than the cap"""


class NonDet(BaseException):
    """re-execution diverged from the recorded decisions"""


CTX = None  # the active engine


def ctx():
    if CTX is None:
        raise RuntimeError("no active engine")
    return CTX


class Stats(dict):
    def add(self, k, v=1):
        self[k] = self.get(k, 0) + v

    def merge(self, o):
        for k, v in o.items():
            self[k] = self.get(k, 0) + v


class Engine:
    def __init__(self, query_timeout_ms=20000, conc_cap=400):
        self.timeout = query_timeout_ms
        self.conc_cap = conc_cap
        self.stats = Stats()

    # ---------------------------------------------------------------- one subtree
    def explore(self, harness, prefix=(), deadline=None, max_paths=None, on_cex=None, on_path=None, on_unsupported=None):
        """Depth-first exploration of the subtree below `prefix`.
        Returns the list of prefixes left unexplored (empty if the subtree is exhausted)."""
        global CTX
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout)
        # a decision: [expr, outcome, other_side_pending, value-or-None]
        self.trail = []
        self.prefix = [list(p) for p in prefix]
        base = len(prefix)
        first = True
        npaths = 0
        CTX = self
        try:
            while True:
                self.pos = 0
                self.known = {}
                self.known_vals = {}
                self.model = None
                self.names = {}
                self.labels = []
                if first:
                    self.replaying = len(self.prefix)
                else:
                    self.replaying = 0
                self.inputs = {}
                self.small = []
                self.notes = {}
                t0 = time.time()
                self.path_deadline = deadline
                status = "ok"
                try:
                    harness(self)
                except PathEnd:
                    status = "infeasible"
                except CexFound:
                    status = "cex"
                except Unsupported as e:
                    status = "unsupported"
                    self.stats.add("unsupported_paths")
                    if on_unsupported:
                        on_unsupported(self, e)
                except Truncated as e:
                    status = "truncated"
                    self.stats.add("truncated_paths")
                    if on_unsupported:
                        on_unsupported(self, e)
                first = False
                npaths += 1
                if status == "infeasible":
                    self.stats.add("paths_pruned")
                else:
                    self.stats.add("paths")
                if status == "ok" and on_path:
                    on_path(self)
                # backtrack
                while len(self.trail) > base and not self.trail[-1][2]:
                    self.trail.pop()
                    self.solver.pop()
                if len(self.trail) <= base:
                    return []
                d = self.trail[-1]
                self.solver.pop()
                self.solver.push()
                self.solver.add(z3.Not(d[0]) if d[1] else d[0])
                d[1] = not d[1]
                d[2] = False
                if (deadline is not None and time.time() > deadline) or (max_paths and npaths >= max_paths):
                    return self._pending(base)
        finally:
            CTX = None

    def _pending(self, base):
        """prefixes still to explore: the current trail (just flipped) and every pending other side"""
        out = []
        rec = [(d[1], d[3]) for d in self.trail]
        out.append(rec)
        for i in range(base, len(self.trail)):
            if self.trail[i][2]:
                d = self.trail[i]
                out.append(rec[:i] + [(not d[1], d[3])])
        return out

    # ---------------------------------------------------------------- solver access
    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.add("queries")
        self.stats.add("solver_s", time.time() - t)
        return r

    def _get_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise PathEnd()
            if r == z3.unknown:
                self.stats.add("unknown")
                raise Unsupported("solver unknown on path condition")
            self.model = self.solver.model()
        return self.model

    def _val_under_model(self, c):
        v = self._get_model().eval(c, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    # ---------------------------------------------------------------- decisions
    @staticmethod
    def _simp(e):
        from .values import simp
        return simp(e)

    def branch(self, c, value=None):
        """decide the z3 Bool c on this path (conditions decided before on the path are not asked again)"""
        neg = c.decl().kind() == z3.Z3_OP_NOT
        k = c.children()[0] if neg else c
        d = self.known.get(k.get_id())
        if d is not None and value is None:
            return d[1] != neg
        r = self._branch(c, value)
        self.known[k.get_id()] = (k, r != neg)
        return r

    def _branch(self, c, value=None):
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d[0].eq(c):
                self.pos += 1
                return d[1]
        c = self._simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if not d[0].eq(c):
                raise NonDet("decision %d: %s vs %s" % (self.pos, d[0], c))
            self.pos += 1
            return d[1]
        if self.pos < self.replaying:
            out, val = self.prefix[self.pos]
            self._push(c, out, False, val)
            return out
        if self.path_deadline is not None and time.time() > self.path_deadline + 120:
            raise Unsupported("path too long")
        side = self._val_under_model(c)
        if side is None:
            r = self.check(c)
            side = r == z3.sat
        other = z3.Not(c) if side else c
        r = self.check(other)
        if r == z3.unknown:
            self.stats.add("unknown")
        pending = r != z3.unsat
        m = self.model
        self._push(c, side, pending, value)
        self.model = m
        self.stats.add("branches")
        return side

    def _push(self, c, out, pending, val):
        self.solver.push()
        self.solver.add(c if out else z3.Not(c))
        self.trail.append([c, out, pending, val])
        self.pos += 1
        self.model = None

    def concretize(self, e):
        """branch over every feasible value of the z3 Int/BitVec/Real term e; returns a Python number"""
        e = self._simp(e)
        n = 0
        if e.get_id() in self.known_vals:
            return self.known_vals[e.get_id()][1]
        while True:
            v = self._num(e)
            if v is not None:
                return v
            n += 1
            if n > self.conc_cap:
                raise Truncated("more than %d values for %s" % (self.conc_cap, e))
            if self.pos < len(self.trail):
                val = self.trail[self.pos][3]
            elif self.pos < self.replaying:
                val = self.prefix[self.pos][1]
            else:
                mv = self._get_model().eval(e, model_completion=True)
                val = self._num(mv)
            if val is None:
                raise Unsupported("no numeric value for %s" % e)
            zv = self._lit(e, val)
            if self.branch(e == zv, value=val):
                self.known_vals[e.get_id()] = (e, val)
                return val

    @staticmethod
    def _num(v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return v.as_fraction()
        if z3.is_bv_value(v):
            return v.as_long()
        return None

    @staticmethod
    def _lit(e, val):
        s = e.sort()
        if s.kind() == z3.Z3_INT_SORT:
            return z3.IntVal(int(val))
        if s.kind() == z3.Z3_REAL_SORT:
            return z3.RealVal(str(val))
        return z3.BitVecVal(int(val), s.size())

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        if self.pos < len(self.trail) and self.trail[self.pos][0].eq(c):
            self.pos += 1
            return
        c = self._simp(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        # assumption = forced decision
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if not d[0].eq(c):
                raise NonDet("assume %s vs %s" % (d[0], c))
            self.pos += 1
            return
        if self.pos < self.replaying:
            self._push(c, True, False, None)
            return
        self._push(c, True, False, None)
        self._get_model()

    # ---------------------------------------------------------------- inputs
    def fresh(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else "%s#%d" % (name, k)

    def choice(self, name, options):
        """a symbolic choice among concrete options (branches)"""
        i = z3.Int(self.fresh(name))
        self.assume(z3.And(i >= 0, i < len(options)))
        self.inputs[name] = i
        return options[self.concretize(i)]

    # ---------------------------------------------------------------- obligations
    def prove(self, cond, label=""):
        """z3 decides  path-condition /\\ not cond ;  a model is a counterexample"""
        if hasattr(cond, "z3expr"):
            cond = cond.z3expr()
        if not z3.is_expr(cond):
            cond = z3.BoolVal(bool(cond))
        self.stats.add("obligations")
        if self.pos < len(self.trail) or self.pos < self.replaying:
            # already discharged when this prefix was first executed? No: prefixes may be handed to other workers,
            # but every prefix was executed (and its obligations discharged) by whoever created it.
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            if self.model is None:
                self._get_model()
            return
        r = self.check(z3.Not(cond))
        self.stats.add("proof_queries")
        if r == z3.unsat:
            return
        if r == z3.unknown:
            self.stats.add("unknown")
            self.labels.append("unknown:" + label)
            return
        m = self.solver.model()
        for s in self.small:
            if self.check(z3.Not(cond), s) == z3.sat:
                m = self.solver.model()
                break
        self.cex(m, label, z3.Not(cond))

    def small_model(self):
        """a model of the current path, preferring the harness's `small` constraints"""
        for s in self.small:
            if self.check(s) == z3.sat:
                return self.solver.model()
        return self._get_model()

    def fail(self, label):
        """the program reached a state that violates the property on every input of this path"""
        self.stats.add("obligations")
        self.cex(self.small_model(), label)

    def cex(self, model, label, neg=None):
        self.stats.add("counterexamples")
        self.cex_handler(self, model, label, neg)
        raise CexFound(label)

    def more_models(self, model, neg, k):
        """up to k further models of path-condition /\ neg, differing on the scalar inputs"""
        extra = [neg] if neg is not None else []
        for _ in range(k):
            diff = []
            for d in model.decls():
                if d.arity() == 0 and d.range().kind() in (z3.Z3_INT_SORT, z3.Z3_BOOL_SORT, z3.Z3_REAL_SORT):
                    diff.append(d() != model[d])
            if not diff:
                return
            extra.append(z3.Or(diff))
            r = z3.unsat
            for s in self.small[1:3] + [z3.BoolVal(True)]:
                r = self.check(*extra, s)
                if r == z3.sat:
                    break
            if r != z3.sat:
                return
            model = self.solver.model()
            yield model

    cex_handler = staticmethod(lambda eng, model, label, neg=None: None)
