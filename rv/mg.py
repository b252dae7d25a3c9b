"""Workload and history oracle for method graphs.

Driver drives a real MethodGraph through its public API and checks, at the client boundary and at every call
into a method's execute, against a model that re-evaluates all methods in topological order.
"""
import zlib

from . import gen
from .core import Violation, CaseTimeout, StepBudget, Abandoned
from .gen import same

MOD = (1 << 61) - 1


class InjectedFault(BaseException):
    pass


_FAULTS = []


def fault_class(rng):
    """Failures of every kind a user's method may raise, also such as the library itself uses or Python gives a meaning."""
    if not _FAULTS:
        m = lib()
        for c in (Exception, Exception, ValueError, TypeError, KeyError, IndexError, AttributeError, NameError, RuntimeError, StopIteration, AssertionError,
                  ZeroDivisionError, NotImplementedError, RecursionError, m.MethodGraphCycleException, m.MethodGraphDetermineException, KeyboardInterrupt, GeneratorExit):
            _FAULTS.append(type("Injected" + c.__name__, (InjectedFault, c), {}))
    return rng.choice(_FAULTS)


def digest(x):
    if isinstance(x, bool):
        return 11 if x else 12
    if isinstance(x, int):
        return x % MOD
    if isinstance(x, float):
        return zlib.crc32(repr(x).encode()) + 5
    if hasattr(x, "x") and hasattr(x, "y"):
        return zlib.crc32(repr((x.x, x.y)).encode()) + 7
    if type(x).__name__ == "ndarray":
        return zlib.crc32(repr(x.tolist()).encode()) + 13
    if isinstance(x, (set, frozenset)):
        return sum(digest(y) for y in x) % MOD + 17
    if isinstance(x, (list, tuple)):
        h = 19
        for y in x:
            h = (h * 31 + digest(y)) % MOD
        return h
    return zlib.crc32(repr(x).encode())


FALSY = [0, "", False, (), 0.0]
STYLES = ["int", "int", "int", "str", "tuple", "falsy", "sometimes", "partial", "explicit none", "const", "small", "vector"]
INJECTIVE = ["int", "str", "tuple"]


def make_fn(style, coefs, bias, outs, Vector=None):
    """Pure function from input values to {output index: value}; the same one serves method and model."""
    def fn(values):
        h = bias
        for c, v in zip(coefs, values):
            h = (h + c * digest(v)) % MOD
        res = {}
        for i in range(outs):
            x = (h * (2 * i + 3) + i) % MOD
            if style == "int":
                res[i] = x
            elif style == "str":
                res[i] = "s%d" % x
            elif style == "tuple":
                res[i] = (x, i)
            elif style == "falsy":
                res[i] = FALSY[x % 5]
            elif style == "sometimes":
                if h % 3:
                    res[i] = x
            elif style == "partial":
                if (h + i) % 2:
                    res[i] = x
            elif style == "explicit none":
                res[i] = None if (h + i) % 3 == 0 else x
            elif style == "const":
                res[i] = bias
            elif style == "small":
                res[i] = x % 3
            elif style == "vector":
                res[i] = Vector(x % 1000, i)
        return res
    return fn


def lib():
    import solver.method as m
    return m


_CLS = {}


def fn_method_class():
    if "fn" not in _CLS:
        m = lib()

        class FnMethod(m.Method):
            """User-defined method; reports every execution to the driver before computing."""
            def __init__(self, tag, inputs, outputs, fn, driver, style):
                # in some histories all methods have one name
                super().__init__("fn%s" % ("" if getattr(driver, "alike", False) else tag), inputs, outputs)
                self.tag, self.fn, self.driver, self.style = tag, fn, driver, style
                self.fault = 0          # raise at this many further executions
                self.skip = 0           # ... after this many good ones
                self.extras = ()        # what it yields for variables that are not its outputs

            def execute(self, inmap):
                self.driver.on_execute(self, inmap)
                if self.fault:
                    if self.skip:
                        self.skip -= 1
                    else:
                        self.fault -= 1
                        e = fault_class(self.driver.rng)(self.tag)
                        self.driver.fired.append(e)
                        raise e
                res = self.fn([inmap[v] for v in self.inputs])
                res = {self.outputs[i]: x for i, x in res.items()}
                if self.extras:     # more than was asked for: inputs, other variables, names nobody knows
                    for v, x in self.extras:
                        if v not in self.outputs:
                            res[v] = x
                    self.driver.ctx.ev("results naming variables the method does not determine")
                return res
        _CLS["fn"] = FnMethod
    return _CLS["fn"]


def evaluate(method, values):
    """What `method` must yield for these input values: {output: value}."""
    m = lib()
    if type(method) is m.AddMethod:
        return {method.outputs[0]: values[0] + values[1]}
    if type(method) is m.SubMethod:
        return {method.outputs[0]: values[0] - values[1]}
    if type(method) is m.SetMethod:
        return {method.outputs[0]: method.rv_value}
    if type(method) is m.AssignMethod:
        return {method.outputs[0]: values[0]}
    return {method.outputs[i]: x for i, x in method.fn(values).items()}


def path_bound(order):
    """Upper bound of executions in one propagation: the number of paths from variables to methods (producers first)."""
    count, prod = {}, {}
    for m in order:
        count[id(m)] = 1 + sum(1 + (count[id(prod[v])] if v in prod else 0) for v in m.inputs)
        for v in m.outputs:
            prod[v] = m
    return sum(count.values())


class Driver:
    def __init__(self, ctx, deferred=0.0, faults=0.0, invalid=0.1, removal=0.15, refused=0.05, flavour=None, n=None, styles=None, clear=.004, extras=0):
        m = lib()
        self.ctx, rng = ctx, ctx.rng
        self.rng = rng
        self.lib = m
        self.G = m.MethodGraph()
        self.deferred, self.faults, self.extras = deferred, faults, extras
        self.quiet = False      # deferred changes execute nothing (checked where the property says so)
        self.styles = styles or STYLES
        self.flavour = flavour or rng.choice(["int", "any", "any", "number"])
        self.n = n or gen.size(rng, (3, 9), (10, 25), (40, 70))
        self.pool = gen.names(rng, self.n)
        self.vals = {}          # model: value of each variable (derived ones: last known consistent value)
        self.methods = []       # model: live methods in order
        self.dead = []          # removed or refused methods
        self.dirty = False      # changes pending
        self.unknown = set()    # base variables whose value the model does not predict until read back
        self.fired = []
        self.nexec = 0
        self.adding = None
        self.tag = 0
        self.alike = self.rng.random() < .3
        self.weights = {"set": 6, "add": 5, "addvar": 1, "execute": 1, "rem_method": 10 * removal, "rem_variable": 7 * removal,
                        "readd": 3 * removal, "invalid": 10 * invalid, "refused": 10 * refused,
                        "propagate": .5 + 6 * bool(deferred or faults), "clear": 10 * clear if removal else 0, "same": .3,
                        "retune": 0 if faults else .5}

    # ---------------------------------------------------------------- model
    def producer(self, v):
        for m in self.methods:
            if v in m.outputs:
                return m
        return None

    def producers(self):
        return {v: m for m in self.methods for v in m.outputs}

    def order(self):
        """Methods in topological order."""
        prod = self.producers()
        seen, res = set(), []
        for root in self.methods:
            stack = [(root, False)]
            while stack:
                m, done = stack.pop()
                if done:
                    res.append(m)
                    continue
                if id(m) in seen:
                    continue
                seen.add(id(m))
                stack.append((m, True))
                for v in m.inputs:
                    p = prod.get(v)
                    if p is not None and id(p) not in seen:
                        stack.append((p, False))
        return res

    def predict(self):
        vals = dict(self.vals)
        for m in self.order():
            ins = [vals[v] for v in m.inputs]
            out = {} if any(x is None for x in ins) else evaluate(m, ins)
            for v in m.outputs:
                vals[v] = out.get(v)
        return vals

    def paths(self):
        return path_bound(self.order())

    def reach(self, srcs):
        """Variables depending on any of srcs (inclusive)."""
        cons = {}
        for m in self.methods:
            for v in m.inputs:
                cons.setdefault(v, []).append(m)
        seen, todo = {v: 0 for v in srcs}, list(srcs)
        while todo:
            for m in cons.get(todo.pop(), []):
                for w in m.outputs:
                    if w not in seen:
                        seen[w] = 0
                        todo.append(w)
        return seen

    def verdict(self, m):
        """'ok', or the set of admissible errors for adding m."""
        bad = set()
        prod = self.producers()
        if any(v in prod for v in m.outputs):
            bad.add("determine")
        r = self.reach(m.outputs)
        if any(v in r for v in m.inputs):
            bad.add("cycle")
        return bad or "ok"

    # ---------------------------------------------------------------- events
    def on_execute(self, m, inmap):
        ctx = self.ctx
        self.nexec += 1
        ctx.ev("method executions")
        live = m is self.adding or any(m is x for x in self.methods)
        ctx.check(live, "a removed or refused method was executed", str(m.tag), mech="removed executes")
        for v in m.inputs:
            ctx.check(v in inmap, "execute: input missing from the input map", v)
            ctx.check(inmap[v] is not None, "execute: called although an input has no value", v)
            if self.producer(v) is None and v in self.vals and v not in self.unknown:
                ctx.check(same(inmap[v], self.vals[v]), "execute: stale value of an undetermined variable", v, inmap[v], self.vals[v])
        for v in m.outputs:
            ctx.check(v in inmap, "execute: previous output value missing from the input map", v)

    # ---------------------------------------------------------------- observation
    def observe(self, when, propagated):
        """Compare everything observable with the model after an operation returned."""
        ctx, G = self.ctx, self.G
        got_vars, got_methods = list(G.variables()), list(G.methods())
        ctx.check(len(got_vars) == len(self.vals) and set(got_vars) == set(self.vals), "variables() differs from the history %s" % when, got_vars, list(self.vals))
        ctx.check(len(got_methods) == len(self.methods) and all(any(a is b for b in self.methods) for a in got_methods),
                  "methods() differs from the history %s" % when, got_methods, self.methods)
        prod = self.producers()
        if propagated and not self.dirty:
            want = self.predict()
            for v in want:
                got = G.get(v)
                ctx.check(same(got, want[v]), "value of %r is wrong %s" % (v, when), "got", got, "expected", want[v],
                          "determined by", str(prod[v]) if v in prod else "nothing", mech="stale value")
            self.vals = want
            ctx.ev("consistent states compared")
            if len(self.vals) <= 12:
                idx = {v: i for i, v in enumerate(self.vals)}
                ctx.state(("mg", len(idx), sorted((tuple(idx[v] for v in m.inputs), tuple(idx[v] for v in m.outputs)) for m in self.methods),
                           [x is None for x in want.values()]))
        else:
            for v in self.vals:
                if v not in prod or not self.dirty:
                    got = G.get(v)
                    if v in self.unknown:
                        self.vals[v] = got
                        self.unknown.discard(v)
                    ctx.check(same(got, self.vals[v]), "value of %r changed or was lost %s" % (v, when), "got", got, "expected", self.vals[v],
                              mech="value lost")

    def call(self, what, fn, *a, **k):
        """Invoke an API operation; returns the injected fault it reported, if any."""
        self.ctx.log(what, a, k or "")
        self.ctx.ev("mg." + what)
        self.fired = []
        err = None
        try:
            fn(*a, **k)
        except Violation:
            raise
        except InjectedFault as e:
            err = e
        except (CaseTimeout, StepBudget):
            # an order of execution that follows every path separately may legitimately take this long
            if self.paths() > 20000:
                raise Abandoned("propagation along very many paths")
            raise
        if self.fired:
            self.ctx.ev("faults injected", len(self.fired))
            self.ctx.check(any(err is e for e in self.fired), "the failure of a method did not reach the caller", what, err, self.fired)
            self.ctx.ev("failure of kind " + type(err).__name__)
        elif err is not None:
            raise Violation("%s raised a failure that did not happen now" % what)
        return err

    def settle(self, what, err, propagating):
        """Bookkeeping after a change: is anything pending?"""
        if err is not None:
            self.dirty = True
            self.ctx.log("fault reached the caller")
        elif propagating:
            self.dirty = False
        else:
            self.dirty = True
        self.observe("after " + what, propagating and err is None)

    # ---------------------------------------------------------------- operations
    def step(self):
        w = self.weights
        op = self.rng.choices(list(w), list(w.values()))[0]
        if self.faults and self.rng.random() < self.faults:
            self.arm()
        getattr(self, "op_" + op)()

    def value(self):
        rng = self.rng
        if rng.random() < .12:
            return None
        if self.flavour == "int":
            return rng.choice([0, 1, -1, rng.randint(-9, 9), rng.randint(-10 ** 9, 10 ** 9), 2 ** 70])
        if self.flavour == "number":
            from fractions import Fraction
            return rng.choice([0, 0.0, rng.randint(-9, 9), rng.uniform(-5, 5), Fraction(rng.randint(-5, 5), 3), True])
        from solver.geometry import Vector
        import numpy as np
        return rng.choice([0, 1, "", "txt%d" % rng.randint(0, 9), False, (), (1, rng.randint(0, 9)), frozenset([rng.randint(0, 3)]), [], [rng.randint(0, 9)],
                           rng.randint(-99, 99), rng.uniform(-1, 1), Vector(rng.randint(-3, 3), 1), np.array([rng.randint(0, 5), 2]), {"k": rng.randint(0, 9)}, set()])

    def prop(self):
        return not (self.deferred and self.rng.random() < self.deferred)

    def base(self):
        prod = self.producers()
        return [v for v in self.vals if v not in prod]

    def op_set(self):
        base = self.base()
        if not base:
            return self.op_addvar()
        v = gen.twin_name(self.rng, self.rng.choice(base))
        x = self.value()
        r = self.rng.random()
        if self.flavour == "any" and self.rng.random() < .5 and self.refill(v):
            x = self.vals[v]
            self.ctx.ev("the held object changed in place and set again")
        elif r < .1 and not self.dirty:
            x = self.vals[v]
        elif r < .25 and self.flavour == "any":
            y = gen.near(self.rng, self.vals.get(v))
            x = x if y is None else y
            self.ctx.ev("values set to a near miss of the old one")
        self.do_set(v, x)

    def refill(self, v):
        """Change the container a base variable holds in place; False when it holds none, or shares it with another variable."""
        x, k = self.vals.get(v), self.rng.randint(0, 99)
        if x is None or self.unknown or self.dirty:
            return False
        if any(y is x for w, y in self.vals.items() if w != v):
            return False
        if type(x) is list:
            x.append(k)
        elif type(x) is dict:
            x[k] = k
        elif type(x) is set:
            x.add(k)
        elif type(x).__name__ == "Vector":
            x.x += 1 + k
        else:
            return False
        return True

    def do_set(self, v, x, prop=None):
        prop = self.prop() if prop is None else prop
        self.vals[v] = x
        self.unknown.discard(v)
        args, kw = (v, x), {}
        if not prop:
            kw["prop"] = False
        elif self.rng.random() < .2:
            kw["prop"] = True
        before = self.nexec
        err = self.call("set", self.G.set, *args, **kw)
        self.deferral(prop, before, "set")
        self.ctx.check(same(self.G.get(v), x), "set does not take effect on the variable itself", v, self.G.get(v), x)
        self.settle("set(%r)" % (v,), err, prop)

    def deferral(self, prop, before, what):
        if self.quiet and not prop:
            self.ctx.check(self.nexec == before, "a method was executed by %s although propagation was switched off" % what)
            self.ctx.ev("changes that execute nothing yet")

    def op_addvar(self):
        v = self.rng.choice(self.pool)
        x = self.value()
        was_dirty = self.dirty
        if v not in self.vals:
            self.vals[v] = x
        if x is None and self.rng.random() < .5:
            self.call("add_variable", self.G.add_variable, v)
        else:
            self.call("add_variable", self.G.add_variable, v, x)
        self.dirty = was_dirty
        self.observe("after add_variable(%r)" % (v,), False)

    def pick_inputs(self):
        rng = self.rng
        k = rng.choices([0, 1, 2, 3, 4], [1, 5, 6, 2, 1])[0]
        cand = list(self.vals) + rng.sample(self.pool, min(2, len(self.pool)))
        if rng.random() < .3:       # prefer determined variables: deeper graphs
            cand = list(self.producers()) or cand
        res = []
        for _ in range(k):
            v = rng.choice(cand)
            if v not in res or rng.random() < .1:
                res.append(v)
        return res

    def new_method(self, inputs, outputs, style=None):
        rng, L = self.rng, self.lib
        self.tag += 1
        if style is None and len(outputs) == 1 and rng.random() < .3:
            if len(inputs) == 0:
                return self._set_method(outputs[0])
            if len(inputs) == 1:
                return L.AssignMethod(outputs[0], inputs[0])
            if len(inputs) == 2 and self.flavour in ("int", "number"):
                return rng.choice([L.AddMethod, L.SubMethod])(inputs[0], inputs[1], outputs[0])
        if style is None:
            styles = [s for s in self.styles if self.flavour == "any" or s in ("int", "sometimes", "partial", "explicit none", "const", "small")]
            style = rng.choice(styles)
        from solver.geometry import Vector
        fn = make_fn(style, [rng.randrange(1, MOD) for _ in inputs], rng.randrange(MOD), len(outputs), Vector)
        given = [rng.choice([list, list, tuple])(x) for x in (inputs, outputs)]
        m = fn_method_class()(self.tag, given[0], given[1], fn, self, style)
        for x in given:     # the lists belong to the caller, who goes on using them
            if type(x) is list and rng.random() < .5:
                x.reverse()
                x.append("a name nobody knows")
        if self.extras and rng.random() < self.extras:
            m.extras = [(v, rng.choice([None, 0, "extra", -1])) for v in rng.sample(inputs + self.pool + ["a name nobody knows"], 2) + inputs[:1]]
        return m

    def _set_method(self, out):
        x = self.value()
        m = self.lib.SetMethod(out, x)
        m.rv_value = x
        return m

    def op_add(self):
        rng = self.rng
        prod = self.producers()
        for _ in range(6):
            ins = self.pick_inputs()
            up = self.ancestors(ins, prod)
            free = [v for v in self.pool if v not in prod and v not in up]
            if not free:
                continue
            outs = rng.sample(free, min(len(free), rng.choice([1] * 16 + [2] * 4 + [3] * 4 + [0])))
            if not outs:
                self.ctx.ev("methods without outputs")
                ins = ins if rng.random() < .5 else []
                others = [m for m in self.methods if not m.outputs]
                if others and rng.random() < .5:        # one that reads like another
                    ins = list(rng.choice(others).inputs)
                    self.ctx.ev("methods without outputs over the same inputs")
            m = self.new_method(ins, outs)
            if self.verdict(m) == "ok":
                return self.do_add(m)
        return self.op_set()

    def ancestors(self, vs, prod):
        seen, todo = set(vs), list(vs)
        while todo:
            p = prod.get(todo.pop())
            if p is not None:
                for v in p.inputs:
                    if v not in seen:
                        seen.add(v)
                        todo.append(v)
        return seen

    def do_add(self, m, prop=None):
        prop = self.prop() if prop is None else prop
        self.adding = m
        before = self.nexec
        old = len(self.methods)
        self.methods.append(m)
        for v in m.inputs + m.outputs:
            self.vals.setdefault(v, None)
        try:
            if prop:
                err = self.call("add_method", self.G.add_method, m)
            else:
                err = self.call("add_method deferred", self.G.add_method, m, prop=False)
        except (self.lib.MethodGraphCycleException, self.lib.MethodGraphDetermineException) as e:
            raise Violation("a valid method was refused: %s: %s" % (type(e).__name__, e), "valid refused")
        self.adding = None
        self.deferral(prop, before, "add_method")
        assert len(self.methods) == old + 1
        self.ctx.ev("valid methods accepted")
        self.settle("add_method(%s)" % m.name, err, prop)

    def op_same(self):
        """Adding a method that is already there is a no-op."""
        if self.methods:
            m = self.rng.choice(self.methods)
            d = self.dirty
            err = self.call("add_method again", self.G.add_method, m)
            if err is not None:
                d = True
            self.dirty = d
            self.observe("after adding a method again", not d)

    def op_readd(self):
        cand = [m for m in self.dead if self.verdict(m) == "ok"]
        if cand:
            m = self.rng.choice(cand)
            self.dead = [x for x in self.dead if x is not m]
            self.ctx.ev("removed methods added again")
            self.do_add(m)

    def op_invalid(self):
        rng = self.rng
        prod = self.producers()
        if not self.vals:
            return
        for _ in range(5):
            kind = rng.choice(["determine", "cycle", "self", "both", "any"])
            ins = self.pick_inputs()
            outs = [v for v in rng.sample(self.pool, min(len(self.pool), rng.choice([1, 1, 1, 2, 2, 3, 4])))]
            if kind in ("determine", "both") and prod:
                outs[-1] = rng.choice(list(prod))
            if kind in ("cycle", "both") and prod:
                v = rng.choice(list(prod))
                up = [u for u in self.ancestors([v], prod) if u not in prod] or [v]
                outs[rng.randrange(len(outs)) if kind == "cycle" else 0] = rng.choice(sorted(up, key=repr))
                ins = ins + [v]
            if kind == "self" and ins:
                outs[rng.randrange(len(outs))] = rng.choice(ins)
            outs = list(dict.fromkeys(outs))
            m = self.new_method(ins, outs, style="int")
            bad = self.verdict(m)
            if bad != "ok":
                break
        else:
            return
        self.dead.append(m)
        L = self.lib
        prop = self.prop()
        self.ctx.log("add_method invalid", str(m), sorted(bad))
        self.fired = []
        before = {v: self.G.get(v) for v in self.vals if v not in self.unknown}
        executed = self.nexec
        try:
            if prop:
                self.G.add_method(m)
            else:
                self.G.add_method(m, prop=False)
        except L.MethodGraphCycleException:
            got = "cycle"
        except L.MethodGraphDetermineException:
            got = "determine"
        else:
            raise Violation("an invalid method was accepted (%s): %s" % ("/".join(sorted(bad)), m), "invalid accepted")
        self.ctx.check(got in bad, "invalid method refused with the wrong error", got, sorted(bad), str(m), mech="wrong error")
        self.ctx.ev("invalid methods refused: " + got)
        self.ctx.check(self.nexec == executed, "a refused method made another one execute", mech="refusal executes")
        for v, x in before.items():
            now = self.G.get(v)
            self.ctx.check(same(now, x), "a refused method changed the value of %r" % (v,), "now", now, "before", x, mech="refusal changes a value")
        self.observe("after a refused add_method", False)

    def op_rem_method(self):
        if not self.methods:
            return
        self.do_rem_method(self.rng.choice(self.methods))

    def do_rem_method(self, m):
        self.methods = [x for x in self.methods if x is not m]
        self.dead.append(m)
        if self.dirty:
            self.unknown |= set(m.outputs)
        d = self.dirty
        self.call("rem_method", self.G.rem_method, m)
        self.dirty = d
        self.observe("after rem_method", False)

    def op_rem_variable(self, v=None):
        if not self.vals:
            return
        v = self.rng.choice(list(self.vals)) if v is None else v
        gone = [m for m in self.methods if v in m.inputs or v in m.outputs]
        self.methods = [m for m in self.methods if not (v in m.inputs or v in m.outputs)]
        self.dead += gone
        del self.vals[v]
        self.unknown.discard(v)
        if self.dirty:
            self.unknown |= {w for m in gone for w in m.outputs if w in self.vals}
        d = self.dirty
        self.call("rem_variable", self.G.rem_variable, gen.twin_name(self.rng, v))
        self.dirty = d
        self.ctx.check(self.raises_or_missing(v), "a removed variable still has a value", v)
        self.observe("after rem_variable(%r)" % (v,), False)

    def raises_or_missing(self, v):
        try:
            self.G.get(v)
        except Exception:       # noqa: BLE001
            return True
        return False

    def op_clear(self):
        self.dead += self.methods
        self.methods, self.vals, self.unknown = [], {}, set()
        self.call("clear", self.G.clear)
        self.dirty = False
        self.ctx.ev("cleared")
        self.observe("after clear", True)

    def op_propagate(self):
        err = self.call("propagate", self.G.propagate)
        self.settle("propagate", err, True)

    def op_execute(self):
        if not self.methods:
            return
        m = self.rng.choice(self.methods)
        err = self.call("execute", self.G.execute, m)
        self.settle("execute", err, True)

    def op_retune(self):
        """A method whose computation has changed is brought up to date by executing it."""
        rng = self.rng
        cand = [m for m in self.methods if hasattr(m, "fault")]
        if not cand or any(m.fault for m in cand):
            return
        m = rng.choice(cand)
        style = "int" if self.flavour != "any" else rng.choice(INJECTIVE)
        m.fn = make_fn(style, [rng.randrange(1, MOD) for _ in m.inputs], rng.randrange(MOD), len(m.outputs))
        m.style = style
        err = self.call("execute", self.G.execute, m)
        self.ctx.ev("methods executed after their computation changed")
        self.settle("execute of a method whose computation changed", err, True)

    def op_refused(self):
        rng, G = self.rng, self.G
        unknown = [v for v in self.pool if v not in self.vals] + ["never added", ("no", "such")]
        v = rng.choice([u for u in unknown if u not in self.vals])
        L = self.lib
        stranger = rng.choice([m for m in self.dead] or [L.AddMethod("p", "q", "r")])
        kind = rng.choice(["set", "set deferred", "get", "rem_variable", "rem_method", "execute"])
        self.ctx.log("refused", kind, v)
        if kind == "set":
            self.ctx.raises(G.set, v, 1)
        elif kind == "set deferred":
            self.ctx.raises(G.set, v, 1, prop=False)
        elif kind == "get":
            self.ctx.raises(G.get, v)
        elif kind == "rem_variable":
            self.ctx.raises(G.rem_variable, v)
        elif kind == "rem_method":
            self.ctx.raises(G.rem_method, stranger)
        else:
            self.ctx.raises(G.execute, stranger)
        self.ctx.ev("refused operations: " + kind)
        self.observe("after a refused " + kind, False)

    def arm(self):
        """Make some user method fail at a coming execution."""
        cand = [m for m in self.methods if hasattr(m, "fault") and not m.fault]
        if cand:
            m = self.rng.choice(cand)
            m.fault = self.rng.choice([1, 1, 1, 2, 3])
            m.skip = self.rng.choice([0, 0, 0, 1, 2])
            self.ctx.log("arm fault", m.name, m.fault, m.skip)

    def disarm(self):
        for m in self.methods + self.dead:
            if hasattr(m, "fault"):
                m.fault = m.skip = 0

    # ---------------------------------------------------------------- prepared topologies
    def build(self, kind=None):
        """Add a structured acyclic graph; insertion orders are random."""
        rng = self.rng
        kind = kind or rng.choice(["chain", "ladder", "diamonds", "fan", "layers", "layers", "butterfly", "wide"])
        names = list(self.pool)
        n = len(names)
        specs = []
        if kind == "chain":
            specs = [([a], [b]) for a, b in zip(names, names[1:])]
        elif kind == "ladder":
            specs = [(names[max(0, i - 2):i], [names[i]]) for i in range(1, n)]
        elif kind == "diamonds":
            i = 0
            while i + 3 < n:
                a, b, c, d = names[i:i + 4]
                specs += [([a], [b]), ([a], [c]), ([b, c], [d])]
                i += 3
        elif kind == "fan":
            k = max(1, n // 3)
            specs = [(rng.sample(names[:k], rng.randint(1, min(k, 4))), [v]) for v in names[k:]]
        elif kind == "wide":
            k, l = rng.choice([(n // 2, 1), (n // 2, n // 4), (1, n // 2), (n // 3, n // 3)])
            k, l = max(1, k), max(1, l)
            specs = [(names[:k], names[k:k + l])] + [([rng.choice(names[:k + l])], [v]) for v in names[k + l:][:3]]
        elif kind == "butterfly":
            k = max(1, n // 4)
            specs = [([names[0]], [v]) for v in names[1:1 + k]] + [(names[1:1 + k], [v]) for v in names[1 + k:1 + 2 * k]] + \
                    [([v], [w]) for v, w in zip(names[1 + k:1 + 2 * k], names[1 + 2 * k:1 + 3 * k])]
        else:
            i = max(1, n // 4)
            while i < n:
                outs = names[i:i + rng.choice([1, 1, 2])]
                specs.append((rng.sample(names[:i], min(i, rng.randint(1, 4))), outs))
                i += len(outs)
        base = [v for v in names if not any(v in o for _, o in specs)]
        order = rng.choice(["forward", "backward", "random", "random"])
        if order == "backward":
            specs.reverse()
        elif order == "random":
            rng.shuffle(specs)
        early = rng.random()
        for v in base:
            if rng.random() < early:
                self.vals[v] = x = self.value()
                self.call("add_variable", self.G.add_variable, v, x)
        for ins, outs in specs:
            self.do_add(self.new_method(ins, outs))
            if rng.random() < .1:
                self.op_set()
        for v in base:
            if v in self.vals and self.vals[v] is None and rng.random() < .8:
                self.do_set(v, self.value())
        self.ctx.ev("topology " + kind)


class LongChain:
    """A plain chain of methods, longer than any recursion limit; each adds one to its input."""

    def __init__(self, ctx, n, prop=True):
        L = self.lib = lib()
        chain = self

        class Next(L.Method):
            def __init__(self, i):
                super().__init__("next%d" % i, [chain.names[i]], [chain.names[i + 1]])
                self.i = i

            def execute(self, inmap):
                chain.count += 1
                if self.i == chain.broken:
                    raise ValueError("broken")
                return {self.outputs[0]: inmap[self.inputs[0]] + 1}
        self.ctx, self.n, self.count, self.broken = ctx, n, 0, None
        self.names = gen.names(ctx.rng, n + 1, ctx.rng.choice(["int", "str"]))
        self.G = L.MethodGraph()
        self.value = ctx.rng.randint(1, 99)
        self.G.add_variable(self.names[0], self.value)
        self.methods = [Next(i) for i in range(n)]
        self.Next = Next
        for m in self.methods:
            self.G.add_method(m, prop=prop)

    def set(self, x, prop=True):
        self.value = x
        self.G.set(self.names[0], x, prop=prop)

    def judge(self, what):
        for i, v in enumerate(self.names):
            if self.G.get(v) != self.value + i:
                self.ctx.check(False, "a long chain is not up to date " + what, i, self.n, self.G.get(v), self.value + i)
        self.ctx.check(True, "")
        self.ctx.ev("long chains compared")
        self.ctx.state(("long chain", what, self.n // 100))
