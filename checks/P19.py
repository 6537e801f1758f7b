from _fit import *
from jax.example_libraries import optimizers as jopt
from diffmah.fitting_helpers import fit_utils as fu

NP = 2
NS = 6 if THOROUGH else 4
ck = Check("P19", "Gradient descent returns the best point it visited and flags non-finite steps",
           bounds=f"any sequence of iterates in {NP} dimensions (the optimizer's update is an arbitrary function), up to {NS} "
                  "steps after up to 2 warm-ups of 2 steps, any losses >= 0; a nan or infinity in loss, gradient or "
                  "parameters at any one step; any tolerance",
           outside="more steps; two distinct iterates that coincide; the Adam update rule itself",
           assumptions=["real arithmetic", "the loss is a function of the parameters"])


def lf(c, x):
    return H.SN.lift(stack(*x) if isinstance(x, list) else x) if c.sym else (np.array(x) if isinstance(x, list) else x)


class World:
    """the optimizer and the loss: arbitrary iterates, arbitrary losses, one step gone bad"""

    def __init__(self, c, bad=None, n=12):
        self.c, self.bad = c, bad
        # distinct iterates, told apart by their first coordinate
        self.p = [[k - 6.0] + [c.real(f"p{k}_{i}", -9, 9) for i in range(1, NP)] for k in range(n)]
        self.g = [c.real(f"g{i}", -9, 9) for i in range(NP)]
        self.loss = [c.real(f"loss{k}", 0, 100) for k in range(n)]
        self.next = 1
        self.visits = []          # index of the iterate at each evaluation, in order
        self.runs = []            # step sizes of the optimizers made
        self.updates = []
        self.nan = bad is not None and bad[0]

    def index(self, p):
        if any(isinstance(x, float) and not math.isfinite(x) for x in np.asarray(p).flat):
            return None
        return int(round(float(p[0]))) + 6

    def adam(self, step_size, *a, **k):
        self.runs.append((step_size, len(self.visits)))

        def init(p):
            return ("state", p)

        def update(i, grads, state):
            self.updates.append(i)
            k = self.next
            self.next += 1
            q = lf(self.c, list(self.p[k]))
            if self.bad and self.bad[0] == "params" and len(self.visits) == self.bad[1]:
                q = q.copy()
                q[-1] = math.nan
            return ("state", q)

        def get(state):
            return state[1]
        return init, update, get

    def __call__(self, p, data):
        k = self.index(p)
        n = len(self.visits)
        self.visits.append(k)
        l_ = lf(self.c, self.loss[k]) if k is not None else math.nan
        g = lf(self.c, list(self.g))
        if self.bad and self.bad[1] == n:
            if self.bad[0] == "loss":
                l_ = self.bad[2]
            if self.bad[0] == "grad":
                g = g.copy()
                g[-1] = self.bad[2]
        return l_, g


def pick(c, world, p, loss, ks):
    """the pair (p, loss) is that of one of the visits ks, with the least loss"""
    return Or(*[And(same(p, world.p[k]), eq(loss, world.loss[k]), *[le(world.loss[k], world.loss[j]) for j in ks])
                for k in ks])


def descent(nw, tolerant, bad=None, ns=NS):
    def sc(c):
        w = World(c, bad)
        tol = c.real("tol", 0.01, 50) if tolerant else 0.0
        kw = dict(n_warmup=nw, warmup_n_step=2, step_size=0.25)
        if tolerant:
            kw["tol"] = tol
        p, loss, losses, params, ok = c.py(fu.jax_adam_wrapper, w, stack(*w.p[0]), "data", ns,
                                           attrs=[(jopt, "adam", w.adam)], replace=[(jopt.adam, w.adam)], **kw)
        losses, params = arr_(losses), arr_(params)
        seen_warm = {k for k in (w.visits[:w.runs[nw][1]] if len(w.runs) > nw else w.visits) if k is not None}
        done = Or(*[And(le(w.loss[k], tol)) for k in seen_warm]) if nw else FALSE
        c.check("main_run_unless_converged", done if len(w.runs) <= nw else TRUE)
        sizes = [s for s, _ in w.runs]
        c.check("step_sizes", TRUE if all(s == 1.25 for s in sizes[:nw]) and all(s == .25 for s in sizes[nw:]) else FALSE)
        starts = [n for _, n in w.runs] + [len(w.visits)]
        chunks = [w.visits[a:b] for a, b in zip(starts, starts[1:])]
        last = chunks[-1]
        badrun = None
        if bad:
            badrun = next((i for i in range(len(chunks)) if starts[i] <= bad[1] < starts[i + 1]), None)
        good = last[:bad[1] - starts[-2]] if badrun == len(chunks) - 1 else last
        fine = badrun != len(chunks) - 1 or len(chunks) <= nw
        c.check("flag", B(ok) if fine else Not(B(ok)))
        c.check("at_most_the_steps_asked", TRUE if len(last) <= (ns if len(chunks) > nw else 2) and
                all(len(q) <= 2 for q in chunks[:nw]) else FALSE)
        c.check("record_losses", same(losses, [w.loss[k] for k in good]), tol=1e-5)
        c.check("record_params", And(TRUE if params.shape == (len(good), NP) else FALSE,
                                     *[same(params[i], w.p[k]) for i, k in enumerate(good)][:len(params)]), tol=1e-5)
        # every visited good point, best first
        seen = []
        for i, ch in enumerate(chunks):
            ch = ch[:bad[1] - starts[i]] if i == badrun else ch
            seen += [k for k in ch if k is not None and k not in seen]
        if good:
            if tolerant:
                hit = Or(*[lt(w.loss[k], tol) for k in seen])
                c.check("best", And(Implies(Not(hit), pick(c, w, p, loss, seen)), Implies(hit, And(lt(loss, tol), Or(*[
                    And(same(p, w.p[k]), eq(loss, w.loss[k])) for k in seen])))), tol=1e-5)
                c.check("stops_at_the_tolerance", And(*[Not(lt(w.loss[k], tol)) for k in last[:-1]]))
            else:
                c.check("best", pick(c, w, p, loss, seen), tol=1e-5)
                if not bad:
                    c.check("all_steps", TRUE if len(last) == ns or len(chunks) <= nw else FALSE)
    return sc


ck.paths(descent(0, False), "plain", budget=8)
ck.paths(descent(1, False, ns=3), "warmup", budget=8)
ck.paths(descent(0, True), "tolerance", budget=8)
ck.paths(descent(1, True, ns=3), "tolerance:warmup", budget=8)
for k in range(NS):
    for what, v in (("loss", math.nan), ("loss", math.inf), ("grad", math.nan)) + ((("params", math.nan),) if k else ()):
        ck.paths(descent(0, False, (what, k, v)), f"bad:{what}:{v}:step{k}", budget=8)
for k in range(5):
    ck.paths(descent(1, False, ("loss", k, math.nan), ns=3), f"bad:loss:warmup:step{k}", budget=8)
if THOROUGH:
    ck.paths(descent(2, False, ns=3), "warmup2", budget=8)
    ck.paths(descent(2, True, ns=3), "tolerance:warmup2", budget=8)
ck.finish()
