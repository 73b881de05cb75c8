"""Stateless exploration: depth-first enumeration of all the choice sequences of an execution.

`Chooser.choose(costs)` is called by the environment at every decision point with the cost of every
option (0 for an ordinary one, 1 for a deviation: an event delivered while the event loop still has
work to do, i.e. a preemption).  `explore` runs the execution again and again until every sequence of
choices whose total cost is within the bound has been executed exactly once.
"""
from .core import CheckError


class Chooser:
    def __init__(self, prefix=(), bound=None):
        self.prefix = list(prefix)
        self.bound = bound
        self.trace = []  # (chosen, number of admissible options)
        self.spent = 0
        self.labels = []

    def choose(self, costs, label=None):
        left = None if self.bound is None else self.bound - self.spent
        options = [i for i, c in enumerate(costs) if c == 0 or left is None or c <= left]
        if not options:
            raise CheckError("decision point without admissible option")
        k = len(self.trace)
        if k < len(self.prefix):
            pos = self.prefix[k]
            if pos >= len(options):
                raise CheckError("replay diverged: the execution is not deterministic")
        else:
            pos = 0
        self.trace.append((pos, len(options)))
        i = options[pos]
        self.spent += costs[i]
        return i

    def flip(self, n=2, label=None):
        return self.choose([0] * n, label)

    def choices(self):
        return [p for p, _ in self.trace]


def next_prefix(trace, base=0):
    t = list(trace)
    while len(t) > base:
        pos, n = t[-1]
        if pos + 1 < n:
            return [p for p, _ in t[:-1]] + [pos + 1]
        t.pop()
    return None


def explore(rep, fn, args, bound=None, limit=None, max_runs=None, prefix=()):
    """Run fn(rep, *args, chooser=c) for every choice sequence starting with prefix."""
    base = len(prefix)
    cur = list(prefix)
    runs = 0
    shared = 0
    while cur is not None and not rep.stop and not rep.out_of_time():
        c = Chooser(cur, bound)
        nv = len(rep.violations)
        rep.call(fn, *args, limit=limit, choices=c.choices, kwargs={"chooser": c})
        runs += 1
        # new decision nodes of this run: those after the common prefix with the previous run
        new = len(c.trace) - shared + 1
        rep.count(states=max(new, 1), transitions=len(c.trace), traces=1)
        if len(rep.violations) > nv:
            rep.violations[-1]["choices"] = c.choices()
            rep.violations[-1]["bound"] = bound
        nxt = next_prefix(c.trace, base)
        if nxt is not None:
            shared = len(nxt)
        cur = nxt
        if max_runs is not None and runs >= max_runs and cur is not None:
            rep.cover("truncated_explorations")
            return runs
    return runs


def replay(rep, fn, args, choices, bound=None):
    c = Chooser(choices, bound)
    rep.call(fn, *args, choices=c.choices, kwargs={"chooser": c})


def all_choices(fn):
    """Pure enumeration of a nondeterministic generator function f(chooser) -> value."""
    cur = []
    while cur is not None:
        c = Chooser(cur)
        yield fn(c)
        cur = next_prefix(c.trace)


def explore_all(rep, fn, cases, bound=None, limit=None, workers=None):
    """Explore every case (a tuple of arguments), the cases being distributed over the processors."""
    cases = list(cases)

    def job(args):
        return lambda r: explore(r, fn, args, bound=bound, limit=limit)

    rep.parallel([job(a) for a in cases], workers=workers)
