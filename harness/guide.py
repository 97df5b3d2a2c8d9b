"""Choose, from many candidate inputs, few that make the code go different ways.

Only a means of choosing inputs: which lines of the package a candidate executes, and which arm of
the model's limits its outcome lies on, decide whether it is worth judging; the specification alone
decides whether the outcome is right.
"""
import os
import sys

import rec

_SRC = os.path.realpath(os.path.join(rec.REPO, 'src')) + os.sep
_known = {}
_keep = []                                # so that no id is used twice


def _mine(co):
    v = _known.get(id(co))
    if v is None:
        _keep.append(co)
        v = _known[id(co)] = os.path.realpath(co.co_filename).startswith(_SRC)
    return v


class Lines:
    """Records the lines of the package executed, while open."""

    def __enter__(self):
        self.seen = seen = set()
        mon = sys.monitoring
        self.on = mon.get_tool(mon.COVERAGE_ID) is None     # another tool holds the id: do without
        if not self.on:
            return self
        mon.use_tool_id(mon.COVERAGE_ID, 'itmguide')
        mon.restart_events()

        def line(co, n):
            if _mine(co):
                seen.add((co.co_name, n))
                return None
            return mon.DISABLE
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
        return self

    def __exit__(self, *a):
        if self.on:
            mon = sys.monitoring
            mon.set_events(mon.COVERAGE_ID, 0)
            mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, None)
            mon.free_tool_id(mon.COVERAGE_ID)

    def of(self, fn):
        """(lines, result) of one call."""
        self.seen.clear()
        out = fn()
        return frozenset(self.seen), out


def choose(cands, run, want, per=3):
    """Of the candidates, about `want`: up to `per` of every signature, rare ones first.

    run(cand) -> hashable tags; the signature is the tags with the lines executed."""
    groups = {}
    with Lines() as ln:
        for c in cands:
            groups.setdefault(ln.of(lambda: run(c)), []).append(c)
    order = sorted(groups.values(), key=len)
    out = []
    for rank in range(max(per, 1)):
        for g in order:
            if rank < len(g):
                out.append(g[rank])
            if len(out) >= want:
                return out, len(groups)
    return out, len(groups)


def edges(cands, run, along, want, rnd):
    """Inputs close to, and on both sides of, places where the code changes its way.

    along(cand) -> a function of t in [0, 1] giving candidates; where its ends go different ways a
    change-over is found by bisection. Of every kind of change-over some are kept, rare ones first."""
    found = {}
    with Lines() as ln:
        def way(c):
            return ln.of(lambda: run(c))
        for c in cands:
            at = along(c)
            a, b = way(at(0.0)), way(at(1.0))
            if a == b:
                continue
            lo, hi = 0.0, 1.0
            for _ in range(16):
                m = (lo + hi) / 2
                s = way(at(m))
                if s == a:
                    lo = m
                else:
                    hi, b = m, s
            kind = (a[0] ^ b[0], tuple(i for i, (u, v) in enumerate(zip(a[1], b[1])) if u != v))
            found.setdefault(kind, []).append((at, hi))
    order = sorted(found.values(), key=len)
    out = []
    rank = 0
    while len(out) < want and any(rank < len(g) for g in order):
        for g in order:
            if rank < len(g):
                at, t = g[rank]
                e = rnd.choice([5e-5, 1e-3, 4e-3, 1e-2, 3e-2])
                out += [at(max(t - e, 0.0)), at(min(t + e, 1.0))]
        rank += 1
    return out[:want], len(found)


def roots(cands, margins, along, each, rnd):
    """Inputs close to, and on both sides of, the zeros of the given margins.

    margins(cand) -> numbers (None where undefined); for every margin up to `each` zeros are sought."""
    found = {}
    for c in cands:
        at = along(c)
        a, b = margins(at(0.0)), margins(at(1.0))
        for i, (u, v) in enumerate(zip(a, b)):
            if u is None or v is None or (u > 0) == (v > 0) or len(found.setdefault(i, [])) >= each:
                continue
            lo, hi = 0.0, 1.0
            for _ in range(16):
                m = (lo + hi) / 2
                x = margins(at(m))[i]
                if x is None:
                    break
                if (x > 0) == (u > 0):
                    lo = m
                else:
                    hi = m
            else:
                e = rnd.choice([5e-5, 1e-3, 4e-3, 1e-2, 3e-2])
                found[i] += [at(max(hi - e, 0.0)), at(min(hi + e, 1.0))]
    return found
