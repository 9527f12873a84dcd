"""Evaluate relations in many random interpretations (worker processes) and turn the outcomes into verdicts."""
import multiprocessing
import os

_JOB = None


def _call(j):
    try:
        return j, _JOB(*j), None
    except BaseException as e:   # noqa
        return j, None, '%s: %s' % (type(e).__name__, str(e)[:200])


def pmap(fn, jobs, procs=None):
    """[(job, result, error)] in job order; fn may close over parsed programs (fork)."""
    global _JOB
    _JOB = fn
    procs = procs or min(8, os.cpu_count() or 1)
    if procs == 1 or len(jobs) < 2:
        return [_call(j) for j in jobs]
    with multiprocessing.get_context('fork').Pool(procs) as p:
        return p.map(_call, jobs, chunksize=1)


def warm():
    """discrete-logarithm tables are shared by the forked workers."""
    from . import mlval
    for i in range(len(mlval.CHAINS)):
        mlval.start(i, 'P')
        mlval.R.ch._table('P')
        mlval.R.ch._table('Q')
    mlval.R = None


# equal / definitely different / different but imprecise / unavailable in this field / not representable / different on a possibly infeasible trace
T, F, I, U, NA, W, Z, SD = 'T', 'F', 'i', '.', '-', 'w', 'z', 's'        # Z: both sides vanish; SD: different, with decimal constants of unknown origin involved


class Verdict:
    """outcomes of one relation over all runs."""

    def __init__(self):
        self.runs = []      # (outcome, signature, label, exact)

    def add(self, out, sig, label, detail=''):
        self.runs.append((out, sig, label, detail))

    def count(self, o):
        return sum(1 for r in self.runs if r[0] == o)

    def status(self, min_bad=3):
        """'ok' | 'bad' | 'undecided', detail.  A difference counts only if it is definite in several independent
        interpretations of the same trace (branch decisions) and no interpretation of that trace shows equality."""
        t, f, i = self.count(T) + self.count(Z), self.count(F), self.count(I)
        n = 'unavailable in %d' % self.count(U) if self.count(U) else 'not representable in %d' % self.count(NA)
        if f == 0 and self.count(SD):
            groups = {}
            for o, s, l, d in self.runs:
                if o in (T, SD, Z):
                    groups.setdefault(s, []).append((o, l))
            big = [(s, g) for s, g in groups.items() if len(g) >= 2 * min_bad and all(o == SD for o, l in g)]
            if big and not any({o for o, l in g} >= {SD, T} for g in groups.values()):
                return 'bad', 'differs in all %d interpretations of the trace [%s] (first %s)' % (len(big[0][1]), short(big[0][0]), big[0][1][0][1])
            return 'undecided', 'equal in %d, different in %d interpretations that involve rounded constants' % (t, self.count(SD))
        if f == 0:
            if t and not self.count(T) and self.count(U):
                return 'undecided', 'both sides vanish in %d interpretations, %d imprecise, %s' % (t, i, n)
            if t:
                return 'ok', 'equal in %d interpretations (%d imprecise, %s)' % (t, i, n)
            return 'undecided', 'equal in 0 interpretations, %d imprecise, %s' % (i, n)
        groups = {}
        for o, s, l, d in self.runs:
            if o in (T, F, Z):
                groups.setdefault(s, []).append((T if o == Z else o, l, d))
        badg = [(s, g) for s, g in groups.items() if all(o == F for o, _, _ in g)]
        nb = sum(len(g) for _, g in badg)
        mixed = sum(1 for g in groups.values() if len({o for o, _, _ in g}) == 2)
        big = [s for s, g in badg if len(g) >= min_bad]
        if big and not mixed:
            s = big[0]
            lab = next(l for o, l, d in dict(badg)[s])
            det = next((d for o, l, d in dict(badg)[s] if d), '')
            return 'bad', 'differs in all %d interpretations of the trace [%s] (first %s)%s' % (len(dict(badg)[s]), short(s), lab, ' ' + det if det else '')
        if t == 0 and (nb >= 2 * min_bad or nb + i >= 2 * min_bad):
            return 'bad', 'differs in all %d interpretations (first %s)' % (nb, badg[0][1][0][1])
        return 'undecided', 'equal in %d, different in %d, mixed traces %d' % (t, f, mixed)


def short(s):
    return '; '.join('%s:%s' % (w.replace('lenstronomy/', ''), ''.join({1: '>', -1: '<', 0: '='}.get(x, '?') for x in o)) for w, o in s)[:300]


def signature(run):
    # where a site is decided alike throughout, how often does not matter; otherwise the order of the decisions is the trace
    return tuple(sorted((str(w), (o[0],) if len(set(o)) == 1 else tuple(o) if len(o) <= 8 else tuple(sorted(set(o)))) for w, o in run.literals.items()))
