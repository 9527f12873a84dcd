"""Driver shared by all checks: obligations, known findings, evidence, verdict."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')


class Broken(Exception):
    """the analysis lost one of its anchors."""


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.obs = {}          # (rule, construct) -> record
        self.order = []
        self.notes = {}
        self.assumptions = []
        self.errors = []
        self.explanation = ''
        self.rules = {}
        self.functions = set()
        self._prog = None

    @property
    def prog(self):
        if self._prog is None:
            from .engine import Program
            self._prog = Program(REPO)
            if not self._prog.all_modules():
                raise Broken('no source modules found under %s' % REPO)
        return self._prog

    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, construct, status, detail='', where=''):
        """status: 'ok' (discharged), 'undecided' (recorded, no verdict), 'bad' (violation)."""
        k = (rule, construct)
        old = self.obs.get(k)
        rank = {'ok': 0, 'undecided': 1, 'bad': 2}
        if old is None:
            self.order.append(k)
        elif rank[old['status']] >= rank[status]:
            return
        self.obs[k] = {'rule': rule, 'construct': construct, 'status': status, 'detail': str(detail), 'where': str(where)}

    def ok(self, rule, construct, detail='', where=''):
        self.ob(rule, construct, 'ok', detail, where)

    def bad(self, rule, construct, detail='', where=''):
        self.ob(rule, construct, 'bad', detail, where)

    def undecided(self, rule, construct, detail='', where=''):
        self.ob(rule, construct, 'undecided', detail, where)

    def need(self, cond, what):
        if not cond:
            raise Broken('anchor lost: ' + what)

    def guard(self, rule, construct, fn):
        """run one analysis; an internal failure of the analyser makes this obligation undecided."""
        try:
            return fn()
        except Broken:
            raise
        except Exception as e:   # noqa
            tb = traceback.extract_tb(sys.exc_info()[2])
            at = ' > '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
            self.errors.append('%s %s: %s: %s (%s)' % (rule, construct, type(e).__name__, e, at))
            self.undecided(rule, construct, 'analyser: %s: %s' % (type(e).__name__, e))
            return None

    def min_ok(self, rule, n):
        k = sum(1 for r in self.obs.values() if r['rule'] == rule and r['status'] != 'undecided')
        if k < n:
            raise Broken('rule %s decided only %d obligations, at least %d expected' % (rule, k, n))


def load_known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            r = json.loads(line)
            if r.get('property') == pid and r.get('status') == 'known':
                out[(r['rule'], r['construct'])] = r
    return out


def main(argv=None):
    argv = sys.argv[1:] if argv is None else argv
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1:
        tier = argv[1]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    import importlib
    mod = importlib.import_module('sa.checks.' + pid.lower())
    ctx = Ctx(pid, tier, seed)
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    broken = None
    try:
        mod.run(ctx)
    except Broken as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    known = load_known(pid)
    bad, kn = [], []
    for k in ctx.order:
        r = ctx.obs[k]
        if r['status'] == 'bad':
            (kn if k in known else bad).append(r)
    counts = {}
    for r in ctx.obs.values():
        c = counts.setdefault(r['rule'], {'ok': 0, 'undecided': 0, 'bad': 0})
        c[r['status']] += 1
    total = len(ctx.obs)
    okn = sum(1 for r in ctx.obs.values() if r['status'] == 'ok')
    und = [r for r in ctx.obs.values() if r['status'] == 'undecided']
    samples = [ctx.obs[k] for k in ctx.order if ctx.obs[k]['status'] == 'ok'][:6]
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': ctx.explanation,
            'rules_applied': ctx.rules,
            'rule_instances': total,
            'proved_instances': okn,
            'undecided_instances': len(und),
            'violating_instances': len(bad),
            'known_finding_instances': len(kn),
            'per_rule': counts,
            'modules_parsed': len(ctx._prog.mods) if ctx._prog is not None else 0,
            'functions_analysed': len(ctx.functions),
            'undecided': ['%s | %s | %s' % (r['rule'], r['construct'], r['detail']) for r in und][:400],
            'samples': samples,
            'notes': ctx.notes,
        },
        'assumptions': ctx.assumptions,
        'wall_s': round(time.time() - t0, 3),
        'violations': len(bad),
    }
    if ctx.errors:
        evidence['coverage']['analyser_errors'] = ctx.errors[:50]
    if broken:
        evidence['coverage']['broken'] = broken
    with open(os.path.join(ev, pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True, default=str)
        f.write('\n')
    print('%s [%s] rule instances: %d, proved: %d, undecided: %d, violations: %d, known: %d (%.1fs)' % (
        pid, tier, total, okn, len(und), len(bad), len(kn), time.time() - t0))
    for r in kn:
        print('KNOWN-FINDING: property=%s %s: %s -- %s' % (pid, r['rule'], r['construct'], r['detail']))
    if bad:
        rp = os.path.join(ev, pid + '.violation.json')
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'violations': bad, 'how': 'static report: each entry names the rule, the construct and the source position that breaks it; re-run `python3 -W ignore -m sa %s` in /verif to reproduce' % pid}, f, indent=1)
            f.write('\n')
        for r in bad:
            print('  violated: [%s] %s -- %s (%s)' % (r['rule'], r['construct'], r['detail'], r['where']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if broken:
        sys.stderr.write('ANALYSIS-BROKEN %s: %s\n' % (pid, broken))
        return 2
    return 0
