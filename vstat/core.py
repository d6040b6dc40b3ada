"""Check runner: obligations, violations, known findings, evidence."""
import importlib
import json
import os
import pickle
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VSTAT_REPO', '/repo')
KNOWN = os.path.join(ROOT, 'known_findings.txt')


def load_known(pid):
    """Lines `property=<id> key=<key> :: text` (finding entries only)."""
    out = {}
    if not os.path.isfile(KNOWN):
        return out
    with open(KNOWN, encoding='utf-8') as f:
        for line in f:
            line = line.strip()
            if not line.startswith('finding: '):
                continue
            parts = dict(p.split('=', 1) for p in
                         line[9:].split(' :: ')[0].split(' ') if '=' in p)
            if parts.get('property') == pid:
                out[parts['key']] = line.split(' :: ', 1)[-1]
    return out


class Ctx:
    """What a check reports into."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == 'quick'
        self.repo = REPO
        self.t0 = time.time()
        self.viol = {}
        self.obl = 0
        self.undecided = {}
        self.funcs = set()
        self.stmts = set()
        self.rules = []
        self.scenarios = 0
        self.extra = {}
        self.assumptions = []
        self.steps = 0
        self.calls = 0
        self.unmodelled = {}
        self.shard, self.nshard, self.k = 0, 1, -1

    # -- work sharing between processes
    def mine(self, k=None):
        """True if this process handles the next (or k-th) work item."""
        if k is None:
            self.k += 1
            k = self.k
        return k % self.nshard == self.shard

    @property
    def first(self):
        return self.shard == 0

    def state(self):
        return dict(viol=self.viol, obl=self.obl, undecided=self.undecided,
                    funcs=self.funcs, rules=self.rules,
                    scenarios=self.scenarios, extra=self.extra,
                    assumptions=self.assumptions, steps=self.steps,
                    calls=self.calls, unmodelled=self.unmodelled)

    def merge(self, d):
        for k, v in d['viol'].items():
            if k in self.viol:
                self.viol[k]['count'] += v['count']
            else:
                self.viol[k] = v
        for k, v in d['undecided'].items():
            self.undecided[k] = self.undecided.get(k, 0) + v
        for k, v in d['unmodelled'].items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + v
        for k in ('obl', 'scenarios', 'steps', 'calls'):
            setattr(self, k, getattr(self, k) + d[k])
        self.funcs |= d['funcs']
        for r in d['rules']:
            self.rule(r)
        for a in d['assumptions']:
            if a not in self.assumptions:
                self.assumptions.append(a)
        for k, v in d['extra'].items():
            o = self.extra.get(k)
            if o is None:
                self.extra[k] = v
            elif isinstance(v, (int, float)):
                self.extra[k] = o + v
            elif isinstance(v, list):
                self.extra[k] = o + [i for i in v if i not in o]
            elif isinstance(v, dict):
                o.update(v)

    # -- reporting
    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def ok(self, n=1):
        self.obl += n

    def violation(self, key, msg, where=''):
        key = key.replace(' ', '_')
        self.obl += 1
        if key not in self.viol:
            self.viol[key] = {'key': key, 'where': where, 'message': msg,
                              'count': 0}
        self.viol[key]['count'] += 1

    def undec(self, what, n=1):
        self.undecided[what] = self.undecided.get(what, 0) + n

    def covered(self, eng):
        for m, f in eng.callstats:
            self.funcs.add(f'{m}.{f}')
        self.steps += eng.total_steps
        self.calls += sum(eng.callstats.values())
        eng.total_steps = 0
        eng.callstats = {}
        for k, v in eng.unknown_calls.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + v
        eng.unknown_calls.clear()


def sharded(mod, ctx, n):
    """Run the check in n forked processes, each on its share of the work."""
    if n <= 1:
        mod.check(ctx)
        return
    kids = []
    sys.stdout.flush()
    for i in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 1
            try:
                ctx.shard, ctx.nshard = i, n
                try:
                    mod.check(ctx)
                    out = ('ok', ctx.state())
                except Exception as ex:
                    out = ('err', f'{type(ex).__name__}: {ex}\n'
                           + traceback.format_exc(), ctx.state())
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(out, f)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    err = None
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            kind, *st = pickle.loads(data)
        except Exception:
            kind, st = 'err', ['worker process ended without a result']
        ctx.merge(st[-1]) if len(st) > 1 or kind == 'ok' else None
        if kind != 'ok':
            err = st[0]
    if err:
        # What was decided before the failure counts; the rest is reported
        # as not analysed.
        if not ctx.obl and not ctx.viol:
            raise RuntimeError(err)
        ctx.undec('INCOMPLETE: ' + err.split('\n')[0])
        print(f'INCOMPLETE: part of the analysis failed: {err}')


def run(pid, tier, seed):
    mod = importlib.import_module(f'vstat.checks.{pid.lower()}')
    ctx = Ctx(pid, tier, seed)
    sys.setrecursionlimit(20000)
    n = int(os.environ.get('VSTAT_JOBS', '0')) or min(
        8, os.cpu_count() or 1, getattr(mod, 'JOBS', 8))
    try:
        sharded(mod, ctx, n)
        if not ctx.obl or not ctx.scenarios:
            raise RuntimeError('the analysis covered nothing')
    except Exception as ex:
        traceback.print_exc()
        print(f'ERROR property={pid}: the analysis could not complete '
              f'({type(ex).__name__}: {ex})')
        return 2
    known = load_known(pid)
    new = [v for k, v in ctx.viol.items() if k not in known]
    old = [v for k, v in ctx.viol.items() if k in known]
    for v in old:
        print(f'KNOWN-FINDING: property={pid} {v["key"]}: '
              f'{known[v["key"]]}')
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    level = getattr(mod, 'LEVEL', 'other')
    cov = {
        'explanation': getattr(mod, 'EXPLAIN', (mod.__doc__ or '').strip()),
        'rules': ctx.rules,
        'obligations': ctx.obl,
        'undecided': ctx.undecided,
        'scenarios': ctx.scenarios,
        'functions_analysed': sorted(ctx.funcs),
        'call_edges_interpreted': ctx.calls,
        'abstract_steps': ctx.steps,
        'unmodelled_externals': ctx.unmodelled,
    }
    cov.update(ctx.extra)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': cov,
        'assumptions': getattr(mod, 'ASSUME', []) + ctx.assumptions,
        'wall_s': round(time.time() - ctx.t0, 2),
        'violations': len(new),
    }
    cov['known_findings'] = [v['key'] for v in old]
    cov['violating_constructs'] = [
        f"{v['where']}: {v['message']} [{v['key']}]" for v in new]
    with open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{pid} [{tier}]: {ctx.obl} obligations, {ctx.scenarios} '
          f'scenarios, {len(ctx.funcs)} functions, {len(ctx.undecided)} '
          f'undecided kinds, {ev["wall_s"]} s')
    if new:
        rp = os.path.join(ROOT, 'evidence', f'{pid}.violations.json')
        with open(rp, 'w') as f:
            json.dump(new, f, indent=1)
        for v in new:
            print(f"  {v['where']}: {v['message']} [{v['key']}]")
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    return 0


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier')+1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return run(pid, tier, seed)
