"""python3 sa/check.py <property> [quick|thorough]
exit 0: the property holds on everything analysed; exit 1 + VIOLATION line otherwise; exit 2: the analysis itself could not run."""
import json, os, pickle, resource, select, sys, time, traceback, importlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
os.environ.setdefault('PYTHONHASHSEED', '0')

from frontend import AnalysisBroken
import interp
import project

MODULES = ('sigs', 'keys', 'codec', 'consts', 'symm', 'rbg', 'life', 'store', 'glob', 'errs', 'show', 'share')


def registry():
    reg = {}
    for mn in MODULES:
        if os.path.exists(os.path.join(HERE, 'checks', mn + '.py')):
            mod = importlib.import_module('checks.' + mn)
            reg.update(mod.CHECKS)
    return reg


T0 = time.time()
LIMIT = [float(os.environ.get('SA_TIME', 760))]     # seconds; a check is given 900


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.violations = []
        self.undecided = []
        self.nobl = 0
        self.rules = {}
        self.scen = []
        self.known = []
        self.extra = {}
        self.proj = project.Project()
        self.kf = load_known(pid)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def scenario(self, name):
        self.scen.append(name)

    def obl(self, rule, ok, where, detail='', st=None):
        """one discharged or violated obligation of `rule` at `where`"""
        self.nobl += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if ok:
            return True
        self.viol(rule, where, detail, st)
        return False

    def viol(self, rule, where, detail='', st=None):
        if st is not None:
            um = sorted(n for n in st.notes if isinstance(n, str) and n.startswith(('unmodelled:', 'recursion-cut:', 'widening-limit:')))
            if um:
                self.undecided.append(dict(rule=rule, where=where, detail=detail[:300], because=um))
                return
        v = dict(rule=rule, where=where, detail=detail[:1500])
        for k in self.kf:
            if k['rule'] == rule and k['where'] in where:
                if k not in self.known:
                    self.known.append(k)
                return
        if v not in self.violations:
            self.violations.append(v)

    def par(self, jobs):
        """run independent scenarios (function, args) in worker processes and merge what they decided"""
        n = min(len(jobs), int(os.environ.get('SA_JOBS', os.cpu_count() or 1)))
        if n <= 1:
            for f, a in jobs:
                f(self, *a)
            return
        try:
            self.proj.tables()      # shared by the workers; whoever needs it and cannot have it says so
        except AnalysisBroken:
            pass
        broken, run, todo = [], {}, list(range(len(jobs)))
        res = [None] * len(jobs)
        while todo or run:
            while todo and len(run) < n:
                i = todo.pop(0)
                r, w = os.pipe()
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    try:
                        with os.fdopen(w, 'wb') as f:
                            pickle.dump(_worker(self, jobs[i]), f)
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        sys.stderr.flush()
                        os._exit(0)
                os.close(w)
                run[r] = (i, pid, [])
            late = time.time() > T0 + LIMIT[0]
            if late:
                # no answer would be worse than a partial one: what is not finished stays undecided
                for i, pid, _ in run.values():
                    os.kill(pid, 9)
                todo = []
            for r in select.select(list(run), [], [], 5)[0]:
                b = os.read(r, 1 << 20)
                i, pid, got = run[r]
                if b:
                    got.append(b)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del run[r]
                try:
                    res[i] = pickle.loads(b''.join(got))
                except Exception:
                    res[i] = None
        for i, r in enumerate(res):
            if r is None:
                self.scen.append('%s%r' % (jobs[i][0].__name__, jobs[i][1]))
                self.undecided.append(dict(rule='scenario', where=self.scen[-1], detail='', because=['the worker was ended (time or memory)']))
                continue
            if r['broken'] and not r['violations']:
                broken.append(r['broken'])
                self.nobl += r['nobl']
                self.undecided += r['undecided']
                continue
            self.nobl += r['nobl']
            for k, v in r['rules'].items():
                self.rules[k] = self.rules.get(k, 0) + v
            self.violations += [v for v in r['violations'] if v not in self.violations]
            self.undecided += r['undecided']
            self.scen += r['scen']
            self.known += [k for k in self.kf if k in r['known'] and k not in self.known]
            self.proj.merge(r['stats'])
        if broken:
            raise AnalysisBroken(broken[0])

    def need(self, cond, msg):
        if not cond:
            raise AnalysisBroken(msg)


def _worker(ctx, job):
    ctx.nobl, ctx.rules, ctx.violations, ctx.undecided, ctx.scen, ctx.known = 0, {}, [], [], [], []
    ctx.proj.machines, ctx.proj.merged = [], None
    f, a = job
    lim = 7 << 29
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    broken = None
    try:
        f(ctx, *a)
    except AnalysisBroken as e:
        broken = str(e)
    return dict(broken=broken, nobl=ctx.nobl, rules=ctx.rules, violations=ctx.violations, undecided=ctx.undecided, scen=ctx.scen, known=ctx.known, stats=ctx.proj.raw())


def load_known(pid):
    f = os.path.join(VERIF, 'known-findings.jsonl')
    out = []
    if os.path.exists(f):
        for ln in open(f):
            ln = ln.strip()
            if ln.startswith('{'):
                d = json.loads(ln)
                if d.get('property') == pid and d.get('status', 'known') == 'known':
                    out.append(d)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    reg = registry()
    if pid not in reg:
        print('unknown property', pid)
        return 2
    t0 = time.time()
    if tier == 'thorough' and 'SA_TIME' not in os.environ:
        LIMIT[0] = 3300
    interp.DEADLINE[0] = t0 + (3000 if tier == 'thorough' else 600)
    fn, rule_text = reg[pid]
    try:
        ctx = Ctx(pid, tier)
    except AnalysisBroken as e:
        print('ANALYSIS BROKEN property=%s: %s' % (pid, e))
        return 2
    try:
        if not getattr(fn, 'standalone', False):
            ctx.proj.layout()
        fn(ctx)
        if ctx.nobl == 0 and not ctx.undecided:
            raise AnalysisBroken('no obligation was generated: the anchored code has vanished')
    except (AnalysisBroken, interp.Budget) as e:
        if not ctx.violations and not ctx.nobl:
            print('ANALYSIS BROKEN property=%s: %s' % (pid, e))
            return 2
        ctx.undecided.append(dict(rule='rest', where='', detail='', because=[str(e)]))
    except Exception:
        traceback.print_exc()
        if not ctx.violations and not ctx.nobl:
            print('ANALYSIS BROKEN property=%s: internal error' % pid)
            return 2
        ctx.undecided.append(dict(rule='rest', where='', detail='', because=[traceback.format_exc()[-300:]]))
    s = ctx.proj.stats()
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other', wall_s=round(wall, 2),
              violations=len(ctx.violations),
              coverage=dict(explanation=rule_text, rule_instances=ctx.rules, obligations=ctx.nobl, scenarios=len(ctx.scen),
                            scenario_list=ctx.scen[:200], functions_analysed=len(s['functions']), functions=s['functions'],
                            call_sites=s['call_sites'], memory_obligations=s['memory_obligations'], transfer_steps=s['transfer_steps'],
                            state_merges=s['merges'], widenings=s['widenings'], unmodelled_externals=s['unmodelled_externals'],
                            undecided=ctx.undecided[:50], known_findings=[k['what'] for k in ctx.known], found=ctx.violations[:50], **ctx.extra))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, sort_keys=True, default=str)
    print('%s %s: %d scenario(s), %d obligation(s) under %d rule(s), %d function(s), %d call site(s), %d memory obligation(s), %.1fs' % (
        pid, tier, len(ctx.scen), ctx.nobl, len(ctx.rules), len(s['functions']), s['call_sites'], s['memory_obligations'], wall))
    for k, n in sorted(ctx.rules.items()):
        print('   rule %-40s %d' % (k, n))
    for u in ctx.undecided[:10]:
        print('   undecided: %s at %s (%s)' % (u['rule'], u['where'], ', '.join(u['because'])[:200]))
    for k in ctx.known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if ctx.violations:
        rp = os.path.join(VERIF, 'evidence', pid + '.violations.json')
        json.dump(ctx.violations, open(rp, 'w'), indent=1)
        for v in ctx.violations[:20]:
            print('   violated rule %s at %s: %s' % (v['rule'], v['where'], v['detail'][:400]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
