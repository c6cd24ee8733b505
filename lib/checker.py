"""The check of one property: builds the driver from /repo, runs scenarios of the property's families
in the real code, has TLC decide whether each recorded execution is a behaviour of the specification,
and model checks the specification itself."""
import atexit, json, os, random, re, shutil, signal, sys, tempfile, time, traceback
import build, conc, families, model, plan, runner, tlc
VERIF = build.VERIF
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
QUICK_TMO, THOROUGH_BUDGET = 10, 540


def findings(prop):
    """deviations listed for the property: {name: text}"""
    r = {}
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r'finding: property=(\S+) deviation=(\S+) (.*)', l)
            if m and m.group(1) == prop: r[m.group(2)] = m.group(3).strip()
    return r


def scenario(fam, prop, seed, rnd, i):
    name = '%s/%s/%d/%d/%d' % (fam, prop, seed, rnd, i)
    return from_name(name)


def from_name(name):
    fam = name.split('/')[0]
    mod = next(m for m in (conc, families, model) if hasattr(m, fam))
    s = getattr(mod, fam)(random.Random(name), name)
    s.family = fam
    return s


def threads(s): return getattr(s, 'threads', False)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.work = tempfile.mkdtemp(prefix='mnverif.', dir=base)
        atexit.register(lambda: shutil.rmtree(self.work, ignore_errors=True))
        for sg in (signal.SIGTERM, signal.SIGINT): signal.signal(sg, lambda *a: sys.exit(2))
        self.known = findings(prop)
        self.seen_known = {}
        self.violations = []
        self.n = dict(states=0, transitions=0, traces=0, ops=0, images=0, runs=0, undecided=0, faults=0, kills=0)
        self.fams = {}
        self.samples = []
        self.models = []
        self.scheds = {}

    def prepare(self):
        fams = [f[0] for f in plan.PLAN[self.prop]] + (['spec'] if plan.MODELS.get(self.prop) else []) + (['conc_pre'] if plan.PRE.get(self.prop) else [])
        b = os.path.join(self.work, 'build')
        if not all(hasattr(conc, f) for f in fams): self.R = runner.Runner(build.build(b), self.work, QUICK_TMO)
        if any(hasattr(conc, f) for f in fams): self.RT = runner.Runner(build.build_threads(b), self.work + '/t', 2 * QUICK_TMO)

    def execute(self, scns, **k):
        a, b = [s for s in scns if not threads(s)], [s for s in scns if threads(s)]
        if a: self.R.execute(a, **k)
        if b: self.RT.execute(b, **k)

    # -- one family's scenarios
    def judge(self, scns, deviations=()):
        fails = []
        groups = {}
        for s in scns: groups.setdefault((tuple(getattr(s, 'want', None) or plan.WANT.get(s.family, plan.DEFAULT_WANT)), tuple(plan.REC.get(s.family, ['kv']))), []).append(s)
        mods = {}
        for (w, rw), g in groups.items():
            for s in g:
                s.tr, problem = s.trace(s.out, w, rw)
                if problem: fails.append(runner.Failure(s, len(s.tr['ops']), problem))
                else: mods.setdefault('MonotoneConc' if threads(s) else 'MonotoneTrace', []).append(s)
        for mod, idx in mods.items():
            traces = [s.tr for s in idx]
            try:
                acc, rej, st = tlc.check_traces(mod, traces, self.work, timeout=240, deviations=deviations)
            except tlc.TlcError as e:
                self.n['undecided'] += len(traces)
                sys.stderr.write(str(e)[-2000:] + '\n')
                continue
            for i, r in sorted(rej.items()):
                fails.append(runner.Failure(idx[i], r['op'], 'not a behaviour of the specification', r['detail']))
            # what else is wrong with them is the matter of another property
            only = plan.HANGS.get(self.prop, ())
            for f in [f for f in fails if f.scn.family in only and f.text.startswith('not a behaviour')]:
                fails.remove(f)
                sys.stderr.write('another property: %s line %d %s\n' % (f.scn.name, f.op, f.text))
            if not deviations:
                self.n['states'] += st['distinct']; self.n['transitions'] += st['states']
                self.n['traces'] += len(acc)
        return fails

    def count(self, scns):
        for s in scns:
            f = self.fams.setdefault(s.family, dict(executions=0, statements=0, crash_images=0, faults_hit=0, kills=0))
            f['executions'] += 1; f['statements'] += len(s.tr['ops']); f['crash_images'] += s.images
            f['faults_hit'] += sum(1 for o in s.tr['ops'] if o.get('fault'))
            f['kills'] += sum(1 for o in s.tr['ops'] if o.get('t') == 'killed')
        if len(self.samples) < 4:
            s = scns[len(self.samples) * 7 % len(scns)]
            self.samples.append(dict(scenario=s.name, script=[l for l in s.script().split('\n') if not l.startswith(('q set', 'recset'))][:25],
                                     statements=len(s.tr['ops']), crash_images=s.images))

    def distinct(self, scns):
        """many schedules have the same history: one of them is judged"""
        seen, out = {}, []
        for s in scns:
            if s.family != 'conc_pre': out.append(s); continue
            s.tr, _ = s.trace(s.out)
            w = self.scheds.setdefault(s.name.split('/')[-1].split('.')[0], dict(schedules=0, histories=0))
            w['schedules'] += 1
            k = json.dumps([s.tr['init'], s.tr['ops']], default=str)
            if k not in seen: seen[k] = 1; out.append(s); w['histories'] += 1
        return out

    # -- enumerated schedules
    def bases(self, pairs):
        todo = [p for p in sorted(set(pairs)) if p not in conc.BASES]
        scns = [from_name('pre_base/%s/%d/0/%s' % ((self.prop, self.seed) + ('.'.join(p),))) for p in todo]
        self.RT.execute(scns)
        for s in scns: conc.pre_result(s)

    def pre(self, rnd):
        m = plan.PRE.get(self.prop)
        if not m: return []
        r = random.Random('pre/%s/%d/%d' % (self.prop, self.seed, rnd))
        worlds, n = m['worlds'], m['quick' if self.tier == 'quick' else 'thorough']
        # pairs in turn, so that all of them are seen
        cells = []
        for _ in range(n // 3):
            w = r.choice(worlds)
            o = conc.WORLDS[w]
            c = (r.choice(o), r.choice(o), r.choice(o) if r.random() < .3 else None)
            if conc.pre_ok(*c): cells.append((w,) + c)
        self.bases([c[:3] for c in cells] + [(w, a, b2) for w, a, b, b2 in cells if b2])
        return [from_name('conc_pre/%s/%d/%d/%s' % (self.prop, self.seed, rnd, x)) for x in sorted({conc.pre_random(r, *c) for c in cells for _ in range(3)})]

    def pre_complete(self):
        """every schedule with one switch of every pair of operations, as far as time allows"""
        m = plan.PRE.get(self.prop)
        if not m or self.tier == 'quick': return
        for w in m['complete']:
            o = conc.WORLDS[w]
            self.bases([(w, a, b) for a in o for b in o])
            names = list(conc.pre_all(w))
            random.Random('%s/%d' % (w, self.seed)).shuffle(names)
            c = self.scheds.setdefault('all pairs, one switch: ' + w, dict(pairs=len(o) ** 2, schedules=len(names), executed=0))
            while names:
                if self.violations or time.time() - self.t0 > .7 * THOROUGH_BUDGET: return
                part, names = names[:4000], names[4000:]
                self.batch([from_name('conc_pre/%s/%d/a/%s' % (self.prop, self.seed, x)) for x in part])
                c['executed'] += len(part)

    def batch(self, scns):
        self.execute(scns)
        scns = [s for s in scns if s.out is not None]
        fails = self.judge(self.distinct(scns))
        self.count(scns)
        if not fails: return
        if len(fails) > 12: fails = random.Random(0).sample(fails, 12)
        # every rejected execution has to be rejected again
        again = [from_name(f.scn.name) for f in fails]
        self.execute(again, mdrv_tmo=40, max_hung=100)
        first = {f.scn.name: f for f in fails}
        fails2 = self.judge(again)
        if len(fails2) < len(fails):
            # schedules differ from run to run: what was seen once counts when its record is explained by nothing else
            names = set(f.scn.name for f in fails2)
            for f in fails:
                if f.scn.name in names: continue
                if f.scn.family in plan.RACY: fails2.append(f)
                else: sys.stderr.write('not repeatable: %s line %d %s\n' % (f.scn.name, f.op, f.text))
        if fails2 and self.known:
            rest = []
            groups = [f for f in fails2 if f.text.startswith('not a behaviour')]
            rest = [f for f in fails2 if f not in groups]
            for dev, text in self.known.items():
                if not groups: break
                bad = set(f.scn.name for f in self.judge([f.scn for f in groups], deviations=[dev]))
                for f in groups:
                    if f.scn.name not in bad: self.seen_known[dev] = self.seen_known.get(dev, 0) + 1
                groups = [f for f in groups if f.scn.name in bad]
            if groups and len(self.known) > 1:
                bad = set(f.scn.name for f in self.judge([f.scn for f in groups], deviations=list(self.known)))
                groups = [f for f in groups if f.scn.name in bad]
            fails2 = groups + rest
        self.violations += fails2

    def replay_file(self, f):
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s.json' % (self.prop, re.sub(r'[^A-Za-z0-9]+', '-', f.scn.name)))
        s = f.scn
        with open(p, 'w') as h:
            json.dump(dict(property=self.prop, scenario=s.name, family=s.family, what=f.text, statement=f.op,
                           operation=(s.tr['ops'] if threads(s) else s.ops)[f.op:f.op + 1], detail=[str(x) for x in f.detail],
                           script=s.script().split('\n'), trace=s.tr, record=s.out.split('\n')), h, indent=1, default=str)
        return p

    def report(self):
        for dev, text in self.known.items():
            print('KNOWN-FINDING: property=%s deviation=%s %s' % (self.prop, dev, text))
        seen = set()
        for f in self.violations[:5]:
            if f.scn.name in seen: continue
            seen.add(f.scn.name)
            p = self.replay_file(f)
            print('%s: statement %d of %s: %s %s' % (self.prop, f.op, f.scn.name, f.text, ' | '.join(str(x)[:600] for x in f.detail[:3])))
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
        cov = dict(states=self.n['states'], transitions=self.n['transitions'], traces_validated_against_impl=self.n['traces'],
                   executions_by_family=self.fams, samples=self.samples, models=self.models, enumerated_schedules=self.scheds,
                   statements_executed=sum(f['statements'] for f in self.fams.values()),
                   crash_images_recovered=sum(f['crash_images'] for f in self.fams.values()),
                   traces_explained_only_by_known_findings=self.seen_known, undecided=self.n['undecided'])
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                  wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as h: json.dump(ev, h, indent=1, default=str)
        if not self.violations and self.n['undecided'] and not self.n['traces']: return 2
        print('%s %s: %d executions, %d statements, %d crash images explained by the specification, %d violations, %.0f s' %
              (self.prop, self.tier, self.n['traces'], cov['statements_executed'], cov['crash_images_recovered'], len(self.violations), ev['wall_s']))
        return 1 if self.violations else 0

    def model(self):
        """the specification itself: its invariants, exhaustively within small bounds and on random walks;
        the histories found there are run in the real code"""
        m = plan.MODELS.get(self.prop)
        self.paths = dict(spec=[], walk=[])
        if not m: return
        q = self.tier == 'quick'
        for worlds, depth, faults in (m['quick'] if q else m['thorough']):
            p, st = model.explore(worlds, depth, faults, self.work)
            self.paths['spec'] += p
            self.add_model('exhaustive', worlds, depth, faults, st, len(p))
        worlds, depth, faults = m['walks']
        p, st = model.explore(worlds, depth, faults, self.work, walks=5 if q else 60, seed=self.seed)
        self.paths['walk'] += p
        self.add_model('random walks', worlds, depth, faults, st, len(p))

    def add_model(self, how, worlds, depth, faults, st, n):
        self.models.append(dict(module='MonotoneMC', how=how, worlds=worlds, statements=depth, failures=faults, states=st['distinct'],
                                transitions=st['states'], histories=n, wall_s=round(st['wall'], 1)))
        self.n['states'] += st['distinct']; self.n['transitions'] += st['states']

    def from_model(self, rnd):
        """scenarios from histories of the model"""
        m = plan.MODELS.get(self.prop)
        if not m: return []
        r = random.Random('%s/%d/%d' % (self.prop, self.seed, rnd))
        out = []
        for fam in ('spec', 'walk'):
            ps = self.paths[fam]
            n = m['replay'][self.tier != 'quick']
            for p in r.sample(ps, min(n, len(ps))): out.append(from_name('%s/%s/%d/%d/%s' % (fam, self.prop, self.seed, rnd, model.code(p))))
        return out

    def run(self):
        self.prepare()
        self.model()
        self.pre_complete()
        fams = plan.PLAN[self.prop]
        rnd = 0
        while True:
            k = 1 if self.tier == 'quick' else 2
            scns = [scenario(f[0], self.prop, self.seed, rnd, i) for f in fams for i in range(f[k])] + self.from_model(rnd) + self.pre(rnd)
            t = time.time()
            self.batch(scns)
            rnd += 1
            if self.tier == 'quick' or self.violations: break
            if time.time() - self.t0 + 1.3 * (time.time() - t) > THOROUGH_BUDGET: break
        return self.report()


def replay(path):
    with open(path) as h: d = json.load(h)
    c = Check(d['property'], 'quick', 1)
    c.prepare()
    p = d['scenario'].split('/')
    if p[0] == 'conc_pre':
        w, a, bs = p[-1].split('.')[:3]
        c.bases([(w, a, b) for b in bs.split('+')])
    s = from_name(d['scenario'])
    c.execute([s], mdrv_tmo=60)
    fails = c.judge([s])
    if fails and c.known: fails = c.judge([s], deviations=list(c.known))
    print('\n'.join(s.script().split('\n')))
    for f in fails:
        print('%s: statement %d: %s %s' % (s.name, f.op, f.text, ' | '.join(str(x) for x in f.detail)))
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
    if not fails: print('explained by the specification')
    return 1 if fails else 0


def main(argv):
    try:
        if len(argv) == 2 and argv[0] == 'replay': return replay(argv[1])
        if len(argv) != 2 or argv[0] not in plan.PLAN or argv[1] not in ('quick', 'thorough'):
            print(__doc__); return 2
        return Check(argv[0], argv[1], int(os.environ.get('VERIF_SEED', '1'))).run()
    except build.BuildError as e:
        print('cannot build /repo:', e); return 2
    except Exception:
        traceback.print_exc(); return 2
