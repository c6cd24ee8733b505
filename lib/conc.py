"""Concurrent scenarios: client threads and background workers under the deterministic scheduler (harness/threads.c),
and the recorded history as a trace for spec/MonotoneConc.tla."""
import json, random
import scn

KEYS = ['-', '61', '6162', '62']


class Conc:
    module = 'MonotoneConc'
    threads = True

    def __init__(self, rng, name, interval=10, nblocks=3, serial=False, workers=None, upl=0, pre=(), cache0=None, keys=None):
        self.rng, self.name = rng, name
        self.interval, self.nblocks, self.serial = interval, nblocks, serial
        self.keys = KEYS[:keys or rng.choice([1, 2, 2, 3])]
        self.workers = rng.choice([0, 1, 2, 3]) if workers is None else workers
        self.upl = upl
        c0 = rng.random() < .6 if cache0 is None else cache0
        self.settings = ['set workers to %d' % self.workers, 'set workers_upload to %d' % upl, 'set log to false', 'set log_to_file to false',
                         'set interval to %d' % interval, 'set serial to %s' % scn.sval(serial),
                         'set mm_page_size to %d' % rng.choice([8192, 8192, 65536])] + (['set mm_cache to 0'] if c0 else []) + list(pre)
        self.lines, self.nline = ['key ' + k for k in self.keys] + ['autoobs -'], 0
        self.steps = []           # (kind, line, data)
        self.tok = 0
        self.ops = []             # text of the operations, for the report
        self.phase = 0
        self.extra_blocks = set()
        self.open()

    # -- script
    def raw(self, l): self.lines.append(l)
    def num(self, l):
        self.lines.append(l); self.nline += 1
        return self.nline
    def q(self, sql, must=True):
        n = self.num('q ' + sql)
        self.steps.append(('must' if must else 'may', n, sql))
    def open(self):
        self.num('init')
        for s in self.settings: self.num('q ' + s)
        self.steps.append(('must', self.num('open'), 'open'))
    def observe(self, contiguous=False):
        self.raw('autoobs kP')
        self.steps.append(('obs', self.num('svc 0'), contiguous))
        self.raw('autoobs -')
    def drain(self): self.num('drain')
    def idle(self):
        """all requested work has been done: nothing is left for a service call"""
        self.drain()
        if not self.workers:
            self.num('svc 60')
            return
        self.raw('autoobs P')
        a = self.num('svc 0')
        b = self.num('svc 40')
        self.raw('autoobs -')
        self.steps.append(('idle', a, b))
    def flush(self):
        """a checkpoint, executed by the workers (or by hand, when there are none)"""
        self.q('checkpoint')
        if self.workers and (self.upl or not getattr(self, 'cloudy', False)): self.drain()
        else: self.drain(); self.num('svc 60')
        self.raw('autoobs kP')
        self.steps.append(('flushed', self.num('svc 0'), None))
        self.raw('autoobs -')
    def restart(self):
        self.num('close')
        self.open()
        self.steps.append(('reopened', 0, None))
    def fault(self, spec): self.raw('fault ' + spec)
    def nofault(self): self.num('nofault')

    def sched(self):
        r = self.rng
        st = r.choice([0, 0, 0, 1])
        ps = r.choice([20, 100, 300, 600])
        pm = r.choice([0, 2000, 300, 60, 15])
        sp = r.choice([0, 0, 0, 50, 500])
        po = r.choice([ps, ps, 700])
        hz = r.choice([300, 2000, 10000, 40000])
        return '%d %d %d %d %d %d %d' % (r.randint(1, 1 << 30), st, ps, pm, sp, po, hz)

    def run(self, threads):
        """threads: list of lists of operations (dicts with t and cmd)"""
        ops, k = [], 0
        line = self.num('threads ' + self.sched())
        for t, l in enumerate(threads):
            for op in l:
                self.raw('T %d %s' % (t, op['cmd']))
                ops.append(op)
        self.raw('end')
        self.steps.append(('phase', line, ops))

    # -- operations
    def id(self):
        b = self.rng.randrange(self.nblocks)
        return b * self.interval + self.rng.choice([0, 1, 2, self.interval - 1])
    def write(self, n=None, blocks=None, dele=.2, serial=None, sizes=(3, 20, 300)):
        r = self.rng
        if serial is None: serial = self.serial and r.random() < .9
        n = n or r.choice([1, 1, 2, 3, 5])
        b = r.randrange(self.nblocks) if blocks is None and r.random() < .5 else None
        evs, toks = [], []
        for _ in range(n):
            a = self.id() if b is None else b * self.interval + r.randrange(self.interval)
            k = r.randrange(len(self.keys))
            self.tok += 1
            d = not serial and r.random() < dele
            v = -1 if d else self.tok
            evs.append(dict(id=a, k=k, v=v, serial=serial))
            toks.append('%d %d %d %d %d' % (1 if d else 0, scn.SERIAL if serial else a, k, max(v, 0), 0 if d else max(3, r.choice(sizes))))
        return dict(t='write', evs=evs, must=True, cmd='w %d %s' % (n, ' '.join(toks)))
    def scan(self):
        if self.rng.random() < .4:
            p = [self.id(), self.rng.randrange(len(self.keys))]
            return dict(t='scan', pos=p, must=True, cmd='s %d %d' % tuple(p))
        return dict(t='scan', pos=[], must=True, cmd='s')
    def maint(self, sql, must=True): return dict(t='maint', must=must, cmd='q ' + sql)
    def svc(self, n=1): return dict(t='maint', must=True, cmd='svc %d' % n)
    def drop(self):
        a = self.id()
        return dict(t='drop', id=a, must=True, cmd='q drop partition if exists %d' % a)

    def script(self): return '\n'.join(self.lines) + '\n'

    # -- record -> history
    def kv(self, raw):
        if isinstance(raw, dict): return [[-9, -9, -9]]
        return [[e[0] if 0 <= e[0] < (1 << 30) else -7, e[1], e[2]] for e in raw]
    def rows(self, raw):
        return [[p['min'], p['refreshes'], p['events_heap'] > 0 and False, p['on_storage'], p['on_cloud'], p['storage']] for p in raw]

    def trace(self, out, want=None, recwant=None):
        ev, recs, imgs, died = [], {}, {}, None
        hist, pos, stuck = {}, 0, None
        line, inside = 0, []
        for l in (out or '').splitlines():
            try: d = json.loads(l)
            except ValueError: continue
            if 'died' in d: died = d
            elif 'img' in d: imgs.setdefault((d['line'], d['pos']), []).append(d)
            elif 'begin' in d: line = d['begin']
            elif 'h' in d:
                if d['h'] in 'ir': pos += 1; d['pos'] = pos
                hist.setdefault(line, []).append(d)
            elif 'line' in d: recs[d['line']] = d
        ids = set()
        tr = dict(name=self.name, init=dict(interval=self.interval), ops=ev)
        def img(line, pos):
            rs = []
            for im in imgs.get((line, pos), ()):
                rec = im['rec']
                c = dict(ok=rec['ok'] and rec.get('ok2', True) and rec.get('ok3', True), kv=[])
                if rec['ok']:
                    c['kv'] = self.kv(rec['obs']['kv'])
                    for x in ('kv2', 'kv3'):
                        if x in rec: c[x] = self.kv(rec[x])
                if c not in rs: rs.append(c)
                ids.update(e[0] for e in c['kv'])
            if rs: ev.append(dict(e='img', recs=rs))
        self.images = sum(len(x) for x in imgs.values())
        problem = None
        def fail(what):
            ev.append(dict(e='died', what=json.dumps(died) if died else what))
        def stop():
            tr['init']['blocks'] = sorted(set(x // self.interval for x in ids if x >= 0))
            return tr, None
        basepos = 0
        done = False
        for kind, ln, data in self.steps:
            if kind == 'reopened': continue
            r = recs.get(ln)
            if kind == 'phase':
                h = hist.get(ln, [])
                ret = {d['n']: d for d in h if d['h'] == 'r'}
                for d in h:
                    if d['h'] == 'i':
                        op = {k: v for k, v in data[d['n']].items() if k != 'cmd'}
                        if op['t'] == 'write':
                            got = ret.get(d['n'], {}).get('ids', [])
                            op['evs'] = [dict(e) for e in op['evs']]
                            for j, e in enumerate(op['evs']):
                                if j < len(got): e['id'] = got[j] if got[j] < (1 << 30) else -7
                                ids.add(e['id'])
                        if op['t'] == 'scan' and d['n'] in ret:
                            op['ret'] = self.kv(ret[d['n']]['ret'])
                        ev.append(dict(e='inv', t=d['t'], op=op))
                    elif d['h'] == 'r':
                        e = dict(e='ret', t=d['t'], ok=d['ok'])
                        if data[d['n']]['t'] == 'scan':
                            got = self.kv(d['ret'])
                            e['ok'] = not any(x[0] < 0 for x in got)
                            ids.update(x[0] for x in got)
                        ev.append(e)
                    elif d['h'] == 'freed': ev.append(dict(e='freed', what=d['what'])); return stop()
                    else: ev.append(dict(e='dead', what=d['h'], w=[x for x in d['w'] if x[1] != 'done'])); return stop()
                    if 'pos' in d: img(ln, d['pos'])
                if r is None: fail('phase did not end'); return stop()
                continue
            bad = [d for l, x in hist.items() for d in x if l <= ln and d['h'] not in 'ir']
            if bad:
                d = bad[0]
                ev.append(dict(e='freed' if d['h'] == 'freed' else 'dead', what=d.get('what', d['h']), w=[x for x in d.get('w', []) if x[1] != 'done']))
                return stop()
            if r is None: fail('line %d did not return' % ln); return stop()
            if kind == 'must' and not r['ok']: ev.append(dict(e='died', what='%s: %s' % (data, r.get('err')))); return stop()
            o = r.get('obs', {})
            if kind in ('obs', 'flushed'):
                e = dict(e='obs', kv=self.kv(o['kv']))
                ids.update(x[0] for x in e['kv'])
                if data: e['contiguous'] = True
                ev.append(e)
                ev.append(dict(e='parts', ps=[[p['min'] % (1 << 31), p['max'] % (1 << 31)] for p in o['partsd']]))
                if kind == 'flushed':
                    a = [[p['min'], p['refreshes'], p['events_heap'] > 0] for p in o['partsd']]
                    ev.append(dict(e='idle', before=a, after=a))
            if kind == 'idle':
                f = lambda x: [[p['min'], p['refreshes'], False, p['on_storage'], p['on_cloud'], p['storage']] for p in x['obs']['partsd']]
                if ln not in recs or data not in recs: fail('service did not return'); return stop()
                ev.append(dict(e='idle', before=f(recs[ln]), after=f(recs[data])))
        if died: fail('')
        return stop()


def report_ops(s): return s.steps


# ------------------------------------------------------------------------------------------ families
def mixed(c, n, weights, cloud=False):
    """n operations of one client thread"""
    r = c.rng
    ops = []
    names, ws = zip(*weights.items())
    stor = ['main'] + getattr(c, 'storages', [])
    for _ in range(n):
        k = r.choices(names, ws)[0]
        a = c.id()
        if k == 'write': ops.append(c.write())
        elif k == 'scan': ops.append(c.scan())
        elif k == 'refresh': ops.append(c.maint('refresh partition if exists %d' % a, must=not cloud))
        elif k == 'refreshr': ops.append(c.maint('refresh partitions between 0 and %d' % (c.nblocks * c.interval), must=not cloud))
        elif k == 'checkpoint': ops.append(c.maint('checkpoint'))
        elif k == 'move': ops.append(c.maint('move partition if exists %d into %s' % (a, r.choice(stor)), must=not cloud))
        elif k == 'drop': ops.append(c.drop())
        elif k == 'svc': ops.append(c.svc(r.choice([1, 1, 3])))
        elif k == 'show': ops.append(c.maint(r.choice(['show partitions', 'show storages', 'show wal', 'show memory', 'show partitions debug', 'show config'])))
        elif k == 'rotate': ops.append(c.maint('debug "wal_create"'))
        elif k == 'gc': ops.append(c.maint('debug "wal_gc"'))
        elif k == 'ddl': ops.append(c.maint(r.choice(['create storage if not exists zz', 'drop storage if exists zz', 'alter storage if exists zz set (sync false)',
                                                       'set wal_rotate_wm to 100', 'set wal_rotate_wm to 100000', 'rebalance']), must=False))
        elif k == 'upload': ops.append(c.maint('upload partition if exists %d if cloud' % a, must=False))
        elif k == 'download': ops.append(c.maint('download partition if exists %d if cloud' % a, must=False))
        elif k == 'dropc' and c.droplocal: ops.append(c.scan())   # (might be the only copy)
        elif k == 'dropl': ops.append(c.maint('drop partition if exists %d on storage' % a, must=False))
        elif k == 'dropc': ops.append(c.maint('drop partition if exists %d on cloud' % a, must=False))
    return ops


def finish(c, contiguous=False):
    if c.rng.random() < .3:     # closed while the workers are busy
        c.restart()
        c.observe()
        return
    c.idle()
    c.observe(contiguous)
    if c.rng.random() < .6: c.flush()
    c.restart()
    c.observe()


def storages(c, cloud=False):
    r = c.rng
    small = lambda: 'region_size %d' % r.choice([1, 60, 400, 131072])
    rw = lambda: ', refresh_wm %d' % r.choice([0, 8192, 20000, 41943040])
    if cloud: c.q('create cloud c1 (%s)' % scn.sql_opts(scn.cloud_opts(c.name)))
    c.q('alter storage main set (%s%s)' % (small(), rw()))
    c.storages = []
    c.droplocal = cloud and r.random() < .5
    for n in ('st1', 'st2')[:r.choice([1, 1, 2])]:
        cl = ", cloud 'c1', cloud_drop_local %s" % scn.sval(c.droplocal) if cloud and (n == 'st1' or r.random() < .4) else ''
        c.q('create storage %s (%s%s%s)' % (n, small(), rw(), cl))
        c.storages.append(n)
    if cloud: c.cloudy = True
    if r.random() < .4:
        t = ['main'] + c.storages
        if cloud: t = c.storages[:]
        r.shuffle(t)
        lim = lambda: r.choice(['partitions %d' % r.randint(0, 3), 'events %d' % r.randint(1, 20), 'size %d' % r.choice([100, 1000])])
        c.q('alter pipeline set ' + ', '.join(['%s (%s)' % (x, lim()) for x in t[:-1]] + t[-1:]))


def conc_mix(rng, name):
    """writers, readers and maintenance on a few partitions"""
    c = Conc(rng, name, nblocks=rng.choice([1, 2, 2, 3, 5]))
    storages(c)
    for _ in range(rng.randint(1, 2)):
        n = rng.choice([2, 3, 3, 4])
        profiles = [dict(write=6, scan=3), dict(scan=4, write=1), dict(refresh=3, move=2, scan=1, checkpoint=1, svc=1, rotate=.5, gc=.5, show=.5, drop=.3),
                    dict(refresh=4, write=2), dict(drop=1, write=3, scan=2), dict(write=3, scan=2, refresh=1, refreshr=.5, show=.3, ddl=.5)]
        c.run([mixed(c, rng.randint(2, 7), rng.choice(profiles)) for _ in range(n)])
        if rng.random() < .5: c.drain(); c.observe()
    finish(c)
    return c


def conc_refresh(rng, name):
    """one partition under writes, scans and refreshes"""
    c = Conc(rng, name, nblocks=rng.choice([1, 1, 2]), workers=rng.choice([0, 1, 2]))
    storages(c)
    c.run([mixed(c, rng.randint(3, 6), dict(write=4, scan=1)), mixed(c, rng.randint(3, 6), dict(write=1, scan=4)),
           mixed(c, rng.randint(2, 4), dict(refresh=3, move=2))] + ([mixed(c, rng.randint(1, 4), dict(refresh=2, write=1, checkpoint=1))] if rng.random() < .5 else []))
    finish(c)
    return c


def conc_cloud(rng, name):
    c = Conc(rng, name, nblocks=rng.choice([1, 2, 3]), upl=rng.choice([0, 1, 1, 2]))
    storages(c, cloud=True)
    for _ in range(rng.randint(1, 2)):
        profiles = [dict(write=6, scan=3), dict(scan=4, write=1), dict(move=4, refresh=2, upload=2, download=1, dropc=1, svc=1),
                    dict(refresh=3, write=2, upload=1), dict(checkpoint=2, write=2, svc=1), dict(drop=1, dropc=1, write=2, scan=1)]
        c.run([mixed(c, rng.randint(2, 6), rng.choice(profiles), cloud=True) for _ in range(rng.choice([2, 3, 4]))])
        if rng.random() < .5: c.drain(); c.observe()
    finish(c)
    return c


def conc_serial(rng, name):
    """serial ids from several threads"""
    c = Conc(rng, name, serial=True, interval=rng.choice([2, 3, 5, 10]), nblocks=3)
    storages(c)
    for k in range(rng.randint(1, 2)):
        c.run([[c.write(serial=True) if rng.random() < .8 else rng.choice([c.scan(), c.maint('refresh partitions between 0 and 100'), c.maint('checkpoint')])
                for _ in range(rng.randint(2, 7))] for _ in range(rng.choice([2, 3, 4]))])
        c.drain(); c.observe(contiguous=True)
        if rng.random() < .5:
            c.restart()
    c.idle(); c.restart(); c.observe(contiguous=True)
    return c


def conc_locks(rng, name):
    """long batches over several partitions, scans over all of them, statements which need everything for themselves"""
    c = Conc(rng, name, nblocks=rng.choice([2, 3, 4]), interval=10, upl=rng.choice([0, 0, 1]))
    storages(c)
    profiles = [dict(write=6), dict(write=3, scan=2), dict(checkpoint=3, ddl=3, write=1), dict(refresh=3, move=3, drop=1), dict(scan=4), dict(drop=2, write=3),
                dict(show=3, svc=2, write=1), dict(rotate=2, gc=2, write=2)]
    for _ in range(rng.randint(1, 2)):
        th = [mixed(c, rng.randint(2, 6), rng.choice(profiles)) for _ in range(rng.choice([2, 3, 4, 5]))]
        for l in th:
            for i, o in enumerate(l):
                if o['t'] == 'write' and rng.random() < .6: l[i] = c.write(n=rng.randint(2, 7), blocks='any')
        c.run(th)
    finish(c)
    return c


def conc_service(rng, name):
    """work requested by clients is done by the workers and by clients which call the service"""
    cl = rng.random() < .6
    c = Conc(rng, name, nblocks=rng.choice([1, 2, 3]), upl=rng.choice([1, 1, 2]) if cl else rng.choice([0, 1]), workers=rng.choice([0, 1, 1, 2, 3]))
    storages(c, cloud=cl)
    if cl and rng.random() < .6:      # uploads are waiting when the database is opened
        c.q('alter pipeline set ' + rng.choice(['st1', c.storages[-1], 'st1']))
        c.q('alter storage st1 set (refresh_wm %d)' % rng.choice([0, 1, 8192]))
        for b in range(c.nblocks):
            w = c.write(n=rng.randint(1, 2), blocks='any')
            for e in w['evs']: e['id'] = b * c.interval + e['id'] % c.interval
            w['cmd'] = 'w %d %s' % (len(w['evs']), ' '.join('%d %d %d %d %d' % (e['v'] < 0, e['id'], e['k'], max(e['v'], 0), 0 if e['v'] < 0 else 5) for e in w['evs']))
            c.run([[w]])
        c.drain()
        c.fault('223 0 1000 5 0 /%s/' % scn.cloud_opts(c.name)['type'])
        c.q('refresh partitions between 0 and %d' % (c.nblocks * c.interval), must=False)
        c.nofault()
        c.restart()
        c.run([mixed(c, rng.randint(1, 4), dict(svc=4, write=1), cloud=True) for _ in range(rng.choice([1, 1, 2]))])
        if rng.random() < .5: c.drain(); c.observe()
    for _ in range(rng.randint(1, 3)):
        profiles = [dict(svc=6, write=1), dict(svc=3, checkpoint=2, write=2), dict(write=3, checkpoint=2), dict(svc=3, move=3, write=1), dict(checkpoint=3, refresh=1, write=2)]
        c.run([mixed(c, rng.randint(2, 6), rng.choice(profiles), cloud=cl) for _ in range(rng.choice([2, 3, 4]))])
        if rng.random() < .5: c.drain(); c.observe()
        if rng.random() < .5: c.idle()
        if rng.random() < .5: c.flush()
    c.idle(); c.observe(); c.flush(); c.restart(); c.observe()
    return c


def conc_fault(rng, name):
    """background work fails while clients go on"""
    cl = rng.random() < .4
    c = Conc(rng, name, nblocks=rng.choice([1, 2, 3]), upl=rng.choice([0, 1]) if cl else 0)
    storages(c, cloud=cl)
    K = dict(openw=1, read=4, write=8, sync=16, trunc=32, rename=64, unlink=128)
    kinds, match = rng.choice([(64, '.'), (64 | 128, '.'), (1, '.incomplete'), (8, '.incomplete'), (16, '.incomplete'), (64, '.complete'), (128, '00000')])
    c.fault('%d %d %d %d 0 %s' % (kinds, rng.randint(0, 4), rng.choice([1, 1, 2, 5]), rng.choice([5, 28]), match))
    th = [mixed(c, rng.randint(2, 6), dict(write=5, scan=2)), mixed(c, rng.randint(2, 5), dict(refresh=4, move=2, checkpoint=1, svc=1), cloud=True),
          mixed(c, rng.randint(1, 5), dict(write=2, scan=2, refresh=2, checkpoint=1), cloud=True)]
    c.run(th)
    c.drain(); c.nofault(); c.observe()
    c.run([mixed(c, rng.randint(2, 4), dict(write=4, scan=2)), mixed(c, rng.randint(1, 3), dict(refresh=4, checkpoint=1), cloud=True)])
    c.drain(); c.observe()
    c.q('refresh partitions between 0 and %d' % (c.nblocks * c.interval + 10), must=not cl)
    c.flush()
    c.restart(); c.observe()
    return c


def conc_crash(rng, name):
    """images of the files at every operation while threads are running"""
    c = Conc(rng, name, nblocks=rng.choice([1, 2, 3]), workers=rng.choice([0, 1, 2]))
    storages(c)
    for s in c.settings: c.raw('recset ' + (s if 'workers' not in s else s.split(' to ')[0] + ' to 0'))
    c.raw('recobs k'); c.raw('recdepth 2 %d' % rng.choice([0, 3]))
    c.run([mixed(c, rng.randint(1, 3), dict(write=1)) for _ in range(2)])
    c.raw('crash on %d 0 %d %d 60' % (rng.choice([0, 1]), rng.choice([1, 1, 2, 3]), rng.randint(1, 1 << 30)))
    c.run([mixed(c, rng.randint(2, 5), rng.choice([dict(write=5, scan=1), dict(write=3, refresh=2), dict(refresh=3, move=2, checkpoint=1, rotate=1, gc=1, drop=.5), dict(drop=1, write=2)]))
           for _ in range(rng.choice([2, 3, 3]))])
    c.raw('crash off 0 0 1 1 0')
    c.drain(); c.observe(); c.restart(); c.observe()
    return c


def conc_mem(rng, name):
    """writers wait for memory which the workers free"""
    ps = rng.choice([8192, 8192, 65536])
    c = Conc(rng, name, nblocks=rng.choice([1, 2, 3]), workers=rng.choice([1, 1, 2]), serial=rng.random() < .2,
             pre=['set mm_limit to true', "set mm_limit_behaviour to 'block'", 'set mm_limit_wm to %d' % (ps * rng.choice([1, 1, 2, 3])), 'set mm_page_size to %d' % ps])
    c.q("alter storage main set (refresh_wm 1)")
    c.storages = []
    sizes = (3, 300, ps // 3, ps // 3, ps * 2 // 3)
    for _ in range(rng.randint(1, 2)):
        c.run([[c.write(sizes=sizes) if rng.random() < .7 else rng.choice([c.scan(), c.maint('debug "memory_gc"'), c.maint('refresh partition if exists %d' % c.id()), c.maint('show memory')])
                for _ in range(rng.randint(2, 7))] for _ in range(rng.choice([1, 2, 3]))])
        if rng.random() < .5: c.drain(); c.observe()
    finish(c)
    return c


# ------------------------------------------------------------------------------------------ enumerated schedules
# Two client threads, the first with one operation, the second with one or two. The first is stopped at its k-th point
# (lock operations, file operations, and accesses to memory which both use without a common lock), and the second runs
# as far as it can; with a second switch it is stopped in turn. Every k of every pair is a scenario.

def events(c, *evs, serial=False):
    out, toks = [], []
    for e in evs:
        a, k, d = e if len(e) == 3 else e + (0,)
        c.tok += 1
        v = -1 if d else c.tok
        out.append(dict(id=a, k=k, v=v, serial=serial))
        toks.append('%d %d %d %d %d' % (1 if d else 0, scn.SERIAL if serial else a, k, max(v, 0), 0 if d else c.psize))
    return dict(t='write', evs=out, must=True, cmd='w %d %s' % (len(out), ' '.join(toks)))


PRE = dict(
    w=lambda c: events(c, (1, 0)),
    wb=lambda c: events(c, (2, 0), (12, 0), (1, 1)),
    wr=lambda c: events(c, (12, 0), (2, 0)),
    wn=lambda c: events(c, (3, 0), (42, 0)),
    wn2=lambda c: events(c, (43, 0)),
    wd=lambda c: events(c, (1, 0, 1), (11, 0, 1), (11, 0)),
    ws=lambda c: events(c, (0, 0), (0, 0), serial=True),
    s=lambda c: dict(t='scan', pos=[], must=True, cmd='s'),
    s1=lambda c: dict(t='scan', pos=[11, 0], must=True, cmd='s 11 0'),
    rf=lambda c: c.maint('refresh partition if exists 1', must=not c.cl),
    rf1=lambda c: c.maint('refresh partition if exists 11', must=not c.cl),
    rfr=lambda c: c.maint('refresh partitions between 0 and 40', must=not c.cl),
    mv=lambda c: c.maint('move partition if exists 1 into st2', must=not c.cl),
    mv1=lambda c: c.maint('move partition if exists 11 into st1', must=not c.cl),
    mvr=lambda c: c.maint('move partitions between 0 and 40 into st2', must=not c.cl),
    dr=lambda c: dict(t='drop', id=1, must=True, cmd='q drop partition if exists 1'),
    dr1=lambda c: dict(t='drop', id=11, must=True, cmd='q drop partition if exists 11'),
    cp=lambda c: c.maint('checkpoint'),
    svc=lambda c: c.svc(3),
    sh=lambda c: c.maint('show partitions'),
    shs=lambda c: c.maint('show storages'),
    shw=lambda c: c.maint('show wal'),
    cs=lambda c: c.maint('create storage if not exists zz', must=False),
    ds=lambda c: c.maint('drop storage if exists st3', must=False),
    da=lambda c: c.maint('alter storage if exists st1 set (sync false)', must=False),
    ap=lambda c: c.maint('alter pipeline set st1 (partitions 1), st2', must=False),
    wc=lambda c: c.maint('debug "wal_create"'),
    wg=lambda c: c.maint('debug "wal_gc"'),
    mg=lambda c: c.maint('debug "memory_gc"'),
    rb=lambda c: c.maint('rebalance', must=False),
    up=lambda c: c.maint('upload partition if exists 11 if cloud', must=False),
    up0=lambda c: c.maint('upload partition if exists 1 if cloud', must=False),
    dn=lambda c: c.maint('download partition if exists 1 if cloud', must=False),
    dl=lambda c: c.maint('drop partition if exists 1 on storage', must=False),
    dc=lambda c: c.maint('drop partition if exists 1 on cloud', must=False),
)
BASIC = ['w', 'wb', 'wr', 'wn', 'wn2', 'wd', 's', 's1', 'rf', 'rf1', 'rfr', 'mv', 'mv1', 'dr', 'dr1', 'cp', 'svc', 'sh', 'shs', 'shw', 'cs', 'ds', 'da', 'ap', 'wc', 'wg', 'mg', 'rb']
WORLDS = dict(
    plain=BASIC,
    cloud=['w', 'wb', 'wn', 's', 's1', 'rf', 'rf1', 'rfr', 'mv', 'mv1', 'mvr', 'dr', 'dr1', 'cp', 'svc', 'sh', 'da', 'ap', 'rb', 'up', 'up0', 'dn', 'dl', 'dc', 'wg'],
    worker=['w', 'wb', 'wn', 's', 'rf', 'rfr', 'mv', 'dr', 'cp', 'cs', 'da', 'wc', 'sh', 'rb'],
    memory=['w', 'wb', 'wr', 'wn', 's', 'rf', 'mg', 'dr', 'cp'],
    crash=['w', 'wb', 'wn', 'rf', 'rfr', 'mv', 'dr', 'cp', 'svc', 'wc', 'wg'],
    serial=['ws', 'w', 's', 'rf', 'rfr', 'cp', 'dr1', 'wc', 'sh'],
)
BASES = {}


def pre_world(world, rng, name):
    """the state the schedules start from"""
    cl = world == 'cloud'
    wk = world in ('worker', 'memory')
    ps = 8192
    pre = ['set mm_page_size to %d' % ps]
    if world == 'memory': pre += ['set mm_limit to true', "set mm_limit_behaviour to 'block'", 'set mm_limit_wm to %d' % (2 * ps)]
    c = Conc(rng, name, nblocks=5, workers=1 if wk else 0, serial=world == 'serial', cache0=True, keys=2, pre=pre)
    c.cl, c.psize = cl, 20
    if cl: c.q("create cloud c1 (type 'mock')"); c.cloudy = True
    o = ", cloud 'c1', cloud_drop_local false" if cl else ''
    c.q('alter storage main set (refresh_wm %d)' % (1 if world == 'memory' else 1 << 30))
    for s in ('st1', 'st2'): c.q('create storage %s (refresh_wm %d, region_size 60%s)' % (s, 1 << 30, o))
    c.q('create storage st3')
    if world == 'serial': setup = [events(c, (0, 0), (0, 0), (0, 0), serial=True), c.maint('refresh partition if exists 1'), events(c, (0, 0), serial=True)]
    else:
        setup = [events(c, (0, 0), (1, 0), (1, 1), (11, 0), (22, 0))]
        if cl: setup += [c.maint('move partition 1 into st1')]
        if world == 'crash': setup += [c.maint('debug "wal_create"'), events(c, (11, 1)), c.maint('debug "wal_create"')]
        setup += [c.maint('refresh partition if exists 1'), events(c, (1, 1), (2, 0), (22, 0)), c.maint('move partition 22 into st1'), events(c, (22, 1))]
        if world != 'worker': setup += [c.maint('checkpoint')]
    c.phase_of([setup], '1 2 0 0 0')
    if wk: c.drain()
    if world == 'memory': c.psize = 3000
    return c


def phase_of(self, threads, sched, extra=()):
    ops = []
    line = self.num('threads ' + sched)
    for x in extra: self.raw(x)
    for t, l in enumerate(threads):
        for op in l:
            self.raw('T %d %s' % (t, op['cmd']))
            ops.append(op)
    self.raw('end')
    self.steps.append(('phase', line, ops))
    return line
Conc.phase_of = phase_of


def pre_base(rng, name):
    """both operations one after the other: how many points they have, and which memory both use"""
    world, a, b = name.split('/')[-1].split('.')
    c = pre_world(world, rng, name)
    c.base_line = c.phase_of([[PRE[a](c)], [PRE[b](c)]], '1 3 0 0 0')
    c.key = (world, a, b)
    return c


def pre_result(c):
    """the base's record -> BASES"""
    for l in (c.out or '').splitlines():
        if '"shared"' in l:
            d = json.loads(l)
            BASES[c.key] = dict(own=d['own'], shared={x[0]: (x[1], x[2]) for x in d['shared']})
            return
    BASES[c.key] = dict(own=[40, 40], shared={})


def pre_points(world, a, bs, which=0):
    """how often the first (second) thread can be stopped, and the memory this takes into account"""
    sh = {}
    n = 0
    for b in bs:
        x = BASES[world, a, b]
        for k, v in x['shared'].items(): sh[k] = max(sh.get(k, 0), v[which])
        n = max(n, x['own'][0]) if which == 0 else n + x['own'][1]
    if len(sh) > 300: sh = dict(sorted(sh.items(), key=lambda x: x[1])[:300])
    return n + sum(sh.values()), sorted(sh)


def conc_pre(rng, name):
    """<world>.<a>.<b>[+<b2>].<k>[.<k2>]"""
    p = name.split('/')[-1].split('.')
    world, a, bs = p[0], p[1], p[2].split('+')
    c = pre_world(world, random.Random(world), name)
    n, sh = pre_points(world, a, bs)
    extra = ['X 0 %s 1' % p[3]] + (['X 1 %s 0' % p[4]] if len(p) > 4 else [])
    if world in ('worker', 'memory') and len(p) > 4: extra[1] = 'X 1 %s -1' % p[4]
    extra += ['A ' + ' '.join(sh[i:i + 20]) for i in range(0, len(sh), 20)]
    if world == 'crash':
        for x in c.settings: c.raw('recset ' + x)
        c.raw('recobs k'); c.raw('recdepth 2 0')
        c.raw('crash on 0 0 1 1 60')
    c.phase_of([[PRE[a](c)], [PRE[b](c) for b in bs]], '1 2 0 0 0', extra)
    if world == 'crash': c.raw('crash off 0 0 1 1 0')
    c.drain(); c.observe(contiguous=False)
    c.restart(); c.observe()
    return c


def pre_ok(*ops):
    """the only copy of a partition is not dropped: the copy on the storage and the one in the cloud, or the one on the
    storage while a refresh replaces the one in the cloud"""
    return 'dl' not in ops or not {'dc', 'rf', 'rfr', 'mv', 'mvr', 'svc'} & set(ops)


def pre_all(world):
    """every schedule with one switch of every pair"""
    for a in WORLDS[world]:
        for b in WORLDS[world]:
            if not pre_ok(a, b): continue
            for k in range(1, pre_points(world, a, [b])[0] + 1): yield '%s.%s.%s.%d' % (world, a, b, k)


def pre_random(rng, world, a, b, b2=None):
    """a schedule of the pair; with two operations in the second thread, or a second switch"""
    bs = [b] + ([b2] if b2 else [])
    k = rng.randint(1, max(1, pre_points(world, a, bs)[0]))
    x = '%s.%s.%s.%d' % (world, a, '+'.join(bs), k)
    if rng.random() < (.3 if b2 else .25): x += '.%d' % rng.randint(1, max(1, pre_points(world, a, bs, 1)[0]))
    return x
