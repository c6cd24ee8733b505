"""Scenario families.

A family turns a random generator into scenarios (lib/scn.py): histories of statements chosen to
exercise one guarantee, with the observables the specification has to explain.  The families decide
nothing; the recorded executions are judged by the TLA+ monitor."""
import random, zlib
from scn import Scn, M64, cloud_opts

KEYSETS = [
    ['-'],
    ['-', '61', '6162', '62'],
    ['-', '00', '0000', '61', '61' * 255, '6162', 'ff'],
    ['61', '6161', '616100', '62', '80', 'ffff'],
]
INTERVALS = [2, 4, 5, 10]

# fault kinds of the driver
F = dict(openw=1, openr=2, read=4, write=8, sync=16, trunc=32, rename=64, unlink=128, mkdir=256)
F_ALLW = F['openw'] | F['write'] | F['sync'] | F['rename'] | F['unlink'] | F['mkdir'] | F['trunc']
F_ANY = F_ALLW | F['openr'] | F['read']


def base_for(scale, kind, align=20):
    """kind: 0 small ids; 'top': the range ends with the id space; else the range crosses 2^kind"""
    L = align * scale
    if kind == 0: return 0, None
    if kind == 'top':
        b = (M64 // L - 3) * L
        return b, (M64 - b) // scale - 1
    return ((1 << kind) // L - 1) * L, None


# statements which are not: complete ones after which something follows, their beginnings, others
WHOLE = ['checkpoint', 'service', 'rebalance', 'create partition 1 2', 'create storage s9', 'create storage s9 (sync true)', 'drop storage st1', 'alter pipeline reset',
         'move partition 1 into main', 'refresh partition 1', 'refresh partition if exists 1', 'drop partition 1', 'drop partition if exists 1', 'drop partitions between 0 and 9999',
         'set interval to 10', "create cloud c9 (type 'mock')", 'alter storage main rename to m2', 'download partition if exists 1', 'upload partition if exists 1',
         'refresh partitions between 0 and 9999', 'move partitions between 0 and 9999 into main', 'show partitions', 'show config', 'show partition 1']
CUT = ['create partition 1', 'create storage s9', 'drop storage st1', 'alter pipeline reset',
       'alter pipeline set main', 'move partition 1 into main', 'move partition if exists 1 into main', 'refresh partition if exists 1',
       'drop partitions between 0 and 9999', 'move partitions between 0 and 9999 into main', 'set interval to 10', 'alter storage main rename to m2',
       'download partitions between 0 and 9999', 'upload partition if exists 1', 'refresh partitions between 0 and 9999', 'show partition 1']
BROKEN = ['create storage s9 (', 'create storage s9 (sync', 'create storage s9 (sync true', 'create storage s9 (sync true, crc', 'alter pipeline set main (', 'alter pipeline set main (partitions', 'alter pipeline set main (partitions 1', 'alter pipeline set main (partitions 1,',
          'set interval to 1.5', 'set interval to -1', 'set interval to 99999999999999999999999', 'set interval to 18446744073709551616', 'set interval to 600000 years',
          'drop partitions between 0 and 99999999999999999999', 'drop partition 18446744073709551616', 'create partition 18446744073709551617', 'create storage s9 (refresh_wm 20000000 tb)',
          'create storage s9 (sync true,)', 'alter pipeline set main (partitions 99999999999999999999)', "'", '"', "create storage 'x'", "create storage ''", 'create storage 1',
          'create storage storage', 'create storage sec', ';', '1', '1.5', "'a'", 'debug', 'debug "x"', 'debug wal_gc', 'checkpoint; checkpoint', 'show partitions,',
          "create cloud c9 (type 'mock'", "create cloud c9 (type", 'create storage s9 sync true', 'alter storage main set (sync true', 'create partition 5 between 1 and 2']

# text of settings: quotes, separators, other alphabets
ODD = ['a"b', 'a\\b', '"', '\\"', '{"a": 1}', 'x y,z', 'ü', '%s%n', '# x', '[]', 'null', '1']

class Gen:
    """random histories over one scenario"""

    def __init__(self, rng, name, maxid=40, obs='kp', storages=(), clouds=(), wal=None, serial=False, rot=-1, interval=None,
                 base=None, scale=None, keys=None, pre=(), region=None, stopts=None, mainopts=None, sizes=None, batch=(1, 1, 2, 3, 6), dele=.25, align=20):
        self.rng = rng
        scale = scale if scale is not None else rng.choice([1, 1, 1, 7, 1000])
        bk = base if base is not None else rng.choice([0, 0, 0, 31, 32, 63])
        if bk == 'top': scale = 1
        b, top = base_for(scale, bk, align)
        self.keys = keys or rng.choice(KEYSETS)
        self.wal = rng.random() < .75 if wal is None else wal
        self.serial = serial
        self.s = Scn(name, interval=interval or rng.choice(INTERVALS), wal=self.wal, serial=serial, rot=rot, base=b, scale=scale,
                     keys=self.keys, obs=obs, pre=pre)
        self.s.top = top
        self.maxid = maxid if top is None else top
        self.tok = 1
        self.storages, self.clouds = ['main'], []
        self.batch, self.dele = batch, dele
        self.sizes = sizes
        if 'p' in (obs or '') and self.rng.random() < .5: self.show_p = .1
        self.obs = obs
        for c in clouds:
            self.s.create_cloud(c); self.clouds.append(c)
        for st in storages:
            o = dict((stopts or {}).get(st, {}))
            h = zlib.crc32((name + st).encode()) >> 3
            if h % 6 == 0: o['path'] = ['p1', 'p2', 'p 3"x'][h // 6 % 3]     # directories in which storages are
            self.s.create_storage(st, **o)
            self.storages.append(st)
        if mainopts: self.s.alter_storage('main', **mainopts)
        # transfers which are short or interrupted change nothing
        if rng.random() < .12: self.shorts()

    def shorts(self, pm=None): self.s.raw('shorts %d %d' % (self.rng.choice([30, 300, 900]) if pm is None else pm, self.rng.randint(1, 1 << 30)))

    def id(self): return self.rng.randint(0, self.maxid)
    def k(self): return self.rng.randrange(len(self.keys))
    def size(self):
        r = self.rng
        return self.sizes(r) if self.sizes else r.choice([3, 3, 5, 17, 40, 200])
    def ev(self, dele=None, id=None):
        if self.rng.random() < (self.dele if dele is None else dele):
            return (self.id() if id is None else id, self.k(), -1), 0
        if self.rng.random() < .04: return (self.id() if id is None else id, self.k(), 0), 0
        t = self.tok; self.tok += 1
        return (self.id() if id is None else id, self.k(), t), self.size()
    def target(self, d=None):
        r = self.rng
        if r.random() < .25:
            lo = self.id() - r.randint(0, 3); hi = lo + r.randint(0, 25)
            return dict(rng=(max(lo, 0), max(min(hi, self.maxid + 5 if self.s.top is None else self.maxid - 1), 0)))
        return dict(id=self.id(), ife=r.random() < .5)

    # -- operations by name
    def write(self, n=None, dele=None):
        evs, szs = [], []
        for _ in range(n or self.rng.choice(self.batch)):
            e, z = self.ev(dele)
            evs.append(e); szs.append(z)
        self.s.write(evs, sizes=szs)
    def dup(self):      # the same position several times in one batch
        i, k = self.id(), self.k()
        evs, szs = [], []
        for _ in range(self.rng.randint(2, 4)):
            e, z = self.ev(.4)
            evs.append((i, k, e[2])); szs.append(z)
            if self.rng.random() < .4:
                e, z = self.ev(); evs.append(e); szs.append(z)
        self.s.write(evs, sizes=szs)
    def serialw(self):
        evs, szs = [], []
        for _ in range(self.rng.randint(1, 4)):
            e, z = self.ev(.15)
            if self.rng.random() < .7: e = (-1, e[1], e[2])
            evs.append(e); szs.append(z)
        self.s.write(evs, sizes=szs)
    def badw(self):     # an event with a key that is too long somewhere in the batch
        evs, szs = [], []
        n = self.rng.randint(1, 6)
        for _ in range(n):
            e, z = self.ev(); evs.append(e); szs.append(z)
        j = self.rng.randrange(n)
        evs[j] = (evs[j][0], len(self.keys), evs[j][2])
        self.s.write(evs, sizes=szs, bad=j + 1)
    def refresh(self): self.s.refresh(**self.target())
    def fscan(self):    # reading fails; what was locked is free again
        F_R = F['read'] | F['openr']
        self.s.inject(fault='%d %d %d 5 0' % (F_R, self.rng.choice([0, 0, 1, 2, 5]), self.rng.choice([1, 1, 1000])))
        self.scan()
        r = self.rng.random()
        if r < .4: self.s.set_interval(self.s.cur_interval)     # waits for all
        elif r < .6: self.checkpoint()
    def stuck(self):    # a refresh which fails right at the start: its memory generation stays
        self.s.inject(fault='%d 0 1 5 0' % F['openw'])
        self.s.refresh(id=self.id(), ife=True)
    def held(self):     # a refresh fails when its file is complete: the log and the replaced file stay
        a = self.id()
        self.s.write([self.ev(0, a)[0]])
        self.s.inject(fault='%d %d %d 5 0' % (F['rename'], self.rng.choice([0, 0, 1]), self.rng.choice([1, 1, 1000])))
        self.s.refresh(id=a, ife=True)
        for _ in range(self.rng.randint(1, 2)):
            if self.rng.random() < .6: self.s.write([self.ev(.2)[0]])
            self.walnew()
        self.walgc()
        if self.rng.random() < .4: self.s.restart()
    def cfail(self):    # an operation on a copy in the cloud fails somewhere; then it is repeated
        r, s = self.rng, self.s
        a = self.id()
        s.write([self.ev(0, max(0, a - r.choice([0, 0, 1, 2])))[0] for _ in range(r.choice([1, 2, 3, 4, 8]))])
        goal = r.choice(['up', 'up', 'rf', 'rf', 'down', 'down', 'down', 'dropc', 'scan', 'any'])
        if goal != 'rf' or r.random() < .5: s.refresh(id=a, ife=True)
        if goal == 'up' and r.random() < .8: s.drop(which='C', id=a, ife=True)
        if goal in ('down', 'dropc', 'scan', 'any') and r.random() < .7: s.upload(id=a, ife=True)
        if goal in ('down', 'scan') or goal in ('any', 'dropc') and r.random() < .4: s.drop(which='L', id=a, ife=True)
        if goal == 'rf' and r.random() < .7: s.write([self.ev(0, a)[0] for _ in range(r.randint(1, 2))])
        op = dict(up=lambda: s.upload(id=a, ife=True), down=lambda: s.download(id=a, ife=True), rf=lambda: s.refresh(id=a, ife=True),
                  dropc=lambda: s.drop(which='C', id=a, ife=True), scan=lambda: s.scan((a, 0)))[goal if goal != 'any' else r.choice(['up', 'down', 'dropc', 'rf', 'scan'])]
        own = dict(s3=' /s3/', mock=' /mock/')[cloud_opts(s.name)['type']]
        if r.random() < .4: k, skip, own = F_ANY, r.choice([0, 0, 0, 1]), r.choice([own, own, ' .incomplete'])   # the service itself, the file being written
        elif goal == 'rf' and r.random() < .6: k, skip, own = F['rename'] | F['unlink'], r.choice([0, 1, 2]), ''
        else:
            k = r.choice([F_ANY, F_ANY, F['write'], F['rename'] | F['unlink'], F['openw'] | F['openr'], F['read']])
            skip, own = r.choice([0, 0, 0, 1, 1, 2, 3]), r.choice(['', '', own])
        s.inject(fault='%d %d %d %d %d%s' % (k, skip, r.choice([1, 1, 1000]), r.choice([5, 28]), r.choice([0, 0, 50]), own))
        op()
        if goal in ('up', 'rf') and r.random() < .35:    # much smaller the next time
            s.write([(i, k, -1) for i in range(max(0, a - 2), a + 1) for k in range(len(self.keys))])
            s.refresh(id=a, ife=True)
            if r.random() < .7: self.restart()
        for _ in range(r.randint(0, 2)):    # not only repeated: other operations find what it left
            r.choice([lambda: s.upload(id=a, ife=True), lambda: s.download(id=a, ife=True), lambda: s.drop(which='C', id=a, ife=True), lambda: s.drop(which='L', id=a, ife=True),
                      lambda: s.move(r.choice(self.storages), id=a, ife=True), lambda: s.write([self.ev(0, a)[0]])])()
        op()
        if r.random() < .5: self.scan()
    def drop(self): self.s.drop(**self.target())
    def dropl(self): self.s.drop(which='L', **self.target())
    def dropc(self): self.s.drop(which='C', **self.target())
    def move(self): self.s.move(self.rng.choice(self.storages + ['nope'] if self.rng.random() < .15 else self.storages), **self.target())
    def upload(self): self.s.upload(ifc=self.rng.random() < .6, **self.target())
    def download(self): self.s.download(ifc=self.rng.random() < .6, **self.target())
    def checkpoint(self): self.s.checkpoint()
    limits = None      # kinds of tier limits
    def sized(self): return 'P' in self.obs and (self.limits is None or 'size' in self.limits)
    def service(self):
        n = self.rng.randint(1, 4)
        if self.sized():
            for _ in range(n): self.s.service(1)
        else: self.s.service(n)
    def service1(self): self.s.service(1)
    def drain(self):
        if self.sized():
            for _ in range(12): self.s.service(1)     # sizes are seen after each step
        else: self.s.service(60)
    def rebalance(self): self.s.rebalance()
    def createp(self):
        r = self.rng
        a = self.id()
        if self.s.top is not None:
            b = r.randint(min(a, self.maxid - 1), self.maxid - 1); return self.s.createp(min(a, b), b)
        if r.random() < .5: self.s.createp(a)
        elif r.random() < .12: self.s.createp(a, a - r.randint(1, 3) if a > 3 else a)
        else: self.s.createp(a, a + r.randint(0, 12))
    def restart(self): self.s.restart()
    def memgc(self): self.s.nop('debug "memory_gc"')     # free pages of memory go back
    def scan(self): self.s.scan((self.rng.randint(0, self.maxid + (3 if self.s.top is None else 0)), self.k()) if self.rng.random() < .8 else ())
    def walnew(self):
        if self.wal: self.s.wal_create()
    def walgc(self): self.s.wal_gc()
    def interval(self): self.s.set_interval(self.rng.choice(INTERVALS))
    def clock(self): self.s.clock(self.rng.randint(1, 3))

    # -- definitions
    def stname(self): return self.rng.choice(self.storages + ['st1', 'st2', 'st3', 'nope'])
    def clname(self): return self.rng.choice(self.clouds + ['c1', 'c2', 'nope'])
    nosync = False     # images after a power loss: storages have to sync
    def stopt(self):
        r = self.rng
        o = {}
        for _ in range(r.randint(1, 3)):
            k = r.choice(['compression', 'compression_level', 'region_size', 'path', 'crc' if self.nosync else 'sync', 'crc', 'cloud', 'cloud_drop_local', 'refresh_wm'])
            o[k] = dict(path=lambda: r.choice(['', 'p1', 'p2', 'p 3"x']), compression=lambda: r.choice(['', 'lz4', 'zstd', 'none']), compression_level=lambda: r.choice([0, 1, 3]),
                        region_size=lambda: r.choice([1, 100, 1000, 131072]), sync=lambda: r.random() < .5, crc=lambda: r.random() < .5,
                        cloud=lambda: r.choice(['', ''] + [self.clname()]), cloud_drop_local=lambda: r.random() < .5,
                        refresh_wm=lambda: r.choice([41943040, 83886080, 5000000000]))[k]()
        return o
    def ddl(self):
        r, s = self.rng, self.s
        x = r.random()
        if x < .16:
            n = self.stname()
            s.create_storage(n, ifne=r.random() < .3, **(self.stopt() if r.random() < .6 else {}))
            if n not in self.storages: self.storages.append(n)
        elif x < .28: s.drop_storage(self.stname(), ife=r.random() < .4)
        elif x < .46: s.alter_storage(self.stname(), ife=r.random() < .3, **self.stopt())
        elif x < .58: s.rename_storage(self.stname(), self.stname(), ife=r.random() < .3)
        elif x < .66:
            n = self.clname(); t = r.choice(['mock', 'mock', 'mock', 'zzz', 's3', 's3'])
            o = dict(type=t, url=r.choice(['', 'u1'] + ODD))
            if t == 's3':
                o = dict(type=t, login='ak', password='sk', url='http://s3.local')
                if r.random() < .3: o[r.choice(['login', 'password', 'url'])] = ''
            s.create_cloud(n, ifne=r.random() < .3, **o)
            if n not in self.clouds: self.clouds.append(n)
        elif x < .73: s.drop_cloud(self.clname(), ife=r.random() < .4)
        elif x < .79: s.alter_cloud(self.clname(), ife=r.random() < .3, url=r.choice(['', 'a', 'b'] + ODD), login=r.choice(['', 'x'] + ODD))
        elif x < .85: s.rename_cloud(self.clname(), self.clname(), ife=r.random() < .3)
        elif x < .95: s.pipeline(self.tiers())
        else: s.set_opt('wal_rotate_wm', 100000000 + r.randint(0, 9))
    def shared(self):   # several storages name the same cloud, which gets other names
        r, s = self.rng, self.s
        a, b = r.sample(['c1', 'c2', 'c3'], 2)
        s.create_cloud(a, ifne=True, type='mock', url='u1')
        if a not in self.clouds: self.clouds.append(a)
        for n in r.sample(['st1', 'st2', 'st3'], r.choice([1, 2, 2, 3])):
            if n in self.storages: s.alter_storage(n, ife=True, cloud=a)
            else: s.create_storage(n, ifne=True, cloud=a); self.storages.append(n)
        if r.random() < .3: self.run(1, dict(move=1, write=1, refresh=1, restart=1))
        s.rename_cloud(a, b)
        if b not in self.clouds: self.clouds.append(b)
        x = r.random()
        if x < .4: s.restart()
        elif x < .6: s.drop_cloud(b)
        elif x < .8: s.rename_cloud(b, a)
    def tiers(self):
        r = self.rng
        n = r.randint(0, min(3, len(self.storages)))
        sts = r.sample(self.storages, n)
        if r.random() < .1 and n: sts[r.randrange(n)] = 'nope'
        if r.random() < .1 and n > 1: sts[1] = sts[0]
        t = []
        for i, st in enumerate(sts):
            c = {}
            if i < n - 1 or r.random() < .5:
                kind = r.choice(self.limits or ['partitions', 'partitions', 'size', 'events', 'duration'])
                c[kind] = dict(partitions=lambda: r.randint(0, 3), size=lambda: r.choice([0, 200, 600, 2000]),
                               events=lambda: r.choice([0, 2, 5, 10]), duration=lambda: r.randint(0, 4))[kind]()
                if r.random() < .2: c['partitions'] = r.randint(0, 4)
            if i < n - 1 and r.random() < .05: c = {}
            t.append((st, c))
        return t

    def misuse(self):
        r, s = self.rng, self.s
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            if r.random() < .5: s.bad(r.choice(BROKEN))
            elif r.random() < .5: s.bad(r.choice(WHOLE) + ' ' + r.choice(['x', '1', "'x'", ',', '(', ')', ';', '1 2 3 4 5 6 7 8 9', 'to', 'between', '1.5', '_']))
            else:
                w = r.choice(CUT).split(' ')
                s.bad(' '.join(w[:r.randint(1, len(w) - 1)]))
        for _ in range(r.randint(0, 2)):
            s.bad(r.choice(['create partition', 'refresh partition', 'move partition 1', 'alter storage main', 'drop storage', 'select 1', 'show nothing',
                            'set interval to 0', 'set interval to \'x\'', 'set nosuch to 1', 'set wal to false', 'set directory to \'x\'', 'set workers to 5',
                            'alter pipeline set nosuch', 'create cloud', 'create storage s9 (nosuch 1)', 'create storage s9 (compression \'x\')',
                            'create storage s9 (region_size \'x\')', 'drop partitions between 1', 'alter storage main set (encryption_key \'1\')', 'refresh partitions 5 9',
                            'create storage s9 (cloud \'nosuch\')', 'alter storage nosuch rename to b', 'alter storage main rename to b', 'drop storage main', 'nosuch']))
        if r.random() < .5: s.add(dict(t='bad'), r.choice(['opendir db', 'opendir other', 'forkopen']))
        if r.random() < .3: s.closed_misuse()

    def run(self, n, weights):
        names, w = list(weights), list(weights.values())
        for _ in range(n):
            getattr(self, self.rng.choices(names, w)[0])()
            if self.show_p and not self.s._inj and self.rng.random() < self.show_p: self.show()
        return self.s
    show_p = 0
    def show(self):
        r = self.rng
        it = dict(part=lambda: self.id(), partsin=self.stname, parts=lambda: 0, stor=self.stname, cloud=self.clname, pipe=lambda: 0, serial=lambda: 0)
        ks = r.choices(list(it), [4, 3, 1, 2, 1.5, 1, .5], k=r.choice([1, 1, 1, 1, 2, 2, 3]))
        self.s.show([(k, it[k]()) for k in ks])

    def kill(self, rng=None, torn=None, power=0, mx=30):
        r = self.rng
        self.s.inject(kill=(int(r.triangular(1, mx, 2)), int(r.random() < .3) if torn is None else torn, power, r.randint(1, 1 << 30)))
    def fault(self, kinds=F_ANY, skip=None, n=None, short=None):
        r = self.rng
        self.s.inject(fault='%d %d %d %d %d' % (kinds, int(r.triangular(0, 25, 0)) if skip is None else skip,
                                                n if n is not None else r.choice([1, 1, 1, 3, 1000]), r.choice([5, 28]),
                                                short if short is not None else r.choice([0, 0, 30, 70, 99])))


KV = ['kv']
ALLOBS = ['kv', 'parts']
BASIC = dict(write=10, dup=2, refresh=3, checkpoint=1, service=2, restart=1, scan=1)


# ---------------------------------------------------------------------------------------- C01
def mix(rng, name):
    g = Gen(rng, name, obs='kp', storages=['st1'], base=rng.choice([0, 0, 31, 32, 63, 'top']))
    w = dict(BASIC, move=1, createp=.5, drop=.5, stuck=1)
    return g.run(rng.randint(15, 40), w)


def layers(rng, name):
    """few positions, many versions: memory over leftover memory over file, in every combination of live and deleted"""
    g = Gen(rng, name, obs='kp', maxid=6, keys=KEYSETS[1], interval=10, dele=.45, scale=1, base=0, stopts=dict(st1=dict(region_size=1)), storages=['st1'])
    if rng.random() < .5: g.s.alter_storage('main', region_size=rng.choice([1, 30, 100]))
    return g.run(rng.randint(25, 50), dict(write=10, dup=4, refresh=4, stuck=2, service=1, checkpoint=1, restart=1, move=1, scan=2))


def bulk(rng, name):
    """partitions of hundreds of events: memory pages split and fill, files have many blocks"""
    g = Gen(rng, name, obs='p', maxid=rng.choice([80, 900, 3000]), interval=rng.choice([100, 1000]), scale=1, base=rng.choice([0, 63]), align=1000,
            keys=KEYSETS[1], sizes=lambda r: r.choice([3, 10, 40]))
    s = g.s
    g.s.alter_storage('main', region_size=rng.choice([50, 500, 4000, 131072]), compression=rng.choice(['', 'lz4', 'zstd']))
    order = rng.choice(['asc', 'desc', 'rnd'])
    for rnd in range(rng.randint(2, 4)):
        n = rng.choice([80, 250, 520, 700])
        ids = [g.id() for _ in range(n)]
        if order == 'asc': ids.sort()
        elif order == 'desc': ids.sort(reverse=True)
        for i in range(0, n, 130):
            evs, szs = [], []
            for a in ids[i:i + 130]:
                e, z = g.ev(.2 if rnd else 0, id=a); evs.append(e); szs.append(z)
            s.write(evs, sizes=szs)
        for _ in range(3): s.scan((g.id(), g.k()))
        x = rng.random()
        if x < .45: s.refresh(rng=(0, g.maxid + 2000))
        elif x < .6: s.restart()
        elif x < .7: s.checkpoint(); s.service(50)
        for _ in range(3): s.scan((g.id(), g.k()))
        s.scan()
    return s


# ---------------------------------------------------------------------------------------- C02
def seek(rng, name):
    """every position of a small data set, in every layout"""
    top = rng.random() < .3
    g = Gen(rng, name, obs='-', maxid=18, keys=rng.choice([KEYSETS[0], KEYSETS[1]]), interval=rng.choice([2, 4, 5]), base='top' if top else None,
            clouds=['c1'], storages=['st1'], stopts=dict(st1=dict(cloud='c1', cloud_drop_local=rng.random() < .5, region_size=rng.choice([1, 60, 131072]))))
    s = g.s
    s.alter_storage('main', region_size=rng.choice([1, 60, 200, 131072]))
    for _ in range(rng.randint(2, 4)):
        for _ in range(rng.randint(1, 6)): g.write(dele=.3)
        g.run(rng.randint(1, 3), dict(refresh=4, stuck=2, move=2, upload=1, dropl=.5, createp=1, drop=.6, restart=.7, dup=1, download=.5))
        g.write(dele=.5)
        qs = [(i, k) for i in range(0, g.maxid + 1) for k in range(len(g.keys))]
        rng.shuffle(qs)
        for q in qs[:30]: s.scan(q)
        s.scan()
    return s


# ---------------------------------------------------------------------------------------- C03
def cursor(rng, name):
    g = Gen(rng, name, obs='-', maxid=rng.choice([12, 40]), keys=KEYSETS[1], interval=rng.choice([4, 10]), storages=['st1'])
    s = g.s
    s.head.append('key ' + '62' * 256)
    s.alter_storage('main', region_size=rng.choice([1, 60, 131072]))
    for _ in range(rng.randint(2, 8)): g.write(n=6, dele=.1)
    g.run(rng.randint(0, 3), dict(refresh=3, stuck=1.5, move=1, restart=1, createp=1))
    for _ in range(rng.randint(1, 3)): g.write()
    cs = []
    for c in range(rng.randint(1, 3)):
        pos = (g.id(), g.k()) if rng.random() < .5 else ()
        s.curopen('c%d' % c, pos)
        s.curread('c%d' % c)
        cs.append('c%d' % c)
    for _ in range(rng.randint(10, 40)):
        x = rng.random()
        if x < .55: s.curnext(rng.choice(cs))
        elif x < .88: g.write(dele=.3)
        elif x < .94: g.badw()     # what is taken back must not move cursors
        elif x < .96 and g.wal:
            g.fault(F['write'] | F['openw'], skip=0); g.write(n=rng.choice([1, 6, 20]), dele=.3)
        else: g.dup()
    for c in cs:
        if rng.random() < .5:
            for _ in range(g.maxid * 4): s.curnext(c)
        s.curclose(c)
    s.scan()
    return s


def cursor_bulk(rng, name):
    """a cursor inside large memory pages while they split and fill around it"""
    g = Gen(rng, name, obs='-', maxid=4000, keys=KEYSETS[0], interval=10000, scale=1, base=0, sizes=lambda r: 3)
    s = g.s
    s.head.append('key ' + '62' * 256)
    ids = rng.sample(range(0, 4001), rng.choice([100, 300, 513, 700]))
    if rng.random() < .5: ids.sort()
    for i in range(0, len(ids), 150): s.write([(a, 0, g.ev(0)[0][2]) for a in ids[i:i + 150]], sizes=[3] * 150)
    if rng.random() < .4: s.refresh(0)
    s.curopen('c', (rng.choice(ids), 0) if rng.random() < .7 else ())
    s.curread('c')
    near = rng.choice(ids)
    for _ in range(rng.randint(20, 60)):
        if rng.random() < .6:
            for _ in range(rng.choice([1, 1, 2, 30])): s.curnext('c')
        else:
            near = (near + rng.choice([0, 0, 100])) % 4000
            b = [((near + rng.randint(-40, 40)) % 4001, 0, -1 if rng.random() < .4 else 7000 + rng.randint(0, 999)) for _ in range(rng.choice([1, 5, 60]))]
            x = rng.random()
            if x < .2:
                b.append(((near + 41) % 4001, 1, 7999)); s.write(b, sizes=[3] * 61, bad=len(b)); continue
            if x < .3 and g.wal: g.fault(F['write'], skip=0)
            s.write(b, sizes=[3] * 60)
    s.curclose('c')
    return s


def cursor_bg(rng, name):
    """the same with background workers refreshing partitions on their own"""
    g = Gen(rng, name, obs='-', maxid=40, keys=KEYSETS[1], interval=rng.choice([4, 10]),
            pre=['set mm_page_size to 65536'])
    s = g.s
    s.settings[0] = 'set workers to 2'
    i = s.lines.index('q set workers to 0'); s.lines[i] = 'q set workers to 2'
    s.alter_storage('main', refresh_wm=1, region_size=rng.choice([1, 60, 131072]))
    for rnd in range(rng.randint(2, 5)):
        for _ in range(rng.randint(2, 6)): g.write(n=6, dele=.15)
        c = 'c%d' % (rnd % 2)
        s.curopen(c, (g.id(), g.k()) if rng.random() < .5 else ())
        s.curread(c)
        for _ in range(rng.randint(10, 30)):
            x = rng.random()
            if x < .5: s.curnext(c)
            elif x < .8: g.write(dele=.3)
            else: s.raw('usleep %d' % rng.choice([10, 200, 1000]))
        s.curclose(c)
        s.scan()
    return s


# ---------------------------------------------------------------------------------------- C04
def batch(rng, name):
    g = Gen(rng, name, obs='kp', batch=(1, 2, 3, 6, 12), storages=['st1'])
    g.s.head.append('key ' + '62' * 256)
    return g.run(rng.randint(15, 30), dict(write=5, dup=4, badw=6, refresh=2, restart=1, service=1, scan=.5))


def batch_fault(rng, name):
    """writes whose log record fails: at once, after a part of it, on a full disk"""
    g = Gen(rng, name, obs='kpr', wal=True, batch=(1, 2, 3, 6, 12), pre=['set wal_sync_on_write to true'] if rng.random() < .3 else [],
            sizes=lambda r: r.choice([3, 17, 200, 5000]))
    for _ in range(rng.randint(12, 25)):
        if rng.random() < .4:
            # a record which is complete on disk cannot be taken back when truncation fails too
            k = rng.choice([F['write'] | F['sync'] | F['openw'], F['write'] | F['openw'] | F['trunc']])
            g.fault(k, skip=rng.choice([0, 0, 1]), n=rng.choice([1, 1, 2, 1000]))
            rng.choice([g.write, g.write, g.dup, g.dup, g.drop])()
        else: g.run(1, dict(write=4, dup=2, refresh=1, restart=1.5, walnew=.5, service=.5, drop=1))
    g.s.restart()
    return g.s


def batch_mem(rng, name):
    """writes refused because of the memory limit"""
    pages = rng.choice([2, 3, 5, 9])
    g = Gen(rng, name, obs='kp', wal=True, batch=(1, 2, 3, 6, 12), sizes=lambda r: r.choice([3, 3000, 20000, 50000]),
            pre=['set mm_page_size to 65536', 'set mm_limit to true', 'set mm_limit_wm to %d' % (65536 * pages),
                 "set mm_limit_behaviour to 'error'", 'set mm_cache to %d' % rng.choice([0, 65536, 1 << 20, 64 << 20])])
    g.s.memlimit = True
    for _ in range(rng.randint(2, 4)):
        g.run(rng.randint(4, 9), dict(write=8, dup=3, refresh=2, checkpoint=1, service=1, restart=0))
        # refreshed everything: there is memory again
        g.s.refresh(rng=(0, g.maxid + 10))
        # as much as there may be
        i = g.id()
        if rng.random() < .5: g.s.write([g.ev(.2, i)[0] for _ in range(2)])
        else:
            i -= i % g.s.cur_interval
            g.s.write([(i, k, v) for i, k, v in (g.ev(0, i + n)[0] for n in range(min(pages, g.s.cur_interval)))], sizes=[40000] * min(pages, g.s.cur_interval))
        g.s.ops[-1]['_must'] = True
        if rng.random() < .5: g.s.refresh(rng=(0, g.maxid + 10))
    return g.s


# ---------------------------------------------------------------------------------------- C05, C06: crash images
def with_images(g, fn, torn=1, power=0, every=1, mx=400):
    g.s.crash(True, torn, power, every, g.rng.randint(1, 1 << 30), mx)
    fn()
    g.s.crash(False)


def crash_write(rng, name):
    pw = rng.random() < .5
    g = Gen(rng, name, obs='kp', wal=True, rot=rng.choice([-1, 0]), batch=(1, 2, 3, 6),
            pre=['set wal_sync_on_write to true'] if pw else [])
    g.s.recovery(depth=3, probe=(g.id(), g.k(), 900, 9), svc=rng.choice([0, 3]))
    g.run(rng.randint(2, 12), dict(BASIC, walnew=.5, drop=.5))
    def seg():
        for _ in range(rng.randint(2, 5)):
            g.run(1, dict(write=6, dup=1, refresh=.7, service=.7, walnew=.5, walgc=.5, drop=.4, checkpoint=.3))
    with_images(g, seg, power=int(pw), every=1, mx=150)
    if rng.random() < .5:
        g.s.restart()
        with_images(g, lambda: g.run(2, dict(write=3, dup=1)), power=int(pw), mx=40)
    return g.s


def crash_lossy(rng, name):
    """power losses, the log synced only when it is rotated"""
    g = Gen(rng, name, obs='kpr', wal=True, rot=rng.choice([-1, 0]), batch=(1, 2, 3, 6), maxid=20, storages=['st1'], pre=['set wal_sync_on_rotate to true'])
    g.s.lossy = True
    g.s.recovery(depth=3, probe=(g.id(), g.k(), 900, 9), svc=rng.choice([0, 3]))
    w = dict(write=7, dup=1, refresh=1.5, service=1, walnew=1.5, walgc=.7, drop=.5, checkpoint=.3, move=.5)
    g.run(rng.randint(1, 6), w)
    for _ in range(rng.randint(1, 3)):
        if rng.random() < .6: with_images(g, lambda: g.run(rng.randint(1, 4), w), power=1, every=1, mx=60)
        else:
            g.kill(power=1); g.run(1, w)
        g.run(rng.randint(0, 3), dict(w, restart=.5))
    g.s.restart()
    return g.s


def crash_chain(rng, name):
    """crash, recover, continue, crash again: also inside recovery"""
    pw = rng.random() < .3
    cl = rng.random() < .4
    g = Gen(rng, name, obs='kpsfr', wal=True, rot=rng.choice([-1, 0]), batch=(1, 2, 3, 6), maxid=25, clouds=['c1'] if cl else [],
            storages=['st1'] + (['st2'] if cl else []), stopts=dict(st2=dict(cloud='c1', cloud_drop_local=rng.random() < .5)),
            pre=['set wal_sync_on_write to true'] if pw else [])
    for _ in range(rng.randint(10, 25)):
        if rng.random() < .3: g.kill(power=int(pw and rng.random() < .7))
        g.run(1, dict(write=6, dup=1, refresh=3, service=1, move=2, drop=.7, walnew=.5, walgc=.5, checkpoint=.5, restart=1.5, upload=.5 * cl, download=.5 * cl,
                      dropl=.3 * cl, dropc=.3 * cl))
    g.s.restart()
    return g.s


def crash_ops(rng, name):
    """images over partition operations in every storage and cloud configuration"""
    cl = rng.random() < .6
    wal = rng.random() < .7
    pw = rng.random() < .5
    g = Gen(rng, name, obs='kp', wal=wal, maxid=20, interval=rng.choice([5, 10]), clouds=['c1'] if cl else [],
            storages=['st1'] + (['st2'] if cl else []),
            stopts=dict(st1=dict(compression=rng.choice(['', 'lz4', 'zstd']), crc=True), st2=dict(cloud='c1', cloud_drop_local=rng.random() < .5)),
            pre=['set wal_sync_on_write to true'] if pw and wal else [])
    g.s.recovery(depth=3 if wal else 2, probe=(g.id(), g.k(), 900, 9) if wal else None, svc=rng.choice([0, 0, 4]), obs='kpsclf')
    if cl and rng.random() < .5: g.s.alter_storage('main', cloud='c1', cloud_drop_local=rng.random() < .5)
    g.run(rng.randint(4, 8), dict(write=8, refresh=2, move=2, service=.5))
    w = dict(refresh=4, move=4, drop=2, service=1, upload=1.5 * cl, download=1.5 * cl, dropl=1 * cl, dropc=1 * cl)
    for _ in range(2):
        with_images(g, lambda: g.run(rng.randint(1, 2), w), power=int(pw), every=1, mx=150)
        g.run(2, dict(write=3, refresh=1))
    return g.s


# ---------------------------------------------------------------------------------------- C07
def walrot(rng, name):
    g = Gen(rng, name, obs='kpwrNsf', wal=True, rot=rng.choice([-1, 0, 0]), maxid=25, storages=['st1'])
    for _ in range(rng.randint(20, 45)):
        x = rng.random()
        if x < .06: g.kill()
        elif x < .14: g.fault(rng.choice([F_ANY, F['write'], F['unlink'], F['sync'], F['openw'], F['rename']]))
        if g.s._inj and x >= .06: g.run(1, dict(write=2, refresh=3, service1=2, walgc=2, walnew=2))
        else: g.run(1, dict(write=9, refresh=3, service1=2, walnew=2.5, walgc=2.5, drop=.6, restart=2, checkpoint=.7, move=.7, held=1.4))
    g.s.restart()
    return g.s


# ---------------------------------------------------------------------------------------- C08
def parts(rng, name):
    g = Gen(rng, name, obs='kpsf', maxid=rng.choice([30, 60, 200]), base=rng.choice([0, 0, 31, 32, 63, 'top', 'top']), dele=.1)
    # drops while the interval changes: drops_interval
    w = dict(interval=3) if rng.random() < .6 else dict(drop=1.5)
    return g.run(rng.randint(15, 40), dict(write=10, createp=5, refresh=1, restart=.7, scan=.5, **w))


# ---------------------------------------------------------------------------------------- C09
def drops(rng, name):
    cl = rng.random() < .4
    g = Gen(rng, name, obs='kpsfr', wal=rng.random() < .9, rot=rng.choice([-1, 0]), maxid=25, dele=.1, clouds=['c1'] if cl else [],
            storages=['st1'], stopts=dict(st1=dict(cloud='c1', cloud_drop_local=rng.random() < .5) if cl else {}),
            interval=rng.choice([4, 10]), base=rng.choice([0, 0, 32, 63, 'top']))
    for _ in range(rng.randint(15, 35)):
        if g.wal and rng.random() < .08: g.kill()
        g.run(1, dict(write=8, drop=4, refresh=2, move=1, createp=1, restart=2, service=1, checkpoint=.5, walnew=.5, walgc=.5,
                      upload=1 * cl, download=.5 * cl, dropc=1 * cl, dropl=.6 * cl))
    g.s.restart()
    return g.s


def drops_interval(rng, name):
    """drops while the interval changes (known finding: record of a whole interval)"""
    g = Gen(rng, name, obs='kp', wal=True, maxid=25, dele=.1, scale=1, base=0)
    for _ in range(rng.randint(12, 25)):
        g.run(1, dict(write=8, drop=4, refresh=1, restart=2, interval=2, createp=1))
    g.s.restart()
    return g.s


def crash_drop(rng, name):
    """images over drops: what the system had, and what a loss of power leaves of it"""
    pw = rng.random() < .7
    cl = rng.random() < .3
    g = Gen(rng, name, obs='kp', wal=True, rot=rng.choice([-1, -1, 0]), batch=(1, 2, 3), maxid=20, dele=.1, interval=rng.choice([4, 5, 10]), clouds=['c1'] if cl else [],
            storages=['st1'], stopts=dict(st1=dict(cloud='c1', cloud_drop_local=rng.random() < .5) if cl else {}),
            pre=['set wal_sync_on_write to true'] if pw else [])
    g.s.recovery(depth=2, obs='kpsf')
    g.run(rng.randint(3, 8), dict(write=8, refresh=1.5, move=.5, walnew=.3))
    for _ in range(rng.randint(1, 2)):
        with_images(g, lambda: g.run(rng.randint(1, 2), dict(drop=6, write=1)), power=int(pw), mx=100)
        # the state the statements left, after a crash right then
        with_images(g, lambda: g.run(1, dict(write=1, checkpoint=.1)), power=int(pw), mx=3)
        g.run(rng.randint(1, 3), dict(write=5, refresh=1, createp=.4))
    return g.s


# ---------------------------------------------------------------------------------------- C10
def moves(rng, name):
    cl = rng.random() < .4
    g = Gen(rng, name, obs='kpsf', maxid=25, storages=['st1', 'st2'], clouds=['c1'] if cl else [],
            stopts=dict(st2=dict(cloud='c1') if cl else {}))
    n = 0
    for _ in range(rng.randint(15, 35)):
        if rng.random() < .08: g.fault(F_ANY)
        elif g.wal and rng.random() < .06: g.kill()
        if g.s._inj: g.run(1, dict(move=3, refresh=1))
        elif rng.random() < .05:
            a, b = rng.choice(['st1', 'st2', 'st3']), rng.choice(['st1', 'st2', 'st3'])
            g.s.rename_storage(a, b)
            if b not in g.storages: g.storages.append(b)
        elif rng.random() < .04: g.s.drop_storage(rng.choice(['st1', 'st2', 'st3', 'main']))
        else: g.run(1, dict(write=7, move=6, refresh=1, restart=1.5, service=1, drop=.4, createp=.7, upload=.6 * cl, dropl=.5 * cl))
    return g.s


def crash_moves(rng, name):
    """a move is interrupted at some file operation; the partition is then moved again, dropped, its log collected"""
    wal = rng.random() < .6
    g = Gen(rng, name, obs='kpsf', wal=wal, maxid=12, storages=['st1', 'st2'], interval=rng.choice([4, 10]), batch=(1, 2, 3), dele=.15)
    if wal: g.walgc2 = lambda: (g.walnew(), g.walgc())
    else: g.walgc2 = g.restart
    for _ in range(rng.randint(2, 3)):
        g.run(rng.randint(2, 4), dict(write=6, createp=.3))
        if rng.random() < .6: g.s.refresh(rng=(0, g.maxid + 12))
        for _ in range(rng.randint(1, 2)):
            g.s.inject(kill=(rng.randint(1, 14), int(rng.random() < .2), 0, rng.randint(1, 1 << 30)))
            g.s.move(rng.choice(g.storages), id=g.id(), ife=True)
        for _ in range(rng.randint(2, 6)):
            g.run(1, dict(move=3, drop=3, refresh=1, write=1.5, walgc2=2, restart=1.5))
        g.restart()
    return g.s


# ---------------------------------------------------------------------------------------- C11
def pipe(rng, name):
    g = Gen(rng, name, obs='kpPslf', maxid=60, storages=['st1', 'st2', 'st3'], dele=.1, interval=rng.choice([4, 5, 10]))
    g.limits = rng.choice([['partitions'], ['events'], ['duration'], ['size'], None])
    g.s.pipeline(g.tiers())
    nid = 0
    for _ in range(rng.randint(15, 35)):
        x = rng.random()
        if x < .3:
            nid = min(nid + rng.randint(1, 12), g.maxid)
            e, z = g.ev(0, id=nid); g.s.write([e], sizes=[z])
        elif x < .37: g.s.pipeline(g.tiers())
        else: g.run(1, dict(write=2, refresh=3, rebalance=4, service=3, drain=1, clock=2, restart=.7, move=.7, createp=.6, checkpoint=.6))
    g.s.rebalance()
    return g.s


def pipe_cloud(rng, name):
    g = Gen(rng, name, obs='kpPslf', maxid=60, clouds=['c1'], storages=['st1', 'st2'], dele=.1,
            stopts=dict(st1=dict(cloud='c1', cloud_drop_local=rng.random() < .5), st2=dict(cloud='c1') if rng.random() < .4 else {}))
    g.limits = ['partitions', 'events']
    g.s.pipeline(g.tiers())
    return g.run(rng.randint(12, 25), dict(write=6, refresh=3, rebalance=3, service=3, drain=1, restart=.8, upload=1, download=1, dropl=.4, checkpoint=.5))


# ---------------------------------------------------------------------------------------- C12
def cloud(rng, name, faults=.12):
    if rng.random() < .5: faults = 0
    c = rng.choice(['c1', 'c1', 'c2'])     # two storages in one cloud, or each in another
    g = Gen(rng, name, obs='kpsf', maxid=20, clouds=sorted({'c1', c}), storages=['st1'], interval=rng.choice([4, 10]),
            stopts=dict(st1=dict(cloud=c, cloud_drop_local=rng.random() < .5, region_size=rng.choice([1, 131072]))))
    g.s.alter_storage('main', cloud='c1', cloud_drop_local=rng.random() < .5, region_size=rng.choice([1, 131072]))
    for _ in range(rng.randint(15, 35)):
        if faults and rng.random() < .3: g.cfail()
        if rng.random() < faults: g.fault(F_ANY)
        if g.s._inj: g.run(1, dict(refresh=2, move=1, upload=3, download=3, service1=1, dropc=1, dropl=1))
        elif rng.random() < .04: g.s.alter_storage(rng.choice(['main', 'st1']), cloud=rng.choice(['', 'c1', c]))
        elif faults and rng.random() < .06: g.fscan()
        else: g.run(1, dict(write=8, refresh=4, move=1, upload=4, download=4, dropl=2, dropc=2, service=2, restart=1.5, checkpoint=.5, drop=.2, scan=1))
    g.s.restart()
    return g.s


def cloud_chain(rng, name):
    """the process dies inside operations on the cloud, also inside the statements which connect storages with it"""
    g = Gen(rng, name, obs='kpsf', maxid=20, clouds=['c1'], storages=['st1'], interval=rng.choice([4, 10]), batch=(1, 2, 3),
            stopts=dict(st1=dict(cloud='c1', cloud_drop_local=rng.random() < .5, region_size=rng.choice([1, 131072]))))
    w = dict(refresh=3, move=1.5, upload=3, download=3, dropl=2, dropc=2, service=1, drop=.3, restart=.5, checkpoint=.2)
    for _ in range(rng.randint(12, 25)):
        g.run(rng.randint(0, 2), dict(write=8, **w))
        if rng.random() < .5: g.s.inject(kill=(rng.choice([1, 1, 2, 2, 3, 4, 6, 9]), int(rng.random() < .2), 0, rng.randint(1, 1 << 30)))
        st = rng.choice(g.storages + ['st1', 'st2'])
        x = rng.random()
        if x < .25: g.s.alter_storage(st, cloud=rng.choice(['', 'c1', 'c1']))
        elif x < .32: g.s.create_storage(st, ifne=True, cloud=rng.choice(['', 'c1', 'c1'])); g.storages += [st] * (st not in g.storages)
        elif x < .4: g.s.drop_storage(st)
        else: g.run(1, w)
    g.s.restart()
    g.run(6, dict(refresh=2, upload=2, download=2))
    return g.s


# ---------------------------------------------------------------------------------------- C13
MARK = '4d4e4c45414b4d41524b'


def codec(rng, name):
    R = rng
    def szs(r):
        rs = rng.choice([1, 64, 256, 1000, 4096])
        return r.choice([3, 4, rs - 41 if rs > 44 else 5, rs - 40 if rs > 44 else 6, rs, rs + 1, 3 * rs, 131072, 131060, 300000 if r.random() < .1 else 9])
    def opts():
        o = dict(compression=R.choice(['', 'lz4', 'zstd']), region_size=R.choice([1, 64, 256, 1000, 4096, 131072]))
        if o['compression'] and R.random() < .5: o['compression_level'] = R.choice([0, 1, 5])
        return o
    def enc():
        o = opts()
        o['crc'] = R.random() < .5
        if R.random() < .6: o.update(encryption='aes', encryption_key='0123456789012345678901234567890' + R.choice('ab'))
        return o
    so = dict(st1=enc(), st2=enc(), st3=dict(enc(), cloud='c1', cloud_drop_local=R.random() < .5))
    g = Gen(rng, name, obs='kpP', maxid=12, keys=KEYSETS[2], interval=rng.choice([5, 10]), sizes=lambda r: max(3, szs(r)), clouds=['c1'],
            storages=['st1', 'st2', 'st3'], stopts=so, batch=(1, 2, 3, 8), wal=rng.random() < .5)
    g.s.alter_storage('main', **enc())
    if R.random() < .5: g.shorts()
    for _ in range(rng.randint(12, 25)):
        x = R.random()
        if x < .15: g.s.alter_storage(R.choice(['main', 'st1', 'st2', 'st3']), **opts())
        else: g.run(1, dict(write=5, refresh=4, move=4, restart=1, service=.5, scan=.5, upload=.5, download=.5))
    g.s.refresh(rng=(0, g.maxid + 10)); g.s.restart()
    return g.s


def secret(rng, name):
    """every storage encrypted: a recognisable key never shows up in a partition file or a cloud copy"""
    def enc():
        return dict(encryption='aes', encryption_key='0123456789012345678901234567890' + rng.choice('ab'), crc=rng.random() < .5,
                    compression=rng.choice(['', '', 'lz4', 'zstd']), region_size=rng.choice([1, 64, 1000, 131072]))
    g = Gen(rng, name, obs='kp', maxid=15, keys=['-', MARK * 2, '61' + MARK], interval=5, clouds=['c1'], storages=['st1', 'st2'], batch=(1, 2, 3, 8),
            stopts=dict(st1=enc(), st2=dict(enc(), cloud='c1', cloud_drop_local=rng.random() < .5)))
    g.s.alter_storage('main', **enc())
    for _ in range(rng.randint(6, 14)):
        x = rng.random()
        if x < .1: g.s.alter_storage(rng.choice(['main', 'st1', 'st2']), compression=rng.choice(['', 'lz4', 'zstd']), region_size=rng.choice([1, 64, 131072]))
        elif x < .2: g.fault(F_ANY); g.run(1, dict(refresh=2, move=2))
        else: g.run(1, dict(write=5, refresh=4, move=3, upload=1, download=1, restart=.6, service=.5))
        if rng.random() < .4: g.s.grep(MARK)
    g.s.refresh(rng=(0, g.maxid + 10)); g.s.grep(MARK); g.s.restart(); g.s.scan()
    return g.s


# ---------------------------------------------------------------------------------------- C14
def serial(rng, name):
    g = Gen(rng, name, obs='kpn', serial=True, maxid=40, wal=rng.random() < .85, base=0, scale=1, rot=rng.choice([-1, 0]), dele=.2)
    for _ in range(rng.randint(15, 35)):
        if g.wal and rng.random() < .06: g.kill()
        g.run(1, dict(serialw=9, write=2, refresh=2, drop=1.2, restart=2, service=1, createp=.6, checkpoint=.5, dup=.3, walgc=.3))
        if rng.random() < .03: g.s.set_ssn(rng.randint(0, 60))
    g.s.restart()
    return g.s


# ---------------------------------------------------------------------------------------- C15
def ddl(rng, name):
    g = Gen(rng, name, obs='kpsclg', maxid=20, dele=.1)
    for _ in range(rng.randint(20, 40)):
        if rng.random() < .06: g.kill(mx=8)
        g.run(1, dict(ddl=10, shared=1, write=2, refresh=1, move=1.5, restart=1.5, upload=.4, interval=.4))
    g.s.restart()
    return g.s


def ddl_crash(rng, name):
    g = Gen(rng, name, obs='kpsclg', wal=True, maxid=20, dele=.1, pre=['set wal_sync_on_write to true'])
    g.nosync = True
    g.s.recovery(depth=2, obs='kpsclg')
    g.run(rng.randint(5, 12), dict(ddl=6, shared=.3, write=1, refresh=.5, move=.5))
    with_images(g, lambda: g.run(rng.randint(2, 5), dict(ddl=6)), power=1, mx=100)
    return g.s


def ddl_fault(rng, name):
    g = Gen(rng, name, obs='kpsclg', maxid=20, dele=.1)
    g.run(rng.randint(4, 10), dict(ddl=6, write=1, refresh=.5, move=.5))
    for _ in range(rng.randint(1, 3)):
        g.fault(F_ALLW, skip=rng.randint(0, 5), n=rng.choice([1, 1, 1000]))
        g.ddl()
        if rng.random() < .5: g.run(1, dict(ddl=3, write=1, move=1))
    g.s.restart()
    return g.s


# ---------------------------------------------------------------------------------------- C18
def stats(rng, name):
    rs = lambda: rng.choice([1, 1, 24, 45, 46, 47, 63, 66, 82, 84, 87, 102, 400, 1000, 131072])    # also where a block of small events ends exactly
    g = Gen(rng, name, obs='kpsfmNwP', storages=['st1', 'st2'], clouds=['c1'], maxid=30,
            sizes=(lambda r: r.choice([3, 4, 20, 42, 60, 200, 1000])) if rng.random() < .5 else None,
            stopts=dict(st1=dict(cloud='c1', cloud_drop_local=rng.random() < .5, compression=rng.choice(['', 'lz4', 'zstd'])),
                        st2=dict(region_size=rs(), crc=True, **(dict(encryption='aes', encryption_key='0123456789012345678901234567890a') if rng.random() < .3 else {}))))
    if rng.random() < .7: g.s.alter_storage('main', region_size=rs(), compression=rng.choice(['', 'lz4', 'zstd']))
    for _ in range(rng.randint(15, 35)):
        if rng.random() < .12: g.fault(F_ANY)
        if g.s._inj: g.run(1, dict(refresh=3, move=2, upload=1, download=1, service1=1, drop=1, write=1))
        elif rng.random() < .06: g.s.alter_storage(rng.choice(['main', 'st1', 'st2']), region_size=rs(), **(dict(compression=rng.choice(['', 'lz4', 'zstd'])) if rng.random() < .5 else {}))
        else: g.run(1, dict(write=8, badw=0, dup=1, refresh=3, move=2, drop=1, upload=1, download=1, dropl=.5, dropc=.5, service=1, restart=1, checkpoint=.5, createp=.5, memgc=.5))
    g.s.refresh(rng=(0, g.maxid + 30))
    return g.s


# ---------------------------------------------------------------------------------------- C19
def faults(rng, name):
    cl = rng.random() < .4
    g = Gen(rng, name, obs='kpsf', maxid=20, clouds=['c1'] if cl else [], storages=['st1', 'st2'],
            stopts=dict(st2=dict(cloud='c1', cloud_drop_local=rng.random() < .5) if cl else {}), rot=rng.choice([-1, 0]))
    if cl and rng.random() < .5: g.s.alter_storage('main', cloud='c1')
    g.run(rng.randint(3, 8), dict(write=6, refresh=2, move=1))
    ops = ['refresh', 'move', 'drop', 'service1', 'checkpoint', 'fscan'] + (['write', 'walnew', 'walgc'] if g.wal else []) + (['upload', 'download', 'dropl', 'dropc'] if cl else [])
    for _ in range(rng.randint(3, 7)):
        st = rng.getstate()
        op = rng.choice(ops)
        # the same statement, failing and then again without the fault
        st = rng.getstate()
        g.fault(F_ANY); rng.setstate(st)
        getattr(g, op)()
        for _ in range(rng.randint(0, 2)): rng.random(); g.run(1, dict(write=5, scan=1, refresh=.5))
        st2 = rng.getstate()
        rng.setstate(st); getattr(g, op)(); rng.setstate(st2); rng.random()
        g.run(rng.randint(0, 2), dict(write=4, refresh=1, restart=1, service=1, fscan=1))
    g.s.restart()
    return g.s


# ---------------------------------------------------------------------------------------- C20
def svc(rng, name):
    big = rng.random() < .6
    g = Gen(rng, name, obs='kpsf', maxid=30, storages=['st1', 'st2'], pre=['set mm_page_size to 4096'] if False else [],
            sizes=(lambda r: r.choice([3, 40, 400])))
    wm = rng.choice([1, 2097152, 2097153, 41943040])
    g.s.alter_storage('main', refresh_wm=wm)
    if rng.random() < .4: g.limits = ['partitions', 'events']; g.s.pipeline(g.tiers())
    for _ in range(rng.randint(15, 35)):
        if rng.random() < .07: g.fault(F_ANY)
        if g.s._inj: g.s.service(1)
        else: g.run(1, dict(write=6, service1=6, checkpoint=1.5, refresh=.8, createp=1, rebalance=.5, drop=.4, move=.4))
    g.s.service(80)
    g.s.checkpoint(); g.s.service(80)
    return g.s


# ---------------------------------------------------------------------------------------- C22
def openclose(rng, name):
    cl = rng.random() < .4
    g = Gen(rng, name, obs='kpsclf', maxid=25, clouds=['c1'] if cl else [], storages=['st1', 'st2'],
            stopts=dict(st2=dict(cloud='c1') if cl else {}), rot=rng.choice([-1, 0]), wal=True)
    g.limits = ['partitions', 'events', 'duration']
    for _ in range(rng.randint(4, 8)):
        g.run(rng.randint(1, 5), dict(write=6, refresh=2, move=2, createp=.7, drop=.7, ddl=.7, walnew=.5, walgc=.5, service=1, upload=.5 * cl, dropl=.3 * cl))
        g.misuse()
        for _ in range(rng.randint(1, 3)): g.s.restart()
    return g.s


# ---------------------------------------------------------------------------------------- C21
def damaged(rng, name):
    """a file of a closed database is changed or cut off"""
    kind = rng.choice('wwWpppcm')
    cl = kind in 'cm'
    idx = kind in 'pc' and rng.random() < .5       # the index at the end of the file
    co = dict(crc=True, region_size=rng.choice([1, 60, 400, 131072]), compression='' if idx and rng.random() < .6 else rng.choice(['', 'lz4', 'zstd']))
    if rng.random() < (.1 if idx else .3): co.update(encryption='aes', encryption_key='0123456789012345678901234567890a')
    # the size in a record's head is not covered by a checksum: a log is only cut off there
    g = Gen(rng, name, obs='kpf', wal=kind in 'wW' or rng.random() < .5, maxid=25, clouds=['c1'] if cl else [], pre=['set wal_crc to true'],
            storages=['st1'], stopts=dict(st1=dict(co, cloud='c1', cloud_drop_local=True) if cl else co), rot=rng.choice([-1, 0]) if kind != 'W' else 0,
            sizes=lambda r: r.choice([3, 17, 200, 900]))
    s = g.s
    s.alter_storage('main', **dict(co, **(dict(cloud='c1', cloud_drop_local=kind == 'm') if cl else {})))
    def drop1(): s.drop(id=g.id(), ife=True)
    g.drop = drop1
    def damage(k):
        m = rng.choice(['flip', 'flip', 'bit', 'zero', 'trunc'])
        off = -rng.randint(1, 330) if idx else rng.choice([rng.randint(0, 999), rng.randint(0, 999), -rng.randint(1, 120)])
        s.damage(k, rng.randrange(50), m, off, rng.choice([1, 1, 1, 4, 16, 200]), rng.randint(1, 1 << 30), strict=k == 'p')
    w = dict(write=8, dup=1, refresh=1.5 if kind in 'wW' else 4, drop=.4, service=.7, walnew=.6, restart=.7, move=.5)
    g.run(rng.randint(6, 15), w)
    if kind in 'pcm':
        s.refresh(rng=(0, g.maxid + 20))
        g.run(rng.randint(0, 2), dict(write=3))
    if rng.random() < .3: s.damage('j', rng.randrange(50), 'junk', 0, rng.choice([0, 10, 5000]), rng.randint(1, 1000))
    for _ in range(rng.randint(1, 3) if kind == 'w' else 1):
        damage(kind)
        if kind in 'pcm':
            for _ in range(rng.randint(2, 5)): g.scan()
        g.run(rng.randint(1, 4), dict(write=5, scan=1, restart=1, refresh=.3))
    return s


def damaged_index(rng, name):
    """the list of regions at the end of a partition file (or of the copy of it kept for a partition in the cloud) is changed"""
    kind = rng.choice('ccp')
    co = dict(crc=True, region_size=rng.choice([1, 1, 40, 90]), compression=rng.choice(['', '', '', 'lz4']))
    g = Gen(rng, name, obs='kf', maxid=20, clouds=['c1'], storages=['st1'], batch=(2, 3, 6), dele=.1, interval=10, keys=KEYSETS[1],
            stopts=dict(st1=dict(co, cloud='c1', cloud_drop_local=True)), sizes=lambda r: r.choice([3, 5, 17]))
    s = g.s
    s.alter_storage('main', **dict(co, **(dict(cloud='c1', cloud_drop_local=True) if kind == 'c' else {})))
    for _ in range(rng.randint(3, 9)): g.write()
    s.refresh(rng=(0, g.maxid + 10))
    s.damage(kind, rng.randrange(50), rng.choice(['flip', 'bit', 'bit', 'zero']), -rng.randint(1, 120 + 40 * rng.randint(1, 9)), rng.choice([1, 1, 1, 2, 8]), rng.randint(1, 1 << 30), strict=True)
    qs = [(i, k) for i in range(0, g.maxid + 1) for k in range(len(g.keys))]
    rng.shuffle(qs)
    for q in qs[:40]: s.scan(q)
    return s
