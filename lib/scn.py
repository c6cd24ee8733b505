"""Scenarios: a list of abstract operations, rendered as a driver script, and
the recorded execution turned into a trace for the TLA+ monitor."""
import json, os, re, zlib

M64 = 1 << 64
SERIAL = M64 - 1
BAD = -7          # an id the mapping cannot explain

MAIN_DEFAULT = dict(path='', cloud='', cloud_drop_local='true', sync='true', crc='false', refresh_wm='41943040',
                    region_size='131072', compression='zstd', compression_level='0', encryption='')
STORAGE_DEFAULT = dict(MAIN_DEFAULT)
CLOUD_DEFAULT = dict(type='', login='', url='', debug='false')


def sval(v):
    if v is True: return 'true'
    if v is False: return 'false'
    return str(v)


# names of units: the documentation's words for them
TIME = [(1, 'us', 'microsecond', 'microseconds'), (1000, 'ms', 'millisecond', 'milliseconds'), (10**6, 'sec', 'second', 'seconds'), (60 * 10**6, 'min', 'minute', 'minutes'),
        (3600 * 10**6, 'hr', 'hour', 'hours'), (86400 * 10**6, 'day', 'days'), (7 * 86400 * 10**6, 'week', 'weeks'),
        (30 * 86400 * 10**6, 'month', 'months'), (360 * 86400 * 10**6, 'year', 'years')]
SIZE = [(1000, 'kb'), (1024, 'kib', 'k'), (10**6, 'mb'), (1 << 20, 'mib', 'm'), (10**9, 'gb'), (1 << 30, 'gib', 'g'), (10**12, 'tb'), (1 << 40, 'tib', 't')]

def united(v, units, salt):
    """an integer, written with a unit if there is one"""
    h = zlib.crc32(('%s %d' % (salt, v)).encode()) >> 4
    w = ['%d' % v] + ['%d%s%s' % (v // u[0], ' ' if h >> 8 & 1 else '', n) for u in units if v % u[0] == 0 for n in u[1:]]
    w = w[h % len(w)]
    return w.upper() if h >> 9 & 3 == 3 else w

WORDS = re.compile(r'\b(create|drop|alter|show|refresh|move|partitions?|storage|cloud|pipeline|between|and|into|if|exists|not|on|upload|download|rename|to|set|reset|checkpoint|rebalance)\b')
def spelled(sql, salt):
    """the same statement in other letters, with blanks and comments"""
    h = zlib.crc32(('%s %s' % (salt, sql)).encode())
    if h & 15 == 0:
        n = min([sql.find(x) for x in '(\'"' if x in sql] + [len(sql)])
        sql = WORDS.sub(lambda m: m.group().upper() if h >> 5 & 1 else m.group().capitalize(), sql[:n]) + sql[n:]
    if h & 15 == 1: sql = ' \t' + sql.replace(' to ', '  to\t').replace('partition ', 'partition   ') + ' '
    if h & 15 == 2: sql += ['# x', ' # 1 2 3', '#', ' #\'"'][h >> 5 & 3]
    return sql

def sql_val(v, salt=''):
    if v is True: return 'true'
    if v is False: return 'false'
    if isinstance(v, int): return united(v, SIZE, salt) if salt else str(v)
    return "'%s'" % v


def cloud_opts(name):
    # the store behind the clouds is chosen by the name of the scenario: no random choice depends on it
    if zlib.crc32(name.encode()) % 5 < 2: return dict(type='s3', login='ak', password='sk', url='http://s3.local')
    return dict(type='mock')
def sql_opts(opts, salt=''): return ', '.join('%s %s' % (k, sql_val(v, salt and salt + k)) for k, v in opts.items())

class Scn:
    def __init__(self, name, interval=10, wal=True, serial=False, rot=-1, base=0, scale=1, keys=('-',), obs='kp',
                 pre=(), val=(3, 40), workers=None):
        self.name = name
        # one tick of the clock
        self.tick = 10**6 if workers else TIME[2:][(zlib.crc32(name.encode()) >> 7) % 7][0]
        self.interval, self.wal, self.serial, self.rot = interval, wal, serial, rot
        self.base, self.scale = base, scale
        self.vsizes = {}
        self.cur_interval = interval
        self.keys = list(keys)
        self.obs = obs
        self.memlimit = False
        self.lossy = False       # log records are not synced one by one
        self.top = None
        self.head = []
        self.pre = list(pre)
        self.lines = []      # script lines
        self.nline = 0
        self.ops = []        # abstract operations, each with _line: number of the script line holding its result
        self.cursors = set()
        self._inj = None
        for k in self.keys:
            self.head.append('key ' + k)
        self.settings = ['set workers to 0', 'set workers_upload to 0', 'set log to false', 'set log_to_file to false',
                         'set interval to ' + united(interval * scale, TIME, name), 'set wal to %s' % sval(wal),
                         'set serial to %s' % sval(serial)]
        if rot == 0:
            self.settings.append('set wal_rotate_wm to 0')
        self.settings += self.pre
        self._open()

    # ---- rendering
    def rid(self, a):
        if a == -1: return SERIAL
        r = (self.base + a * self.scale) % M64
        return r

    def raw(self, l):            # unnumbered line
        self.lines.append(l)

    def num(self, l):            # numbered line
        self.lines.append(l)
        self.nline += 1
        return self.nline

    def _open(self):
        self.num('init')
        for s in self.settings:
            self.num('q ' + s)
        l = self.num('open')
        self.ops.append(dict(t='observe', _line=l))

    def inject(self, fault=None, kill=None):
        """applies to the next operation"""
        self._inj = (fault, kill)
        return self

    def add(self, op, line, fault=None, kill=None):
        """fault: arguments of the driver's fault command, or None
        kill: (k, torn, power, seed): the process is gone at the k-th file operation; the database is opened again"""
        if self._inj: (fault, kill), self._inj = self._inj, None
        if kill:
            op['_line'] = self.num('kill %d %d %d %d %s' % (tuple(kill) + (line,)))
            self.num('init')
            for s in self.settings: self.num('q ' + s)
            l = self.num('open')
            self.ops.append(dict(t='killed', _of=op, _line=l, **(dict(lossy=True) if self.lossy and kill[2] else {})))
            return op
        if fault:
            self.raw('fault ' + fault)
        op['_line'] = self.num(line)
        if fault:
            op['_fline'] = self.num('nofault')
        self.ops.append(op)
        return op

    def q(self, op, sql, **kw):
        return self.add(op, 'q ' + spelled(sql, self.salt()), **kw)

    # ---- operations
    def write(self, evs, sizes=None, bad=0, **kw):
        """evs: list of (id, k, token or -1 for delete)"""
        toks = []
        for i, (a, k, v) in enumerate(evs):
            sz = 0 if v <= 0 else (sizes[i] if sizes else 3 + (v * 7) % 40)
            if v > 0: self.vsizes[v] = sz
            toks.append('%d %d %d %d %d' % (1 if v == -1 else 0, self.rid(a), k, max(v, 0), sz))
        return self.add(dict(t='write', evs=[dict(id=a, k=k, v=v) for a, k, v in evs], bad=bad),
                        'w %d %s' % (len(evs), ' '.join(toks)), **kw)

    def scan(self, pos=(), **kw):
        if pos:
            return self.add(dict(t='scan', pos=list(pos)), 'scan %d %d' % (self.rid(pos[0]), pos[1]), **kw)
        return self.add(dict(t='scan', pos=[]), 'scan', **kw)

    def show(self, items):
        """one SHOW statement for several things: (kind, argument)"""
        sql = dict(part=lambda a: 'partition %d' % self.rid(a), partsin=lambda a: 'partitions ' + a, parts=lambda a: 'partitions',
                   stor=lambda a: 'storage ' + a, cloud=lambda a: 'cloud ' + a, pipe=lambda a: 'pipeline', serial=lambda a: 'serial')
        return self.q(dict(t='show', items=[dict(k=k, a=a) for k, a in items]), 'show ' + ', '.join(sql[k](a) for k, a in items))

    def curopen(self, c, pos=()):
        self.add(dict(t='curopen', c=c, pos=list(pos)), 'curopen %s' % c + (' %d %d' % (self.rid(pos[0]), pos[1]) if pos else ''))
    def curread(self, c):
        self.add(dict(t='curat', c=c, first=True), 'curread %s' % c)
    def curnext(self, c):
        self.add(dict(t='curat', c=c), 'curnext %s' % c)
    def curclose(self, c):
        self.add(dict(t='curclose', c=c), 'curclose %s' % c)

    def createp(self, mn, mx=None):
        if mx is None and self.scale > 1: mx = mn + self.interval
        if mx is None:           # pinned by the tests: [min, min + interval] inclusive
            mx2 = mn + self.cur_interval
            return self.q(dict(t='createp', min=mn, max=mx2), 'create partition %d' % self.rid(mn))
        return self.q(dict(t='createp', min=mn, max=mx), 'create partition %d %d' % (self.rid(mn), (self.rid(mx + 1) - 1) % M64))

    def _target(self, id=None, rng=None, ife=False):
        if rng is None:
            return 'partition %s%d' % ('if exists ' if ife else '', self.rid(id)), dict(id=id, ife=ife)
        # range upper bound: last id of the abstract slot
        return 'partitions between %d and %d' % (self.rid(rng[0]), (self.rid(rng[1] + 1) - 1) % M64), dict(lo=rng[0], hi=rng[1], ife=True)

    def drop(self, id=None, rng=None, ife=False, which='LC', **kw):
        s, d = self._target(id, rng, ife)
        d.update(t='drop', which=list(which))
        return self.q(d, 'drop ' + s + {'LC': '', 'L': ' on storage', 'C': ' on cloud'}[which], **kw)
    def move(self, to, id=None, rng=None, ife=False, **kw):
        s, d = self._target(id, rng, ife)
        d.update(t='move', to=to)
        return self.q(d, 'move ' + s + ' into ' + to, **kw)
    def refresh(self, id=None, rng=None, ife=False, **kw):
        s, d = self._target(id, rng, ife)
        d.update(t='refresh')
        return self.q(d, 'refresh ' + s, **kw)
    def download(self, id=None, rng=None, ife=False, ifc=False, **kw):
        s, d = self._target(id, rng, ife)
        d.update(t='download', ifc=ifc)
        return self.q(d, 'download ' + s + (' if cloud' if ifc else ''), **kw)
    def upload(self, id=None, rng=None, ife=False, ifc=False, **kw):
        s, d = self._target(id, rng, ife)
        d.update(t='upload', ifc=ifc)
        return self.q(d, 'upload ' + s + (' if cloud' if ifc else ''), **kw)

    def checkpoint(self): return self.q(dict(t='checkpoint'), 'checkpoint')
    def service(self, n=1, **kw): return self.add(dict(t='service', n=n), 'svc %d' % n, **kw)
    def clock(self, n):
        self.raw('clock %d' % (n * self.tick))
        self.ops.append(dict(t='clock', n=n, _line=0))
    def grep(self, hexs): return self.add(dict(t='grep'), 'grep ' + hexs)
    def rebalance(self, **kw): return self.q(dict(t='rebalance'), 'rebalance', **kw)
    def wal_create(self, **kw): return self.q(dict(t='wal_create'), 'debug "wal_create"', **kw)
    def wal_gc(self, **kw): return self.q(dict(t='wal_gc'), 'debug "wal_gc"', **kw)

    def opts_sql(self, opts):
        return sql_opts(opts, self.salt())
    def salt(self): return '%s%d' % (self.name, self.nline)
    def create_storage(self, n, ifne=False, _dflt=None, **opts):
        s = 'create storage %s%s' % ('if not exists ' if ifne else '', n)
        if opts: s += ' (%s)' % self.opts_sql(opts)
        d = dict(STORAGE_DEFAULT)
        return self.q(dict(t='create_storage', name=n, ifne=ifne, opts={k: sval(v) for k, v in opts.items()}, default=d), s)
    def drop_storage(self, n, ife=False):
        return self.q(dict(t='drop_storage', name=n, ife=ife), 'drop storage %s%s' % ('if exists ' if ife else '', n))
    def alter_storage(self, n, ife=False, **opts):
        return self.q(dict(t='alter_storage', name=n, ife=ife, opts={k: sval(v) for k, v in opts.items()}),
                      'alter storage %s%s set (%s)' % ('if exists ' if ife else '', n, self.opts_sql(opts)))
    def rename_storage(self, n, to, ife=False):
        return self.q(dict(t='rename_storage', name=n, to=to, ife=ife), 'alter storage %s%s rename to %s' % ('if exists ' if ife else '', n, to))
    def create_cloud(self, n, ifne=False, **opts):
        if 'type' not in opts: opts.update(cloud_opts(self.name))
        return self.q(dict(t='create_cloud', name=n, ifne=ifne, opts={k: sval(v) for k, v in opts.items()}, default=dict(CLOUD_DEFAULT)),
                      'create cloud %s%s (%s)' % ('if not exists ' if ifne else '', n, self.opts_sql(opts)))
    def drop_cloud(self, n, ife=False):
        return self.q(dict(t='drop_cloud', name=n, ife=ife), 'drop cloud %s%s' % ('if exists ' if ife else '', n))
    def alter_cloud(self, n, ife=False, **opts):
        return self.q(dict(t='alter_cloud', name=n, ife=ife, opts={k: sval(v) for k, v in opts.items()}),
                      'alter cloud %s%s set (%s)' % ('if exists ' if ife else '', n, self.opts_sql(opts)))
    def rename_cloud(self, n, to, ife=False):
        return self.q(dict(t='rename_cloud', name=n, to=to, ife=ife), 'alter cloud %s%s rename to %s' % ('if exists ' if ife else '', n, to))
    def pipeline(self, tiers):
        """tiers: list of (storage, dict(partitions=, size=, events=, duration=))"""
        if not tiers:
            return self.q(dict(t='pipeline', tiers=[]), 'alter pipeline reset')
        parts = []
        ts = []
        for st, c in tiers:
            parts.append(st + (' (%s)' % ', '.join('%s %s' % (k, united(v * self.tick, TIME, self.salt()) if k == 'duration' else united(v, SIZE, self.salt())) for k, v in c.items()) if c else ''))
            ts.append(dict(st=st, pn=c.get('partitions', -1), sz=c.get('size', -1), ev=c.get('events', -1), du=c.get('duration', -1)))
        return self.q(dict(t='pipeline', tiers=ts), 'alter pipeline set ' + ', '.join(parts))
    def set_interval(self, v):
        self.cur_interval = v
        return self.q(dict(t='set_interval', v=v), 'set interval to ' + united(v * self.scale, TIME, self.salt()))
    def set_opt(self, n, v): return self.q(dict(t='set_opt', name=n, v=sval(v)), 'set %s to %s' % (n, sql_val(v, self.salt())))
    def set_ssn(self, v): return self.q(dict(t='set_ssn', v=v), 'set ssn to %d' % v)
    def bad(self, sql): return self.q(dict(t='bad'), sql)
    def nop(self, sql): return self.q(dict(t='nop'), sql)

    def restart(self, settings=None):
        self.num('close')
        self.num('init')
        for s in (settings if settings is not None else self.settings):
            self.num('q ' + s)
        self.add(dict(t='restart'), 'open')

    def closed_misuse(self):
        """operations on an environment that is not open, then the restart"""
        self.num('close')
        self.num('init')
        self.raw('autoobs -')
        for l in ('q create storage zz', 'q create partition 1', 'q checkpoint', 'q service', 'q refresh partition 1', 'q create cloud zz (type \'mock\')', 'q drop partitions between 0 and 100',
                  'w 1 0 %d 0 990 5' % self.rid(1), 'curopen zz', 'q rebalance', 'q alter pipeline reset', 'q move partition 1 into main'):
            self.add(dict(t='bad'), l)
        self.raw('autoobs ' + self.obs)
        for s in self.settings: self.num('q ' + s)
        self.add(dict(t='restart'), 'open')

    def damage(self, kind, pick=0, mode='flip', off=0, ln=1, seed=1, strict=False):
        """a file of the closed database is damaged; the database is opened again"""
        self.num('close')
        dl = self.num('damage %s %d %s %d %d %d' % (kind, pick, mode, off, ln, seed))
        self.num('init')
        for s in self.settings: self.num('q ' + s)
        self.add(dict(t='damaged', kind=kind, mode=mode, strict=strict), 'open')
        self.ops[-1]['_dline'] = dl

    # ---- crash images
    def crash(self, on, torn=0, power=0, every=1, seed=1, mx=4000):
        self.raw('crash %s %d %d %d %d %d' % ('on' if on else 'off', torn, power, every, seed, mx))
    def recovery(self, depth=3, svc=0, probe=None, obs='k'):
        for s in self.settings:
            self.raw('recset ' + s)
        self.raw('recobs ' + obs)
        self.raw('recdepth %d %d' % (depth, svc))
        self.probe = probe
        if probe:
            a, k, t, sz = probe
            self.raw('probe %d %d %d %d' % (self.rid(a), k, t, sz))

    def script(self):
        return '\n'.join(self.head + ['autoobs ' + self.obs] + self.lines) + '\n'

    def region_sizes(self):
        r = {int(MAIN_DEFAULT['region_size'])}
        for op in self.ops:
            for o in (op.get('opts') or {}), (op.get('set') or {}):
                if isinstance(o, dict) and 'region_size' in o: r.add(int(o['region_size']))
        return sorted(r)

    # ---- record -> trace
    def uid(self, r):
        r %= M64
        if r < self.base: return BAD
        d = r - self.base
        if d % self.scale: return BAD
        a = d // self.scale
        return a if a < (1 << 30) else BAD
    def umax(self, r):
        r %= M64
        if r == M64 - 1 and (M64 - self.base) % self.scale == 0:
            a = (M64 - self.base) // self.scale - 1
            return a if a < (1 << 30) else BAD
        a = self.uid((r + 1) % M64)
        return a - 1 if a != BAD else BAD

    def kv(self, raw):
        if isinstance(raw, dict): return [[BAD, BAD, BAD]]
        return [[self.uid(e[0]) if e[1] >= 0 else BAD, e[1], e[2]] for e in raw]

    def parts(self, raw):
        return [[self.uid(p['min']), self.umax(p['max']), p['storage'], p['on_storage'], p['on_cloud'], p['refreshes'],
                 p['events'], p['events_heap']] for p in raw]

    def observation(self, o, want):
        """want: names of the observables to hand to the specification"""
        r = {}
        if 'kv' in want and 'kv' in o: r['kv'] = self.kv(o['kv'])
        if 'parts' in o:
            if isinstance(o['parts'], dict): r['parts'] = []
            else:
                if 'parts' in want: r['parts'] = self.parts(o['parts'])
                if 'place' in want: r['place'] = [p[:5] for p in self.parts(o['parts'])]
        if 'stor' in o:
            if 'stor' in want:
                r['stor'] = [dict(name=n, cfg={k: sval(v) for k, v in s['config'].items() if k not in ('uuid', 'name')}) for n, s in o['stor'].items()]
            if 'totals' in want:
                r['totals'] = [[n, s['stats']['partitions'], s['stats']['events'], s['stats']['events_heap']] for n, s in o['stor'].items()]
        if 'clouds' in want and 'clouds' in o:
            r['clouds'] = [dict(name=n, cfg={k: sval(v) for k, v in c.items() if k not in ('name', 'password')}) for n, c in o['clouds'].items()]
        if 'pipe' in want and 'pipe' in o:
            r['pipe'] = [dict(st=t['name'], pn=t['partitions'], sz=t['size'], ev=t['events'], du=t['duration'] // self.tick if t['duration'] > 0 else t['duration']) for t in o['pipe']]
        if 'sums' in want and isinstance(o.get('parts'), list) and 'stor' in o:
            # statistics of partitions, and the storages' totals of the same
            f = ('regions', 'events', 'events_heap', 'size', 'size_uncompressed', 'size_heap')
            r['prows'] = [[p['storage'], p['on_storage'], p['on_cloud']] + [p[x] for x in f] for p in o['parts']]
            r['srows'] = [[n, s['stats']['partitions'], s['stats']['partitions_local'], s['stats']['partitions_cloud']] +
                          [s['stats'][x] for x in f] for n, s in o['stor'].items()]
            r['sbounds'] = [[n] + ([self.uid(s['stats']['min']), self.umax(s['stats']['max'])] if s['stats']['partitions'] else [0, 0])
                            for n, s in o['stor'].items()]
        if 'fsizes' in want and isinstance(o.get('parts'), list) and 'files' in o and 'stor' in o:
            # size of a partition as reported and the size of its file
            uu = {n: (s['config']['path'] + '/' if s['config']['path'] else '') + s['config']['uuid'] for n, s in o['stor'].items()}
            fs = {x[0]: x[1] for x in o['files']}
            def size(p):
                n = '%s/%020d' % (uu.get(p['storage']), p['min'] % M64)
                c = [fs[n + x] for x in ('', '.complete', '.incomplete') if n + x in fs]
                return p['size'] if p['size'] in c else c[0] if c else -1
            r['fsizes'] = [[p['size'], size(p)] for p in o['parts'] if p['on_storage']]
        if 'layout' in want and isinstance(o.get('partsd'), list):
            r['lay'] = [[self.uid(p['min']), p['regions'], p['size_uncompressed'], p['index']['size_regions_origin'], p['index']['events'],
                         p['index']['compression'], p['index']['encryption'], p['index']['lsn']] for p in o['partsd'] if p.get('index')]
        if 'copies' in want and isinstance(o.get('parts'), list) and 'files' in o and 'stor' in o:
            # every file outside of the log, by what it is: a partition file, what is kept for a copy in the cloud, the copy
            un = {s['config']['uuid']: n for n, s in o['stor'].items()}
            r['copies'] = []
            for f, _ in o['files']:
                x = f.split('/')
                if x[0] == 'wal' or len(x) == 1: continue
                n = x[-1][:20]
                obj = len(x) > 2 and (x[0] == 's3' or x[-2] == 'mock')
                u = un.get((x[1] if x[0] == 's3' else x[-3]) if obj else x[-2] if len(x) > 1 else '')
                if not n.isdigit(): n = '-'
                if not u and x[-1].endswith('.incomplete'): continue    # of a failed rewrite, in a storage which has been dropped since
                k = 'O' if obj and x[-1] == n else {n: 'L', n + '.cloud': 'c'}.get(x[-1], f) if not obj else f
                r['copies'].append([u or '?', self.uid(int(n)) if len(n) == 20 and n.isdigit() else BAD, k])
        if 'memfree' in want and 'mem' in o: r['pages'] = o['mem']['pages_used']
        if 'lsn' in want and isinstance(o.get('lsn'), int): r['lsn'] = o['lsn']
        if 'walfiles' in want and 'wal' in o: r['walfiles'] = o['wal']['files']
        if 'recs' in want and isinstance(o.get('recs'), list): r['recs'] = [[x[0], x[1], x[2]] for x in o['recs']]
        if 'ssn' in want and 'ssn' in o: r['ssn'] = o['ssn'] if isinstance(o['ssn'], int) else -9
        if 'opts' in want and 'config' in o: r['opts'] = {k: sval(v) for k, v in o['config'].items()}
        return r

    def result(self, op, r, recs):
        """what the record says about one operation"""
        j = {k: v for k, v in op.items() if not k.startswith('_')}
        j['ok'] = r['ok']
        o = r.get('obs', {})
        if op['t'] == 'grep': j['hits'] = r.get('hits', 1)
        if '_fline' in op:
            f = recs.get(op['_fline'])
            j['fault'] = bool(f and f.get('hits', 0) > 0)
        if op['t'] == 'write' and r['ok'] and 'ids' in r and len(r['ids']) == len(op['evs']):
            j['ids'] = [self.uid(x) for x in r['ids']]
        if op['t'] == 'write' and not r['ok'] and self.memlimit and not op.get('_must') and 'limit' in r.get('err', ''): j['fault'] = True
        if op['t'] == 'scan': j['ret'] = self.kv(r['ret'])
        if op['t'] == 'show' and r['ok']:
            rets = r['ret'] if len(op['items']) > 1 else [r['ret']]
            conv = dict(part=lambda x: self.parts([x])[0], partsin=self.parts, parts=self.parts, serial=lambda x: str(x).lower(),
                        stor=lambda x: self.observation(dict(stor={x['config']['name']: x}), ['stor'])['stor'][0],
                        cloud=lambda x: self.observation(dict(clouds={x['name']: x}), ['clouds'])['clouds'][0],
                        pipe=lambda x: self.observation(dict(pipe=x), ['pipe'])['pipe'])
            j['n'] = len(rets)
            j['items'] = [dict(i, r=conv[i['k']](x)) for i, x in zip(op['items'], rets)]
        if op['t'] == 'curat': j['ret'] = self.kv([r['ret'][0]])[0] if r['ret'] else []
        if 'stor' in o and isinstance(o['stor'], dict):
            self.wm = {n: x['config']['refresh_wm'] for n, x in o['stor'].items() if isinstance(x, dict) and 'config' in x}
        if isinstance(o.get('parts'), list):
            ps = o['parts']
            if op['t'] in ('write', 'restart'):
                j['hot'] = [self.uid(p['min']) for p in ps if p['size_heap'] > self.wm.get(p['storage'], 41943040)]
            if op['t'] == 'checkpoint': j['heap'] = [self.uid(p['min']) for p in ps if p['size_heap'] > 0]
            # the limit of a pipeline tier is about the size of the data, without the index
            j['sizes'] = [[self.uid(p['min']), p['size']] for p in ps]
        if isinstance(o.get('partsd'), list):
            j['sizes'] = [[self.uid(p['min']), (p.get('index') or {}).get('size_regions', 0)] for p in o['partsd']]
        return j

    def trace(self, out, want, recwant=None):
        """out: text of the driver's record. Returns (trace, problem): problem is a string when the record itself
        shows a violation (the process died, hung, or a line is missing)."""
        recs, imgs, died, ends = {}, [], None, {}
        for l in out.splitlines():
            if not l.strip(): continue
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if 'died' in d: died = d
            elif 'img' in d: imgs.append(d)
            elif 'line' in d:
                recs[d['line']] = d
                # sizes the log files had: the ends of their records
                fl = d.get('obs', {}).get('files') if isinstance(d.get('obs'), dict) else None
                for x in fl or ():
                    if x[0].startswith('wal/'): ends.setdefault(x[0], []).append((d['line'], x[1]))
        tr = dict(name=self.name, init=dict(main=dict(MAIN_DEFAULT), wal=self.wal, interval=self.interval, serial=self.serial, rot=self.rot), ops=[])
        self.wm = {}
        oplines = set(o['_line'] for o in self.ops)
        by_line = {}
        for im in imgs: by_line.setdefault(im['line'], []).append(im)
        line_of = {}
        problem = None
        prev_line = 0
        pages, dmg, dmgk, objs, left = True, False, None, True, False
        if self.top is not None: tr['init']['top'] = self.top
        if 'layout' in want:
            tr['tables'] = dict(nums=[[str(n), n] for n in self.region_sizes()], ks=[[i, 0 if k == '-' else len(k) // 2] for i, k in enumerate(self.keys)],
                                vs=[[v, sz] for v, sz in sorted(self.vsizes.items())])
        for op in self.ops:
            if op['t'] == 'clock':
                tr['ops'].append(dict(t='clock', n=op['n'], ok=True))
                continue
            r = recs.get(op['_line'])
            if r is None:
                if dmg and op['t'] != 'scan': died = None; break
                problem = 'line %d (%s) did not return: %s' % (op['_line'], op['t'], json.dumps(died) if died else 'no record')
                break
            if op['t'] == 'killed':
                of = op['_of']
                ro = recs.get(of['_line'])
                if ro is None:
                    problem = 'line %d (%s) did not return: %s' % (of['_line'], of['t'], json.dumps(died))
                    break
                j = dict(t='killed', ok=r['ok'], of=self.result(of, ro, {}), **(dict(lossy=True) if op.get('lossy') else {}))
            else:
                j = self.result(op, r, recs)
            o = r.get('obs', {})
            if op['t'] == 'damaged':
                d = recs.get(op['_dline'], {})
                if not d.get('changed'): j = dict(j, t='restart')
                else:
                    es = []
                    for l, x in ends.get(d['file'], ()):
                        if l >= op['_line']: break
                        if l not in oplines: continue
                        while es and es[-1] > x: es.pop()        # the file was cut off
                        if x and (not es or es[-1] < x): es.append(x)
                    j['keep'] = len([x for x in es if x <= d['off']])
                    j['edge'] = op['mode'] == 'trunc' and (d['off'] == 0 or d['off'] in es)
                    op['_what'] = d
            if not r['ok'] and op['t'] in ('restart', 'damaged'): o = {}
            ob = self.observation(o, want)
            if 'copies' in ob:
                # what an operation which failed or died left behind goes away when the database is opened (but nothing in the cloud)
                if '_fline' in op or op['t'] == 'killed' or dmg or op['t'] == 'damaged': objs = False
                if '_fline' in op or dmg or op['t'] == 'damaged': left = True
                elif op['t'] in ('restart', 'killed'): left = False
                ob.update(objs=objs, left=left)
            # a failed write leaves empty partitions with their first page
            if j['t'] == 'write' and not j['ok']: pages = False
            elif j['t'] in ('restart', 'killed'): pages = True
            if not pages: ob.pop('pages', None)
            if dmg:
                # a damaged partition file: what is read is right, or an error
                if op['t'] != 'scan': died = None; break
                j['t'] = 'dscan'
            if dmg or (j['t'] == 'damaged' and j['kind'] in 'pcm'):
                ob = {k: v for k, v in ob.items() if k == 'kv'}     # the rest describes the files
                if ob: ob['damaged'] = True
                if 'kv' in ob and (dmgk or op).get('strict'): ob['mustfail'] = True
            if ob: j['obs'] = ob
            cr = []
            for ln in range(prev_line + 1, max(op['_line'], op.get('_fline', 0)) + 1):
                for im in by_line.get(ln, []):
                    rec = im['rec']
                    c = dict(ok=rec['ok'] and rec.get('ok2', True) and rec.get('ok3', True))
                    if self.lossy and im['power']: c['lossy'] = True
                    if rec['ok']:
                        ro = self.observation(rec.get('obs', {}), recwant or ['kv'])
                        c.update(ro)
                        for x in ('kv2', 'kv3'):
                            if x in rec: c[x] = self.kv(rec[x])
                        if rec.get('probe') is not None and getattr(self, 'probe', None):
                            a, k, t, sz = self.probe
                            if rec['probe']: c['probe'] = [a, k, t]
                    if c not in cr:
                        cr.append(c)
                        op.setdefault('_imgs', []).append(dict(line=ln, what=im['what'], torn=im['torn'], power=im['power'], err=rec.get('err')))
            prev_line = max(op['_line'], op.get('_fline', 0))
            if cr: j['crash'] = cr
            tr['ops'].append(j)
            # a reported damage ends the history
            if j['t'] == 'damaged':
                if not r['ok']: died = None; break
                dmg = op['kind'] in 'pcm'
                dmgk = op
        if died and not problem:
            problem = 'process died: %s' % json.dumps(died)
        self.images = len(imgs)
        return tr, problem
