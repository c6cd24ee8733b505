"""MonotoneMC.tla: the system specification explored exhaustively and by random walks, and the histories
found there turned into scenarios for the real code (families spec and walk)."""
import json, os, random, re
import tlc
from scn import Scn
from families import F_ANY, F_ALLW, F

INVARIANTS = 'Legal Reads Durable SpecOK RecOK Idempotent Positions LogOrder Logged Serial Queued Settled Cursors Copies Defined'
CFG = '''SPECIFICATION Spec
CONSTANTS Deviations = {}
          Worlds = {%s}
          Depth = %d
          Faults = %d
%s
INVARIANTS %s
CHECK_DEADLOCK FALSE
'''


def explore(worlds, depth, faults, work, walks=0, seed=1, timeout=700, workers=8):
    """returns (paths, stats). walks: number of random walks per worker instead of everything"""
    cfg = os.path.join(work, 'mc%d.cfg' % walks)
    w = ', '.join('"%s"' % x for x in worlds)
    with open(cfg, 'w') as f:
        f.write(CFG % (w, depth, faults, '' if walks else 'ACTION_CONSTRAINT Paths\nVIEW Seen', ('Walk ' if walks else '') + INVARIANTS))
    extra = ['-simulate', 'num=%d' % walks, '-seed', str(seed), '-depth', str(depth + 2)] if walks else []
    rc, out, st = tlc.run('MonotoneMC', cfg=cfg, env=dict(EMIT='1'), workers=workers, timeout=timeout, work=work, extra=extra, heap='10g')
    if rc != 0: raise tlc.TlcError('model %s: %s' % (w, '\n'.join(l for l in out.splitlines() if 'PATH' not in l)[-4000:]))
    paths = set()
    for m in re.finditer(r'"PATH (\[.*\])"', out): paths.add(tuple(json.loads(m.group(1).replace('\\"', '"'))))
    if walks:
        m = re.search(r'The number of states generated: (\d+)', out)
        if m: st['states'] = st['distinct'] = int(m.group(1))
        # neighbours on the last step only: one each
        by = {}
        for p in sorted(paths): by.setdefault(p[:-1], []).append(p)
        r = random.Random(seed)
        paths = set(r.choice(x) for x in by.values())
    else:
        inner = set(p[:-1] for p in paths)
        paths -= inner
    return sorted(paths), st


def code(path): return '.'.join(path)


PIPES = [[], [('main', dict(partitions=1)), ('s2', {})], [('s2', dict(partitions=1)), ('main', {})],
         [('s3', dict(partitions=1)), ('s2', dict(partitions=1)), ('main', {})], [('s2', dict(events=0)), ('s2', {})], [('main', {}), ('s2', {})]]


def setup(s, w):
    if w in ('C0', 'C1', 'C2', 'C3', 'T4'): s.create_cloud('c')
    dl = w in ('C1', 'T4', 'C3')
    s.create_storage('s2', **(dict(cloud='c', cloud_drop_local=dl) if w in ('C2', 'C3', 'T4') else {}))
    if w in ('C0', 'C1', 'C2'): s.alter_storage('main', cloud='c', cloud_drop_local=dl)
    if w == 'T1': s.pipeline([('main', dict(partitions=1)), ('s2', {})])
    if w in ('T2', 'T4'): s.pipeline([('main', dict(partitions=1)), ('s2', dict(partitions=1))])
    if w == 'T3': s.pipeline([('s2', dict(duration=1)), ('main', dict(events=1))])
    if w == 'I': s.createp(0, 1); s.createp(2, 4)


def scenario(rng, name):
    path = name.split('/', 4)[4].split('.')
    w = path[0]
    s = Scn(name, interval={'S': 1, 'I': 3}.get(w, 2), wal=w != 'N', serial=w == 'S', rot=0 if w == 'R' else -1, keys=['-'], obs='kpsclg' if w == 'D' else 'kp',
            base=0 if w == 'S' else rng.choice([0, 0, (1 << 31) // 30 * 30 - 30, (1 << 32) // 30 * 30]), scale=1)
    s.head.append('key ' + '62' * 256)      # too long
    if w == 'D': s.want = ['kv', 'parts', 'stor', 'clouds', 'pipe']
    setup(s, w)
    style = rng.choice(['plain', 'plain', 'images', 'kill'] if w != 'Q' else ['plain'])
    power = 0
    if style == 'images': s.recovery(depth=2, obs='k')
    tok = [1]
    def t():
        tok[0] += 1
        return tok[0] - 1
    cur = [False, False]
    n = len(path)
    # crash images of the last statements
    on = n - rng.choice([1, 2, 3])
    for i in range(1, n):
        p = path[i]
        if style == 'images' and i == max(on, 1): s.crash(True, 1, power, 1, rng.randint(1, 1 << 30), 60)
        if p.startswith('!'):
            p = p[1:]
            kinds = F_ALLW if p[0] in 'wxb' else F_ANY
            s.inject(fault='%d %d %d %d %d' % (kinds, rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 8, 10]), rng.choice([1, 1, 1, 1000]), rng.choice([5, 28]), rng.choice([0, 0, 50])))
        elif style == 'kill' and i + 1 < n and path[i + 1] == 'R' and p[0] not in 'kti' and p != 'R':
            s.inject(kill=(rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10]), int(rng.random() < .3), 0, rng.randint(1, 1 << 30)))
        c, a = p[0], p[1:]
        if c == 'w' and w == 'S': s.write([(-1, 0, t())] + ([(-1, 0, t())] if p == 'wss' else []))
        elif c == 'w': s.write([(int(a), 0, t())])
        elif c == 'x': s.write([(int(a), 0, -1)])
        elif c == 'b': s.write([(1, 0, t()), (2, 0, -1), (1, 0, t()), (3, 0, t())])
        elif c == 'B': s.write([(0, 0, t()), (4, 1, t())], bad=2)
        elif c == 'r': s.refresh(id=int(a), ife=True)
        elif c == 'm': s.move(where(s, int(a), path[:i]), id=int(a), ife=True)
        elif c == 'd': s.drop(id=int(a), ife=True)
        elif c == 'g': s.download(id=int(a), ife=True, ifc=True)
        elif c == 'u': s.upload(id=int(a), ife=True, ifc=True)
        elif c == 'D': s.drop(id=int(a[1:]), ife=True, which=a[0])
        elif c == 's': s.service(1)
        elif c == 'k': s.checkpoint()
        elif c == 'e': s.rebalance()
        elif c == 'c': s.wal_create()
        elif c == 'G': s.wal_gc()
        elif c == 't': s.clock(1)
        elif c == 'i': s.set_interval(int(a))
        elif c == 'S':
            k, r = a[0], a[1:]
            st = 'main' if r.startswith('main') else r[:2]
            x = r[len(st):]
            if k == '+': s.create_storage(st, cloud=x)
            elif k == '-': s.drop_storage(st)
            elif k == 'r': s.rename_storage(st, x)
            elif k == 'a': s.alter_storage(st, cloud=x)
        elif c == 'C':
            if a[0] == '+': s.create_cloud(a[1])
            elif a[0] == '-': s.drop_cloud(a[1])
            elif a[0] == 'r': s.rename_cloud(a[1], 'd' if a[1] == 'c' else 'c')
        elif c == 'P': s.pipeline(PIPES[int(a)])
        elif c == 'M': s.move(a[:-1], id=int(a[-1]), ife=True)
        elif c in 'oO':
            s.curopen('a', () if c == 'o' else (1, 0)); cur[0] = True; cur[1] = False
        elif c == 'n':
            if cur[1]: s.curnext('a')
            else: s.curread('a'); cur[1] = True
        elif c == 'q': s.curclose('a'); cur[0] = False
        elif c == 'R':
            if cur[0]: s.curclose('a'); cur[0] = False
            if s.ops[-1]['t'] != 'killed': s.restart()
    if style == 'images': s.crash(False)
    if cur[0]: s.curclose('a')
    end = rng.random()
    if end < .5 or w == 'D':
        if end < .25:
            s.checkpoint()
            for _ in range(6): s.service(1)
        s.restart()
        if end < .1: s.restart()
    return s


def where(s, m, path):
    """the storage a move goes to: the other one"""
    k = sum(1 for p in path if p.lstrip('!') == 'm%d' % m)
    return ['s2', 'main'][k % 2]


def spec(rng, name): return scenario(rng, name)
def walk(rng, name): return scenario(rng, name)
