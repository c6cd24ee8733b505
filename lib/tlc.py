"""Runs TLC on the trace monitor and on design specifications."""
import json, os, re, shutil, subprocess, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = os.environ.get('TLA_JAR', '/opt/veriftools/tla/tla2tools.jar')


class TlcError(Exception):
    pass


def find_cp():
    import glob
    d = os.path.dirname(JAR)
    return ':'.join([JAR] + sorted(g for g in glob.glob(d + '/*.jar') if g != JAR))


def run(module, cfg=None, env=None, workers=8, timeout=600, extra=(), work=None, heap='6g'):
    """returns (rc, output, stats)"""
    sd = os.path.join(VERIF, 'spec')
    md = tempfile.mkdtemp(prefix='mnverif.tlc.', dir=work or '/dev/shm')
    e = dict(os.environ); e.update(env or {})
    cmd = ['java', '-Xmx' + heap, '-XX:+UseParallelGC', '-Xss64m', '-cp', find_cp(), 'tlc2.TLC', '-metadir', md, '-noGenerateSpecTE', '-workers', str(workers),
           '-config', os.path.join(sd, cfg or module + '.cfg')] + list(extra) + [os.path.join(sd, module + '.tla')]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=sd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise TlcError('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    out = r.stdout
    st = dict(states=0, distinct=0, wall=time.time() - t)
    m = None
    for m in re.finditer(r'([\d,]+) states generated, ([\d,]+) distinct states found', out): pass
    if m:
        st['states'] = int(m.group(1).replace(',', '')); st['distinct'] = int(m.group(2).replace(',', ''))
    return r.returncode, out, st


def check_batch(module, traces, work, workers=8, timeout=600, deviations=()):
    """returns (accepted set of indexes, dict index -> explanation, stats)"""
    fd, p = tempfile.mkstemp(prefix='traces.', suffix='.json', dir=work)
    with os.fdopen(fd, 'w') as f:
        json.dump(dict(traces=traces, deviations=list(deviations)), f)
    try:
        rc, out, st = run(module, env=dict(TRACES=p), workers=workers, timeout=timeout, work=work)
    finally:
        os.unlink(p)
    acc = set(int(x) - 1 for x in re.findall(r'<<"ACCEPT", (\d+)>>', out))
    rej = {}
    for m in re.finditer(r'<<"REJECT", (\d+), (\d+), "([^"]*)">>', out):
        rej[int(m.group(1)) - 1] = dict(op=int(m.group(2)) - 1, name=m.group(3), detail=[])
    flat = re.sub(r'\n\s+', ' ', out)
    for m in re.finditer(r'<<\s*"(KV|PARTS|QUEUE|OBS|CRASH|NO-SUCCESSOR|INFO)",\s*(\d+)[^\n]*', flat):
        i = int(m.group(2)) - 1
        if i in rej: rej[i]['detail'].append(m.group(0)[:1500])
    if len(acc) + len(rej) != len(traces) or (acc & set(rej)):
        raise TlcError('TLC gave no verdict on %d of %d traces:\n%s' % (len(traces) - len(acc) - len(rej), len(traces), out[-6000:]))
    return acc, rej, st


def check_traces(module, traces, work, workers=8, timeout=600, deviations=()):
    """as check_batch; a record the specification cannot even evaluate is rejected, and does not take the others with it"""
    try:
        return check_batch(module, traces, work, workers, timeout, deviations)
    except TlcError as e:
        if len(traces) == 1:
            if 'timed out' in str(e): raise
            return set(), {0: dict(op=len(traces[0]['ops']) - 1, name=traces[0]['name'],
                                   detail=['the record cannot be interpreted: ' + str(e)[-800:]])}, dict(states=0, distinct=0, wall=0)
        k = len(traces) // 2
        a1, r1, s1 = check_traces(module, traces[:k], work, workers, timeout, deviations)
        a2, r2, s2 = check_traces(module, traces[k:], work, workers, timeout, deviations)
        return (a1 | {i + k for i in a2}, {**r1, **{i + k: v for i, v in r2.items()}}, {x: s1[x] + s2[x] for x in s1})
