"""Runs scenarios against the real code and the traces through TLC."""
import json, os, shutil, subprocess, sys, time, tempfile, concurrent.futures, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, tlc
VERIF = build.VERIF


class Failure:
    def __init__(self, scn, op, text, detail=()):
        self.scn, self.op, self.text, self.detail = scn, op, text, list(detail)


class Runner:
    def __init__(self, exe, work, tmo=60):
        self.exe, self.work, self.tmo = exe, work, tmo
        self.n = 0

    def execute(self, scns, jobs=8, mdrv_tmo=None, max_hung=4):
        """runs each scenario's script; sets scn.out (None: not run, because others hang)"""
        self.n += 1
        d = os.path.join(self.work, 'run%d' % self.n)
        os.makedirs(d)
        for i, s in enumerate(scns):
            s.path = os.path.join(d, '%d.s' % i)
            with open(s.path, 'w') as f: f.write(s.script())
        env = dict(os.environ, MDRV_TIMEOUT=str(mdrv_tmo or self.tmo))
        hung = [0]
        def go(chunk):
            if hung[0] >= max_hung:
                for s in chunk: s.out = None
                return
            t = time.time()
            subprocess.run([self.exe, d] + [s.path for s in chunk], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            for s in chunk:
                try:
                    with open(s.path + '.out', errors='replace') as f: s.out = f.read()
                except OSError:
                    s.out = ''
                if '"sig":14' in s.out: hung[0] += 1
        k = max(1, min(4, len(scns) // (jobs * 2) or 1))
        chunks = [scns[i:i + k] for i in range(0, len(scns), k)]
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            list(ex.map(go, chunks))
        shutil.rmtree(d, ignore_errors=True)

    def judge(self, scns, want, recwant=None, module='MonotoneTrace', timeout=600, workers=8, deviations=()):
        """returns (failures, stats)"""
        fails, traces, idx = [], [], []
        for s in scns:
            tr, problem = s.trace(s.out, want, recwant)
            s.tr = tr
            if problem:
                fails.append(Failure(s, len(tr['ops']), problem))
            traces.append(tr); idx.append(s)
        st = dict(states=0, distinct=0, wall=0)
        ops = sum(len(t['ops']) for t in traces)
        if traces:
            acc, rej, st = tlc.check_traces(module, traces, self.work, timeout=timeout, workers=workers, deviations=deviations)
            known = set(id(f.scn) for f in fails)
            for i, r in sorted(rej.items()):
                if id(idx[i]) in known: continue
                fails.append(Failure(idx[i], r['op'], 'not a behaviour of the specification', r['detail']))
            st['accepted'] = len(acc)
        st['ops'] = ops
        return fails, st
