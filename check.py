#!/usr/bin/env python3
"""Decides one property by seeded simulation.

  check.py --property C01 [--tier quick|thorough] [--seed N] [--runs N] [--seconds S]
  check.py --replay FILE

Exit 0: no violation in the runs made. Exit 1 and a line `VIOLATION property=<id> replay=<path>`: violated.
Anything else: the check itself failed."""
import argparse, glob, hashlib, json, os, queue, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
from props import PROPS
NW = max(2, min(8, os.cpu_count() or 8))
STREAMS = ('generation', 'schedule', 'network', 'environment')

class Zygote:
    def __init__(self, d, scratch):
        env = dict(os.environ); env['SIM_SCRATCH'] = scratch; env.pop('SIM_NOASLR', None)
        self.d, self.scratch = d, scratch
        self.p = subprocess.Popen([d + '/simrun', '--lib=' + d + '/libef.so'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True, cwd=scratch)
    def ask(self, line):
        self.p.stdin.write(line + '\n'); self.p.stdin.flush()
        r = self.p.stdout.readline()
        if not r:
            raise RuntimeError('simulator process ended unexpectedly (status %s) on: %s' % (self.p.poll(), line[:200]))
        return json.loads(r)
    def seed(self, prop, w, s):
        return self.ask('SEED %s %s %d' % (w, prop, s))
    def trace(self, prop, w, s, streams):
        return self.ask('TRACE %s %s %d %s' % (w, prop, s, ';'.join(','.join(map(str, x)) for x in streams) or ';'))
    def close(self):
        try:
            self.p.stdin.close(); self.p.wait(10)
        except Exception:
            self.p.kill()

class Pool:
    def __init__(self, d, n):
        self.scratch = tempfile.mkdtemp(prefix='efsim.')
        self.z = [Zygote(d, self.scratch) for _ in range(n)]
        self.d = d
    def fresh(self):
        return Zygote(self.d, self.scratch)
    def map(self, fns):
        """run callables f(zygote) on the workers, results in order"""
        q = queue.Queue(); res = [None] * len(fns); err = []
        for i, f in enumerate(fns): q.put((i, f))
        def work(z):
            while True:
                try: i, f = q.get_nowait()
                except queue.Empty: return
                try: res[i] = f(z)
                except Exception as e: err.append(e); return
        ts = [threading.Thread(target=work, args=(z,)) for z in self.z]
        [t.start() for t in ts]; [t.join() for t in ts]
        if err: raise err[0]
        return res
    def close(self):
        for z in self.z: z.close()
        shutil.rmtree(self.scratch, ignore_errors=True)

def trim(s):
    s = list(s)
    while s and s[-1] == 0: s.pop()
    return s

def same(r, kind):
    return r['verdict'] == 'violation' and r['kind'] == kind

def minimise(pool, prop, w, seed, streams, kind, limit):
    """shrink the recorded decisions while the same kind of violation persists"""
    end = time.time() + limit; best = [trim(s) for s in streams]; tried = 0
    def attempt(cands):
        nonlocal best, tried
        cands = [c for c in cands if c != best]
        for k in range(0, len(cands), NW * 2):
            if time.time() > end: return False
            part = cands[k:k + NW * 2]; tried += len(part)
            for c, r in zip(part, pool.map([lambda z, c=c: z.trace(prop, w, seed, c) for c in part])):
                if same(r, kind):
                    best = [trim(s) for s in c]; return True
        return False
    def with_(k, s):
        c = [list(x) for x in best]; c[k] = trim(s); return c
    attempt([[best[0], [], [], []]])
    for k in (1, 2, 3):
        if best[k]: attempt([with_(k, [])])
    progress = True
    while progress and time.time() < end:
        progress = False
        for k in (1, 2, 3, 0):
            # cut the tail
            n = len(best[k])
            for f in (0.5, 0.75, 0.9):
                m = int(len(best[k]) * f)
                if m < len(best[k]) and attempt([with_(k, best[k][:m])]): progress = True
            # zero chunks of the decisions that are not the default
            size = max(1, sum(1 for v in best[k] if v) // 2)
            while size >= 1 and time.time() < end:
                nz = [i for i, v in enumerate(best[k]) if v]
                if not nz: break
                cands = []
                for a in range(0, len(nz), size):
                    s = list(best[k])
                    for i in nz[a:a + size]: s[i] = 0
                    cands.append(with_(k, s))
                if attempt(cands): progress = True; continue
                size //= 2
            if k == 0:
                for i in range(len(best[0])):
                    if i < len(best[0]) and best[0][i] > 1:
                        v = best[0][i]
                        if attempt([with_(0, best[0][:i] + [x] + best[0][i + 1:]) for x in sorted({1, v // 2, v - 1}) if x < v]): progress = True
    return best, tried

def confirm(pool, prop, w, seed, streams, kind):
    """the same decisions twice in the pool and once in a fresh process must give the same event log"""
    rs = pool.map([lambda z: z.trace(prop, w, seed, streams)] * 2)
    z = pool.fresh(); rs.append(z.trace(prop, w, seed, streams)); z.close()
    ok = all(same(r, kind) for r in rs) and len({r['hash'] for r in rs}) == 1
    return ok, rs[0]

def known_findings():
    found = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) workload=(\S+) kind=(\S+) (.*)', l)
            if m: found.append(dict(property=m[1], workload=m[2], kind=m[3], what=m[4].strip()))
    return found

def write_replay(prop, w, r, streams, base):
    os.makedirs(HERE + '/replays', exist_ok=True)
    path = '%s/replays/%s-%s-%s.json' % (HERE, prop, base['seed'], hashlib.sha1(json.dumps(streams).encode()).hexdigest()[:8])
    doc = dict(property=prop, workload=w, seed=base['seed'], kind=r['kind'], message=r['msg'], workload_description=r['label'], event_log_hash=r['hash'],
               decisions={n: s for n, s in zip(STREAMS, streams)}, faults_in_this_trace=r['faults'], steps=r['steps'],
               found_as=dict(message=base['msg'], decisions=[len(s) for s in base['streams']]), replay_command='python3 /verif/check.py --replay ' + path)
    json.dump(doc, open(path, 'w'), indent=1)
    return path

def do_replay(path):
    doc = json.load(open(path)); d = B.build(); pool = Pool(d, 2)
    streams = [doc['decisions'][n] for n in STREAMS]
    try:
        r = pool.z[0].trace(doc['property'], doc['workload'], doc['seed'], streams); r2 = pool.z[1].trace(doc['property'], doc['workload'], doc['seed'], streams)
    finally:
        pool.close()
    print('workload:', r['label']); print('verdict: %s %s: %s' % (r['verdict'], r['kind'], r['msg']))
    print('event log %s (recorded %s)%s' % (r['hash'], doc['event_log_hash'], ', identical' if r['hash'] == doc['event_log_hash'] else ''))
    if r['hash'] != r2['hash'] or r['verdict'] == 'infra': print('not reproducible'); return 2
    if r['verdict'] == 'violation':
        print('VIOLATION property=%s replay=%s' % (doc['property'], path)); return 1
    return 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int); ap.add_argument('--seconds', type=float); ap.add_argument('--replay'); ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--workload')
    a = ap.parse_args()
    if a.replay: return do_replay(a.replay)
    prop, conf = a.property, PROPS[a.property]; t0 = time.time()
    print('property %s, tier %s, seed %d' % (prop, a.tier, a.seed), flush=True)
    d = B.build(); build_s = time.time() - t0
    works = [w for w in conf['workloads'] for _ in range(conf['workloads'][w])] if not a.workload else [a.workload]
    runs = a.runs or (conf.get('quick_runs', 4000) if a.tier == 'quick' else 10**9)
    seconds = a.seconds or (conf.get('quick_seconds', 35) if a.tier == 'quick' else 900)
    pool = Pool(d, NW)
    agg = dict(n=0, ok=0, steps=0, switches=0, contended=0, sim_ns=0); faults, notes = {}, {}; ileave, hashes, labels = set(), set(), set(); samples = []; bad = []; infra = []; bywork = {}
    lock = threading.Lock(); nxt = [0]; ts = time.time(); stop = threading.Event(); fatal = []
    def seed_of(i): return (a.seed * 1000003 + i) & 0x7fffffffffff
    selfcheck = {}
    def work(z):
        while not stop.is_set():
            with lock:
                i = nxt[0]; nxt[0] += 1
            if i >= runs or (time.time() - ts > seconds and i > 0): return
            w = works[i % len(works)]
            try: r = z.seed(prop, w, seed_of(i))
            except Exception as e:
                fatal.append(e); stop.set(); return
            with lock:
                agg['n'] += 1; bywork[w] = bywork.get(w, 0) + 1
                for k in ('steps', 'switches', 'contended', 'sim_ns'): agg[k] += r[k]
                for k, v in r['faults'].items(): faults[k] = faults.get(k, 0) + v
                for k, v in r['notes'].items(): notes[k] = notes.get(k, 0) + v
                ileave.add(r['ileave']); hashes.add(r['hash']); labels.add(r['label'])
                if i < 64: selfcheck[i] = r['hash'] if r['verdict'] != 'infra' else None
                if len(samples) < 4 and r['contended'] >= 0 and i % 7 == 3: samples.append(dict(seed=r['seed'], workload=w, case=r['label'], steps=r['steps'], contended_decisions=r['contended'], faults=r['faults'], verdict=r['verdict']))
                if r['verdict'] == 'ok': agg['ok'] += 1
                elif r['verdict'] == 'infra': infra.append((w, r))
                else:
                    bad.append((w, r))
                    if not a.keep_going: stop.set()
    th = [threading.Thread(target=work, args=(z,)) for z in pool.z]; [t.start() for t in th]; [t.join() for t in th]
    search_s = time.time() - ts; rc = 0; out = []
    if fatal:
        print('error:', fatal[0]); pool.close(); return 2
    # determinism: the first runs again, on other workers
    again = pool.map([lambda z, i=i: (i, z.seed(prop, works[i % len(works)], seed_of(i))) for i in sorted(selfcheck)]) if not bad else []
    drift = [i for i, r in again if selfcheck[i] and r['hash'] != selfcheck[i]]
    if drift:
        print('error: runs %s are not repeatable' % [seed_of(i) for i in drift]); rc = 2
    if infra:
        for w, r in infra[:5]: print('simulator error, seed %d workload %s: %s | %s' % (r['seed'], w, r['msg'], r['label']))
        rc = 2
    if a.keep_going and bad:
        kinds = {}
        for w, r in bad: kinds.setdefault((w, r['kind'], re.sub(r'[0-9.e+-]+', '#', r['msg'][:70])), []).append(r)
        for k, v in kinds.items(): print('%5d x %s, e.g. seed %d: %s\n        %s' % (len(v), k[:2], v[0]['seed'], v[0]['msg'][:300], v[0]['label'][:300]))
    violations = 0; unreproduced = 0
    # report each kind once
    seen = set()
    for w, r in bad:
        key = (w, r['kind'])
        if key in seen or len(seen) >= 3: continue
        st = [trim(s) for s in r['streams']]
        if seen and time.time() - ts > 150: break
        tc = time.time(); ok, m = confirm(pool, prop, w, r['seed'], st, r['kind']); tc = time.time() - tc
        if not ok:
            print('error: seed %d (%s) reported %s: %s, but replaying its decisions did not reproduce it' % (r['seed'], w, r['kind'], r['msg'])); unreproduced += 1; continue
        seen.add(key)
        lim = 40 if a.tier == 'quick' else 120
        # a run that never ends costs as much every time it is tried: shrinking it is not worth the wait
        if tc > 30: lim = 0
        best, tried, m0 = st, 0, m
        if lim: best, tried = minimise(pool, prop, w, r['seed'], st, r['kind'], lim if len(seen) == 1 else 10)
        if best != st: ok, m = confirm(pool, prop, w, r['seed'], best, r['kind'])
        if not ok: best, m = st, m0
        path = write_replay(prop, w, m, best, r); violations += 1
        print('violation: %s: %s' % (m['kind'], m['msg'])); print('  case: %s' % m['label'])
        print('  seed %d, %d decisions left of %d after %d attempts' % (r['seed'], sum(1 for s in best for v in s if v), sum(1 for s in st for v in s if v), tried))
        out.append('VIOLATION property=%s replay=%s' % (prop, path))
    # listed findings: each has its own deterministic history
    kf = []
    for f in known_findings():
        if f['property'] != prop: continue
        r = pool.z[0].trace(prop, f['workload'], 1, [[], [], [], []])
        if r['verdict'] == 'violation' and r['kind'] == f['kind']: kf.append(f); print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
        elif r['verdict'] != 'ok':
            st = [trim(s) for s in r.get('streams', [[], [], [], []])]
            ok, m = confirm(pool, prop, f['workload'], 1, st, r['kind']) if r['verdict'] == 'violation' else (False, None)
            if ok: violations += 1; print('violation: %s: %s' % (m['kind'], m['msg'])); out.append('VIOLATION property=%s replay=%s' % (prop, write_replay(prop, f['workload'], m, st, r)))
            else: print('error: known finding history: ' + r['msg']); rc = 2
    pool.close()
    if violations: rc = 1
    elif unreproduced: rc = 2
    wall = time.time() - t0
    if not a.keep_going and agg['n'] < 5 and rc == 0: print('error: only %d runs' % agg['n']); rc = 2
    cov = dict(evaluations=agg['n'], distinct_nontrivial=len(hashes), rule='One evaluation is one simulated execution of a generated workload, fully determined by its seed. Counted as distinct: executions whose event-log hash (order of scheduled steps, messages matched, harness checkpoints) differs from all others. Every execution runs the workload to its oracle; none is empty.',
               samples=samples, seeds_per_hour=int(agg['n'] / max(search_s, 1e-9) * 3600), runs_per_hour=int(agg['n'] / max(search_s, 1e-9) * 3600), workers=NW, distinct_interleavings=len(ileave), interleaving_measure='hash over the sequence of (chosen process, operation it stood at) at every scheduling decision with more than one candidate',
               distinct_workloads=len(labels), runs_per_workload=bywork, scheduling_steps=agg['steps'], contended_decisions=agg['contended'], simulated_seconds=round(agg['sim_ns'] / 1e9, 3), faults_injected={k: int(v) for k, v in sorted(faults.items())}, conditions_reached={k: v for k, v in sorted(notes.items())},
               repeated_runs_for_determinism=len(again), real_components=conf['real'], simulated_components=conf['stub'], search_seconds=round(search_s, 1), build_seconds=round(build_s, 1), known_findings=[f['what'] for f in kf])
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(dict(property=prop, tier='thorough' if a.tier == 'thorough' else 'quick', seed=a.seed, level='exploration', coverage=cov, assumptions=conf['assumptions'], wall_s=round(wall, 1), violations=violations), open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1)
    print('%d runs in %.1f s (%d ok), %d distinct interleavings, %d workloads, %.1f simulated s; faults %s' % (agg['n'], search_s, agg['ok'], len(ileave), len(labels), agg['sim_ns'] / 1e9, {k: int(v) for k, v in sorted(faults.items())}))
    print('reached: %s' % {k: round(v, 1) for k, v in sorted(notes.items())})
    for l in out: print(l)
    if rc == 0: print('no violation')
    return rc

if __name__ == '__main__':
    try: rc = main()
    except B.BuildError as e: print('build failed:', e); rc = 2
    sys.stdout.flush(); sys.exit(rc)
