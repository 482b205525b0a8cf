#!/usr/bin/env python3
"""Compile-simulation checks: build, run the seeded campaign, gate, minimise and report.
   check.py PROP [--tier quick|thorough] [--seed N] [--survey] [--runs N]
   check.py --replay FILE        re-executes a replay file"""
import argparse, collections, copy, json, mmap, os, re, struct, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from meta import META
OWN = ['sim']

class Ksim:
    def __init__(self, d, tmp):
        self.exe = d + '/ksim'; self.tmp = tmp; self.n = 0; self.sym = {}
        self.corpus = os.path.join(vlib.VERIF, 'corpus')
    def cmd(self, *a): return [self.exe] + [str(x) for x in a] + ['--corpus', self.corpus]
    def run(self, *a, **k):
        return subprocess.run(self.cmd(*a), stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=vlib.child_setup, timeout=k.get('timeout', 300))
    def symbolise(self, addrs):
        todo = [a for a in addrs if a not in self.sym]
        if todo:
            r = subprocess.run(['addr2line', '-f', '-e', self.exe] + ['0x%x' % (a - 1) for a in todo], stdout=subprocess.PIPE, text=True).stdout.split('\n')
            for i, a in enumerate(todo):
                fn, loc = r[2 * i], r[2 * i + 1]
                m = re.search(r'/(source/.*)', loc)
                self.sym[a] = (fn, m.group(1) if m else None)
        return [self.sym[a] for a in addrs]
    def frames(self, addrs, n=3):
        return [f for f in self.symbolise(addrs) if f[1]][:n]
    def death(self, rc, err):
        """(signature, text) of a run that ended the process"""
        t = err.decode('latin-1')
        h = re.search(r'hash=([0-9a-f]{16})', t)
        hv = h.group(1) if h else ''
        m = re.search(r'KSIM-FATAL (\S+) (\S*).*?at=(\S*)', t)
        if m:
            fr = self.frames([int(x, 16) for x in m.group(3).split(',') if x])
            al = self.frames([int(x, 16) for x in m.group(2).split(',') if x.startswith('0x')], 2)
            sig = m.group(1) + ':' + '<'.join(f[0] for f in fr)
            return sig, hv, '%s in %s%s' % (m.group(1), ' < '.join('%s (%s)' % f for f in fr), (' object from ' + ' < '.join('%s (%s)' % f for f in al)) if al else '')
        m = re.search(r'ERROR: AddressSanitizer:? (\S+)', t)
        kind = m.group(1) if m else 'signal%d' % rc
        fr = []
        for l in t.split('\n'):
            g = re.match(r'\s*#\d+ 0x([0-9a-f]+)', l)
            if g: fr.append(int(g.group(1), 16))
            elif fr: break
        fr = [f for f in self.symbolise(fr) if f[1]][:3]
        if kind == 'stack-overflow': fr = fr[:1]
        return kind + ':' + '<'.join(f[0] for f in fr), hv, '%s in %s' % (kind, ' < '.join('%s (%s)' % f for f in fr))
    def replay(self, sc, timeout=120):
        """runs a scenario in a fresh process: (set of signatures, hash, text)"""
        self.n += 1
        p = os.path.join(self.tmp, 'r%d-%d.json' % (os.getpid(), self.n))
        with open(p, 'w') as f: json.dump(sc, f)
        try:
            r = self.run('replay', p, timeout=timeout)
        except subprocess.TimeoutExpired:
            return (frozenset(['timeout']), '', 'timeout')
        finally:
            os.unlink(p)
        out = r.stdout.decode('latin-1')
        if r.returncode in (0, 1) and 'HASH' in out:
            h = re.search(r'HASH (\w+)', out).group(1)
            vs = re.findall(r'^VERDICT (\S+) (.*)$', out, re.M)
            sigs = set(); txt = []
            for c, t in vs:
                t = json.loads(t); fr = self.addrs_in(t)
                sigs.add(c + (':' + '<'.join(f[0] for f in fr[:3]) if fr else ''))
                txt.append(c + ': ' + self.pretty(t))
            return frozenset(sigs), h, '; '.join(txt)
        s, h, t = self.death(r.returncode, r.stderr)
        return frozenset([s]), h, t
    def addrs_in(self, t):
        return self.frames([int(x, 16) for x in re.findall(r'0x([0-9a-f]{6,})', t)], 6)
    def pretty(self, t):
        a = [int(x, 16) for x in re.findall(r'0x([0-9a-f]{6,})', t)]
        if not a: return t
        return re.sub(r'0x[0-9a-f]{6,}(,0x[0-9a-f]{6,})*', ' < '.join('%s (%s)' % f for f in self.frames(a, 6)), t)

def status(path):
    try:
        with open(path, 'rb') as f: b = f.read(40)
        return struct.unpack('<QQQQi', b[:36]) if len(b) >= 36 else (0, 0, 0, 0, 0)
    except OSError: return (0, 0, 0, 0, 0)

def campaign(ks, prop, seed, tier, total, base, survey):
    """runs 0..total-1 over NJ workers; returns (outs, candidates, crashes)"""
    NJ = vlib.NJ
    cands = []  # (run, scenario or None)
    W = []
    def spawn(w, frm):
        st, out, er = [os.path.join(ks.tmp, '%s.%d' % (x, w)) for x in ('st', 'out', 'err')]
        if os.path.exists(st): os.unlink(st)
        p = subprocess.Popen(ks.cmd('worker', '--check', prop, '--seed', seed, '--tier', tier, '--base', base, '--from', frm, '--to', total, '--step', NJ,
                             '--status', st, '--out', out, '--maxv', 10**9 if survey else 1), stdout=subprocess.DEVNULL, stderr=open(er, 'wb'), preexec_fn=vlib.child_setup)
        return {'w': w, 'p': p, 'st': st, 'out': out, 'er': er, 'last': (-1, 0), 't': time.time()}
    for w in range(NJ):
        if w < total: W.append(spawn(w, w))
    limit = total
    deaths = []
    active = list(W)
    while active:
        time.sleep(0.02)
        for x in list(active):
            rc = x['p'].poll()
            s = status(x['st'])
            if rc is None:
                if s[0] != x['last'][0]: x['last'] = (s[0], time.time())
                if s[4] and s[0] > limit and not survey: x['p'].kill(); x['p'].wait(); active.remove(x); continue
                if time.time() - x['last'][1] > 150 and x['last'][1]:
                    x['p'].kill(); x['p'].wait(); rc = -99
                else: continue
            if rc == 0:
                active.remove(x)
                if not survey:
                    for l in open(x['out'], errors='replace'):
                        if l.startswith('V '): limit = min(limit, int(l.split(' ', 2)[1]))
                continue
            run = s[0]
            if s[4] != 2:
                print('worker failed outside a run (state %d, rc %s)' % (s[4], rc)); print(open(x['er'], errors='replace').read()[-2000:]); sys.exit(2)
            err = open(x['er'], 'rb').read()
            sig, h, text = ks.death(rc, err) if rc != -99 else ('timeout', '', 'timeout')
            deaths.append((run, sig, h, text))
            limit = min(limit, run)
            active.remove(x)
            if survey and run + NJ < total: active.append(spawn(x['w'], run + NJ))
    recs, viol, cov = [], [], (0, 0)
    for w in range(NJ):
        p = os.path.join(ks.tmp, 'out.%d' % w)
        if not os.path.exists(p): continue
        for l in open(p, errors='replace'):
            if l.startswith('R '): recs.append(l.split())
            elif l.startswith('V '):
                _, r, js = l.split(' ', 2); viol.append((int(r), json.loads(js)))
            elif l.startswith('C '): c = l.split(); cov = max(cov, (int(c[1]), int(c[2])))
    return recs, viol, deaths, cov

def gen(ks, prop, seed, tier, base, run):
    r = ks.run('gen', '--check', prop, '--seed', seed, '--tier', tier, '--base', base, '--run', run)
    return json.loads(r.stdout)

def bake(sc):
    """the scenario with damage faults applied to the texts (same semantics as engine.cpp)"""
    c = copy.deepcopy(sc); rest = []
    for f in c['faults']:
        if f['kind'] != 8: rest.append(f); continue
        j = c['jobs'][f['job']]
        t = j['stdin'] if f['s'] == '<stdin>' else j['files'].get(f['s'], '')
        if not t: continue
        pos = f['b'] % len(t); n = min(f['c'], len(t) - pos); d = f['d']; a = f['a']
        if a == 0: t = t[:pos]
        elif a == 1: t = t[:pos] + chr(ord(t[pos]) ^ (1 << (d & 7))) + t[pos + 1:]
        elif a == 2: t = t[:pos] + chr(d & 255) + t[pos + 1:]
        elif a == 3: t = t[:pos] + t[pos + n:]
        elif a == 4: t = t[:pos] + t[pos:pos + n] + t[pos:]
        elif a == 5:
            q = d % len(t)
            if q + n <= len(t):
                x, y = t[pos:pos + n], t[q:q + n]
                t = t[:pos] + y + t[pos + n:]; t = t[:q] + x + t[q + n:]
        elif a == 6: t = t[:pos] + chr(d & 255) * n + t[pos + n:]
        elif a == 7: t = t[:pos] + chr(d & 255) + t[pos:]
        if f['s'] == '<stdin>': j['stdin'] = t
        else: j['files'][f['s']] = t
    c['faults'] = rest
    return c

def minimise(ks, sc, want, budget):
    t0 = time.time(); tries = 0
    def ok(c):
        nonlocal tries
        if time.time() - t0 > budget: return False
        tries += 1
        return bool(ks.replay(c, 60)[0] & want)
    def attempt(mut):
        nonlocal sc
        c = copy.deepcopy(sc)
        if mut(c) is False: return False
        if c == sc: return False
        if ok(c): sc = c; return True
        return False
    def setk(k, v):
        def m(c): c[k] = v
        return m
    def dropat(k, i, n=1):
        def m(c): del c[k][i:i + n]
        return m
    attempt(setk('heapseed', '0'))
    attempt(setk('rate', 0))
    def ddmin(get, setter):
        n = max(1, len(get(sc)) // 2)
        while n >= 1:
            i = 0
            while i < len(get(sc)):
                def m(c):
                    l = get(c); l2 = l[:i] + l[i + n:]
                    if l2 == l: return False
                    setter(c, l2)
                if not attempt(m): i += n
            n //= 2
    ddmin(lambda c: c['faults'], lambda c, l: c.__setitem__('faults', l))
    damaged = any(f['kind'] == 8 for f in sc['faults'])
    if damaged:
        b = bake(sc)
        if ok(b): sc = b
    for i in range(len(sc['faults'])):
        def m(c):
            f = c['faults'][i]
            if f['kind'] in (0, 1) and f['b'] != 1: f['b'] = 1
            else: return False
        attempt(m)
    # whole jobs of a sequential history
    if not sc['threads']:
        j = 0
        while len(sc['jobs']) > 1 and j < len(sc['jobs']):
            def m(c):
                del c['jobs'][j]
                c['faults'] = [dict(f, job=f['job'] - (f['job'] > j)) for f in c['faults'] if f['job'] != j]
            if not attempt(m): j += 1
    if sc['switches']: ddmin(lambda c: c['switches'], lambda c, l: c.__setitem__('switches', l))
    for j in range(len(sc['jobs'])):
        if sc['jobs'][j]['ops']: ddmin(lambda c: c['jobs'][j]['ops'], lambda c, l: c['jobs'][j].__setitem__('ops', l))
    # source text, by lines (allocation faults given by call path survive this; damage positions may not)
    for j in range(len(sc['jobs'])):
        for f in sorted(sc['jobs'][j]['files']):
            sep = '\n'
            ddmin(lambda c: c['jobs'][j]['files'][f].split(sep), lambda c, l: c['jobs'][j]['files'].__setitem__(f, sep.join(l)))
            if damaged: ddmin(lambda c: list(c['jobs'][j]['files'][f]), lambda c, l: c['jobs'][j]['files'].__setitem__(f, ''.join(l)))
    return sc, tries

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--one', type=int); ap.add_argument('--survey', action='store_true'); ap.add_argument('--runs', type=int, default=0)
    ap.add_argument('--replay'); ap.add_argument('--nomin', action='store_true'); ap.add_argument('--show', type=int, default=60)
    a = ap.parse_args()
    t0 = time.time()
    d = vlib.build('s1', 'build_s1.sh', OWN)
    tb = time.time() - t0
    with tempfile.TemporaryDirectory(prefix='ksim.') as tmp:
        ks = Ksim(d, tmp)
        if a.replay:
            sc = json.load(open(a.replay))
            s, h, t = ks.replay(sc)
            print('HASH', h, '\nSIGNATURE', ', '.join(sorted(s)) or '(none)', '\n' + t)
            want = set(sc.get('expect', {}).get('signature', []))
            if s and (not want or s & want):
                print('VIOLATION property=%s replay=%s' % (sc['check'], a.replay)); return 1
            return 0
        prop, tier, seed = a.prop, a.tier, a.seed
        base = tmp + '/base'
        r = ks.run('baseline', '--check', prop, '--seed', seed, '--tier', tier, '--base', base, '--jobs', vlib.NJ, timeout=800)
        if r.returncode: print(r.stdout.decode()[-1000:], r.stderr.decode()[-1000:], 'baseline failed'); return 2
        total = int(re.search(rb'TOTAL (\d+)', r.stdout).group(1))
        njobs = re.search(rb'JOBS (.*)', r.stdout).group(1).decode()
        if a.runs: total = min(total, a.runs)
        if a.one is not None:
            sc = gen(ks, prop, seed, tier, base, a.one)
            with open('/tmp/one.json', 'w') as f: json.dump(sc, f, indent=1)
            r = ks.run('replay', '/tmp/one.json')
            print(json.dumps({k: v for k, v in sc.items() if k != 'jobs'})[:1500])
            print((r.stdout + r.stderr).decode('latin-1')[:4000], ks.replay(sc))
            return 0
        t1 = time.time()
        recs, viol, deaths, cov = campaign(ks, prop, seed, tier, total, base, a.survey)
        t2 = time.time()
        if a.survey:
            cl = collections.defaultdict(list)
            for run, sig, h, text in deaths: cl[('death', sig, text)].append(run)
            for run, sc in viol:
                for c, t in sc['verdicts']:
                    fr = ks.addrs_in(t)
                    cl[('verdict', c + ':' + '<'.join(f[0] for f in fr[:3]), ks.pretty(t)[:400])].append(run)
            m = collections.defaultdict(list)
            for k, v in cl.items(): m[(k[0], k[1])].append((k[2], v))
            for k, v in sorted(m.items(), key=lambda kv: -sum(len(x[1]) for x in kv[1]))[:a.show]:
                print('%5d %s %s\n       %s [run %d]' % (sum(len(x[1]) for x in v), k[0], k[1], v[0][0], v[0][1][0]))
            print('SURVEY %s seed %d: %d runs, %d deaths, %d violating runs, %d clusters, %.0fs' % (prop, seed, total, len(deaths), len(viol), len(m), t2 - t1))
            return 0
        cands = sorted([(r, None) for r, *_ in deaths] + viol, key=lambda x: x[0])[:6]
        found, unstable, known = None, [], []
        kf = vlib.known_findings(prop)
        for run, sc in cands:
            if sc is None: sc = gen(ks, prop, seed, tier, base, run)
            sc.pop('verdicts', None)
            x, y = ks.replay(sc), ks.replay(sc)
            if not x[0] or x[0] != y[0] or x[1] != y[1]:
                unstable.append({'run': run, 'a': sorted(x[0]), 'b': sorted(y[0])}); continue
            new = [s for s in x[0] if not any(k in s for k, _ in kf)]
            for k, txt in kf:
                if any(k in s for s in x[0]): known.append(txt)
            if not new: continue
            want = frozenset(new)
            n0 = (len(sc['faults']), len(sc['switches']), sum(len(f) for j in sc['jobs'] for f in j['files'].values()))
            tries = 0
            if not a.nomin: sc, tries = minimise(ks, sc, want, 60 if tier == 'quick' else 180)
            z = ks.replay(sc)
            sc['expect'] = {'signature': sorted(z[0]), 'hash': z[1], 'text': z[2]}
            sc['how_to_replay'] = 'python3 /verif/tools/check.py --replay THIS_FILE'
            path = vlib.replay_path(prop, 's%d-r%d' % (seed, run))
            with open(path, 'w') as f: json.dump(sc, f, indent=1)
            found = (run, path, z, n0, (len(sc['faults']), len(sc['switches']), sum(len(f) for j in sc['jobs'] for f in j['files'].values())), tries)
            break
        # ---- evidence
        faults = collections.Counter(); sigs = set(); inter = set(); nontriv = set(); steps = events = switches = simt = 0
        for f in recs:
            steps += int(f[5]); events += int(f[6]); switches += int(f[7]); simt += abs(int(f[9]))
            for x in f[11:]:
                k, n = x.rsplit('*', 1); faults[k] += int(n)
            sigs.add(f[3]); inter.add(f[4])
            if int(f[8]) or int(f[7]) or META[prop].get('nofault'): nontriv.add(f[3])
        wall = time.time() - t0
        samples = [{'run': int(f[1]), 'event_log_hash': f[2], 'steps': int(f[5]), 'events': int(f[6]), 'result_codes': f[10], 'faults_fired': f[11:]} for f in recs[:: max(1, len(recs) // 4)][:5]]
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 2), 'violations': 1 if found else 0,
              'coverage': {'evaluations': len(recs) + len(deaths), 'distinct_nontrivial': len(nontriv), 'rule': META[prop]['rule'], 'samples': samples,
                           'planned_runs': total, 'seeds': [seed], 'runs_per_hour': int(3600 * len(recs) / max(0.1, t2 - t1)), 'simulated_steps_basic_blocks': steps, 'simulated_clock_seconds': simt,
                           'events_logged': events, 'thread_switches': switches, 'distinct_interleavings': len(inter) if switches else 0,
                           'distinct_event_logs': len(sigs), 'fault_kinds_fired': dict(sorted(faults.items(), key=lambda kv: -kv[1])[:60]),
                           'kefir_basic_blocks_reached': cov[0], 'kefir_basic_blocks_total': cov[1], 'jobs_with_fresh_process_baseline': njobs,
                           'unstable_candidates_discarded': unstable, 'build_s': round(tb, 1), 'campaign_s': round(t2 - t1, 1)},
              'assumptions': META[prop].get('assumptions', []) + ['components run as real code: ' + META[prop].get('real', 'all of kefir (preprocessor, lexer, parser, analyser, translator, code generator, formatters, cleanup)'),
                              'components stubbed: ' + META[prop].get('stub', 'heap, file system, standard streams, clock, process exit (simulated world)')]}
        if found: ev['coverage']['violation'] = {'run': found[0], 'replay': found[1], 'signature': sorted(found[2][0]), 'text': found[2][2], 'size_before(faults,switches,source_bytes)': found[3], 'size_after': found[4], 'minimisation_replays': found[5]}
        vlib.write_evidence(prop, ev)
        for k, txt in kf: print('KNOWN-FINDING: property=%s %s' % (prop, txt))
        print('%s %s seed=%d: %d runs (%d planned), %d distinct non-trivial, faults %s, %.1fs' % (prop, tier, seed, len(recs), total, len(nontriv), sum(faults.values()), wall))
        if unstable: print('discarded %d candidates that did not reproduce' % len(unstable))
        if found:
            print('run %d: %s' % (found[0], found[2][2]))
            print('VIOLATION property=%s replay=%s' % (prop, found[1]))
            return 1
        return 0
if __name__ == '__main__':
    sys.exit(main())
