#!/usr/bin/env python3
"""Generated-code simulation checks (C14-C17).
   gen.py PROP [--tier quick|thorough] [--seed N] [--worlds N] [--runs N] [--survey]
   gen.py --replay FILE"""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from meta import META
sys.path.insert(0, os.path.join(vlib.VERIF, 'gen'))
import world
OWN = ['gen']
# property: (quick worlds, quick runs per world, thorough worlds, thorough runs per world)
PLAN = {'C14': (8, 172, 160, 600), 'C15': (8, 230, 160, 900), 'C16': (24, 4000, 800, 8000), 'C17': (24, 1600, 800, 4000)}

def launch(cmd, timeout=900, inp=None):
    try: return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', preexec_fn=vlib.child_setup, timeout=timeout, input=inp)
    except subprocess.TimeoutExpired: return None

def mkworld(prop, seed, w, b, tmp):
    return world.build_world(prop, seed, w, b + '/kefir', b + '/runtime.o', [b + '/harness.o'], os.path.join(tmp, 'w%d' % w))

def replay_once(exe, prop, seed, run, acts):
    """(signature, hash, text)"""
    r = launch([exe, prop, 'replay', str(seed), str(run)], 120, ''.join('%d %s %d %d\n' % tuple(a) for a in acts))
    if r is None: return ('timeout', '', 'no answer within 120 s')
    h = re.search(r'^HASH (\w+)', r.stdout, re.M); v = re.search(r'^V \d+ (\S+) (.*)$', r.stdout, re.M)
    if not h: return ('died', '', 'the simulator ended with status %s' % r.returncode)
    return (v.group(1), h.group(1), json.loads(v.group(2))) if v else ('', h.group(1), '')

def minimise(exe, prop, seed, run, acts, sig, budget=150):
    n, used = 2, 0
    while len(acts) > 1 and used < budget:
        size = max(1, len(acts) // n); cut = False
        for i in range(0, len(acts), size):
            cand = acts[:i] + acts[i + size:]; used += 1
            if replay_once(exe, prop, seed, run, cand)[0] == sig: acts = cand; n = max(2, n - 1); cut = True; break
            if used >= budget: break
        if not cut:
            if size == 1: break
            n = min(len(acts), n * 2)
    if acts and replay_once(exe, prop, seed, run, [])[0] == sig: acts = []
    return acts, used

def sources(d, prop, sig):
    n = sig.split(':', 1)[1] if ':' in sig else ''
    out = {}
    for f in sorted(os.listdir(d)):
        if not f.endswith('.c') or f in ('table.c',): continue
        if prop in ('C14', 'C15') and f != 'u_%s.c' % n and not (n.startswith('tv') and 'tls' in f): continue
        out[f] = open(os.path.join(d, f)).read()
    return {k: v if len(v) < 60000 else v[:60000] + '...' for k, v in out.items()}

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--worlds', type=int); ap.add_argument('--runs', type=int); ap.add_argument('--survey', action='store_true'); ap.add_argument('--replay')
    a = ap.parse_args()
    t0 = time.time()
    b = vlib.build('s3', 'build_s3.sh', OWN); tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix='gensim-')
    try:
        if a.replay:
            sc = json.load(open(a.replay)); exe, info = mkworld(sc['property'], sc['seed'], sc['world'], b, tmp)
            if not exe:
                print('the program of this replay does not build:', info['errors'])
                if sc.get('unlinkable') and info.get('broken'): print('VIOLATION property=%s replay=%s' % (sc['property'], a.replay)); return 1
                return 2
            r1 = replay_once(exe, sc['property'], sc['seed'], sc['run'], sc['actions']); r2 = replay_once(exe, sc['property'], sc['seed'], sc['run'], sc['actions'])
            print('signature %s hash %s %s' % (r1[0] or 'none', r1[1], r1[2]))
            print('second execution identical: %s' % (r1 == r2))
            if r1[0]: print('VIOLATION property=%s replay=%s' % (sc['property'], a.replay)); return 1
            return 0
        prop, tier, seed = a.prop, a.tier, a.seed
        q = PLAN[prop]; nw, nr = (q[0], q[1]) if tier == 'quick' else (q[2], q[3])
        nw = a.worlds or nw; nr = a.runs or nr
        cpus = sorted(os.sched_getaffinity(0))
        # one pinned simulator process per processor at a time
        free = __import__('queue').Queue()
        for i in range(min(vlib.NJ, len(cpus))): free.put(cpus[i])
        t1 = time.time()
        found = []
        def job(w):
            if found and not a.survey: return None
            exe, info = mkworld(prop, seed, w, b, tmp)
            if not exe:
                if info.get('broken'): found.append(w)
                return (w, None, info, '')
            c = free.get()
            try: r = launch([exe, prop, 'run', str(seed), '0', str(nr), '1', str(c)], 840 if tier == 'quick' else 7200)
            finally: free.put(c)
            out = r.stdout if r else ''
            if re.search(r'^V ', out, re.M): found.append(w)
            elif 'STATS' in out: shutil.rmtree(os.path.dirname(exe), ignore_errors=True)
            return (w, exe, info, out + ('\nDIED %s %s' % (r.returncode, r.stderr[-300:]) if r and r.returncode else '\nDIED timeout' if not r else ''))
        with cf.ThreadPoolExecutor(max_workers=free.qsize() + 1) as ex: res = [x for x in ex.map(job, range(nw)) if x]
        t2 = time.time()
        tot = {}; cands = []; bad = []; errs = {}; samples = []
        for w, exe, info, out in res:
            for n, e in info['errors']: errs.setdefault(n + ' ' + e, 0); errs[n + ' ' + e] += 1
            if not exe: bad.append(w); continue
            m = re.search(r'^STATS (.*)$', out, re.M)
            if m:
                for k, v in json.loads(m.group(1)).items(): tot[k] = tot.get(k, 0) + v
            else: bad.append(w)
            for m in re.finditer(r'^SAMPLE (\d+) (".*") acts=(\d+) steps=(\d+)$', out, re.M):
                if len(samples) < 6 and len(samples) <= w: samples.append({'world': w, 'run': int(m.group(1)), 'what': json.loads(m.group(2)), 'injected_actions': int(m.group(3)), 'instructions': int(m.group(4))})
            for m in re.finditer(r'^V (\d+) (\S+) (.*)$', out, re.M): cands.append((w, exe, int(m.group(1)), m.group(2), json.loads(m.group(3))))
        if a.survey:
            for c in cands: print(c[0], c[2], c[3], c[4][:600])
            print(tot, 'bad worlds', bad, errs, '%.1fs' % (t2 - t1)); return 0
        broken = sorted((w, info['broken']) for w, exe, info, out in res if info.get('broken'))
        if broken:
            w, why = broken[0]; p = vlib.replay_path(prop, 's%d-w%d-unlinkable' % (seed, w))
            with open(p, 'w') as f: json.dump({'property': prop, 'seed': seed, 'world': w, 'run': -1, 'actions': [], 'unlinkable': True, 'what': 'the assembler or the linker rejects the thread-local objects of this program', 'messages': why, 'replay_cmd': 'python3 tools/gen.py --replay ' + p, 'program_sources': sources(os.path.join(tmp, 'w%d' % w), prop, 'x:tv')}, f, indent=1)
            vlib.write_evidence(prop, {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 2), 'violations': 1, 'coverage': {'evaluations': tot.get('runs', 0), 'distinct_nontrivial': tot.get('distinct', 0), 'rule': META[prop]['rule'], 'violation': {'world': w, 'messages': why, 'replay': p}}, 'assumptions': []})
            print('world %d: thread-local objects that cannot be linked: %s' % (w, why[:1]))
            print('VIOLATION property=%s replay=%s' % (prop, p)); return 1
        if not tot.get('runs'):
            print('no world could be built or run (no verdict):', dict(list(errs.items())[:5])); return 2
        kf = vlib.known_findings(prop); hit = None; unstable = []
        for w, exe, run, sig, txt in sorted(cands):
            if any(k in sig for k, _ in kf): continue
            tr = launch([exe, prop, 'trace', str(seed), str(run)], 120)
            acts = [[int(x[0]), x[1], int(x[2]), int(x[3])] for x in re.findall(r'^A (\d+) (\S) (\d+) (\d+)$', tr.stdout if tr else '', re.M)]
            r1 = replay_once(exe, prop, seed, run, acts); r2 = replay_once(exe, prop, seed, run, acts)
            if r1 != r2 or r1[0] != sig: unstable.append([w, run, sig, r1[0], r2[0]]); continue
            n0 = len(acts); acts, used = minimise(exe, prop, seed, run, acts, sig)
            r3 = replay_once(exe, prop, seed, run, acts)
            p = vlib.replay_path(prop, 's%d-w%d-r%d' % (seed, w, run))
            with open(p, 'w') as f:
                json.dump({'property': prop, 'seed': seed, 'world': w, 'run': run, 'signature': r3[0], 'what': r3[2], 'event_log_hash': r3[1], 'actions': acts, 'action_kinds': 'instruction count, kind (S overwrite below the red zone, I interrupt running unit a with argument b, T switch to thread a, W other thread writes b to neighbour a), a, b',
                           'actions_before_minimisation': n0, 'replay_cmd': 'python3 tools/gen.py --replay ' + p, 'program_sources': sources(os.path.dirname(exe), prop, sig)}, f, indent=1)
            hit = (w, run, sig, r3[2], p, n0, len(acts), used); break
        wall = time.time() - t0
        kinds = {'overwrites_below_red_zone': tot['scribbles'], 'interrupt_handlers': tot['interrupts'], 'preemptions': tot['switches'], 'concurrent_neighbour_writes': tot['agent_writes'], 'device_accesses_served': tot['device_accesses']}
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 2), 'violations': 1 if hit else 0,
              'coverage': {'evaluations': tot['runs'], 'distinct_nontrivial': tot['distinct'], 'rule': META[prop]['rule'], 'samples': samples, 'seeds': [seed], 'worlds_generated_and_compiled': nw - len(bad), 'worlds_not_usable': len(bad),
                           'runs_per_hour': int(3600 * tot['runs'] / max(.1, t2 - t1)), 'simulated_instructions': tot['steps'], 'fault_kinds_fired': {k: v for k, v in kinds.items() if v}, 'distinct_interleavings_by_instruction_trace_hash': tot['distinct'],
                           'functions_not_usable_alone': tot['solo_bad'], 'programs_kefir_rejected': errs, 'unstable_candidates_discarded': unstable, 'build_s': round(tb, 1), 'campaign_s': round(t2 - t1, 1)},
              'assumptions': META[prop].get('assumptions', []) + ['components run as real code: the kefir compiler built from the tree, its generated code and its runtime library', 'components stubbed: ' + META[prop]['stub']]}
        if hit: ev['coverage']['violation'] = {'world': hit[0], 'run': hit[1], 'signature': hit[2], 'text': hit[3], 'replay': hit[4], 'actions_before': hit[5], 'actions_after': hit[6], 'minimisation_replays': hit[7]}
        vlib.write_evidence(prop, ev)
        for k, txt in kf: print('KNOWN-FINDING: property=%s %s' % (prop, txt))
        print('%s %s seed=%d: %d worlds, %d runs, %d distinct non-trivial, %d instructions, %s, %.1fs' % (prop, tier, seed, nw - len(bad), tot['runs'], tot['distinct'], tot['steps'], kinds, wall))
        if bad or errs: print('unusable worlds: %s, rejected programs: %s' % (bad, dict(list(errs.items())[:5])))
        if unstable: print('discarded %d candidates that did not reproduce: %s' % (len(unstable), unstable[:3]))
        if hit:
            print('world %d run %d: %s' % (hit[0], hit[1], hit[3]))
            print('VIOLATION property=%s replay=%s' % (prop, hit[4])); return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
if __name__ == '__main__':
    sys.exit(main())
