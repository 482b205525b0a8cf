"""Shared pieces of the check drivers: builds, evidence, violations, known findings."""
import ctypes, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NJ = int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 8)))

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs if '/.git' not in d)
        for f in sorted(files):
            h.update(f.encode()); h.update(b'\0')
            with open(f, 'rb') as fh: h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]

def build(kind, script, own):
    """Builds by content of /repo's sources and our own files; returns the output directory."""
    if os.environ.get('VERIF_PREBUILT'): return os.environ['VERIF_PREBUILT']  # development only (mutation campaigns)
    key = tree_hash([REPO + '/source', REPO + '/headers', REPO + '/Makefile'] + [os.path.join(VERIF, p) for p in own + ['tools/' + script]])
    root = os.path.join(VERIF, 'build')
    os.makedirs(root, exist_ok=True)
    out = os.path.join(root, kind + '-' + key)
    with open(os.path.join(root, kind + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out + '/.done'):
            for old in sorted(glob.glob(os.path.join(root, kind + '-*')), key=os.path.getmtime)[:-2]:
                shutil.rmtree(old, ignore_errors=True)
            shutil.rmtree(out, ignore_errors=True)
            t = time.time()
            r = subprocess.run([os.path.join(VERIF, 'tools', script), REPO, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                print(r.stdout[-3000:])
                print('BUILD-FAILED: the check could not build the tree (no verdict)')
                sys.exit(2)
            open(out + '/.done', 'w').write('%.1f' % (time.time() - t))
    return out

def noaslr():
    try: ctypes.CDLL(None).personality(0x0040000)
    except Exception: pass

_libc = ctypes.CDLL(None)
def child_setup():
    _libc.prctl(1, 9)  # die with the parent
    try: _libc.personality(0x0040000)
    except Exception: pass

def known_findings(prop):
    """known: property=<id> key=<signature substring> :: text   /   fixed: lines suppress nothing"""
    r = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop: r.append((m.group(2), m.group(3).strip()))
    return r

def write_evidence(prop, ev):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)

def replay_path(prop, tag):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, '%s-%s.json' % (prop, tag))
