#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough : build the simulator from /repo's working tree, search seeds, report.
   check.py build : only build.   check.py replay FILE : rebuild and replay one file with its trace."""
import sys, os, json, hashlib, subprocess, time, glob, shutil, struct, re, signal
from concurrent.futures import ThreadPoolExecutor
for _s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGCHLD): signal.signal(_s, signal.SIG_DFL)   # whatever the caller left
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('GCSIM_REPO', '/repo')
BUILD = os.environ.get('GCSIM_BUILD', os.path.join(V, 'build'))
CXX, CC = '/usr/bin/clang++-18', '/usr/bin/clang-18'
JOBS = os.cpu_count() or 8

# runs per quick check (all workers together) and wall cap in seconds; thorough multiplies
PLAN = json.load(open(os.path.join(V, 'plan.json')))

def sha(b): return hashlib.sha256(b).hexdigest()
_fh = {}
def fhash(p):
    if p not in _fh:
        try: _fh[p] = sha(open(p, 'rb').read())
        except OSError: _fh[p] = None
    return _fh[p]

def parse_dep(path):
    t = open(path).read().replace('\\\n', ' ')
    t = t[t.index(':') + 1:]
    out = [x.replace('\0', ' ') for x in t.replace('\\ ', '\0').split()]
    return [x for x in out if not x.startswith('/usr/')]

def compile_one(job):
    cmd, src, obj = job
    meta = obj + '.json'
    key = sha(' '.join(cmd).encode())
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m['key'] == key and all(fhash(p) == h for p, h in m['deps'].items()): return None
        except Exception: pass
    dep = obj + '.d'
    r = subprocess.run(cmd + ['-MMD', '-MF', dep, '-c', src, '-o', obj], capture_output=True, text=True)
    if r.returncode: return f"{src}:\n{r.stderr[-4000:]}"
    json.dump({'key': key, 'deps': {p: fhash(p) for p in parse_dep(dep)}}, open(meta, 'w'))
    return 'built'

def build(variant='main'):
    d = os.path.join(BUILD, 'main' if variant == 'matlab' else variant); os.makedirs(d, exist_ok=True)
    inc = [f'-I{REPO}/include', f'-I{REPO}/src_yaml_interface', f'-I{REPO}/src_json_interface', f'-I{REPO}/src_toml_interface', f'-I{REPO}/src_lua_interface/lua-5.4.6/src']
    base = ['-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_SANITIZE_VECTOR=1', '-DNDEBUG', '-w'] + inc
    cov = ['-fsanitize-coverage=trace-pc-guard' + (',trace-loads,trace-stores' if variant == 'threads' else '')]
    jobs = []
    repo_src = sorted(glob.glob(f'{REPO}/src/*.cc') + sum((glob.glob(f'{REPO}/src_{x}_interface/*.cc') for x in ('yaml', 'json', 'toml', 'lua')), []))
    for s in repo_src: jobs.append(([CXX, '-std=c++17', '-O1'] + base + cov, s, f'{d}/r_{os.path.basename(s)}.o'))
    for s in sorted(glob.glob(f'{REPO}/src_lua_interface/lua-5.4.6/src/*.c')):
        if os.path.basename(s) in ('lua.c', 'luac.c'): continue
        jobs.append(([CC, '-O1', '-DLUA_USE_LINUX', '-include', f'{V}/sim/lua_seams.h'] + base + ([] if variant == 'threads' else cov), s, f'{d}/l_{os.path.basename(s)}.o'))
    for s in sorted(glob.glob(f'{V}/sim/*.cc')):
        o = '-O0' if os.path.basename(s) == 'ops.cc' else '-O1'
        jobs.append(([CXX, '-std=c++17', o] + base, s, f'{d}/s_{os.path.basename(s)}.o'))
    if variant == 'matlab':      # the MATLAB interface with a simulated MATLAB; only C17 depends on these files
        m = [f'-I{V}/sim/matlab', f'-I{REPO}/include/GenericContainer']; src = f'{REPO}/src_matlab_interface'
        for s in sorted(x for x in glob.glob(f'{src}/*.cc') if not os.path.basename(x).startswith('mex_')): jobs.append(([CXX, '-std=c++17', '-O1'] + base + m + cov, s, f'{d}/m_{os.path.basename(s)}.o'))
        for n in ('test_gc', 'print_recursive'): jobs.append(([CXX, '-std=c++17', '-O1', f'-DmexFunction=mexFunction_{n}'] + base + m + cov, f'{src}/mex_{n}.cc', f'{d}/m_mex_{n}.o'))
        for s in sorted(glob.glob(f'{V}/sim/matlab/*.cc')): jobs.append(([CXX, '-std=c++17', '-O1'] + base + m, s, f'{d}/s_{os.path.basename(s)}.o'))
    big = ['ops.cc', 'GenericContainer_toml', 'GenericContainerYaml', 'GenericContainer_yaml', 'scen_', 'GenericContainer.cc', 'Interface_lua']
    jobs.sort(key=lambda j: min([i for i, b in enumerate(big) if b in j[1]] + [99]))
    with ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(compile_one, jobs))
    bad = [r for r in res if r and r != 'built']
    if bad:
        print('BUILD FAILED\n' + '\n'.join(bad)); sys.exit(2)
    exe = f'{d}/gcsim' + ('_matlab' if variant == 'matlab' else '')
    objs = [j[2] for j in jobs]
    stamp = [[o, os.path.getmtime(o)] for o in objs]
    if not os.path.exists(exe) or json.load(open(exe + '.json')) != stamp:
        r = subprocess.run([CXX, '-fsanitize=address', '-rdynamic'] + objs + ['-o', exe, '-lm', '-ldl', '-lpthread'], capture_output=True, text=True)
        if r.returncode: print('LINK FAILED\n' + r.stderr[-4000:]); sys.exit(2)
        json.dump(stamp, open(exe + '.json', 'w'))
    return exe

def run_env():
    e = dict(os.environ); e['LC_ALL'] = 'C'; e.pop('ASAN_OPTIONS', None); e['TZ'] = 'UTC'
    return e

def noaslr(cmd):
    # identical addresses in every process of a check: part of making a seed an exact execution
    return ['setarch', '-R'] + cmd if NOASLR else cmd
NOASLR = subprocess.run(['setarch', '-R', 'true'], capture_output=True).returncode == 0

def known(prop):
    p = os.path.join(V, 'known_findings.json')
    return [k for k in json.load(open(p)) if k.get('property') == prop and k.get('status') == 'open'] if os.path.exists(p) else []

def symbolize(exe, err):
    out = []
    for m in re.finditer(r'\(.*?gcsim\+0x([0-9a-f]+)\)', err):
        out.append(m.group(1))
    if not out: return ''
    r = subprocess.run(['/usr/bin/llvm-symbolizer-18', '-e', exe, '--functions=linkage', '--demangle', '--no-inlines'] + ['0x' + x for x in out[:14]], capture_output=True, text=True)
    lines = [l for l in r.stdout.splitlines() if l.strip()]
    return '\n'.join('  ' + a + '  ' + b for a, b in zip(lines[0::2], lines[1::2]))

def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    if sys.argv[1] == 'build':
        build('main'); build('threads')
        try: build('matlab')
        except SystemExit: print('the MATLAB part does not build')      # concerns C17 alone
        return 0
    if sys.argv[1] == 'replay':
        f = sys.argv[2]; prop = re.search(r'^property (\S+)', open(f).read(), re.M).group(1)
        exe = build(PLAN[prop].get('variant', 'main'))
        tr = f + '.trace.txt'
        r = subprocess.run(noaslr([exe, prop, 'replay', f, tr]), capture_output=True, text=True, errors='replace', env=run_env())
        print(open(tr, errors='replace').read() if os.path.exists(tr) else ''); print(r.stdout[:6000]); print(symbolize(exe, r.stdout))
        if os.path.exists(tr): os.unlink(tr)
        return r.returncode
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    plan = PLAN[prop]; exe = build(plan.get('variant', 'main')); tb = time.time() - t0
    runs = plan['runs']; cap = plan.get('cap', 60)
    if tier == 'thorough': runs *= plan.get('thorough', 40); cap = plan.get('thorough_cap', 3000)
    work = os.path.join(BUILD, 'work', f'{prop}-{tier}-{os.getpid()}'); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    W = JOBS
    ps = [subprocess.Popen(noaslr([exe, prop, 'run', str(seed), str(w), str((runs + W - 1 - w) // W), str(W), str(cap), f'{work}/{w}']), env=run_env(), cwd=work) for w in range(W)]
    for p in ps: p.wait()
    tot = dict(runs=0, ops=0, steps=0, choices=0, switches=0); faults = {}; states = set(); edges = bytearray(1 << 17); fails = []; discarded = []; unstable = []; broken = []
    for w in range(W):
        try: s = json.load(open(f'{work}/{w}.stats'))
        except Exception: broken.append(w); continue
        for k in tot: tot[k] += s.get(k, 0)
        for k, n in s['faults'].items(): faults[k] = faults.get(k, 0) + n
        b = open(f'{work}/{w}.states', 'rb').read(); states.update(struct.unpack(f'<{len(b)//8}Q', b))
        for i, x in enumerate(open(f'{work}/{w}.edges', 'rb').read()):
            if x: edges[i] = 1
        if os.path.exists(f'{work}/{w}.fails'):
            for l in open(f'{work}/{w}.fails', errors='replace'):
                a = l.rstrip('\n').split('\t')
                if len(a) >= 5: (discarded if a[1].startswith('harness-') else fails).append((int(a[0]), a[1], a[2], a[3], a[4] == '1'))  # harness-*: a run larger than the simulator records, not judged
        if os.path.exists(f'{work}/{w}.unstable'): unstable += open(f'{work}/{w}.unstable', errors='replace').read().splitlines()
    if broken: print(f'simulator worker(s) {broken} did not finish'); return 2
    wall_search = time.time() - t0 - tb
    # ---- failures: minimise, replay in fresh processes
    fails.sort(); reported = []; kinds = set(); rc = 0
    os.makedirs(f'{V}/replays', exist_ok=True)
    for idx, kind, rp, msg, gate in sorted(fails, key=lambda f: (not f[4], f[0])):
        if kind in kinds or len(reported) >= 3: continue
        out = f'{V}/replays/{prop}-{re.sub("[^A-Za-z0-9-]", "_", kind)}-s{seed}-{idx}.replay'
        subprocess.run(noaslr([exe, prop, 'shrink', rp, out, '25' if not reported else '8']), capture_output=True, env=run_env())
        if not os.path.exists(out): shutil.copy(rp, out)
        rr = [subprocess.run(noaslr([exe, prop, 'replay', out]), capture_output=True, text=True, errors='replace', env=run_env()) for _ in range(2)]
        if not all(r.returncode == 1 and f'kind={kind}' in r.stdout for r in rr):
            shutil.copy(rp, out)
            rr = [subprocess.run(noaslr([exe, prop, 'replay', out]), capture_output=True, text=True, errors='replace', env=run_env()) for _ in range(2)]
        ok = all(r.returncode == 1 and f'kind={kind}' in r.stdout for r in rr)
        exact = ok and rr[0].stdout.split('\n')[0] == rr[1].stdout.split('\n')[0]
        if not ok: unstable.append(f'{idx}\t{kind}\t{msg}'); continue
        kinds.add(kind)
        m = rr[0].stdout.split('\n')[0]
        sym = symbolize(exe, rr[0].stdout)
        with open(out, 'a') as f: f.write(f'\nreplayed twice in fresh processes: {"identical" if exact else "same violation, details differ"}\n{m}\n{sym}\n')
        print(f'seed={seed} run={idx} kind={kind}\n  {m[:1500]}\n{sym}')
        print(f'VIOLATION property={prop} replay={out}')
        reported.append(kind); rc = 1
    if unstable and not reported:
        for u in unstable[:5]: print('UNSTABLE (did not reproduce from its seed): ' + u[:600])
        rc = 2
    for k in known(prop):
        r = subprocess.run(noaslr([exe, k['probe'], 'one', '1', '0', f'{work}/probe']), capture_output=True, text=True, errors='replace', env=run_env())
        if r.returncode == 1: print(f"KNOWN-FINDING: property={prop} {k['what']}")
    # ---- samples: a few runs traced in full
    samples = []
    for i in range(3):
        tr = f'{work}/sample{i}'
        subprocess.run(noaslr([exe, prop, 'one', str(seed), str(i), tr]), capture_output=True, env=run_env())
        if os.path.exists(tr): samples.append(f'run {i}: ' + ' | '.join(open(tr, errors='replace').read().splitlines()[:12])[:900])
    # determinism gate: the same run twice gives the same history hash
    h = [subprocess.run(noaslr([exe, prop, 'one', str(seed), '7', f'{work}/g']), capture_output=True, text=True, errors='replace', env=run_env()).stdout.split('\n')[0] for _ in range(2)]
    ns = len(states); ne = sum(edges)
    hours = max(wall_search, 0.001) / 3600
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': PLAN[prop].get('level', 'exploration'),
      'coverage': {'evaluations': tot['runs'], 'distinct_nontrivial': ns,
        'rule': plan['rule'], 'samples': samples,
        'operations': tot['ops'], 'runs_per_hour': int(tot['runs'] / hours), 'runs_are': 'one (VERIF_SEED, run index) pair each, so runs per hour is seeds per hour',
        'simulated_time_steps': tot['steps'], 'simulated_time_unit': 'instrumented branch edges of the real code (one edge = one tick of the simulated clock)',
        'choices_drawn': tot['choices'], 'faults_injected': faults, 'thread_switches': tot['switches'], 'code_edges_reached': ne,
        'determinism_gate': {'same_seed_same_history': h[0] == h[1], 'history': h[0]},
        'unstable': len(unstable), 'runs_not_judged': len(discarded), 'real_components': plan['real'], 'stubbed_components': plan['stub'], 'aslr_disabled': NOASLR,
        'build_s': round(tb, 1), 'search_s': round(wall_search, 1)},
      'wall_s': round(time.time() - t0, 1), 'violations': len(reported), 'assumptions': plan.get('assume', [])}
    os.makedirs(f'{V}/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    print(f"{prop} {tier}: {tot['runs']} runs, {tot['ops']} operations, {ns} distinct states, {sum(faults.values())} faults, {ne} edges, build {tb:.0f}s search {wall_search:.0f}s, {len(reported)} violation(s)")
    shutil.rmtree(work, ignore_errors=True)
    return rc
sys.exit(main())
