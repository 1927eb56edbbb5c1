#!/usr/bin/env python3
"""Deterministic-simulation checks for daniele77/cli.

  check.py C05 [quick|thorough]   check one property (tier defaults to $VERIF_TIER or quick)
  check.py --setup                build everything once
  check.py --replay FILE          re-run a replay file (exit 1: reproduced)
Environment: VERIF_SEED, REPO (default /repo, for development only), SIM_WORKERS, SIM_SCALE.
"""
import array, glob, hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REPO', '/repo')
B = os.path.join(V, 'build')
BASE = ['g++', '-std=c++17', '-O1', '-g1', '-pipe', '-U_FORTIFY_SOURCE']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all', '-fsanitize-coverage=trace-pc']
LIB = ['-isystem', os.path.join(REPO, 'include'), '-DASIO_STANDALONE']
CORE = ['core', 'io', 'disk', 'runner']

from plan import BIN, PLAN, LEVEL   # noqa: E402  (same directory)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        for root, dirs, files in sorted(os.walk(p)) if os.path.isdir(p) else [(os.path.dirname(p), [], [os.path.basename(p)])]:
            dirs.sort()
            for f in sorted(files):
                q = os.path.join(root, f)
                h.update(q.encode()); h.update(open(q, 'rb').read())
    return h.hexdigest()[:20]

def build(bins):
    """Compile what is missing; returns {bin: path}. Objects are named by the hash of everything they depend on."""
    os.makedirs(B, exist_ok=True)
    simh = [os.path.join(V, 'sim', x) for x in ('sim.h', 'core.h', 'io.h')]
    jobs, objs = [], {}
    def obj(name, src, flags, deps):
        key = hashlib.sha256((tree_hash(deps + [src]) + ' '.join(flags)).encode()).hexdigest()[:16]
        o = os.path.join(B, f'{name}-{key}.o')
        if not os.path.exists(o) and all(j[0] != o for j in jobs):
            jobs.append((o, BASE + flags + ['-c', src, '-o', o + f'.{os.getpid()}.tmp']))
        return o
    for b in bins:
        spec = BIN[b]
        race = spec.get('race', False)
        san = ['-fsanitize=thread', '-Wno-tsan'] if race else SAN
        fl = (['-DFLAV_SA'] if spec['flav'] == 'sa' else []) + spec.get('defs', []) + san + LIB
        wdeps = simh + [os.path.join(REPO, 'include')] + glob.glob(os.path.join(V, 'worlds', '*.h'))
        os_ = [obj(f'{w}-{spec["flav"]}' + ('-race' if race else ''), os.path.join(V, 'worlds', w + '.cpp'), fl, wdeps) for w in spec['src']]
        for c in CORE + (['tsanrt'] if race else []):
            os_.append(obj('sim-' + c, os.path.join(V, 'sim', c + '.cpp'), ['-Wall', '-fno-gnu-unique'], simh))
        objs[b] = os_
    n = int(os.environ.get('SIM_WORKERS', len(os.sched_getaffinity(0))))
    jobs.sort(key=lambda j: 'sim-' in j[0])   # big ones first
    running, todo = [], list(jobs)
    while todo or running:
        while todo and len(running) < n:
            o, cmd = todo.pop(0)
            running.append((o, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        o, cmd, p = running.pop(0)
        out, _ = p.communicate()
        if p.returncode != 0:
            for _, _, q in running: q.kill()
            print(out[-6000:]); print('BUILD-FAILED: ' + ' '.join(cmd)); sys.exit(2)
        os.replace(cmd[-1], o)
    res = {}
    for b in bins:
        key = hashlib.sha256(' '.join(objs[b]).encode()).hexdigest()[:16]
        exe = os.path.join(B, f'{b}-{key}')
        if not os.path.exists(exe):
            tmp = exe + f'.{os.getpid()}.tmp'
            # the simulator's inline functions become private, so that the worlds keep their own, instrumented copies of libstdc++ templates
            simo = tmp + '.sim.o'; mine = [o for o in objs[b] if os.path.basename(o).startswith('sim-')]
            r = sh(['bash', '-c', 'ld -r --force-group-allocation "$@" -o "$0".1 && nm "$0".1 | awk \'$2 ~ /^[WVu]$/ && $3 !~ /^__/ {print $3}\' > "$0".2 && objcopy --localize-symbols="$0".2 "$0".1 "$0"; r=$?; rm -f "$0".1 "$0".2; exit $r', simo] + mine)
            if r.returncode != 0:
                print(r.stdout[-6000:]); print('LINK-FAILED'); sys.exit(2)
            link = ['g++'] + ([] if BIN[b].get('race') else ['-fsanitize=address,undefined']) + ['-rdynamic', simo] + [o for o in objs[b] if o not in mine] + ['-o', tmp, '-ldl', '-lpthread']
            r = sh(link)
            if os.path.exists(simo): os.unlink(simo)
            if r.returncode != 0:
                print(r.stdout[-6000:]); print('LINK-FAILED'); sys.exit(2)
            os.replace(tmp, exe)
        os.utime(exe)
        for o in objs[b]: os.utime(o)
        res[b] = exe
    # keep the cache small
    fs = sorted((os.path.getmtime(f), f) for f in glob.glob(os.path.join(B, '*')) if os.path.isfile(f))
    for t, f in fs[:-120]:
        if time.time() - t > 3600: os.unlink(f)
    return res

def known_findings(prop):
    p = os.path.join(V, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['known'] if k['property'] == prop]

def symbolise(msg):
    def f(m):
        r = sh(['addr2line', '-Cfpie', os.path.join(B, m.group(1)), m.group(2)]).stdout.strip()
        return re.sub(r' \(discriminator \d+\)', '', r.split(' at ')[0][:90] + ' at ' + r.split(' at ')[-1]) if ' at ' in r else m.group(0)
    return re.sub(r'(\S+?)\+(0x[0-9a-f]+)', f, msg)

def replay(path, quiet=False):
    j = json.load(open(path))
    w = j['world']
    for b, spec in BIN.items():
        if w in spec['worlds'] and not (spec.get('race') and j['property'] != 'C04') and (spec.get('race') or j['property'] != 'C04' or not any(BIN[x].get('race') and w in BIN[x]['worlds'] for x in BIN)):
            exe = build([b])[b]
            env = dict(os.environ, SIM_KNOWN=','.join(k['id'] for k in known_findings(j['property'])))
            r = sh([exe, '--replay', path], env=env)
            if not quiet: print(symbolise(r.stdout) if spec.get('race') else r.stdout)
            return r.returncode, j['kind'], r.stdout
    print('no binary for world ' + w); return 2, '', ''

def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    scale = float(os.environ.get('SIM_SCALE', '1'))
    plan = PLAN[prop]
    exes = build(sorted({x[0] for x in plan}))
    t_build = time.time() - t0
    out = os.path.join(V, 'replays', f'{prop}-{os.getpid()}')
    os.makedirs(out, exist_ok=True)
    cpus = sorted(os.sched_getaffinity(0))[:int(os.environ.get('SIM_WORKERS', '64'))]
    env = dict(os.environ, SIM_KNOWN=','.join(k['id'] for k in known_findings(prop)))
    tot = {}; faults = {}; probes = {}; stats = {}; perworld = {}; samples = []; hashes = set(); pairs = None; other = {}
    found = None; errors = []; t_run = time.time()
    for ix, (b, world, count, cap) in enumerate(plan):
        if tier == 'thorough': count *= 25; cap = int(cap * min(14, 780 / sum(x[3] for x in plan)))
        count = max(len(cpus), int(count * scale))
        per = (count + len(cpus) - 1) // len(cpus)
        base = (seed - 1) * 1000000000 + ix * 50000000 + 1
        procs = []
        for i, c in enumerate(cpus):
            cmd = [exes[b], '--world', world, '--prop', prop, '--seed0', str(base + i), '--stride', str(len(cpus)), '--count', str(per), '--time', str(cap), '--out', out,
                   '--cpu', str(c), '--selfcheck', '6' if tier == 'quick' else '60', '--shrink', '20']
            procs.append(subprocess.Popen(cmd, stdout=open(os.path.join(out, f'log-{world}-{i}'), 'w+'), stderr=subprocess.STDOUT, env=env))
        live = set(range(len(procs)))
        while live:
            time.sleep(0.05)
            for i in list(live):
                if procs[i].poll() is None: continue
                live.discard(i)
                log = open(os.path.join(out, f'log-{world}-{i}')).read()
                rc = procs[i].returncode
                m = re.search(r'^FOUND (.*)$', log, re.M)
                if rc == 1 and m:
                    if not found:
                        found = (m.group(1), world)
                        # other workers get a moment, then stop
                        for k in live: procs[k].terminate()
                elif rc not in (0, 1, -15):
                    errors.append(f'{world} worker {i}: exit {rc}: ' + log[-1500:])
                m = re.search(r'^SUMMARY (\{.*\})$', log, re.M)
                if m:
                    s = json.loads(m.group(1))
                    for k in ('runs', 'ok', 'limit', 'other', 'violations', 'steps', 'sim_ns', 'switches', 'blocks', 'nontrivial', 'selfchecked', 'wall'):
                        tot[k] = tot.get(k, 0) + s[k]
                    pw = perworld.setdefault(world, dict(runs=0, steps=0, sim_s=0.0))
                    pw['runs'] += s['runs']; pw['steps'] += s['steps']; pw['sim_s'] = round(pw['sim_s'] + s['sim_ns'] / 1e9, 3)
                    for k, v in s['faults'].items(): f = faults.setdefault(k, [0, 0]); f[0] += v[0]; f[1] += v[1]
                    for k, v in s['probes'].items(): probes[k] = probes.get(k, 0) + v
                    for k, v in s['stats'].items(): stats[k] = stats.get(k, 0) + v
                    for k, v in s['otherkinds'].items(): other[k] = other.get(k, 0) + v
                    x = bytes.fromhex(s['pairs']); pairs = x if pairs is None else bytes(p | q for p, q in zip(pairs, x))
                    if os.path.exists(s['hashes']):
                        a = array.array('Q'); a.frombytes(open(s['hashes'], 'rb').read()); hashes.update(a)
                    if i == 0 and s['sample']: samples.append(f'{world} ' + s['sample'])
        if found or errors: break
    t_run = time.time() - t_run
    rc = 0
    violation_line = None
    if found:
        path = os.path.join(V, 'replays', f'{prop}-{found[1]}-' + os.path.basename(found[0]).rsplit('-', 1)[1])
        shutil.copy(found[0], path)
        code, kind, text = replay(path, quiet=True)
        if code == 1 and f'REPRODUCED kind={kind}' in text:
            violation_line = f'VIOLATION property={prop} replay={path}'; rc = 1
        else:
            errors.append('the replay file does not reproduce the violation: ' + text[-1500:]); rc = 2
    if errors and rc == 0: rc = 2
    runs = tot.get('runs', 0)
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL.get(prop, 'exploration'), wall_s=round(time.time() - t0, 2), violations=1 if violation_line else 0,
        coverage=dict(
            evaluations=runs,
            distinct_nontrivial=len(hashes),
            rule='one evaluation = one simulated execution from one seed (workload, schedule and faults drawn from it); distinct = different hash of the complete event trace '
                 '(every scheduling point, switch, system call result, fault and workload event); non-trivial = at least one context switch and one workload choice',
            samples=samples[:4] or ['(no sample)'],
            by_world=perworld, scheduling_points=tot.get('steps', 0), context_switches=tot.get('switches', 0), instrumented_blocks=tot.get('blocks', 0),
            switch_operation_pairs=sum(bin(x).count('1') for x in (pairs or b'')),
            simulated_seconds=round(tot.get('sim_ns', 0) / 1e9, 3),
            runs_per_hour=int(runs / max(t_run, 1e-6) * 3600), seeds_per_hour=int(runs / max(t_run, 1e-6) * 3600),
            faults_injected={k: dict(count=v[0], runs=v[1]) for k, v in sorted(faults.items())},
            reached=dict(sorted(probes.items())), workload=dict(sorted(stats.items())),
            runs_ended_by_step_limit=tot.get('limit', 0), violations_of_other_properties_seen=other,
            determinism_selfchecks=tot.get('selfchecked', 0), build_s=round(t_build, 1), exploration_s=round(t_run, 1), workers=len(cpus)),
        assumptions=['real code: every header under /repo/include/cli that the world uses, libstdc++, asio; '
                     'stubs: kernel (threads scheduling, futex, clock, tty, pipes, sockets, epoll/select, files) and the clients/typists/operators driving them',
                     'sequentially consistent memory; preemption at intercepted calls and sampled basic blocks (or memory accesses in the race build)'])
    if errors: ev['coverage']['errors'] = [e[:600] for e in errors]
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    shutil.rmtree(out, ignore_errors=True)
    for k in known_findings(prop): print(f'KNOWN-FINDING: property={prop} {k["what"]} (reached {probes.get("known:" + k["id"], 0)} times in this run)')
    print(f'{prop} {tier}: {runs} runs, {len(hashes)} distinct, {tot.get("steps", 0)} scheduling points, build {t_build:.1f}s, run {t_run:.1f}s')
    for e in errors: print('ERROR ' + e)
    if violation_line:
        j = json.load(open(path)); print(f'  kind={j["kind"]} world={j["world"]} seed={j["seed"]}: {symbolise(j["message"])[:1500]}')
        print(violation_line)
    return rc

def main():
    a = sys.argv[1:]
    if a[0] == '--setup':
        build(sorted(BIN)); print('built ' + ' '.join(sorted(BIN))); return 0
    if a[0] == '--replay': return replay(a[1])[0]
    return check(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'))
if __name__ == '__main__':
    sys.path.insert(0, V)
    sys.exit(main())
