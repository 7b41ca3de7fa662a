#!/usr/bin/env python3
"""check.py PROPERTY [--secs N] [--workers N] -- decide one property by seeded simulation of the real daemon.

Tier and seed come from VERIF_TIER (quick|thorough) and VERIF_SEED. Exit 0: held on everything explored.
Exit 1: a line "VIOLATION property=<id> replay=<path>". Exit 2: the check could not give an answer.
"""
import collections, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REPO', '/repo')
PROP = sys.argv[1]
ARGS = dict(zip(sys.argv[2::2], sys.argv[3::2]))
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = int(hashlib.sha256(os.environ['VERIF_SEED'].encode()).hexdigest()[:8], 16)
T0 = time.time()
NW = int(ARGS.get('--workers', '0')) or max(2, min(8, len(os.sched_getaffinity(0))))
# seconds of search, runs at most per tier; share of workers with AddressSanitizer
SEARCH = {'quick': 32.0, 'thorough': 540.0}
ASAN = {'C04': 3, 'C07': 2, 'C12': 2, 'C16': 3, 'C18': 1, 'C13': 1, 'C14': 2, 'C10': 1}
# which runs count as non-trivial: at least one of these counters moved
DECISIVE = {
    'C01': ['check.kill', 'check.power'], 'C02': ['check.save_after_failure', 'save_step_failed.'], 'C03': ['check.content'],
    'C04': ['damaged_loads', 'refusals'], 'C05': ['check.content'], 'C06': ['check.content'], 'C07': ['check.content'],
    'C08': ['check.budget'], 'C09': ['check.selection'], 'C10': ['check.requests'], 'C11': ['check.helpers'],
    'C12': ['signal.'], 'C13': ['reloads_good', 'reloads_bad'], 'C14': ['check.content', 'check.selection'],
    'C15': ['check.content', 'check.content_weak'], 'C16': ['forgotten', 'check.content'], 'C17': ['check.cadence'],
    'C18': ['check.resources'], 'C19': ['check.file_access'], 'C20': ['check.log_switch'], 'C21': ['check.order'],
    'C22': ['lives'], 'C23': ['check.clock'], 'C25': ['check.state_dump']}
MEANS = {
    'C01': 'at least one process kill or power loss was followed by a comparison of the state file with the versions the daemon had written',
    'C02': 'a save step failed and a later save was compared, or the failing step was seen',
    'C03': 'a saved state was compared in full with the reference model',
    'C04': 'a damaged state file was loaded or refused', 'C05': 'a saved state was compared in full with the reference model',
    'C06': 'a saved state was compared in full with the reference model', 'C07': 'a saved state was compared in full with the reference model',
    'C08': 'a prediction cycle was compared with its budget', 'C09': 'the requests of a cycle were compared with the reference selection',
    'C10': 'the requested byte ranges were compared with the selected regions', 'C11': 'helper processes ran and were counted',
    'C12': 'a signal was delivered', 'C13': 'a reload was compared', 'C14': 'saved contents or requests were compared with the rules',
    'C15': 'a saved state was compared with the process history', 'C16': 'a known application was forgotten, or a state compared',
    'C17': 'cycle distances were checked', 'C18': 'descriptors, streams, directories, mappings and memory between cycles were compared',
    'C19': 'file accesses were checked', 'C20': 'the log was followed across a switch', 'C21': 'priority and order of requests were checked',
    'C22': 'a start-up was judged', 'C23': 'clock readings were compared',
    'C25': 'a dump was compared in full with the reference model'}


def die(msg):
    print('ERROR ' + msg, flush=True)
    sys.exit(2)


def build(out, asan):
    """Build simulator and daemon; simulator objects are cached, the daemon never is."""
    env = dict(os.environ, REPO=REPO)
    return subprocess.Popen(['bash', V + '/build.sh', out] + (['asan'] if asan else []), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def known():
    r = []
    try:
        for l in open(V + '/known-findings.txt'):
            m = re.match(r'finding: property=(\S+) kind=(\S+) match=/(.*?)/ (.*)', l)
            if m and m.group(1) == PROP:
                r.append((m.group(2), re.compile(m.group(3)), m.group(4).strip()))
    except FileNotFoundError:
        pass
    return r


def listed(v, kn):
    return any(k == v['kind'] and rx.search(v['msg']) for k, rx, _ in kn)


class Sim:
    def __init__(self, out, asan):
        self.bin = out + ('/sim_asan' if asan else '/sim')
        self.lib = out + ('/libdaemon_asan.so' if asan else '/libdaemon.so')
        self.asan = asan

    def replay(self, path, log=None, timeout=120):
        try:
            p = subprocess.run([self.bin, 'replay', '--lib', self.lib, '--plan', path] + (['--log', log] if log else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None
        for l in p.stdout.decode('utf-8', 'replace').splitlines():
            if l.startswith('{'):
                try:
                    return json.loads(l)
                except ValueError:
                    pass
        return None


def kinds(res, kn):
    return {v['kind'] for v in res['viol'] if not listed(v, kn)} if res else set()


def minimise(sim, text, kind, kn, tmp, budget):
    """ddmin over operations, triggers, faults and rates; keeps the violation kind."""
    end = time.time() + budget
    head, body = [], []
    for l in text.splitlines():
        (body if l.split(' ', 1)[0] in ('op', 'trig', 'fault', 'rate') else head).append(l)
    tries = 0

    def fails(h, b):
        nonlocal tries
        tries += 1
        p = tmp + '/min.plan'
        open(p, 'w').write('\n'.join(h + b) + '\n')
        return kind in kinds(sim.replay(p, timeout=30), kn)
    if not fails(head, body):
        return None, tries
    n = 2
    while len(body) >= 2 and time.time() < end:
        size = max(1, len(body) // n)
        done = False
        for i in range(0, len(body), size):
            if time.time() > end:
                break
            c = body[:i] + body[i + size:]
            if fails(head, c):
                body, n, done = c, max(2, n - 1), True
                break
        if not done:
            if size == 1:
                break
            n = min(len(body), n * 2)
    for l in [x for x in head if x.startswith('set ') and not x.startswith(('set end', 'set conf'))]:
        if time.time() > end:
            break
        c = [x for x in head if x != l]
        if fails(c, body):
            head = c
    return '\n'.join(head + body) + '\n', tries


def main():
    if PROP == 'C24':
        sys.path.insert(0, V + '/inst')
        import inst
        return inst.main(TIER, SEED, float(ARGS.get('--secs', '0')) or SEARCH[TIER], NW)
    if PROP not in DECISIVE:
        die('unknown property ' + PROP)
    kn = known()
    for _, _, what in kn:
        print('KNOWN-FINDING: property=%s %s' % (PROP, what), flush=True)
    na = min(ASAN.get(PROP, 0), NW - 1)
    tmp = tempfile.mkdtemp(prefix='vsim-')
    out = tmp + '/b'
    os.makedirs(out)
    if os.path.isdir(V + '/.build/cache'):
        for d in ('sim.o', 'sim_asan.o'):
            if os.path.isdir(V + '/.build/cache/' + d):
                shutil.copytree(V + '/.build/cache/' + d, out + '/' + d, copy_function=shutil.copy2)
    procs = []
    try:
        b = build(out, False)
        ba = build(out, True) if na else None
        o = b.communicate()[0]
        if b.returncode:
            die('build failed:\n' + o.decode('utf-8', 'replace')[-3000:])
        secs = float(ARGS.get('--secs', '0')) or SEARCH[TIER]
        end = time.time() + secs
        base = (SEED % 1000003) * 10000000 + 1
        step = NW
        files = {}

        def launch(k, asan):
            s = Sim(out, asan)
            f = '%s/w%d.json' % (tmp, k)
            left = max(5, int(end - time.time()))
            p = subprocess.Popen([s.bin, 'work', '--lib', s.lib, '--prop', PROP, '--seed0', str(base + k), '--step', str(step), '--count', '100000000', '--secs', str(left), '--variant', '0', '--out', f], stdout=subprocess.DEVNULL, stderr=open(f + '.err', 'wb'))
            procs.append(p)
            files[k] = dict(sim=s, f=f, pos=0, p=p, n=0)
        for k in range(NW - na):
            launch(k, False)
        waiting = list(range(NW - na, NW))
        asan_ok = bool(na)
        agg = collections.Counter()
        faults = collections.Counter()
        hashes, states, nontriv = set(), set(), set()
        runs = nt_runs = 0
        simus = realus = 0
        first = {}
        cand = []
        tried = 0
        unrep = []
        worker_err = []
        known_hits = 0
        reported = None
        done = False
        while not done:
            time.sleep(0.25)
            if waiting and ba.poll() is not None:
                o = ba.communicate()[0]
                if ba.returncode:
                    die('build with AddressSanitizer failed:\n' + o.decode('utf-8', 'replace')[-3000:])
                for k in waiting:
                    launch(k, True)
                waiting = []
            alive = [w for w in files.values() if w['p'].poll() is None]
            for k, w in files.items():
                try:
                    with open(w['f'], 'rb') as fh:
                        fh.seek(w['pos'])
                        data = fh.read()
                except FileNotFoundError:
                    continue
                cut = data.rfind(b'\n') + 1
                w['pos'] += cut
                for l in data[:cut].decode('utf-8', 'replace').splitlines():
                    try:
                        d = json.loads(l)
                    except ValueError:
                        continue
                    runs += 1
                    w['n'] += 1
                    simus += d['sim_us']
                    realus += d['real_us']
                    hashes.add(d['hash'])
                    states.update(d['states'])
                    for a, c in d['stat'].items():
                        agg[a] = max(agg[a], c) if a.startswith('max_') else agg[a] + c
                    for a, c in d['faults'].items():
                        faults[a] += c
                    agg['seams'] += d['seams']
                    agg['events'] += d['events']
                    if any(c for a, c in d['stat'].items() for q in DECISIVE[PROP] if a == q or (q.endswith('.') and a.startswith(q))):
                        nt_runs += 1
                        nontriv.add(d['hash'])
                    if len(first) < 3 and not w['sim'].asan:
                        first.setdefault(k, d)
                    vs = [v for v in d['viol'] if not listed(v, kn)]
                    if d['viol'] and not vs:
                        known_hits += 1
                    if vs:
                        cand.append((w, d, vs))
            while cand and not reported and tried < 40:
                w, d, vs = cand.pop(0)
                tried += 1
                r = confirm(w['sim'], w['f'] + '.viol.%d' % d['seed'], d, vs, kn, tmp)
                if r:
                    reported = (w, d, vs, r)
                else:
                    unrep.append({'seed': d['seed'], 'asan': w['sim'].asan, 'kinds': sorted({v['kind'] for v in vs})})
            if reported:
                for p in procs:
                    if p.poll() is None:
                        p.kill()
                break
            if not alive and not waiting:
                done = True
        for k, w in files.items():
            w['p'].wait()
            if not reported and w['p'].returncode not in (0, 1):
                worker_err.append('worker %d ended with %s: %s' % (k, w['p'].returncode, open(w['f'] + '.err', 'rb').read()[-300:].decode('utf-8', 'replace')))
        # same seed, fresh process: must be the same execution
        det = [0, 0]
        if not reported:
            for k, w in list(files.items())[:4]:
                f = tmp + '/det.json'
                if os.path.exists(f):
                    os.remove(f)
                subprocess.run([w['sim'].bin, 'work', '--lib', w['sim'].lib, '--prop', PROP, '--seed0', str(base + k), '--step', str(step), '--count', str(min(6, w['n'])), '--secs', '60', '--variant', '0', '--out', f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                try:
                    a = {}
                    for l in open(w['f'], errors='replace'):
                        d = json.loads(l)
                        a[d['seed']] = d['hash']
                        if len(a) > 8:
                            break
                    for l in open(f, errors='replace'):
                        d = json.loads(l)
                        det[0] += 1
                        det[1] += a.get(d['seed']) == d['hash']
                except (OSError, ValueError):
                    pass
        samples = []
        for k, d in first.items():
            g = subprocess.run([files[k]['sim'].bin, 'gen', '--prop', PROP, '--seed0', str(d['seed'])], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode('utf-8', 'replace')
            ls = [l for l in g.splitlines() if l.split(' ', 1)[0] in ('op', 'trig', 'rate', 'fault')]
            samples.append({'seed': d['seed'], 'trace_hash': d['hash'], 'simulated_s': d['sim_us'] / 1e6, 'lives': d['lives'], 'system_calls': d['seams'], 'plan': [l[:160] for l in ls[:25]], 'plan_lines': len(ls), 'faults_fired': d['faults'], 'counters': {a: c for a, c in d['stat'].items() if a.startswith(('check.', 'trig.', 'fault.'))}})
        replay = None
        if reported:
            w, d, vs, (text, kind) = reported
            small, tries = minimise(w['sim'], text, kind, kn, tmp, 40 if TIER == 'quick' else 90)
            final = small or text
            os.makedirs(V + '/replays', exist_ok=True)
            replay = V + '/replays/%s-%d.plan' % (PROP, d['seed'])
            p = tmp + '/final.plan'
            open(p, 'w').write(final)
            log = tmp + '/final.log'
            r = w['sim'].replay(p, log=log)
            v = [x for x in r['viol'] if x['kind'] == kind][0] if r and kind in kinds(r, kn) else vs[0]
            open(replay, 'w').write('# property %s, seed %d, found with VERIF_SEED=%d\n# %s: %s\n# replay: python3 %s/replay.py %s%s\n' % (PROP, d['seed'], SEED, v['kind'], v['msg'].replace('\n', ' '), V, replay, ' --asan' if w['sim'].asan else '') + final)
            try:
                shutil.copy(log, replay[:-5] + '.log')
            except OSError:
                pass
            print('%s: %s' % (v['kind'], v['msg'][:600]))
            print('seed %d, %d lines of plan after %d minimising runs' % (d['seed'], len(final.splitlines()), tries))
        wall = time.time() - T0
        ev = {
            'property': PROP, 'tier': TIER, 'seed': SEED, 'level': 'exploration',
            'coverage': {
                'evaluations': runs, 'distinct_nontrivial': len(nontriv),
                'rule': 'One evaluation is one simulated execution of the real daemon from a seed: configuration, programs, state file, operations, fault rates and triggers come from the seed by the generator of this property. It is non-trivial when %s; distinct means a distinct hash over the whole sequence of system calls, arguments, results and times.' % MEANS[PROP],
                'samples': samples, 'nontrivial_runs': nt_runs, 'distinct_traces': len(hashes),
                'distinct_model_states': len(states), 'state_measure': 'hash of the shape of a saved model (number of applications, pairs, regions, launch context, capped transition counts)',
                'runs_per_hour': int(runs / max(1e-9, secs) * 3600), 'simulated_hours': round(simus / 3.6e9, 2),
                'daemon_lives': agg['lives'], 'system_calls_simulated': agg['seams'], 'trace_events': agg['events'],
                'faults_fired': dict(sorted(faults.items())),
                'other_injections': {a: c for a, c in sorted(agg.items()) if a.startswith(('fault.', 'trig.', 'op.', 'signal.'))},
                'oracle_evaluations': {a: c for a, c in sorted(agg.items()) if a.startswith('check.')},
                'activity': {a: agg[a] for a in ('ticks', 'scans', 'predictions', 'saves', 'loads', 'damaged_loads', 'refusals', 'launches', 'stops', 'forgotten', 'helpers', 'reloads_good', 'reloads_bad', 'log_writes', 'prefetch_kb') if agg[a]},
                'workers': NW, 'workers_with_asan': na, 'determinism': {'seeds_rerun_in_fresh_process': det[0], 'identical_traces': det[1]},
                'unreproduced_candidates': unrep, 'worker_errors': worker_err, 'known_finding_hits': known_hits,
                'real_components': 'every source file of the daemon as built by the project (main, signal handling, scanner, models, prophet, prefetch, state file, configuration, log), GLib main loop, key files, channels and hash tables',
                'simulated_components': 'kernel interface below libc: file system with separate durable state, /proc, /sys, clocks and timers (poll), signals, processes and helpers, pipes, descriptors, ioctl, read-ahead, allocator instrumentation',
            },
            'assumptions': ['the simulated kernel behaves like Linux for the calls the daemon makes', 'a crash loses exactly the data and directory changes not made durable by fsync/rename ordering of the simulated file system', 'sampling: executions outside the explored seeds are not covered'],
            'wall_s': round(wall, 2), 'violations': 1 if reported else 0}
        os.makedirs(V + '/evidence', exist_ok=True)
        with open(V + '/evidence/%s.json' % PROP, 'w') as fh:
            json.dump(ev, fh, indent=1)
        if reported:
            print('VIOLATION property=%s replay=%s' % (PROP, replay), flush=True)
            return 1
        print('%s: %d runs (%d non-trivial, %d distinct traces), %.1f simulated hours, %.0f s; determinism %d/%d' % (PROP, runs, nt_runs, len(hashes), simus / 3.6e9, wall, det[1], det[0]), flush=True)
        for u in unrep:
            print('unreproduced candidate, not reported: %s' % u)
        if worker_err or not nt_runs:
            die('; '.join(worker_err) or 'nothing was explored')
        if unrep:
            die('a violation did not reproduce')
        return 0
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        for p in procs:
            p.wait()
        shutil.rmtree(tmp, ignore_errors=True)


def confirm(sim, stem, d, vs, kn, tmp):
    """The same plan must give the same execution twice, in fresh processes, and the same violation."""
    try:
        open(stem + '.plan').close()
    except OSError:
        return None
    want = {v['kind'] for v in vs}
    a = sim.replay(stem + '.plan')
    b = sim.replay(stem + '.plan')
    k = want & kinds(a, kn) & kinds(b, kn)
    if not k:
        return None
    if a['hash'] != b['hash'] and not k & {'hang', 'crash'}:
        return None
    kind = [v['kind'] for v in vs if v['kind'] in k][0]
    e = None
    try:
        e = sim.replay(stem + '.explicit')
    except OSError:
        pass
    if kind in kinds(e, kn):
        return open(stem + '.explicit').read(), kind
    return open(stem + '.plan').read(), kind


if __name__ == '__main__':
    sys.exit(main())
