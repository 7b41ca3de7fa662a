"""inst.py -- simulation of the installation scripts (property C24).

The real scripts run under the real shell and the real file tools, as "root" of a user name space that is nobody outside,
with a scratch tree as file system root. Everything a step may meet -- failing calls, full disks, interruption after any step,
service managers and what they remember -- is decided by the seed (shim.c, stub.c).
"""
import collections, hashlib, json, multiprocessing, os, random, re, select, shutil, stat, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
TOOLS = '''bash sh env cat cp mv rm mkdir rmdir chmod chown ln ls install touch test [ dirname basename readlink realpath id whoami sed grep
awk mawk cut tr head tail wc sort uniq tee find xargs printf echo true false uname mktemp stat cmp diff date seq expr pwd timeout
sha256sum md5sum cksum sync truncate dd sleep nohup tput clear'''.split()
UNIT_OLD = '[Unit]\nDescription=old preload\n[Service]\nExecStart=/usr/local/sbin/preload --foreground\n[Install]\nWantedBy=multi-user.target\n'
RC_OLD = '#!/sbin/openrc-run\ncommand="/usr/local/sbin/preload"\ncommand_args="--foreground"\ncommand_background="yes"\npidfile="/run/preload.pid"\n'
SENT = {'/etc/fstab': 'dev / ext4\n', '/etc/preload.conf.local': 'mine\n', '/etc/preloadx/conf': 'x\n', '/usr/local/sbin/preloadctl': '#!/bin/sh\n', '/usr/local/sbin/backup': '#!/bin/sh\n',
        '/usr/local/lib/libx.so': 'x', '/usr/local/var/other/data': 'd', '/var/lib/dpkg/status': 's\n', '/var/lib/preloadx/preload.state': 'other\n', '/var/log/syslog': 'l\n', '/root/.bashrc': '#\n', '/home/u/notes': 'n\n'}


def fnv(b):
    h = 1469598103934665603
    for x in b:
        h = ((h ^ x) * 1099511628211) & 0xffffffffffffffff
    return h


class Base:
    """What all worlds share: programs, libraries, the two shims."""

    def __init__(self, tmp):
        self.dir = tmp
        for n, flags in (('shim.so', ['-O1', '-fPIC', '-shared', '-w', 'shim.c', '-ldl']), ('stub', ['-O1', '-w', 'stub.c', '-ldl']), ('launch', ['-O1', '-w', 'launch.c'])):
            r = subprocess.run(['gcc', '-o', tmp + '/' + n] + flags, cwd=V + '/inst', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise RuntimeError(r.stdout.decode())
        t = tmp + '/tree'
        for d in ('usr/bin', 'sim'):
            os.makedirs(t + '/' + d)
        libs = set()
        for x in TOOLS:
            p = shutil.which(x, path='/usr/bin:/bin')
            if not p:
                continue
            shutil.copy(p, t + '/usr/bin/' + x)
            os.chmod(t + '/usr/bin/' + x, 0o755)
            o = subprocess.run(['ldd', p], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode()
            libs.update(re.findall(r'(/\S+)', o))
        for l in sorted(libs):
            if os.path.isfile(l):
                os.makedirs(t + os.path.dirname(l), exist_ok=True)
                shutil.copy(l, t + l)
        os.symlink('usr/bin', t + '/bin')
        shutil.copy(tmp + '/shim.so', t + '/sim/shim.so')
        shutil.copy(tmp + '/stub', t + '/sim/stub')
        os.chmod(t + '/sim/stub', 0o755)
        elf = open(tmp + '/stub', 'rb').read()
        self.prog = {k: elf + b'\0PRELOAD ' + k.encode() * 300 + b' PRELOAD-END' for k in ('old', 'shipped', 'built', 'next')}
        self.hash = {'%x' % fnv(b): k for k, b in self.prog.items()}
        real = open(REPO + '/bin/preload.conf', 'rb').read()
        self.conf = {'shipped': real, 'built': real + b'# built\n', 'next': real + b'# next\n', 'old': b'[model]\ncycle = 30\n'}


class World:
    DIRS = ['/etc', '/usr/local', '/var', '/run', '/root', '/home', '/tmp', '/src', '/proc', '/dev', '/opt', '/srv']

    def __init__(self, base, d):
        self.b, self.r = base, d
        shutil.copytree(base.dir + '/tree', d, symlinks=True)
        os.chmod(d, 0o755)

    def p(self, x):
        return self.r + x

    def put(self, path, data, mode=0o644):
        p = self.p(path)
        self.mk(os.path.dirname(path))
        with open(p, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        os.chmod(p, mode)
        os.chown(p, 65534, 65534)

    def mk(self, path, mode=0o755):
        q = ''
        for c in path.strip('/').split('/'):
            q += '/' + c
            if not os.path.isdir(self.p(q)):
                os.mkdir(self.p(q))
                os.chmod(self.p(q), mode)
                os.chown(self.p(q), 65534, 65534)

    def ln(self, path, to):
        self.mk(os.path.dirname(path))
        os.symlink(to, self.p(path))
        os.chown(self.p(path), 65534, 65534, follow_symlinks=False)

    def reset(self, P):
        s = P['set']
        for d in self.DIRS + ['/sim/svc', '/sim/bin']:
            if os.path.lexists(self.p(d)):
                shutil.rmtree(self.p(d))
            os.makedirs(self.p(d))
            if d != '/sim/bin':
                os.chmod(self.p(d), 0o1777 if d == '/tmp' else 0o755)
                os.chown(self.p(d), 65534, 65534)
        for f in ('nosystemd', 'nosystemd_hard', 'built', 'built.conf', 'trace', 'faults'):
            if os.path.lexists(self.p('/sim/' + f)):
                os.unlink(self.p('/sim/' + f))
        for n, c in SENT.items():
            self.put(n, c, 0o755 if 'sbin' in n else 0o644)
        for d in ('/usr/local/bin', '/var/tmp', '/proc/sys/vm', '/usr/local/share/man', '/var/log', '/var/lib'):
            self.mk(d)
        self.put('/proc/sys/vm/drop_caches', '0')
        if s['sbin'] == 'no':
            shutil.rmtree(self.p('/usr/local/sbin'))
        init = s['init']
        stubs = ['make', 'sudo', 'nproc', 'gcc', 'pkg-config', 'swapoff', 'swapon', 'hyperfine', 'xdotool', 'pgrep', 'pkill', 'pidof', 'journalctl', 'logger']
        if init in ('systemd', 'both'):
            stubs.append('systemctl')
            self.mk('/etc/systemd/system/multi-user.target.wants')
            self.put('/etc/systemd/system/other.service', '[Service]\nExecStart=/bin/true\n[Install]\nWantedBy=multi-user.target\n')
            self.ln('/etc/systemd/system/multi-user.target.wants/other.service', '/etc/systemd/system/other.service')
            self.put('/sim/svc/loaded.other', '[Service]\nExecStart=/bin/true\n[Install]\nWantedBy=multi-user.target\n')
            self.put('/sim/svc/active.other', 'active 0\n')
        if init in ('openrc', 'both'):
            stubs += ['rc-service', 'rc-update']
        if init in ('openrc', 'both', 'sysvinit'):
            self.put('/etc/init.d/other', '#!/sbin/openrc-run\ncommand=/bin/true\n', 0o755)
        if init in ('openrc', 'both'):
            self.mk('/etc/runlevels/default')
            self.ln('/etc/runlevels/default/other', '/etc/init.d/other')
        if init == 'both':
            self.put('/sim/nosystemd', '')
            self.put('/sim/nosystemd_hard', '')
        if init == 'sysvinit':
            self.put('/etc/init.d/functions', '#\n')
        for x in stubs:
            os.symlink('/sim/stub', self.p('/sim/bin/' + x))
        for x in ('gcc', 'pkg-config'):
            pass
        # the source tree
        self.mk('/src/scripts')
        for f in sorted(os.listdir(REPO + '/scripts')):
            if os.path.isfile(REPO + '/scripts/' + f):
                self.put('/src/scripts/' + f, open(REPO + '/scripts/' + f, 'rb').read(), 0o755)
        for f in ('Makefile', 'src/main.c'):
            self.put('/src/preload-src/' + f, 'all:\n')
        self.put('/sim/built', self.b.prog['built'], 0o755)
        self.put('/sim/built.conf', self.b.conf['built'])
        if s['bin'] in ('shipped', 'both'):
            self.put('/src/bin/preload', self.b.prog['shipped'], 0o755 if s['binmode'] == 'x' else 0o644)
            self.put('/src/bin/preload.conf', self.b.conf['shipped'])
        if s['bin'] in ('built', 'both'):
            self.put('/src/preload-src/preload', self.b.prog['built'], 0o755)
            self.put('/src/preload-src/preload.conf', self.b.conf['built'])
        if s['bin'] == 'noconf':
            self.put('/src/bin/preload', self.b.prog['shipped'], 0o755)
        # an earlier installation
        pre = s['pre']
        if pre != 'fresh':
            self.put('/usr/local/sbin/preload', self.b.prog['old'], 0o755)
            self.put('/etc/preload.conf', self.b.conf['old'] if pre != 'edited' else b'[model]\ncycle = 77\n# mine\n')
            self.mk('/var/lib/preload')
            if s['learned'] == 'yes':
                self.put('/var/lib/preload/preload.state', 'PRELOAD old\n', 0o600)
            if init == 'systemd':
                self.put('/etc/systemd/system/preload.service', UNIT_OLD)
                self.put('/sim/svc/loaded.preload', UNIT_OLD)
                if s['enabled'] == 'yes':
                    self.ln('/etc/systemd/system/multi-user.target.wants/preload.service', '/etc/systemd/system/preload.service')
            if init in ('openrc', 'both'):
                self.put('/etc/init.d/preload', RC_OLD, 0o755)
                if s['enabled'] == 'yes':
                    self.ln('/etc/runlevels/default/preload', '/etc/init.d/preload')
            if s['active'] == 'yes' and init in ('systemd', 'openrc', 'both'):
                self.put('/sim/svc/active.preload', 'active %x\n' % fnv(self.b.prog['old']))
        elif s['conf'] == 'yes':
            self.put('/etc/preload.conf', b'[model]\ncycle = 55\n# left over\n')

    def snap(self):
        r = {}
        for top in self.DIRS:
            for d, ds, fs in os.walk(self.p(top)):
                for n in [None] + fs + [x for x in ds if os.path.islink(d + '/' + x)]:
                    q = d if n is None else d + '/' + n
                    st = os.lstat(q)
                    k = q[len(self.r):]
                    m = stat.S_IMODE(st.st_mode)
                    if stat.S_ISLNK(st.st_mode):
                        r[k] = ('l', 0, os.readlink(q))
                    elif stat.S_ISDIR(st.st_mode):
                        r[k] = ('d', m, '')
                    elif stat.S_ISREG(st.st_mode):
                        with open(os.open(q, os.O_RDONLY | os.O_NOFOLLOW), 'rb') as f:
                            r[k] = ('f', m, f.read())
                    else:
                        r[k] = ('?', m, '')
        return r

    def svc(self, f, u='preload'):
        try:
            return open(self.p('/sim/svc/%s.%s' % (f, u)), 'rb').read()
        except OSError:
            return None

    def run(self, argv, answers, faults='', cwd='/', uid='0', limit=20):
        """Runs one command; returns status, prompts answered, steps, output."""
        for f, c in (('trace', ''), ('faults', faults)):
            self.put('/sim/' + f, c)
        p = subprocess.Popen([self.b.dir + '/launch', self.r, uid, cwd] + argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, bufsize=0)
        out, asked, pos, stuck = b'', [], 0, False
        end = time.time() + limit
        quiet = time.time()
        while True:
            r, _, _ = select.select([p.stdout], [], [], 0.5)
            if r:
                d = os.read(p.stdout.fileno(), 65536)
                if not d:
                    break
                out += d
                quiet = time.time()
            if time.time() > end or len(out) > 4000000:
                stuck = True
                p.kill()
                break
            tail = out[pos:].rsplit(b'\n', 1)[-1]
            idle = not r and time.time() - quiet > 4
            if (tail and re.search(rb'(\([yn]/[yn]\)|\[[yn]/[yn]\])\s*[?:]?\s*$', re.sub(rb'\x1b\[[0-9;]*m', b'', tail), re.I)) or (idle and p.stdin):
                kind = prompt(tail.decode('utf-8', 'replace'))
                pos = len(out)
                quiet = time.time()
                a = answers.get(kind, answers.get('*', ''))
                asked.append((kind, a))
                try:
                    if a == 'EOF' or idle:
                        p.stdin.close()
                        p.stdin = None
                    elif p.stdin:
                        p.stdin.write(a.encode() + b'\n')
                except OSError:
                    pass
        if p.stdin:
            p.stdin.close()
        p.stdout.close()
        rc = p.wait()
        tr = open(self.p('/sim/trace'), errors='replace').read().splitlines()
        key = lambda l: [int(x) if x.isdigit() else 0 for x in l.split(' ', 1)[0].split('.')]
        tr.sort(key=key)
        return rc, asked, tr, out.decode('utf-8', 'replace'), stuck


def prompt(t):
    t = t.lower()
    if 'overwrite' in t or 'replace' in t:
        return 'over'
    if ('remove' in t or 'delete' in t or 'purge' in t or 'keep' in t) and 'conf' in t:
        return 'rmconf'
    if ('remove' in t or 'delete' in t or 'purge' in t or 'keep' in t) and ('state' in t or 'data' in t):
        return 'rmstate'
    if 'enable' in t or 'start' in t and 'benchmark' not in t:
        return 'enable'
    if 'install' in t:
        return 'install'
    return 'other'


# ------------------------------------------------------------------ plans
def gen(seed):
    r = random.Random('inst%d' % seed)
    s = {'init': r.choices(['systemd', 'openrc', 'both', 'sysvinit', 'none'], [50, 25, 8, 5, 12])[0], 'pre': r.choices(['fresh', 'old', 'edited'], [45, 30, 25])[0],
         'bin': r.choices(['shipped', 'built', 'both', 'missing', 'noconf'], [60, 15, 15, 5, 5])[0], 'binmode': r.choice(['x', 'x', '-']), 'learned': r.choice(['yes', 'yes', 'no']), 'enabled': r.choice(['yes', 'yes', 'no']), 'active': r.choice(['yes', 'yes', 'no']),
         'conf': r.choices(['no', 'yes'], [3, 1])[0], 'umask': r.choice(['022', '022', '022', '077', '027', '002']), 'sbin': r.choices(['yes', 'no'], [6, 1])[0], 'cwd': r.choice(['/', '/src', '/src/scripts', '/root'])}
    if s['pre'] != 'fresh':
        s['sbin'] = 'yes'
    yn = lambda: r.choice(['y', 'n', '', 'Y', 'yes', 'No', 'x'])

    def answers():
        a = {k: yn() for k in ('over', 'enable', 'rmconf', 'rmstate', 'install')}
        if r.random() < .5:
            a['install'] = 'y'
        if r.random() < .03:
            a[r.choice(['over', 'enable', 'rmconf', 'rmstate'])] = 'EOF'
        return a
    ops = []

    def rates():
        return r.choice([(0, 0), (300, 0), (0, 400), (120, 250), (40, 80), (600, 100), (0, 150), (0, 700), (100, 0)])
    for i in range(r.choice([1, 1, 2, 2, 3, 4])):
        x = r.random()
        if x < .48:
            k = 'install'
        elif x < .74:
            k = 'uninstall'
        elif x < .79:
            k = r.choice(['edit', 'learn', 'next', 'reboot'])
        elif x < .88:
            k = 'build'
        elif x < .96:
            k = r.choice(['bad', 'bad-build', 'bad-bench', 'help', 'help-build', 'help-bench', 'nonroot', 'nonroot-uninstall', 'nonroot-run', 'nonroot-bench', 'run', 'run', 'run'])
        else:
            k = 'bench'
        if k in ('install', 'uninstall', 'build'):
            arg = ''
            if k == 'build':
                arg = r.choice(['', '', '--no-install', '--clean'])
            n = r.choice([0, 0, 1, 1, 1, 2])
            for j in range(n):
                a, b = rates()
                ops.append({'op': k, 'arg': arg, 'ans': answers(), 'seed': r.getrandbits(60) | 1, 'kill': a, 'err': b})
                if r.random() < .15:
                    ops.append({'op': r.choice(['reboot', 'learn', 'edit'])})
            if r.random() < .85 or not n:
                ops.append({'op': k, 'arg': arg, 'ans': answers()})
        else:
            ops.append({'op': k, 'arg': '', 'ans': answers()})
    return {'seed': seed, 'set': s, 'ops': ops}


def yes(a):
    return a.strip().lower() in ('y', 'yes')


def no(a):
    return a.strip().lower() in ('n', 'no')


# ------------------------------------------------------------------ one run
class Run:
    def __init__(self, w, P):
        self.w, self.P, self.viol, self.stat = w, P, [], collections.Counter()
        self.h = hashlib.sha256()
        self.fired = []
        self.log = []

    def bad(self, kind, msg):
        if not any(k == kind for k, _ in self.viol):
            self.viol.append((kind, msg))
            self.log.append('VIOLATION %s: %s' % (kind, msg))

    def enabled(self, S):
        return '/etc/systemd/system/multi-user.target.wants/preload.service' in S or '/etc/runlevels/default/preload' in S

    def active(self):
        a = self.w.svc('active')
        return self.w.b.hash.get(a.split()[1].decode(), 'other') if a and a.startswith(b'active') else None

    def go(self):
        w, P = self.w, self.P
        w.reset(P)
        s = P['set']
        self.S0 = w.snap()
        c = self.S0.get('/etc/preload.conf')
        self.valid = {c[2]} if c else set()
        self.ship = self.supplied(self.S0)
        init = {'both': 'openrc', 'sysvinit': 'none'}.get(s['init'], s['init'])
        self.init = init
        S = self.S0
        for i, o in enumerate(P['ops']):
            self.stat['op.' + o['op']] += 1
            if self.viol:
                break
            S = self.op(i, o, S)
        return self

    def op(self, i, o, S):
        w, s = self.w, self.P['set']
        k = o['op']
        if k == 'edit':
            if '/etc/preload.conf' in S:
                w.put('/etc/preload.conf', b'[model]\ncycle = %d\n# edited\n' % (20 + i))
                S = w.snap()
                self.valid = {S['/etc/preload.conf'][2]}
            return S
        if k == 'learn':
            if self.active() and '/var/lib/preload' in S:
                w.put('/var/lib/preload/preload.state', 'learned %d\n' % i, 0o600)
            return w.snap()
        self.ship = self.supplied(S)
        if k == 'next':
            if self.ship == 'shipped':
                w.put('/src/bin/preload', w.b.prog['next'], 0o755)
                w.put('/src/bin/preload.conf', w.b.conf['next'])
                self.ship = 'next'
            return w.snap()
        if k == 'reboot':
            self.reboot(S)
            return w.snap()
        faulty = bool(o.get('kill') or o.get('err') or o.get('faults'))
        f = ''
        if o.get('faults') is not None:
            f = ''.join('fault %s %s\n' % tuple(x) for x in o['faults'])
        elif faulty:
            f = 'rand %d %d %d\n' % (o['seed'], o['kill'], o['err'])
        script = {'build': 'build', 'bench': 'bench', 'run': 'run'}.get(k.split('-')[-1], 'install')
        argv = ['/usr/bin/bash', '/src/scripts/%s.sh' % script]
        if k == 'uninstall':
            argv.append('uninstall')
        elif k == 'install' and o['seed' if 'seed' in o else 'op'] and i % 2:
            argv.append('install')
        elif k == 'bad':
            argv.append('frobnicate')
        elif k.startswith('bad-'):
            argv.append('--frobnicate')
        elif k.startswith('help'):
            argv.append('--help')
        elif k == 'nonroot-uninstall':
            argv.append('uninstall')
        elif o.get('arg'):
            argv.append(o['arg'])
        act0 = self.active()
        rc, asked, tr, out, stuck = w.run(argv, o.get('ans', {}), f, s['cwd'], ('1000' if k.startswith('nonroot') else '0') + ':' + s.get('umask', '022'))
        T = w.snap()
        fired = [l.split('FAULT ', 1)[1].split() for l in tr if ' FAULT ' in l]
        self.fired.append(fired)
        for _, a in fired:
            self.stat['fault.' + a] += 1
        self.stat['steps'] += len(tr)
        self.stat['prompts'] += len(asked)
        self.stat['processes'] += len({l.split(' ', 1)[0] for l in tr})
        killed = any(a in ('kill', 'int') for _, a in fired)
        if not any(a == 'int' for _, a in fired):
            self.h.update(('%d %s %s %s\n' % (i, k, rc, asked)).encode() + '\n'.join(tr).encode() + repr(sorted(T.items())).encode())
        self.log += ['--- op %d %s %s answers %s -> status %d' % (i, k, o.get('arg', ''), asked, rc)] + tr + ['| ' + l for l in out.splitlines()]
        if stuck:
            self.bad('hang', '%s did not end' % ' '.join(argv))
            return T
        self.foreign(k, S, T)
        ans = dict(asked)
        eof = 'EOF' in ans.values()
        # what nobody asked for
        c0, c1 = S.get('/etc/preload.conf'), T.get('/etc/preload.conf')
        if c0 and not yes(ans.get('over', '')) and not (k == 'uninstall' and yes(ans.get('rmconf', ''))) and (not c1 or c1[2] != c0[2]):
            self.bad('config-lost', 'the administrator\'s configuration was %s by %s although that was not asked for' % ('changed' if c1 else 'removed', k))
        for x, v in S.items():
            if x.startswith('/var/lib/preload/') and not (k == 'uninstall' and yes(ans.get('rmstate', ''))) and T.get(x, (0, 0, 0))[2] != v[2]:
                self.bad('state-lost', 'what was learned (%s) was touched by %s although that was not asked for' % (x, k))
        if yes(ans.get('over', '')) and rc == 0 and k != 'uninstall':
            self.valid = set()
        if k == 'build':
            self.ship = self.supplied(T)
        if self.ship == 'broken':  # half of an interrupted build: nothing can be said about what is installed
            return T
        if k in ('install', 'build') and c1 and self.ship and (not c0 or yes(ans.get('over', ''))):
            self.valid.add(w.b.conf[self.ship])
        if k == 'build':
            self.build_done(o, rc, T, ans, fired, faulty)
            if rc and not faulty and not eof and (o.get('arg') or not yes(ans.get('install', '')) or self.ship):
                self.bad('rerun-fails', 'build without any fault ended with status %d: %s' % (rc, out.strip()[-300:]))
            outside = lambda X: {a: b for a, b in X.items() if not a.startswith(('/src', '/tmp/'))}
            if (o.get('arg') or 'install' in ans and not yes(ans['install'])) and (outside(S) != outside(T) or self.active() != act0):
                self.bad('installed-unasked', 'build.sh %s changed the system although no installation was asked for' % o.get('arg', ''))
            if not yes(ans.get('install', '')) or rc:
                return T
        if k.startswith(('help', 'bad', 'nonroot')) or (k in ('install',) and not self.ship):
            k = k.split('-')[0] if k.startswith('help') else k
            if k == 'help' and rc:
                self.bad('help', 'the help text ends with status %d' % rc)
            if k != 'help' and rc == 0:
                self.bad('not-refused', '%s reported success' % ('an installation without program or configuration' if k == 'install' else k))
            if S != T or self.active() != act0:
                self.bad('refused-but-changed', 'a refused %s changed the system' % k)
            self.stat['check.refusal'] += 1
            return T
        if k == 'run':
            src = S.get('/src/preload-src/preload')
            self.stat['check.run'] += 1
            if src and rc and not faulty and '/src/preload-src/preload.conf' in S:
                self.bad('run', 'the program could not be run from the source tree: ' + out[-200:])
            if src and not rc and not faulty and not any(' note run-ok' in l for l in tr):
                self.bad('run', 'run.sh reported success without having run the program')
            if not src and not rc:
                self.bad('run', 'run.sh reported success although there is no program')
            elsewhere = [x for x in set(S) | set(T) if S.get(x) != T.get(x) and not x.startswith(('/src/preload-src/', '/tmp/'))]
            if elsewhere:
                self.bad('run-elsewhere', 'running the program from the source tree changed %s' % sorted(elsewhere)[0])
            return T
        if k == 'bench':
            self.bench(rc, tr, T, act0, out)
            return w.snap()
        if killed or not (rc == 0):
            if not faulty and not eof:
                self.bad('rerun-fails', '%s without any fault ended with status %d: %s' % (k, rc, out.strip()[-300:]))
            self.stat['interrupted' if killed else 'failed'] += 1
            return T
        self.stat['check.' + k] += 1
        if fired:
            self.stat['check.claimed'] += 1
        if k in ('install', 'build'):
            self.installed(S, T, ans, act0, bool(fired))
        else:
            self.uninstalled(S, T, ans, bool(fired))
        return w.snap()

    OWN = ('/usr/local/sbin/preload', '/etc/preload.conf', '/etc/systemd/system/preload.service', '/etc/systemd/system/multi-user.target.wants/preload.service', '/etc/init.d/preload', '/etc/runlevels/default/preload',
           '/etc/systemd/system/multi-user.target.wants')
    DIROK = ('/usr/local/sbin', '/etc', '/var/lib', '/var/log', '/var/lib/preload', '/var/log/preload', '/usr/local', '/etc/systemd/system', '/etc/init.d', '/run', '/tmp')

    def foreign(self, k, S, T):
        self.stat['check.foreign'] += 1
        for x in set(S) | set(T):
            a, b = S.get(x), T.get(x)
            if a == b or x in self.OWN or x.startswith(('/var/lib/preload/', '/var/log/preload/', '/tmp/', '/run/preload', '/proc/')) or x in ('/var/lib/preload', '/var/log/preload'):
                continue
            if x.startswith('/src/preload-src/') and k in ('build', 'run') and not x.endswith(('Makefile', 'main.c')):
                continue
            if x not in self.S0 and os.path.basename(x).lstrip('.').startswith('preload') and (a or b)[0] == (b or a)[0] == 'f' and os.path.dirname(x) in [os.path.dirname(y) for y in self.OWN]:
                continue  # its own temporary files
            if a is None and b[0] == 'd' and any(y.startswith(x + '/') or y == x for y in self.OWN + ('/usr/local/var/lib/preload', '/usr/local/var/log')):
                continue
            if a and b and a[0] == b[0] == 'd' and x in ('/usr/local/sbin',) and (b[1] & 0o755) == 0o755:
                continue
            what = 'removed' if b is None else 'created' if a is None else 'changed'
            self.bad('foreign-change', '%s was %s by %s' % (x, what, k))
        for u in ('other',):
            if self.P['set']['init'] == 'systemd' and not (self.w.svc('active', u) or b'').startswith(b'active'):
                self.bad('foreign-change', 'another service was stopped by ' + k)

    def installed(self, S, T, ans, act0, fired):
        w = self.w
        pre = 'claimed success: ' if fired else ''
        if '/etc/preload.conf' in S and not {'over', 'other'} & set(ans):
            self.bad('not-asked', pre + 'whether the existing configuration is to be overwritten was not asked')
        if self.init != 'none' and not {'enable', 'other'} & set(ans):
            self.bad('not-asked', pre + 'whether the service is to be enabled was not asked')
        b = T.get('/usr/local/sbin/preload')
        if not self.ship:
            return self.bad('claimed', 'an installation without a program and configuration to install claimed success')
        if not b or b[0] != 'f' or b[2] != w.b.prog[self.ship]:
            return self.bad('binary', pre + 'after the installation /usr/local/sbin/preload is %s' % ('missing' if not b else 'not the program supplied'))
        if b[1] & 0o755 != 0o755 or b[1] & 0o7022:
            self.bad('binary-mode', pre + 'after the installation the program has mode %o' % b[1])
        c0, c = S.get('/etc/preload.conf'), T.get('/etc/preload.conf')
        if not c:
            return self.bad('config', pre + 'after the installation there is no configuration')
        if c[2] != w.b.conf[self.ship] and (not c0 or yes(ans.get('over', ''))):
            self.bad('config', pre + 'after the installation the configuration is not the one supplied')
        if c0 and not yes(ans.get('over', '')) and c[2] not in self.valid | {w.b.conf[self.ship]}:
            self.bad('config-torn', pre + 'the configuration kept is an incomplete one left by an interrupted run (%d bytes)' % len(c[2]))
        if c[1] & 0o444 != 0o444 or c[1] & 0o022:
            self.bad('config-mode', pre + 'after the installation the configuration has mode %o' % c[1])
        d = T.get('/var/lib/preload')
        if self.init != 'systemd' and (not d or d[0] != 'd'):
            self.bad('state-dir', pre + 'after the installation the directory for what is learned (/var/lib/preload) does not exist')
        if self.init == 'none':
            return
        unit = '/etc/systemd/system/preload.service' if self.init == 'systemd' else '/etc/init.d/preload'
        u = T.get(unit)
        if not u:
            return self.bad('service', pre + 'after the installation there is no service definition')
        if self.init == 'systemd' and (w.svc('loaded') or u[2]) != u[2]:
            return self.bad('service-stale', pre + 'the service manager still uses the old service definition after the installation')
        act = self.active()
        if 'enable' in ans and no(ans['enable']):
            if act and not act0:
                self.bad('started-unasked', pre + 'the service was started although that was declined')
            if self.enabled(T) and not self.enabled(S):
                self.bad('enabled-unasked', pre + 'the service was enabled although that was declined')
        else:
            if not self.enabled(T):
                self.bad('not-enabled', pre + 'the service is not enabled after the installation')
            if act is None:
                self.bad('not-running', pre + 'the service does not run after the installation: %s' % (w.svc('active') or b'not started').decode())
            elif act != self.ship:
                self.bad('runs-old', pre + 'the service still runs the old program after the installation')
        # does it work when started by hand, and after a restart of the machine?
        if not self.viol:
            cmd = ['systemctl', 'restart', 'preload'] if self.init == 'systemd' else ['rc-service', 'preload', 'restart']
            keep = act
            rc = w.run(['/sim/bin/' + cmd[0]] + cmd[1:], {})[0]
            if self.active() != self.ship:
                self.bad('does-not-work', pre + 'the installed service cannot run: %s (status %d)' % ((w.svc('active') or b'not started').decode().strip(), rc))
            if not keep and self.active():
                w.run(['/sim/bin/' + cmd[0], 'stop', 'preload'] if self.init == 'systemd' else ['/sim/bin/rc-service', 'preload', 'stop'], {})
            self.stat['check.works'] += 1

    def uninstalled(self, S, T, ans, fired):
        w = self.w
        pre = 'claimed success: ' if fired else ''
        for x, q in (('/etc/preload.conf', 'rmconf'), ('/var/lib/preload', 'rmstate')):
            if x in S and not {q, 'other'} & set(ans):
                self.bad('not-asked', pre + 'whether %s is to be removed was not asked' % x)
        if '/usr/local/sbin/preload' in T:
            self.bad('binary-left', pre + 'the program is still there after removal')
        if yes(ans.get('rmconf', '')) and '/etc/preload.conf' in T:
            self.bad('config-left', pre + 'the configuration is still there although its removal was asked for')
        if yes(ans.get('rmstate', '')) and '/var/lib/preload' in T:
            self.bad('state-left', pre + 'what was learned (/var/lib/preload) is still there although its removal was asked for')
        if self.init != 'none':
            if any(x in T for x in ('/etc/systemd/system/preload.service',) if self.init == 'systemd') or ('/etc/init.d/preload' in T and self.init == 'openrc'):
                self.bad('service-left', pre + 'the service definition is still there after removal')
            if self.enabled(T):
                self.bad('still-enabled', pre + 'the service is still enabled after removal')
            if self.active():
                self.bad('still-running', pre + 'the service still runs after removal')
            if self.init == 'systemd' and w.svc('loaded'):
                self.bad('service-stale', pre + 'the service manager still knows the service after removal')
        for x, b in T.items():
            if x not in self.S0 and x not in S and not x.startswith(('/src', '/tmp', '/var/log/preload', '/var/lib/preload', '/proc')):
                pass
        for x, b in T.items():
            if x not in self.S0 and (x in self.OWN or not self.stat['interrupted'] + self.stat['failed']) and b[0] in 'fl' and not x.startswith(('/src/', '/tmp/', '/var/log/preload', '/var/lib/preload/', '/proc/')) and x != '/etc/preload.conf' and not fired:
                self.bad('left-over', '%s, which the installation added, is still there after removal' % x)
            if x not in self.S0 and b[0] == 'd' and not fired and x.startswith('/usr/local/var'):
                self.bad('left-over', '%s, which the installation added, is still there after removal' % x)

    def supplied(self, S):
        """What an installation has to take: the program shipped if there is one, else the one built."""
        for d in ('/src/bin/', '/src/preload-src/'):
            if d + 'preload' in S:
                n = {b: k for k, b in self.w.b.prog.items()}.get(S[d + 'preload'][2])
                return n if n and S.get(d + 'preload.conf', (0, 0, 0))[2] == self.w.b.conf[n] else None if d + 'preload.conf' not in S else 'broken'
        return None

    def build_done(self, o, rc, T, ans, fired, faulty):
        w = self.w
        b = T.get('/src/preload-src/preload')
        if rc == 0:
            self.stat['check.build'] += 1
            if o.get('arg') == '--clean':
                if b and not fired:
                    self.bad('clean', 'the program built is still there after cleaning')
            elif not b or b[2] != w.b.prog['built']:
                self.bad('build', 'the build reported success but there is no complete program')

    def bench(self, rc, tr, T, act0, out):
        inst = self.init == 'systemd' and '/etc/systemd/system/preload.service' in T
        marks = [l.rsplit(' ', 1)[1] for l in tr if 'note bench-' in l]
        if not inst:
            return
        self.stat['check.bench'] += 1
        if rc:
            if '/usr/local/sbin/preload' in T:
                self.bad('bench', 'the benchmark ended with status %d: %s' % (rc, out.strip()[-200:]))
        elif marks and marks != ['bench-inactive', 'bench-active'] and self.w.svc('active') and not self.w.svc('active').startswith(b'failed'):
            self.bad('bench', 'the benchmark measured %s instead of without and with the service' % marks)

    def reboot(self, S):
        w = self.w
        for f in os.listdir(w.p('/sim/svc')):
            os.unlink(w.p('/sim/svc/' + f))
        if self.P['set']['init'] == 'systemd':
            w.put('/sim/svc/loaded.other', S['/etc/systemd/system/other.service'][2])
            w.put('/sim/svc/active.other', 'active 0\n')
            if self.enabled(S):
                w.run(['/sim/bin/systemctl', 'start', 'preload'], {})
        elif self.init == 'openrc' and self.enabled(S):
            w.run(['/sim/bin/rc-service', 'preload', 'start'], {})


# ------------------------------------------------------------------ search
def worker(basedir, base, k, step, seed0, secs, q):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    w = World(base, '%s/w%d' % (basedir, k))
    end = time.time() + secs
    n = seed0 + k
    while time.time() < end:
        r = Run(w, gen(n)).go()
        q.put((n, r.h.hexdigest()[:16], r.viol, dict(r.stat), r.fired))
        n += step
    q.put(None)


def explicit(P, r):
    """The same plan with the faults that fired written out."""
    P = json.loads(json.dumps(P))
    it = iter(r.fired)
    for o in P['ops']:
        if o['op'] in ('edit', 'learn', 'next', 'reboot'):
            continue
        try:
            f = next(it)
        except StopIteration:
            break
        if o.get('kill') or o.get('err') or o.get('faults'):
            o['faults'] = f
            for x in ('kill', 'err', 'seed'):
                o.pop(x, None)
    return P


def minimise(w, P, kind, secs):
    end = time.time() + secs
    tries = [0]

    def fails(Q):
        tries[0] += 1
        return kind in {k for k, _ in Run(w, Q).go().viol}
    if not fails(P):
        return None, tries[0]
    changed = True
    while changed and time.time() < end:
        changed = False
        for i in range(len(P['ops'])):
            Q = json.loads(json.dumps(P))
            del Q['ops'][i]
            if Q['ops'] and fails(Q):
                P, changed = Q, True
                break
            fs = P['ops'][i].get('faults') or []
            for j in range(len(fs)):
                Q = json.loads(json.dumps(P))
                del Q['ops'][i]['faults'][j]
                if fails(Q):
                    P, changed = Q, True
                    break
            if changed or time.time() > end:
                break
        if not changed:
            for a, b in (('pre', 'fresh'), ('bin', 'shipped'), ('sbin', 'yes'), ('conf', 'no'), ('cwd', '/'), ('umask', '022'), ('learned', 'no'), ('active', 'no'), ('enabled', 'no'), ('binmode', 'x')):
                if P['set'].get(a) != b:
                    Q = json.loads(json.dumps(P))
                    Q['set'][a] = b
                    if fails(Q):
                        P, changed = Q, True
    return P, tries[0]


def main(tier, seed, secs, nw, prop='C24'):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vinst-')
    os.chmod(tmp, 0o755)
    procs = []
    try:
        base = Base(tmp)
        probe = World(base, tmp + '/probe')
        rc, _, _, out, _ = (probe.reset(gen(1)), probe.run(['/usr/bin/bash', '-c', 'echo $EUID'], {}))[1]
        if rc or out.strip() != '0':
            print('ERROR no containment for the scripts here: status %d %s' % (rc, out[-300:]))
            return 2
        seed0 = (seed % 1000003) * 10000000 + 1
        q = multiprocessing.Queue()
        for k in range(nw):
            p = multiprocessing.Process(target=worker, args=(tmp, base, k, nw, seed0, secs, q))
            p.start()
            procs.append(p)
        agg, hashes, nontriv = collections.Counter(), {}, set()
        runs = nt = 0
        left = nw
        found, unrep, samples = None, [], []
        while left:
            try:
                x = q.get(timeout=60)
            except Exception:
                if not any(p.is_alive() for p in procs):
                    print('ERROR a worker died')
                    return 2
                continue
            if x is None:
                left -= 1
                continue
            n, h, viol, st, fired = x
            runs += 1
            hashes[n] = h
            for a, b in st.items():
                agg[a] += b
            if any(st.get(c) for c in ('check.install', 'check.uninstall', 'check.build', 'interrupted', 'failed')):
                nt += 1
                nontriv.add(h)
            if len(samples) < 3 and st.get('interrupted') and st.get('check.install'):
                samples.append({'seed': n, 'trace_hash': h, 'plan': gen(n), 'faults_fired': fired, 'counters': st})
            if viol:
                a = Run(probe, gen(n)).go()
                b = Run(probe, gen(n)).go()
                ks = [k for k, _ in viol if k in {y for y, _ in a.viol} and k in {y for y, _ in b.viol}]
                if ks:
                    found = (n, ks[0], a)
                    break
                unrep.append((n, viol))
                if len(unrep) > 5:
                    break
        for p in procs:
            if p.is_alive():
                p.terminate()
        det = [0, 0]
        if not found:
            for n in sorted(hashes)[:10]:
                det[0] += 1
                det[1] += Run(probe, gen(n)).go().h.hexdigest()[:16] == hashes[n]
        replay = None
        if found:
            n, kind, r = found
            P = explicit(gen(n), r)
            small, tries = minimise(probe, P, kind, 25 if tier == 'quick' else 60)
            P = small or gen(n)
            r = Run(probe, P).go()
            msg = [m for k, m in r.viol if k == kind][:1] or ['']
            os.makedirs(V + '/replays', exist_ok=True)
            replay = V + '/replays/%s-%d.plan' % (prop, n)
            with open(replay, 'w') as f:
                f.write('# property %s, seed %d, found with VERIF_SEED=%d\n# %s: %s\n# replay: python3 %s/replay.py %s\n' % (prop, n, seed, kind, msg[0].replace('\n', ' '), V, replay) + json.dumps(P) + '\n')
            open(replay[:-5] + '.log', 'w').write('\n'.join(r.log) + '\n')
            print('%s: %s' % (kind, msg[0]))
            print('seed %d, %d operations after %d minimising runs' % (n, len(P['ops']), tries))
        wall = time.time() - t0
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': {
            'evaluations': runs, 'distinct_nontrivial': len(nontriv),
            'rule': 'One evaluation is one simulated history of a machine: from the seed come its init system, an earlier installation, a sequence of runs of the real scripts with their answers, the failing call or interruption of each, and what happens in between. It is non-trivial when a run of a script completed and its result was compared, or one was interrupted or failed; distinct means a distinct hash over all steps of all processes and the resulting file systems.',
            'samples': samples, 'nontrivial_runs': nt, 'distinct_traces': len(set(hashes.values())), 'runs_per_hour': int(runs / max(1e-9, secs) * 3600),
            'simulated_time': 'the scripts have no deadlines; every clock they can read stands still and sleeps return at once',
            'script_runs': {a[3:]: c for a, c in sorted(agg.items()) if a.startswith('op.')}, 'faults_fired': {a[6:]: c for a, c in sorted(agg.items()) if a.startswith('fault.')},
            'interrupted_runs': agg['interrupted'], 'failed_runs': agg['failed'], 'steps': agg['steps'], 'processes': agg['processes'], 'prompts_answered': agg['prompts'],
            'oracle_evaluations': {a: c for a, c in sorted(agg.items()) if a.startswith('check.')}, 'workers': nw,
            'determinism': {'seeds_rerun': det[0], 'identical_traces': det[1]}, 'unreproduced_candidates': [list(map(str, u)) for u in unrep],
            'real_components': 'scripts/install.sh, build.sh, run.sh and bench.sh, bash, coreutils and the other file tools, a real file system below a scratch root',
            'simulated_components': 'systemd (unit cache, enablement, start conditions, sandboxing of the unit), OpenRC, make, sudo, hyperfine, clocks, randomness; failures of file system calls and service commands, short writes, SIGKILL and SIGINT after any step'},
            'assumptions': ['the service managers behave as modelled in inst/stub.c', 'interruption loses no completed file system operation'], 'wall_s': round(wall, 2), 'violations': 1 if found else 0}
        os.makedirs(V + '/evidence', exist_ok=True)
        json.dump(ev, open(V + '/evidence/%s.json' % prop, 'w'), indent=1)
        if found:
            print('VIOLATION property=%s replay=%s' % (prop, replay), flush=True)
            return 1
        print('%s: %d histories (%d non-trivial, %d distinct), %.0f s; determinism %d/%d' % (prop, runs, nt, len(set(hashes.values())), wall, det[1], det[0]))
        if unrep:
            print('ERROR unreproduced: %s' % unrep)
            return 2
        if not nt:
            print('ERROR nothing was explored')
            return 2
        return 0
    finally:
        for p in procs:
            if p.is_alive():
                p.kill()
            p.join()
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    P = json.loads([l for l in open(path) if l.startswith('{')][0])
    tmp = tempfile.mkdtemp(prefix='vinst-')
    os.chmod(tmp, 0o755)
    try:
        r = Run(World(Base(tmp), tmp + '/w'), P).go()
        print('\n'.join(r.log))
        print('hash', r.h.hexdigest()[:16])
        return 1 if r.viol else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'seed':
        tmp = tempfile.mkdtemp(prefix='vinst-')
        os.chmod(tmp, 0o755)
        r = Run(World(Base(tmp), tmp + '/w'), gen(int(sys.argv[2]))).go()
        print(json.dumps(r.P))
        print('\n'.join(r.log))
        shutil.rmtree(tmp)
    else:
        sys.exit(main('quick', int(sys.argv[1]), float(sys.argv[2]), 8))
