#!/usr/bin/env python3
"""check.py <ID>              decide one property on /repo's working tree
   check.py --replay FILE     run a recorded violation again
   check.py --setup           build the monitors once
   environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough)

exit 0: held on everything observed; 1: VIOLATION line; 2: no answer."""
import concurrent.futures as cf
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(V, 'harness')
REPO = '/repo'
sys.path.insert(0, os.path.join(V, 'tools'))
import literals  # noqa: E402

T0 = time.time()
HOOKS = ['verif_field', 'verif_scalar', 'verif_point']
PROPS = ['C%02d' % i for i in range(1, 23)]
TRIPLE = 'x86_64-unknown-linux-gnu'
I686 = 'i686-unknown-linux-gnu'
# variant -> (toolchain, profile, extra rustflags, extra cargo args)
VARIANTS = {
    'release': ([], 'release', '', []),
    'checked': ([], 'checked', '', []),
    'plain': ([], 'plain', '', []),
    'small': ([], 'small', '', []),
    'native': ([], 'release', '-C target-cpu=native -C llvm-args=-inline-threshold=2000', []),
    'i686': (['+nightly'], 'release', '-Clinker-flavor=ld -Clinker=%s -Crelocation-model=static' % os.path.join(V, 'platform', 'ld32'), ['--target', I686, '-Zbuild-std']),
    'asan': (['+nightly'], 'release', '-Zsanitizer=address', ['--target', TRIPLE]),
    'tsan': (['+nightly'], 'release', '-Zsanitizer=thread', ['--target', TRIPLE, '-Zbuild-std']),
}
# seconds of randomised work per build: (quick, thorough)
BUDGET = {'release': (16, 420), 'checked': (8, 120)}
BUDGETS = {
    'C13': {'release': (42, 420), 'checked': (6, 60)},
    'C15': {'release': (6, 120), 'checked': (14, 240)},
    'C16': {'release': (4, 30), 'checked': (2, 10)},
    'C10': {'release': (10, 240), 'checked': (6, 90)},
    'C17': {'release': (10, 240), 'checked': (6, 90)},
    'C18': {'release': (6, 120), 'checked': (3, 30)},
    'C19': {'release': (10, 240), 'checked': (4, 60)},
    'C20': {'release': (1, 20), 'checked': (1, 20)},
    'C22': {'release': (4, 60), 'checked': (2, 30)},
}


def note(*a):
    print('#', *a, flush=True)


def give_up(msg):
    print('NO-ANSWER:', msg, flush=True)
    sys.exit(2)


# ------------------------------------------------------------------ building
def env_for(flags):
    e = {k: v for k, v in os.environ.items() if not k.startswith('CARGO_ENCODED')}
    e['RUSTFLAGS'] = flags.strip()
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e.pop('CARGO_TARGET_DIR', None)
    return e


def forget(target):
    """never trust file times: the code under test is always compiled again
    (cargo's two layouts of a target directory)"""
    ours = ('libgoldilocks', 'mon', 'plat', 'ent', 'work')
    for x, ds, _ in os.walk(target):
        for q in list(ds):
            if os.path.basename(x) == '.fingerprint' and q.rsplit('-', 1)[0] in ours or os.path.basename(x) == 'build' and q in ours:
                shutil.rmtree(os.path.join(x, q), ignore_errors=True)
                ds.remove(q)
            elif q in ('deps', 'incremental', 'out', 'src'):
                ds.remove(q)


def cargo(variant, hooks, sub='build', jobs=None):
    tc, profile, extra, args = VARIANTS[variant]
    target = os.path.join(H, 'target-' + variant)
    flags = ' '.join('--cfg ' + h for h in hooks) + ' ' + extra
    triple = args[1] if args else TRIPLE
    forget(target)
    cmd = ['cargo'] + tc + [sub, '--offline', '--locked', '--profile', profile, '--target-dir', target] + args
    if jobs:
        cmd += ['-j', str(jobs)]
    p = subprocess.run(cmd, cwd=H, env=env_for(flags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    exe = os.path.join(target, triple, profile, 'mon') if args else os.path.join(target, profile, 'mon')
    return p.returncode == 0 and os.path.exists(exe), exe, p.stdout


def hooks_that_build():
    """the hooks reach private items by name; a tree in which some of those were
    renamed is still judged, through the public interface and the other hooks"""
    ok, exe, log = cargo('release', HOOKS)
    if ok:
        return HOOKS, exe, None
    good = []
    for h in HOOKS:
        ok, exe, l2 = cargo('release', good + [h])
        if ok:
            good.append(h)
    ok, exe, l2 = cargo('release', good)
    if not ok:
        return None, None, l2
    return good, exe, log


# ------------------------------------------------------------------ running
def available():
    try:
        return int(re.search(r'MemAvailable:\s*(\d+)', open('/proc/meminfo').read()).group(1)) << 10
    except Exception:
        return 0


def limits(mem):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        os.setpgid(0, 0)
    return f


def run(cmd, timeout, env=None, mem=10 << 30, cwd=None):
    """-> (rc, stdout, stderr); rc None on timeout"""
    e = dict(os.environ)
    e.update(env or {})
    with tempfile.TemporaryFile('w+', errors='replace') as fo, tempfile.TemporaryFile('w+', errors='replace') as fe:
        p = subprocess.Popen(cmd, stdout=fo, stderr=fe, env=e, preexec_fn=limits(mem), cwd=cwd)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        out = []
        for f in (fo, fe):
            f.seek(0)
            t = f.read()
            out.append(t if len(t) < 400000 else t[:200000] + t[-200000:])
        return rc, out[0], out[1]


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix='mon-%s-' % prop)
        self.runs = []          # reports of mon processes
        self.monitors = {}      # what the other monitors observed
        self.violation = None
        self.exes = {}
        self.dict_path = os.path.join(self.work, 'dict.json')
        self.dict = literals.new_constants(REPO, os.path.join(V, 'tools', 'baseline_lines.txt'))
        json.dump(self.dict, open(self.dict_path, 'w'))

    def env(self, **kw):
        e = {'MON_DICT': self.dict_path, 'RUST_BACKTRACE': '0', 'TMPDIR': self.work}
        e.update(kw)
        return e

    # ---------------------------------------------------------- violations
    def violate(self, what, **kw):
        if self.violation:
            return
        os.makedirs(os.path.join(V, 'replay'), exist_ok=True)
        path = os.path.join(V, 'replay', '%s-seed%d.json' % (self.prop, self.seed))
        doc = {'property': self.prop, 'what': what, 'seed': self.seed, 'tier': self.tier, 'dictionary': self.dict,
               'replay_command': 'python3 %s/check.py --replay %s' % (V, path)}
        doc.update(kw)
        json.dump(doc, open(path, 'w'), indent=1)
        self.violation = {'what': what, 'path': path}
        print('violation of %s: %s' % (self.prop, what))
        for k, v in kw.get('details') or []:
            print('   %s: %s' % (k, v if len(str(v)) < 600 else str(v)[:600] + '...'))
        print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)

    # ---------------------------------------------------------- mon processes
    def mon(self, variant, secs, extra_env=None, mem=10 << 30, args=()):
        out = os.path.join(self.work, 'report-%s.json' % variant)
        wall = secs * 4 + (200 if self.tier == 'quick' else 900)
        cmd = [self.exes[variant], self.prop, '--seed', str(self.seed), '--secs', str(secs), '--wall', str(wall - 60),
               '--tier', self.tier, '--out', out] + list(args)
        for attempt in (0, 1):
            if os.path.exists(out):
                os.unlink(out)
            rc, so, se = run(cmd, wall + 150, self.env(**(extra_env or {})), mem)
            if rc in (0, 1, 3) and os.path.exists(out):
                break
            # the process died: twice in the same way is an observation, once may
            # be the machine
            note('%s build ended with %s: %s' % (variant, rc, (se or so)[-300:].strip()))
        else:
            m = re.search(r'MON-ABORT signal=(\d+) in_library=1(?: stage=(\d+) case=(\d+))?', se)
            san = re.search(r'(ERROR: AddressSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*)', se)
            if m or san or rc in (-11, -7, -4, -8) or (rc == -31 and self.prop == 'C19'):
                what = san.group(1) if san else 'a library call killed the process (%s)' % (m.group(0) if m else 'signal %s' % -rc)
                self.violate(what, variant=variant, kind='died', secs=secs, stage_index=m and m.group(2), case=m and m.group(3), stderr=se[-4000:])
                return
            give_up('%s monitor process failed: rc=%s %s' % (variant, rc, se[-600:]))
        rep = json.load(open(out))
        rep['build'] = variant
        self.runs.append(rep)
        if rep['violation']:
            v = rep['violation']
            again = None
            st = [s['stage'] for s in rep['stages']]
            if v['stage'] in st:
                rc2, so2, _ = run([self.exes[variant], self.prop, '--seed', str(self.seed), '--tier', self.tier, '--stage', v['stage'], '--case', str(v['case'])], 300, self.env(**(extra_env or {})), mem)
                again = rc2 == 1
            self.violate(v['what'], variant=variant, kind='case', stage=v['stage'], case=v['case'], details=v['details'], secs=secs,
                         reproduced_alone=again)
        elif rep['inconclusive']:
            give_up('%s: %s' % (variant, rep['inconclusive']))

    # ---------------------------------------------------------- extra monitors
    def profiles(self, files):
        """per-case results of the same operations in the three builds"""
        rows = {k: open(p).read().split() for k, p in files.items() if os.path.exists(p)}
        base = rows['release']
        for k, r in rows.items():
            for i in range(min(len(base), len(r))):
                if r[i] != base[i]:
                    _, a, _ = run([self.exes['release'], self.prop, '--seed', str(self.seed), '--stage', 'profile_digest', '--case', str(i)], 120, self.env())
                    _, b, _ = run([self.exes[k], self.prop, '--seed', str(self.seed), '--stage', 'profile_digest', '--case', str(i)], 120, self.env())
                    self.violate('the %s build gives another result than the optimised build' % k, kind='profiles', variant=k, stage='profile_digest', case=i,
                                 details=[['optimised build', a.strip().splitlines()[0] if a.strip() else ''], [k + ' build', b.strip().splitlines()[0] if b.strip() else '']])
                    return
        self.monitors['profile_comparison'] = {'operations_compared': {k: min(len(base), len(r)) for k, r in rows.items() if k != 'release'}}

    def instrumented(self, variant, ops, threads, rounds, options, timeout):
        """replay operations in a sanitizer build; a report is a violation"""
        exe = self.exes.get(variant)
        if not exe:
            return
        cmd = [exe, '--replay-ops', ops, str(threads), str(rounds)]
        rc, so, se = run(cmd, timeout, self.env(**options), mem=None)
        if 'LeakSanitizer has encountered a fatal error' in se:
            # leak scanning needs ptrace; without it keep the memory checks
            rc, so, se = run(cmd, timeout, self.env(ASAN_OPTIONS='detect_leaks=0:exitcode=66'), mem=None)
        rec = {'threads': threads, 'rounds': rounds, 'rc': rc, 'output': so.strip()[-200:]}
        self.monitors[variant] = rec
        m = re.search(r'REPLAYED (\d+)', so)
        if rc == 0 and m:
            rec['calls_observed'] = int(m.group(1))
            return
        san = re.search(r'(ERROR: AddressSanitizer[^\n]*|ERROR: LeakSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*)', se)
        if san and '/repo/src' not in se and 'libgoldilocks' not in se:
            rec['note'] = 'a report that does not involve the library: ' + san.group(1)
            return
        if san:
            self.violate(san.group(1).strip(), kind='ops', variant=variant, ops=open(ops).read(), threads=threads, rounds=rounds, stderr=se[:6000])
        elif 'MISMATCH' in so:
            self.violate('the %s build gives another result: %s' % (variant, so.strip()[:1500]), kind='ops', variant=variant, ops=open(ops).read(), threads=threads, rounds=rounds)
        elif rc is not None and rc < 0 and rc != -9:
            self.violate('a library call killed the instrumented process (signal %d)' % -rc, kind='ops', variant=variant, ops=open(ops).read(), threads=threads, rounds=rounds, stderr=se[:6000])
        else:
            rec['note'] = 'no observation: ' + (se or so)[-300:]

    def miri(self, lines, timeout, hooks):
        """one interpreter per operation, in parallel: undefined behaviour,
        out-of-bounds access, overflow, data races and leaks"""
        d = os.path.join(H, 'target-miri')
        flags = ' '.join('--cfg ' + h for h in hooks)
        e = env_for(flags)
        e['MIRIFLAGS'] = '-Zmiri-disable-isolation'
        base = ['cargo', '+nightly', 'miri', 'run', '--offline', '--locked', '--profile', 'checked', '--target-dir', d, '--']
        forget(d)
        files = []
        for i, l in enumerate(lines):
            p = os.path.join(self.work, 'miri-%d' % i)
            open(p, 'w').write(l + '\n')
            files.append((p, l))
        # the first run builds the interpreter's library; nothing else may hold the lock
        empty = os.path.join(self.work, 'miri-empty')
        open(empty, 'w').write('')
        p = subprocess.run(base + ['--replay-ops', empty, '1', '0'], cwd=H, env=dict(e, **self.env()), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        rec = {'operations': len(lines), 'finished': 0, 'kinds': {}}
        self.monitors['miri'] = rec
        if p.returncode != 0:
            if 'Undefined Behavior' not in p.stderr:
                rec['note'] = 'interpreter not usable here: ' + p.stderr[-300:]
                return

        def one(pl):
            rc, so, se = run(base + ['--replay-ops', pl[0], '2' if pl[1].split()[0] in ('to_secret', 'hex_key', 'derive', 'serialize') else '1', '1'], timeout, dict(e, **self.env()), mem=None, cwd=H)
            return pl, rc, so, se
        with cf.ThreadPoolExecutor(8) as ex:
            for pl, rc, so, se in ex.map(one, files):
                kind = pl[1].split()[0]
                if rc == 0 and 'REPLAYED' in so:
                    rec['finished'] += 1
                    rec['kinds'][kind] = rec['kinds'].get(kind, 0) + 1
                elif rc is None:
                    rec['timeouts'] = rec.get('timeouts', 0) + 1
                elif 'Undefined Behavior' in se or 'Data race' in se or 'memory leaked' in se:
                    m = re.search(r'error: ([^\n]*)', se)
                    self.violate('Miri: ' + (m.group(1) if m else 'undefined behaviour'), kind='miri', ops=pl[1], stderr=se[-6000:])
                elif 'MISMATCH' in so:
                    self.violate('interpreted code gives another result: ' + so.strip()[:1500], kind='miri', ops=pl[1])
                else:
                    rec['note'] = (se or so)[-300:]

    def entropy(self):
        """system-call monitor: generating one key in a fresh process must draw at
        least 256 bits from the operating system"""
        def drawn(args):
            log = os.path.join(self.work, 'strace')
            rc, so, se = run(['strace', '-f', '-o', log, '-e', 'trace=getrandom,openat,read', self.exes['release']] + args, 60, self.env(), mem=None)
            if rc != 0 or not os.path.exists(log):
                return None
            n = 0
            dev = set()
            for l in open(log, errors='replace'):
                m = re.search(r'getrandom\(.*, (\d+), ([A-Z_0-9|]+)\)\s*=\s*(\d+)', l)
                if m and 'GRND_INSECURE' not in m.group(2):
                    n += int(m.group(3))
                m = re.search(r'openat\(.*"/dev/u?random".*=\s*(\d+)', l)
                if m:
                    dev.add(m.group(1))
                m = re.search(r'read\((\d+),.*=\s*(\d+)\s*$', l)
                if m and m.group(1) in dev:
                    n += int(m.group(2))
            return n
        try:
            control = drawn(['--oskey'])
            idle = drawn(['--genkeys', '0'])
            if control is None or idle is None or control - idle < 57:
                self.monitors['entropy_syscalls'] = {'note': 'system-call tracing unavailable', 'control': control}
                return
            got = [drawn(['--genkeys', '1']) for _ in range(3)]
        except OSError as ex:
            self.monitors['entropy_syscalls'] = {'note': 'system-call tracing unavailable: %s' % ex}
            return
        if any(g is None for g in got):
            return
        got = [g - idle for g in got]
        self.monitors['entropy_syscalls'] = {'control_bytes': control, 'idle_bytes': idle, 'bytes_drawn_for_one_key': got}
        if max(got) < 32:
            self.violate('a generated key draws only %d bytes from the operating system' % max(got), kind='entropy', details=[['control', control]])

    def sources(self):
        """the key generator over instrumented generators (entropy/): how many bytes
        a key rests on, and how many scripted bits change it"""
        d = os.path.join(V, 'entropy')
        target = os.path.join(d, 'target')
        forget(target)
        p = subprocess.run(['cargo', 'build', '--offline', '--locked', '--release', '--target-dir', target], cwd=d, env=env_for(''), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        rec = self.monitors['generator_sources'] = {}
        if p.returncode:
            rec['note'] = 'instrumented generators do not build: ' + p.stdout[-200:]
            return
        exe = os.path.join(target, 'release', 'ent')

        def ask(*a):
            rc, so, se = run([exe] + [str(x) for x in a], 200, self.env())
            try:
                return json.loads(so)
            except ValueError:
                return {'note': 'no result'}
        log = os.path.join(self.work, 'strace2')
        try:
            run(['strace', '-f', '-o', log, '-e', 'trace=openat', exe, 'count', '1'], 60, self.env(), mem=None)
            opened = 'random"' in open(log, errors='replace').read()
        except OSError:
            opened = False
        one, many = ask('count', 1), ask('count', 5000)
        rec.update({'first_key': one, 'many_keys': many, 'reads_random_device_itself': opened})
        if 'total' not in one or one['total'] == 0 or opened:
            rec['note'] = 'the generator does not draw on the rand crate; not judged here'
            return
        if one['root'] < 32:
            self.violate('the first generated key of a process rests on only %d random bytes' % one['root'], kind='entropy', details=[['observed', one]])
            return
        if 'total' in many and many['total'] < 57 * many['keys']:
            self.violate('%d generated keys consumed only %d random bytes' % (many['keys'], many['total']), kind='entropy', details=[['observed', many]])
            return
        for seed in range(self.seed, self.seed + (8 if self.tier == 'thorough' else 2)):
            f = ask('flips', seed, 4, 65536)
            rec.setdefault('scripted', []).append(f)
            rec['calls_observed'] = rec.get('calls_observed', 0) + 4 * (f.get('tried') or 0)
            if not f.get('deterministic') or f['tried'] < 8 * f['script_bytes']:
                continue
            if min(f['fresh']) < 456:
                self.violate('only %d bits of the random source bear on a generated key (and not on the key before it)' % min(f['fresh']), kind='entropy', details=[['observed', f]])
                return

    def named_platforms(self):
        text = ''
        for root, _, files in os.walk('/repo/src'):
            text += ''.join(open(os.path.join(root, f), errors='replace').read() for f in files if f.endswith('.rs') and f != 'verif_hooks.rs')
        gnu = '-unknown-linux-gnu'
        table = [(r'target_arch\s*=\s*"aarch64"|"neon"', 'aarch64' + gnu), (r'target_arch\s*=\s*"arm"', 'armv7-unknown-linux-gnueabihf'), (r'target_arch\s*=\s*"riscv64"', 'riscv64gc' + gnu),
                 (r'target_arch\s*=\s*"powerpc64"', 'powerpc64' + gnu), (r'target_arch\s*=\s*"powerpc"', 'powerpc' + gnu), (r'target_os\s*=\s*"macos"|target_vendor', 'aarch64-apple-darwin'),
                 (r'cfg!?\(.*\b(windows|unix)\b|target_os\s*=\s*"(windows|linux)"|target_env|target_family', 'x86_64-pc-windows-gnu'), (r'feature_detected|target_feature|target_arch\s*=\s*"x86_64"', 'x86_64' + gnu)]
        return [t for r, t in table if re.search(r, text)][:3]

    def platforms(self, thorough):
        """operations with the host's results, replayed for other platforms by the
        interpreter (results only: C15 watches for undefined behaviour)"""
        ops = os.path.join(self.work, 'ops')
        run([self.exes['release'], '--dump-ops', str(self.seed), '4000' if thorough else '1200', ops], 300, self.env())
        if not os.path.exists(ops):
            give_up('no operations dumped')
        lines = open(ops).read().splitlines()
        d = os.path.join(V, 'platform')
        e = env_for('-Zmir-opt-level=3 -Zinline-mir=yes')
        e['MIRIFLAGS'] = '-Zmiri-disable-isolation -Zmiri-disable-validation -Zmiri-disable-stacked-borrows -Zmiri-disable-data-race-detector -Zmiri-preemption-rate=0'
        n = 6 if thorough else 1
        want = {'true': 2, 'false': 1, 'refused': 6, 'sign': 3, 'sign_nonce': 3, 'sign_private': 2, 'object': 2, 'object_hex': 1, 'derive': 3, 'sec_pub': 2, 'priv_pub': 1, 'serialize': 1, 'deserialize': 3, 'cheap': 60}
        kinds = {}
        for l in lines:
            k, r = l.split()[0], l.split()[-1]
            if k.startswith('verify'):
                k = 'true' if r in (b'Ok(true)'.hex(), b'Ok(())'.hex()) else 'false' if r in (b'Ok(false)'.hex(), b'Err(InvalidSignatureError)'.hex()) else 'refused'
            elif k not in want:
                k = 'cheap'
            kinds.setdefault(k, []).append(l)
        todo = []
        # 32-bit code is interpreted only where it cannot run
        targets = ([] if 'i686' in self.exes else [I686]) + ['s390x-unknown-linux-gnu'] + (['powerpc-unknown-linux-gnu', 'aarch64-unknown-linux-gnu', 'x86_64-pc-windows-gnu'] if thorough else [])
        # platforms that the code itself distinguishes
        named = self.named_platforms()
        if named:
            self.monitors['platforms_named_in_the_code'] = {'targets': named}
        targets += [t for t in named if t not in targets]
        for ti, t in enumerate(targets):
            cheap = []
            for k, m in want.items():
                ls = kinds.get(k, [])
                # half of them short, the rest as they come; other operations for each target
                short = [l for l in ls if len(l) < 900]
                m *= n
                pick = short[ti::2][:(m + 1) // 2]
                pick += [l for l in ls[ti::2] if l not in pick][:m - len(pick)]
                if k == 'cheap':
                    cheap += pick
                else:
                    todo += [(t, [l]) for l in pick]
            todo += [(t, cheap[i:i + 40]) for i in range(0, len(cheap), 40)]
        # long ones first
        todo.sort(key=lambda x: (not any(w in x[1][0] for w in (b'Ok(true)'.hex(), b'Ok(())'.hex(), b'Ok(false)'.hex(), b'Err(Inv'.hex())), not x[1][0].startswith('object')))
        base = {t: ['cargo', '+nightly', 'miri', 'run', '--offline', '--locked', '--release', '--target', t, '--target-dir', os.path.join(d, 'target-' + t), '--'] for t in targets}

        def build(t):
            forget(os.path.join(d, 'target-' + t))
            empty = os.path.join(self.work, 'empty')
            open(empty, 'w').write('')
            return run(base[t] + [empty], 500, dict(e, **self.env()), mem=None, cwd=d)
        usable = []
        # one after the other: the interpreter's standard library is built into a shared cache
        for t in targets:
            rc, so, se = build(t)
            m = re.search(r'REPLAYED 0 (\S+ \S+)', so)
            self.monitors[t] = {'operations': sum(len(x[1]) for x in todo if x[0] == t), 'calls_observed': 0, 'platform': m.group(1) if m else None}
            if rc == 0 and m:
                usable.append(t)
            else:
                self.monitors[t]['note'] = 'interpreter not usable here: ' + se[-300:]
        if not usable:
            return
        stop = time.time() + (2400 if thorough else 180)

        def one(x):
            i, (t, ls) = x
            left = stop - time.time()
            if self.violation or left < 5:
                return x, None, '', ''
            f = os.path.join(self.work, 'p%d' % i)
            open(f, 'w').write('\n'.join(ls) + '\n')
            rc, so, se = run(base[t] + [f], left, dict(e, **self.env()), mem=None, cwd=d)
            return x, rc, so, se
        with cf.ThreadPoolExecutor(8) as ex:
            for (i, (t, ls)), rc, so, se in ex.map(one, list(enumerate([x for x in todo if x[0] in usable]))):
                rec = self.monitors[t]
                if rc == 0 and 'REPLAYED' in so:
                    rec['calls_observed'] += len(ls)
                    for l in ls:
                        q = rec.setdefault('kinds', {})
                        q[l.split()[0]] = q.get(l.split()[0], 0) + 1
                    if len(rec.setdefault('samples', [])) < 6:
                        rec['samples'].append(ls[0][:400])
                elif rc is None:
                    rec['not_run_in_time'] = rec.get('not_run_in_time', 0) + len(ls)
                elif 'MISMATCH' in so:
                    self.violate('another result on %s (%s): %s' % (t, rec['platform'], so.strip()[:1500]), kind='platform', target=t, ops=ls)
                elif 'Undefined Behavior' in se:
                    m = re.search(r'error: ([^\n]*)', se)
                    self.violate('on %s: %s' % (t, m.group(1) if m else 'undefined behaviour'), kind='platform', target=t, ops=ls, stderr=se[-6000:])
                else:
                    rec['interpreter_problem'] = se[-300:]

    def arithmetic32(self, thorough):
        """the monitors of other properties in the 32-bit build; what the host's build
        gets wrong as well is not this property's concern"""
        for p in ['C14'] + (['C01', 'C02', 'C04', 'C06', 'C07', 'C09', 'C10', 'C11', 'C17'] if thorough else []):
            if self.violation or 'i686' not in self.exes:
                return
            secs = 60 if thorough else 4
            out = os.path.join(self.work, 'i686-' + p)
            rc, so, se = run([self.exes['i686'], p, '--seed', str(self.seed), '--secs', str(secs), '--wall', '600', '--tier', self.tier, '--out', out], 900 if thorough else 200, self.env())
            rec = self.monitors['i686_' + p] = {'rc': rc}
            if rc not in (0, 1) or not os.path.exists(out):
                rec['note'] = 'no observation: ' + (se or so)[-300:]
                continue
            rep = json.load(open(out))
            rec.update({'calls_observed': rep['evaluations'], 'distinct': rep['distinct'], 'stages': rep['stages']})
            v = rep['violation']
            if v:
                one = ['--seed', str(self.seed), '--tier', self.tier, '--stage', v['stage'], '--case', str(v['case'])]
                here = run([self.exes['release'], p] + one, 300, self.env())[0]
                there = run([self.exes['i686'], p] + one, 300, self.env())[0]
                rec['violation'] = {'what': v['what'], 'on_the_host': here, 'alone': there}
                if here == 0:
                    self.violate('on a 32-bit machine: ' + v['what'], kind='other', other=p, variant='i686', stage=v['stage'], case=v['case'], details=v['details'])

    def secret_work(self, thorough):
        """instructions executed by one call, for many secrets of the same form and
        messages of the same length, counted by callgrind"""
        d = os.path.join(V, 'secrets')
        target = os.path.join(d, 'target')
        forget(target)
        t = time.time()
        p = subprocess.run(['cargo', 'build', '--offline', '--locked', '--release', '--target-dir', target], cwd=d, env=env_for(''), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            give_up('the tree does not build: ' + p.stdout[-1500:])
        self.build_s = time.time() - t
        self.hooks = []
        exe = os.path.join(target, 'release', 'work')
        rounds, parts = (3000, 32) if thorough else (160, 16)

        def part(k):
            o = os.path.join(self.work, 'cg%d' % k)
            os.makedirs(o, exist_ok=True)
            rc, so, se = run(['valgrind', '-q', '--tool=callgrind', '--callgrind-out-file=' + os.path.join(o, 'x'), exe, str(self.seed), str(k), str(parts), str(rounds)], 1500 if thorough else 240, self.env(), mem=None)
            got = []
            for f in os.listdir(o):
                txt = open(os.path.join(o, f), errors='replace').read()
                m = re.search(r'Client Request: (\S+)', txt)
                n = re.search(r'^(?:summary|totals): (\d+)', txt, re.M)
                if m and n:
                    name, key = m.group(1).rsplit('/', 1)
                    got.append((name, int(n.group(1)), key))
            shutil.rmtree(o, ignore_errors=True)
            return rc, se, got
        groups = {}
        with cf.ThreadPoolExecutor(8) as ex:
            for rc, se, got in ex.map(part, range(parts)):
                if rc is not None and rc > 0 and 'panicked' in se:
                    give_up('an operation panicked: ' + se[-300:])
                if rc != 0 and not got:
                    give_up('the instruction counter does not work here: rc=%s %s' % (rc, se[-300:]))
                for name, n, key in got:
                    groups.setdefault(name, []).append((n, key))
        if len(groups) < 40:
            give_up('only %d groups measured' % len(groups))
        rec = self.monitors['instructions'] = {'calls_observed': sum(len(v) for v in groups.values()), 'secrets': len(set(k for v in groups.values() for _, k in v)), 'groups': {}}
        for name, v in sorted(groups.items()):
            lo, hi = min(v), max(v)
            rec['groups'][name] = {'calls': len(v), 'least': lo[0], 'most': hi[0]}
            # hashing the message costs the same for every secret: one percent of the rest
            if hi[0] - lo[0] > max(min(groups[name.rsplit('/', 1)[0] + '/0'])[0] // 100, 1000):
                self.violate('%s executes %d instructions for one secret and %d for another' % (name, lo[0], hi[0]), kind='secrets',
                             details=[['operation/form of the key/message length', name], ['secret with the least', lo[1]], ['secret with the most', hi[1]], ['spread over all secrets', sorted(n for n, _ in v)[::max(1, len(v) // 12)]]])
        rec['samples'] = [{'operation': k, 'instructions': v[0][0], 'secret': v[0][1]} for k, v in sorted(groups.items())[::4]]

    # ---------------------------------------------------------- the check
    def go(self):
        if self.prop == 'C21':
            self.secret_work(self.tier == 'thorough')
            self.evidence()
            shutil.rmtree(self.work, ignore_errors=True)
            return 1 if self.violation else 0
        extra = []
        thorough = self.tier == 'thorough'
        if self.prop == 'C15':
            extra = ['plain', 'asan', 'tsan']
        elif self.prop == 'C20':
            extra = ['plain', 'small', 'native', 'i686']
        elif self.prop == 'C13':
            extra = ['tsan']
        elif thorough and self.prop not in ('C18', 'C19', 'C20'):
            extra = ['asan']
        t = time.time()
        hooks, exe, log = hooks_that_build()
        if hooks is None:
            give_up('the tree does not build: ' + (log or '')[-1500:])
        self.exes['release'] = exe
        self.hooks = hooks
        with cf.ThreadPoolExecutor(4) as ex:
            jobs = {v: ex.submit(cargo, v, hooks) for v in ['checked'] + extra}
            for v, j in jobs.items():
                ok, exe, log = j.result()
                if ok:
                    self.exes[v] = exe
                elif v in ('asan', 'tsan', 'i686'):
                    self.monitors[v] = {'note': 'build unavailable: ' + log[-200:]}
                else:
                    give_up('the %s build failed: %s' % (v, log[-1000:]))
        self.build_s = time.time() - t
        b = dict(BUDGET)
        b.update(BUDGETS.get(self.prop, {}))
        idx = 1 if thorough else 0
        scale = float(os.environ.get('VERIF_SCALE', '1'))
        digests = {}
        if 'i686' in self.exes and run([self.exes['i686'], '--genkeys', '0'], 30, self.env())[0] != 0:
            self.exes.pop('i686')
            self.monitors['i686'] = {'note': '32-bit programs do not run here'}
        for variant in ('release', 'checked', 'plain', 'small', 'native', 'i686'):
            if variant not in self.exes or self.violation:
                continue
            secs = b.get(variant, (1, 20))[idx] * scale
            env = {}
            if self.prop in ('C15', 'C20'):
                n = 20000 if thorough else 2500
                if self.prop == 'C20' and variant in ('release', 'i686', 'native', 'small'):
                    n *= 10
                env = {'MON_DIGESTS': str(n), 'MON_DIGEST_FILE': os.path.join(self.work, 'digests-' + variant)}
                digests[variant] = env['MON_DIGEST_FILE']
            mem = 10 << 30
            if (self.prop, variant) in (('C15', 'checked'), ('C03', 'release')):
                env['MON_HUGE'] = str((1 << 29) + 777)
                if thorough and self.prop == 'C03' and available() > 24 << 30:
                    env['MON_HUGE'], mem = str((1 << 32) + 777), 30 << 30
            if self.prop == 'C13':
                so = os.path.join(self.work, 'clock.so')
                if os.path.exists(so) or run(['gcc', '-O1', '-shared', '-fPIC', '-o', so, os.path.join(H, 'clock.c')], 60)[0] == 0:
                    env['MON_CLOCK'] = so
            self.mon(variant, secs, env, mem)
        if self.prop in ('C15', 'C20') and not self.violation:
            self.profiles(digests)
        if self.prop in ('C13', 'C15') and not self.violation:
            ops = os.path.join(self.work, 'ops')
            n = 2000 if thorough else 400
            run([self.exes['release'], '--dump-ops', str(self.seed), str(n), ops], 300, self.env())
            if not os.path.exists(ops):
                give_up('no operations dumped')
            self.instrumented('tsan', ops, 8, 4 if thorough else 1, {'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_signal_unsafe=0'}, 600 if thorough else 150)
            if self.prop == 'C15' and not self.violation:
                self.instrumented('asan', ops, 8, 8 if thorough else 2, {'ASAN_OPTIONS': 'detect_leaks=1:exitcode=66'}, 600 if thorough else 150)
            if self.prop == 'C15' and not self.violation:
                lines = open(ops).read().splitlines()
                want = ['to_secret', 'hex_key', 'derive', 'sign', 'object', 'deserialize', 'serialize', 'from_bytes', 'sign_nonce', 'object_hex', 'sign_private']
                pick = []
                for k in want:
                    c = [l for l in lines if l.startswith(k + ' ') and len(l) < 1500]
                    pick += c[:(3 if thorough else 1)]
                ok = [l for l in lines if l.startswith('verify ') and l.endswith(b'Ok(true)'.hex()) and len(l) < 1500]
                no = [l for l in lines if l.startswith('verify') and b'Err'.hex() in l.split()[-1] and len(l) < 1500]
                mm = [l for l in lines if l.startswith('verify ') and l.endswith(b'Ok(false)'.hex()) and len(l) < 1500]
                pick = ok[:(4 if thorough else 1)] + mm[:(4 if thorough else 1)] + no[:(8 if thorough else 2)] + pick
                self.miri(pick, 900 if thorough else 150, hooks)
        elif thorough and 'asan' in self.exes and not self.violation:
            self.mon('asan', 60, {'ASAN_OPTIONS': 'detect_leaks=0:handle_abort=0'}, mem=None)
        if self.prop == 'C20' and not self.violation:
            self.arithmetic32(thorough)
        if self.prop == 'C20' and not self.violation:
            self.platforms(thorough)
        if self.prop == 'C16' and not self.violation:
            self.entropy()
            if not self.violation:
                self.sources()
        self.evidence()
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violation else 0

    def evidence(self):
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        samples = []
        for r in self.runs:
            samples += [{'build': r['build'], 'case': s} for s in r['samples'][:12]]
        samples += self.monitors.get('instructions', {}).get('samples', [])
        ev = sum(r['evaluations'] for r in self.runs) + sum(m.get('calls_observed', 0) for m in self.monitors.values())
        doc = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
            'coverage': {
                'evaluations': ev,
                'distinct_nontrivial': max([r['distinct'] for r in self.runs] or [self.monitors.get('instructions', {}).get('secrets', 0)]),
                'rule': RULE[self.prop],
                'samples': samples[:24] or [{'note': 'no case completed'}],
                'library_calls': sum(r['library_calls'] for r in self.runs),
                'builds_observed': [r['build'] for r in self.runs],
                'stages': {r['build']: r['stages'] for r in self.runs},
                'facts': {r['build']: r['facts'] for r in self.runs},
                'other_monitors': self.monitors,
                'hooks_active': self.hooks,
                'new_constants_tried': {'ints': len(self.dict['ints']), 'strings': len(self.dict['strs'])},
                'build_seconds': round(self.build_s, 1),
            },
            'assumptions': ASSUME,
            'wall_s': round(time.time() - T0, 2),
            'violations': 1 if self.violation else 0,
        }
        p = os.path.join(V, 'evidence', self.prop + '.json')
        json.dump(doc, open(p + '.tmp', 'w'), indent=1)
        os.replace(p + '.tmp', p)


ASSUME = [
    'the harness reference (an independent big-integer style implementation, checked against OpenSSL-generated vectors at start-up) is right',
    'behaviour on inputs, schedules and histories that were not executed is not observed',
]
_G = 'Cases come from structured generators (boundary bytes, limb and carry extremes, chosen scalars, crafted encodings, tampered and re-signed triples, systematic message lengths) and random fill; '
RULE = {
    'C01': _G + 'a case is one (seed-form key, message), its public key, secret and signature compared byte for byte with the reference, or one arithmetic operand tuple compared exactly; distinct by hash of its inputs.',
    'C02': _G + 'a case is one (raw key or secret, nonce seed, message) compared byte for byte with the reference; distinct by hash of its inputs.',
    'C03': _G + 'a case is one signature by one entry point, verified by both verification entry points; distinct by hash of key and message.',
    'C04': _G + 'a case is one (key, signature, message) triple whose verdict is compared with the reference; non-trivial triples are well-formed or wrong in exactly one respect; distinct by hash.',
    'C05': _G + 'a case is one tampered variant of a triple that verified first; distinct by hash of the tampered triple.',
    'C06': _G + 'a case is one 57-byte string judged canonical or not by the reference and offered as key and as commitment; distinct by hash.',
    'C07': _G + 'a case is one triple of byte strings of any length, watched for panics, overruns of the cpu limit and untruthful results; distinct by hash.',
    'C08': _G + 'a case is one triple given to both entry points; distinct by hash.',
    'C09': _G + 'a case is one key built by seven routes and compared pairwise with direct derivation, or one wrong-length input; distinct by hash.',
    'C10': _G + 'a case is one key serialized and deserialized by several routes, or one malformed document; distinct by hash.',
    'C11': _G + 'a case is one (key object, message) whose 171 bytes are compared with direct signing and the reference; distinct by hash.',
    'C12': _G + 'a case is one signature whose nonce is recovered with the private key and whose commitment enters a table of all commitments of the run; distinct by hash of key and message.',
    'C13': 'Operations on deliberately similar inputs are first evaluated alone in fresh processes, then in long single-threaded histories, in streaks, on 24 threads in several regimes and in bulk; every call is compared with its isolated result. Distinct: ordered pairs of operations seen adjacent or overlapping.',
    'C14': _G + 'a case is one operand tuple for a field, scalar or point operation, or a public call that multiplies by a chosen scalar; compared exactly with the reference; distinct by hash of the operands.',
    'C15': _G + 'a case is one well-typed call observed in optimised, overflow-checked and unoptimised builds and under sanitizers and Miri; distinct by hash of the operation.',
    'C16': 'Keys are generated on many threads, in short-lived threads, in fresh and in forking processes, over instrumented generators that count and script what they hand out, and from deterministic caller sources; bit, byte, pair and sequence statistics are monitored with thresholds of at least 7.5 standard deviations; distinct: keys seen.',
    'C17': _G + 'a case is one string given to one decoder; distinct by hash.',
    'C18': _G + 'a case is one operation measured (thread cpu time, peak and retained heap) and one kind of content at lengths from 32 KiB up, or one call on hostile values measured against the same call on ordinary ones; long multi-threaded histories compare the first with the last calls; distinct by hash of the inputs.',
    'C19': _G + 'a case is a batch of operations run in a thread of its own under a system-call filter; after every operation the record of trapped calls and the floating-point control word are read, after every batch the environment, the panic hook and the output buffers; distinct by hash of each operation and its inputs.',
    'C20': _G + 'a case is one well-typed call whose result is compared between five builds for this machine (optimised, overflow-checked, unoptimised, size-optimised, specialised to the processor) or between this machine, a 32-bit build run on it, and an interpreted big-endian one; distinct by hash of the operation.',
    'C21': 'A case is one call on a secret (structured or random, of either form) whose executed instructions are counted; the counts of all secrets of one form with messages of one length are compared. Distinct: secrets.',
    'C22': _G + 'a case is one refused text or byte string given to one route; distinct by hash.',
}


def replay(path):
    d = json.load(open(path))
    c = Check(d['property'], d['tier'], d['seed'])
    json.dump(d['dictionary'], open(c.dict_path, 'w'))
    hooks, exe, log = hooks_that_build()
    if hooks is None:
        give_up('the tree does not build')
    c.exes['release'] = exe
    v = d.get('variant', 'release')
    if v != 'release':
        ok, exe, log = cargo(v, hooks)
        if not ok:
            give_up('build failed')
        c.exes[v] = exe
    print('recorded:', d['what'])
    rc = 2
    if d['kind'] == 'case' and d.get('reproduced_alone') is not None or d['kind'] in ('profiles', 'other'):
        rc, so, se = run([c.exes[v], d.get('other', d['property']), '--seed', str(d['seed']), '--tier', d['tier'], '--stage', d['stage'], '--case', str(d['case'])], 600, c.env())
        print(so[-6000:], se[-2000:])
    elif d['kind'] in ('ops',):
        ops = os.path.join(c.work, 'ops')
        open(ops, 'w').write(d['ops'])
        rc, so, se = run([c.exes[v], '--replay-ops', ops, str(d['threads']), str(d['rounds'])], 600, c.env(TSAN_OPTIONS='halt_on_error=1:exitcode=66'), mem=None)
        print(so[-6000:], se[-6000:])
    elif d['kind'] in ('case', 'died'):
        out = os.path.join(c.work, 'r.json')
        rc, so, se = run([c.exes[v], d['property'], '--seed', str(d['seed']), '--secs', str(d['secs']), '--tier', d['tier'], '--out', out], 1800, c.env())
        print(so[-3000:], se[-3000:])
        if os.path.exists(out):
            print(json.dumps(json.load(open(out))['violation'], indent=1)[:6000])
    else:
        print('run the check again: VERIF_SEED=%d VERIF_TIER=%s python3 %s/check.py %s' % (d['seed'], d['tier'], V, d['property']))
    shutil.rmtree(c.work, ignore_errors=True)
    print('exit status of the replay:', rc)
    return 1 if rc != 0 else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        hooks, exe, log = hooks_that_build()
        if hooks is None:
            give_up('build failed: ' + log[-2000:])
        ok, exe, log = cargo('checked', hooks)
        print('hooks:', hooks, 'checked build:', ok)
        sys.exit(0 if ok else 2)
    if a and a[0] == '--replay':
        sys.exit(replay(a[1]))
    if not a or a[0] not in PROPS:
        print(__doc__)
        sys.exit(2)
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    except ValueError:
        seed = 1
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    c = Check(a[0], tier, seed)
    rc = c.go()
    print('%s %s: %s; %d evaluations, %d library calls, %.0f s' % (a[0], tier, 'violated' if rc else 'held on everything observed',
          sum(x['evaluations'] for x in c.runs) + sum(m.get('calls_observed', 0) for m in c.monitors.values()), sum(x['library_calls'] for x in c.runs), time.time() - T0))
    sys.exit(rc)


if __name__ == '__main__':
    main()
