"""Runner shared by all checks: builds the code under test from /repo's current
working tree (scratch copy), compiles it with a harness to LLVM bitcode, lets the
symbolic executor decide the harness's assertions, replays every counterexample
(and a sample of the explored paths) against a native build of the same code and
writes the evidence file."""
import os, sys, re, json, subprocess, tempfile, shutil, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VK_REPO', '/repo')
ENG = VERIF + '/engine'
SX = VERIF + '/.build/sx'
CLANG, LINK, OPT, GCC = '/usr/bin/clang-18', '/usr/bin/llvm-link-18', '/usr/bin/opt-18', '/usr/bin/gcc'
BCFLAGS = '-O1 -ffp-contract=off -fno-pic -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-builtin -fno-stack-protector -w -fcommon -emit-llvm -c'.split()
NPROC = os.cpu_count() or 8
GEN = 'rpc_tab.c rpc_full.c nonterm.c elitabs.c trctabs.c trcftabs.c morf_dfa.c morf_lex.c morfvlex.c morf_enc.c bctables.c stag_dfa.c canonluj.inc version.h cm_scan.c'.split()


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    return r.returncode, r.stdout


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def ensure_engine():
    src = b''.join(open(ENG + '/' + f, 'rb').read() for f in ('sx.cpp', 'expr.h', 'build.sh'))
    h = hashlib.sha256(src).hexdigest()
    stamp = SX + '.stamp'
    if os.path.exists(SX) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    rc, out = sh(['bash', ENG + '/build.sh', SX])
    if rc:
        raise BuildError('engine build failed:\n' + out)
    open(stamp, 'w').write(h)


class Tree:
    """A scratch copy of /repo's working tree with the generated sources."""

    def __init__(self, root):
        self.src = root + '/src'
        self.root = root
        os.makedirs(self.src)
        env = dict(os.environ, GIT_OPTIONAL_LOCKS='0')
        ls = subprocess.run(['git', '-c', 'safe.directory=*', '-C', REPO, 'ls-files', '-co', '--exclude-standard', '-z'], stdout=subprocess.PIPE, env=env)
        if ls.returncode:
            raise BuildError('git ls-files failed')
        for f in ls.stdout.split(b'\0'):
            f = f.decode()
            if not f or f.startswith('tests/'):
                continue
            s = REPO + '/' + f
            if os.path.isfile(s):
                d = self.src + '/' + f
                os.makedirs(os.path.dirname(d), exist_ok=True)
                shutil.copy2(s, d)
        rc, out = sh(['perl', 'config.pl', '--prefix=/usr/local'], cwd=self.src)
        if rc:
            raise BuildError('config.pl failed:\n' + out)
        # serially: the rules with several targets (bison) run once per target under -j and can garble each other's output
        env = {k: v for k, v in os.environ.items() if k not in ('MAKEFLAGS', 'MFLAGS', 'MAKELEVEL')}
        rc, out = sh(['make', '-j1'] + GEN + ['CFLAGS=-O0 -w'], cwd=self.src, env=env)
        if rc:
            raise BuildError('generating sources failed:\n' + out[-4000:])
        mk = open(self.src + '/Makefile.in').read().replace('\\\n', ' ')

        def objs(var):
            m = re.search(r'^%s\s*=(.*)$' % var, mk, re.M)
            return [o[:-2] for o in m.group(1).split() if o.endswith('.o')]

        def rule(t):
            m = re.search(r'^%s\s*:(.*)$' % t, mk, re.M)
            return [o[:-2] for o in m.group(1).split() if o.endswith('.o')]
        self.progs = {'jbofihe': objs('OBJS2'), 'cmafihe': objs('CM_OBJS'), 'vlatai': rule('vlatai'), 'smujajgau': rule('smujajgau'), 'jvocuhadju': rule('jvocuhadju')}
        self.bc = {}

    def srcof(self, obj):
        if obj == 'vlatai':
            return self.src + '/morf.c', ['-DTEST_MORF']
        return self.src + '/' + obj + '.c', []


def compile_bc(tree, src, out, extra=(), shim=True):
    cmd = [CLANG] + BCFLAGS + ['-I' + ENG, '-I' + VERIF + '/harness', '-I' + tree.src, '-DHAVE_MMAP=1', '-DDEFAULT_DICTIONARY="dict"'] + list(extra) + (['-include', ENG + '/sxshim.h'] if shim else []) + [src, '-o', out]
    rc, o = sh(cmd)
    if rc:
        raise BuildError('compiling %s failed:\n%s' % (src, o[-3000:]))
    return out


def compile_native(tree, src, out, extra=(), shim=True, asan=False, msan=False):
    cmd = (['clang', '-O1', '-g', '-fsanitize=memory', '-fno-omit-frame-pointer'] if msan else [GCC]) + (['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'] if asan else [] if msan else ['-O0']) + ['-w', '-fcommon', '-fno-builtin', '-DSX_NATIVE', '-I' + ENG, '-I' + VERIF + '/harness', '-I' + tree.src, '-DHAVE_MMAP=1', '-DDEFAULT_DICTIONARY="dict"', '-c'] + list(extra) + (['-include', ENG + '/sxshim.h'] if shim else []) + [src, '-o', out]
    rc, o = sh(cmd)
    if rc:
        raise BuildError('native compile of %s failed:\n%s' % (src, o[-3000:]))
    return out


class Job:
    """One symbolic run: a harness linked with (copies of) the programs' code.

    units: list of program names or 'file.c' sources; a unit may be a tuple
    (unit, prefix, defines) in which case the copy is internalised so that several
    programs (or several copies of one program) live in one module; only
    <prefix>_main and names listed in export stay visible."""

    def __init__(self, name, harness, units, defs=(), time=(60, 600), fill=None, max_inst=None, pre=None, mux=None, keep=False, note='', tiers=('quick', 'thorough'), target=None, codedefs=()):
        self.name, self.harness, self.units, self.defs, self.time = name, harness, units, list(defs), time
        self.fill, self.max_inst, self.pre, self.mux, self.keep, self.note, self.tiers, self.target = fill, max_inst, pre, mux, keep, note, tiers, target
        self.codedefs = list(codedefs)


def unit_sources(tree, unit):
    if unit.endswith('.c'):
        return [(tree.src + '/' + unit, [])]
    return [tree.srcof(o) for o in tree.progs[unit]]


class Builder:
    def __init__(self, tree):
        self.tree, self.cache = tree, {}
        self.pool = ThreadPoolExecutor(NPROC)
        self.dir = tree.root + '/obj'
        os.makedirs(self.dir, exist_ok=True)

    def _obj(self, src, flags, mode, shim=True):
        key = (src, tuple(flags), mode, shim)
        if key not in self.cache:
            out = '%s/%s_%s_%s.%s' % (self.dir, os.path.basename(src), hashlib.md5(repr(key).encode()).hexdigest()[:8], mode, 'bc' if mode == 'bc' else 'o')
            if mode == 'bc':
                self.cache[key] = self.pool.submit(compile_bc, self.tree, src, out, flags, shim)
            else:
                self.cache[key] = self.pool.submit(compile_native, self.tree, src, out, flags, shim, mode == 'asan', mode == 'msan')
        return self.cache[key]

    def build(self, job, mode):
        """mode: bc, nat, asan, msan -> path of the linked module/executable"""
        tree = self.tree
        if job.pre:
            job.pre(tree)
        futs = []   # (unit index, future)
        for ui, u in enumerate(job.units):
            name, prefix, extra, export = u if isinstance(u, tuple) else (u, 'jbo', [], [])
            multi = isinstance(u, tuple)
            for src, fl in unit_sources(tree, name):
                futs.append((ui if multi else -1, self._obj(src, list(fl) + ['-Dmain=%s_main' % prefix] + list(extra) + job.codedefs, mode)))
        hs = job.harness if isinstance(job.harness, (list, tuple)) else [job.harness]
        hf = [self._obj(VERIF + '/harness/' + h, job.defs, mode, shim=False) for h in hs]
        hf.append(self._obj(ENG + '/sxlibc.c', [], mode, shim=False))
        if mode != 'bc':
            hf.append(self._obj(ENG + '/sxnative.c', [], mode, shim=False))
        groups = {}
        for ui, f in futs:
            groups.setdefault(ui, []).append(f.result())
        final = [f.result() for f in hf]
        base = '%s/%s_%s' % (self.dir, re.sub(r'\W', '_', job.name), mode)
        for ui, objs in groups.items():
            if ui < 0:
                final += objs
                continue
            name, prefix, extra, export = job.units[ui]
            keep = [prefix + '_main'] + list(export)
            if mode == 'bc':
                t = '%s_%d.bc' % (base, ui)
                for cmd in ([LINK] + objs + ['-o', t + '.l'], [OPT, '-passes=internalize', '-internalize-public-api-list=' + ','.join(keep), t + '.l', '-o', t]):
                    rc, o = sh(cmd)
                    if rc:
                        raise BuildError(' '.join(cmd) + '\n' + o)
                final.append(t)
            else:
                t = '%s_%d.o' % (base, ui)
                rc, o = sh(['ld', '-r', '-d'] + objs + ['-o', t])
                if rc:
                    raise BuildError('ld -r: ' + o)
                rc, o = sh(['objcopy'] + sum([['-G', k] for k in keep], []) + [t])
                if rc:
                    raise BuildError('objcopy: ' + o)
                final.append(t)
        if mode == 'bc':
            out = base + '.bc'
            rc, o = sh([LINK] + final + ['-o', out])
        else:
            out = base
            rc, o = sh((['clang', '-fsanitize=memory'] if mode == 'msan' else [GCC]) + (['-fsanitize=address'] if mode == 'asan' else []) + ['-fcommon'] + final + ['-o', out, '-lm'])
        if rc:
            raise BuildError('link failed:\n' + o[-3000:])
        return out


def native_run(exe, model, obs=None, timeout=20, show=False):
    with tempfile.NamedTemporaryFile('w', suffix='.in', delete=False) as f:
        f.write(''.join('%d\n' % v for _, v in model))
    env = dict(os.environ, SX_REPLAY=f.name, MSAN_OPTIONS='exitcode=98', ASAN_OPTIONS='exitcode=99:detect_leaks=0:detect_stack_use_after_return=0:max_allocation_size_mb=4000')
    if obs:
        env['SX_OBS'] = obs
    if show:
        env['SX_SHOW'] = '1'
    try:
        r = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd='/tmp')
        rc, o, e = r.returncode, r.stdout.decode('latin-1'), r.stderr.decode('latin-1')
    except subprocess.TimeoutExpired:
        rc, o, e = 'timeout', '', ''
    os.unlink(f.name)
    return rc, o, e


def known_findings():
    """known_findings.txt: lines 'known: property=<id> match=<regex> <text>' or 'fixed: ...' (suppress nothing)."""
    res = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) job=(\S+) match=/(.*?)/ (.*)$', l.strip())
            if m:
                res.append((m.group(1), m.group(2), re.compile(m.group(3)), m.group(4)))
    return res


class Check:
    def __init__(self, pid, level='model_checking', assumptions=(), bounds=''):
        self.pid, self.level, self.assumptions, self.bounds = pid, level, list(assumptions), bounds
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.viol, self.known, self.jobs, self.notes = [], [], [], []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, instructions=0, queries=0, queries_sat=0, queries_unsat=0, queries_unknown=0, assertions=0, solver_s=0.0, domain_decisions=0, domain_decisions_confirmed_by_z3=0, symbolic_assertions=0)
        self.funcs = set()
        self.samples = []
        self.complete = True
        shutil.rmtree('%s/evidence/replays/%s' % (VERIF, pid), ignore_errors=True)
        self.root = tempfile.mkdtemp(prefix='vk_%s_' % pid)

    def run(self, jobs, filt=None):
        try:
            ensure_engine()
            self.tree = Tree(self.root)
            self.b = Builder(self.tree)
            todo = [j for j in jobs if self.tier in j.tiers and (not filt or re.search(filt, j.name))]
            other = [j for j in todo if not isinstance(j, Job)]
            with ThreadPoolExecutor(max(1, len(other))) as ex:
                list(ex.map(lambda j: j.run(self), other))
            for j in todo:
                if isinstance(j, Job):
                    self.run_job(j)
            return self.finish()
        except BuildError as e:
            log('BUILD-ERROR', e)
            return 2
        finally:
            if not os.environ.get('VK_KEEP'):
                shutil.rmtree(self.root, ignore_errors=True)
            else:
                log('kept', self.root)

    def replay_dir(self):
        d = '%s/evidence/replays/%s' % (VERIF, self.pid)
        os.makedirs(d, exist_ok=True)
        return d

    def report(self, job, kind, msg, where, model, confirm, text):
        sig = '%s: %s at %s' % (kind, msg, where)
        for (p, jn, rx, desc) in known_findings():
            if p == self.pid and re.fullmatch(jn.replace('*', '.*'), job) and rx.search(sig):
                line = '%s [job %s: %s]' % (desc, job, sig)
                if desc not in [k[0] for k in self.known]:
                    self.known.append((desc, line))
                return
        if any(v['job'] == job and v['kind'] == kind and v['msg'] == msg and v['where'] == where for v in self.viol):
            return
        n = len(self.viol)
        p = '%s/%s_%d.txt' % (self.replay_dir(), re.sub(r'\W', '_', job), n)
        with open(p, 'w') as f:
            f.write('property %s\njob %s\nkind %s\nmessage %s\nwhere %s\nnative replay: %s\ninputs (name value char):\n' % (self.pid, job, kind, msg, where, confirm))
            for nme, v in model:
                f.write('  %s = %d %r\n' % (nme, v, chr(v)))
            f.write('\n' + text)
        self.viol.append(dict(job=job, kind=kind, msg=msg, where=where, replay=p))
        log('violation: %s (%s); native: %s' % (sig, job, confirm))

    def run_job(self, job):
        t0 = time.time()
        bc = self.b.build(job, 'bc')
        budget = job.time[0 if self.tier == 'quick' else 1]
        outj = bc + '.json'
        cmd = [SX, '--jobs', str(NPROC), '--time', str(budget), '--out', outj, '--seed', str(self.seed)]
        if self.tier == 'thorough':
            cmd += ['--cross', '1']
        if job.fill is not None:
            cmd += ['--fill', str(job.fill)]
        if job.max_inst:
            cmd += ['--max-inst', str(job.max_inst)]
        if job.mux is not None:
            cmd += ['--mux', str(job.mux)]
        if job.target is not None:
            cmd += ['--target', str(job.target)]
        if job.keep:
            cmd += ['--keep-going', '--max-viol', '40']
        pr = subprocess.run(cmd + [bc], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
        if pr.returncode or not os.path.exists(outj):
            log('engine failed on job %s: %s' % (job.name, pr.stderr[-2000:]))
            raise BuildError('engine failure')
        r = json.load(open(outj))
        for l in pr.stderr.splitlines():
            log('  [%s] %s' % (job.name, l))
        c = self.cov
        c['states'] += r['paths']; c['transitions'] += r['forks']; c['instructions'] += r['insts']
        c['queries'] += r['queries']; c['queries_sat'] += r['sat']; c['queries_unsat'] += r['unsat']; c['queries_unknown'] += r['unknown']
        c['assertions'] += r['asserts']; c['solver_s'] += r['solver_s']; c['domain_decisions'] += r['domain_decisions']; c['domain_decisions_confirmed_by_z3'] += r['domain_confirmed_by_z3']; c['symbolic_assertions'] += r['assert_queries']
        self.funcs |= set(k for k in r['functions'] if not k.startswith('sx_'))
        if not r['complete'] and not r['violations']:
            self.complete = False
            self.notes.append('job %s stopped before covering its bounds (timeout=%s)' % (job.name, r['timeout']))
        # sampled paths against the native build
        val = 0
        mism = []
        if r['samples']:
            exe = self.b.build(job, 'nat')
            for i, s in enumerate(r['samples'][:8 if self.tier == 'quick' else 40]):
                ob = '%s/obs%d' % (self.root, i)
                rc, o, e = native_run(exe, s['model'], ob)
                got = [int(x) for x in open(ob).read().split()] if os.path.exists(ob) else None
                if rc == 0 and got == s['obs']:
                    val += 1
                else:
                    mism.append((s, rc, got))
                if len(self.samples) < 12:
                    self.samples.append('%s: inputs %s -> observations %s, native rc=%s' % (job.name, ' '.join('%s=%s' % (n, repr(chr(v)) if 32 <= v < 127 else v) for n, v in s['model'])[:300], s['obs'][:12], rc))
        c['traces_validated_against_impl'] += val
        if mism:
            self.notes.append('job %s: %d sampled paths did not agree with the native build' % (job.name, len(mism)))
            self.complete = False
            log('  [%s] MISMATCH native vs symbolic: %s' % (job.name, mism[:2]))
        nconf = 0
        if r['violations']:
            exe = self.b.build(job, 'asan')
            for v in r['violations']:
                rc, o, e = native_run(exe, v['model'], show=True)
                conf = {66: 'property assertion failed', 67: 'program aborted', 99: 'AddressSanitizer error', 'timeout': 'does not terminate'}.get(rc)
                if conf is None and isinstance(rc, int) and rc < 0:
                    conf = 'killed by signal %d' % -rc
                if conf is None:
                    # what an uninitialised value does natively is up to the stack: ask MemorySanitizer whether one was used
                    try:
                        rm, om, em = native_run(self.b.build(job, 'msan'), v['model'], show=True)
                        if rm == 98 and 'use-of-uninitialized-value' in em:
                            conf, o, e = 'MemorySanitizer: use of an uninitialised value', om, em
                    except BuildError as x:
                        log('  [%s] no MemorySanitizer build: %s' % (job.name, str(x)[:200]))
                if conf is None:
                    self.notes.append('job %s: unconfirmed counterexample %s/%s at %s (native rc=%s)' % (job.name, v['kind'], v['msg'], v['where'], rc))
                    log('  [%s] UNCONFIRMED %s %s at %s rc=%s %s' % (job.name, v['kind'], v['msg'], v['where'], rc, e[:300]))
                    self.complete = False
                    continue
                nconf += 1
                self.report(job.name, v['kind'], v['msg'], v['where'], v['model'], conf, 'stdout:\n%s\nstderr:\n%s\n' % (o[:6000], e[:6000]))
        self.jobs.append(dict(job=job.name, note=job.note, defs=job.defs, paths=r['paths'], assumed_out=r['assumed_out'], forks=r['forks'], insts=r['insts'], queries=r['queries'], solver_s=r['solver_s'], asserts=r['asserts'], complete=r['complete'], violations=len(r['violations']), confirmed=nconf, validated=val, reached=r['reached'], wall_s=round(time.time() - t0, 1)))

    def finish(self):
        wall = time.time() - self.t0
        self.cov['solver_s'] = round(self.cov['solver_s'], 3)
        cov = dict(self.cov)
        cov.update(samples=self.samples, jobs=self.jobs, bounds=self.bounds, complete_within_bounds=self.complete and not self.viol, functions_encoded=sorted(self.funcs), functions_encoded_count=len(self.funcs), notes=self.notes, known_findings=[k[1] for k in self.known])
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, wall_s=round(wall, 2), assumptions=self.assumptions, violations=len(self.viol))
        cov['violations'] = [dict(replay=v['replay'], what='%s: %s at %s' % (v['kind'], v['msg'], v['where'])) for v in self.viol]
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        tmp = '%s/evidence/.%s.tmp' % (VERIF, self.pid)
        json.dump(ev, open(tmp, 'w'), indent=1)
        os.replace(tmp, '%s/evidence/%s.json' % (VERIF, self.pid))
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k[1]))
        for n in self.notes:
            log('note:', n)
        if self.viol:
            for v in self.viol:
                print('VIOLATION property=%s replay=%s' % (self.pid, v['replay']))
            return 1
        if self.cov['states'] == 0 and self.cov['queries'] == 0:
            log('nothing was explored')
            return 2
        print('OK property=%s paths=%d queries=%d complete=%s wall=%.1fs' % (self.pid, self.cov['states'], self.cov['queries'], self.complete, wall))
        return 0
