"""Jobs decided by CBMC: the C sources of the tree are compiled with goto-cc together
with a harness, every loop is unwound up to a bound (checked by unwinding assertions)
and the SAT solver decides all assertions over all inputs. Counterexamples are replayed
on a gcc build of the same sources before they are reported."""
import os, re, subprocess, time, threading
from concurrent.futures import ThreadPoolExecutor
import vk

SEM = threading.Semaphore(vk.NPROC)
LOCK = threading.Lock()

FLAGS = '--no-standard-checks --slice-formula --unwinding-assertions --no-malloc-may-fail --trace --verbosity 9'.split()


class CbmcJob:
    """cases: list of define lists, one solver run each. tables: {function: [sources]}; the body of the generated
    automaton function is replaced by a formula that lists its (finite) table. reach: defines of runs in which every
    assertion must fail (the harness reaches what it is about)."""

    def __init__(self, name, harness, sources, cases, reach=(), tables=None, unwind=20, flags=(), edit=None, tiers=('quick', 'thorough'), time=(400, 3000), pre=None):
        self.pre = pre
        self.name, self.harness, self.sources, self.cases, self.reach, self.tables = name, harness, sources, cases, list(reach), tables or {}
        self.unwind, self.flags, self.edit, self.tiers, self.time = unwind, list(flags), edit or {}, tiers, time

    def run(self, check):
        t0 = time.time()
        tree = check.tree
        d = '%s/cb_%s' % (check.root, re.sub(r'\W', '_', self.name))
        os.makedirs(d)
        with LOCK:
            if self.pre:
                self.pre(tree, d)
        inc = ['-I' + d, '-I' + tree.src, '-I' + vk.VERIF + '/harness', '-DHAVE_MMAP=1', '-DDEFAULT_DICTIONARY="dict"']

        def must(cmd, **kw):
            rc, o = vk.sh(cmd, **kw)
            if rc:
                raise vk.BuildError(' '.join(cmd) + '\n' + o[-2000:])
            return o
        srcs = []
        for s in self.sources:
            p = tree.src + '/' + s
            if s in self.edit:
                txt = open(p, errors='replace').read()
                for a, b in self.edit[s]:
                    txt = re.sub(a, b, txt)
                p = d + '/' + s
                open(p, 'w').write(txt)
            srcs.append(p)
        forms = []
        for fn, fs in self.tables.items():
            exe = '%s/dump_%s' % (d, fn)
            must([vk.GCC, '-w'] + inc + ['-DFN=' + fn, vk.VERIF + '/harness/dfadump.c'] + [tree.src + '/' + f for f in fs] + ['-o', exe])
            out = subprocess.run([exe], stdout=subprocess.PIPE, timeout=60)
            if out.returncode:
                raise vk.BuildError('table dump of %s failed' % fn)
            open(exe + '.c', 'wb').write(out.stdout)
            forms.append(exe + '.c')
        funcs = set()
        lock = threading.Lock()
        budget = self.time[0 if check.tier == 'quick' else 1]

        def one(a):
            with SEM:
                return one_(a)

        def one_(a):
            i, defs, reach = a
            left = budget - (time.time() - t0)
            if left < 5:
                return (defs, reach, None, '', 0)
            b = '%s/c%d' % (d, i)
            must(['goto-cc'] + list(defs) + inc + [vk.VERIF + '/harness/' + self.harness] + srcs + ['-o', b + '.1'])
            if forms:
                must(['goto-instrument'] + sum([['--remove-function-body', f] for f in self.tables], []) + [b + '.1', b + '.2'])
                must(['goto-cc'] + forms + [b + '.2', '-o', b + '.gb'])
            else:
                os.rename(b + '.1', b + '.gb')
            if i == 0:
                rc, o = vk.sh(['goto-instrument', '--reachable-call-graph', b + '.gb'])
                with lock:
                    for m in re.finditer(r'^(\S+) -> (\S+)$', o, re.M):
                        funcs.update(m.groups())
            t = time.time()
            try:
                r = subprocess.run(['cbmc', b + '.gb'] + FLAGS + self.flags + ['--unwind', str(self.unwind)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=left)
                o = r.stdout.decode('latin-1')
            except subprocess.TimeoutExpired:
                return (defs, reach, None, '', time.time() - t)
            os.unlink(b + '.gb')
            if r.returncode not in (0, 10):
                raise vk.BuildError('cbmc failed on %s %s: %s' % (self.name, defs, o[-1500:]))
            return (defs, reach, r.returncode, o, time.time() - t)
        work = [(i, x, False) for i, x in enumerate(self.cases)]
        work += [(len(work) + i, x, True) for i, x in enumerate(self.reach)]
        with ThreadPoolExecutor(vk.NPROC) as ex:
            res = list(ex.map(one, work))
        with LOCK:
            self.collect(check, res, d, inc, srcs, must, funcs, t0)

    def collect(self, check, res, d, inc, srcs, must, funcs, t0):
        c = check.cov
        nprop = nviol = nconf = 0
        reached = []
        for defs, reach, rc, o, w in res:
            if rc is None:
                check.complete = False
                check.notes.append('job %s case %s stopped before it was decided' % (self.name, defs))
                continue
            props = re.findall(r'^\[(\S+)\] (?:line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$', o, re.M)
            it = re.search(r'\*\* (\d+) of (\d+) failed \((\d+) iteration', o)
            c['queries'] += int(it.group(3)) if it else 1
            c['solver_s'] += sum(float(x) for x in re.findall(r'^Runtime decision procedure: ([\d.e-]+)s', o, re.M))
            if reach:
                miss = [p for p in props if p[1].startswith('reach') and p[2] != 'FAILURE']
                reached += [p[1] for p in props if p[1].startswith('reach')]
                c['queries_sat'] += len(props) - len(miss)
                if miss:
                    check.complete = False
                    check.notes.append('job %s: not reached: %s' % (self.name, ', '.join(p[1] for p in miss)))
                continue
            nprop += len(props)
            c['assertions'] += len(props); c['symbolic_assertions'] += len(props); c['states'] += 1
            c['queries_unsat'] += 1 if rc == 0 else 0
            for pid, msg, st in props:
                if st == 'SUCCESS':
                    continue
                if st != 'FAILURE':
                    check.complete = False
                    check.notes.append('job %s %s: %s %s' % (self.name, defs, msg, st))
                    continue
                c['queries_sat'] += 1
                nviol += 1
                m = re.search(r'^Trace for %s:(.*?)(?=^Trace for |^\*\* )' % re.escape(pid), o, re.M | re.S)
                vals = {}
                for k, v in re.findall(r'^\s*nd_v\[(\d+)l?\]=(?:\'.*?\' \()?(\d+)', m.group(1) if m else '', re.M):
                    vals[int(k)] = int(v)
                model = [('nd%d' % k, vals.get(k, 0)) for k in range(max(vals) + 1 if vals else 0)]
                exe = '%s/native_%s' % (d, re.sub(r'\W', '_', ''.join(defs)))
                if not os.path.exists(exe):
                    must([vk.GCC, '-O1', '-g', '-w', '-fsanitize=address', '-DSX_NATIVE'] + list(defs) + inc + [vk.VERIF + '/harness/' + self.harness] + srcs + ['-o', exe])
                rc2, o2, e2 = vk.native_run(exe, model)
                conf = {66: 'property assertion failed', 99: 'AddressSanitizer error', 'timeout': 'does not terminate'}.get(rc2)
                if conf is None and isinstance(rc2, int) and rc2 < 0:
                    conf = 'killed by signal %d' % -rc2
                if conf is None:
                    check.complete = False
                    check.notes.append('job %s %s: unconfirmed counterexample to "%s" (native rc=%s) %s' % (self.name, defs, msg, rc2, model))
                    continue
                nconf += 1
                check.report(self.name, 'assert', msg, self.harness, model, conf, e2[:4000])
        check.funcs |= set(f for f in funcs if not f.startswith('__CPROVER') and f not in ('nd', '__CPROVER__start'))
        check.jobs.append(dict(job=self.name, harness=self.harness, cases=len(self.cases), assertions=nprop, violations=nviol, confirmed=nconf, reached=sorted(set(reached)), wall_s=round(time.time() - t0, 1), slowest_case_s=round(max(r[4] for r in res), 1)))
