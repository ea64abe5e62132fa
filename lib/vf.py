"""Shared machinery of the checks: builds harnesses from /repo's working tree,
explores executions, lets TLC check the specifications and validate histories,
and reports.  See DESIGN.md."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(V, 'spec')
# Where to leave everything (another place for experiments).
OUT = os.environ.get('VERIF_OUT', V)
NPROC = min(8, os.cpu_count() or 8)


def canon(text):
    """Calls next to each other, and returns next to each other, commute: a
    history has an explanation iff the one with such runs sorted has one."""
    ev = re.findall(r'\[(?:[^\[\]]|\[[^\]]*\])*\]', text[1:-1])
    out, i = [], 0
    while i < len(ev):
        tag = ev[i][:5]
        if tag in ('["c",', '["r",'):
            j = i
            while j < len(ev) and ev[j][:5] == tag:
                j += 1
            out += sorted(ev[i:j])
            i = j
        else:
            out.append(ev[i])
            i += 1
    return '[' + ','.join(out) + ']'


# TLC's integers have 32 bits, and reading larger ones wraps them around silently:
BIG = re.compile(r'"(?:[^"\\]|\\.)*"|-?\d{10,}')


def clamp(m):
    x = m.group(0)
    if x[0] == '"' or -2**31 <= int(x) < 2**31:
        return x
    if os.environ.get('VF_BIG'):
        sys.stderr.write('BIG %s\n' % x)
    return '-2147483646' if x[0] == '-' else '2147483646'


class CheckError(Exception):
    """The check itself could not do its work (error exit, never a verdict)."""


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          timeout=timeout, text=True, **kw)


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.work = os.path.join(OUT, 'work', pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0,
                        samples=[], executions=0, trace_states=0, trace_events=0,
                        model_checks=[], runs=[], rejected=0)
        self.violations = []
        self.known = []
        self.assumptions = []
        self.inc = None

    @property
    def quick(self):
        return self.tier == 'quick'

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # ------------------------------------------------------------- build --
    def include_dir(self):
        if not self.inc:
            self.inc = os.path.join(self.work, 'inc')
            r = sh(['bash', os.path.join(V, 'lib', 'mkinc.sh'), self.inc],
                   env=dict(os.environ, REPO=REPO))
            if r.returncode:
                raise CheckError('include tree: ' + r.stderr)
        return self.inc

    def runtime(self):
        src = os.path.join(V, 'harness', 'rt', 'vsched.cpp')
        h = hashlib.sha256()
        for f in (src, src.replace('.cpp', '.h')):
            h.update(open(f, 'rb').read())
        d = os.path.join(V, 'work', 'rt')
        os.makedirs(d, exist_ok=True)
        obj = os.path.join(d, 'vsched-%s.o' % h.hexdigest()[:16])
        if not os.path.exists(obj):
            tmp = obj + '.%d.tmp' % os.getpid()
            r = sh(['clang++', '-std=c++17', '-O2', '-g', '-c', src, '-o', tmp])
            if r.returncode:
                raise CheckError('vsched: ' + r.stderr[-3000:])
            os.replace(tmp, obj)
        return obj

    def build(self, name, defs=(), opt='-O1'):
        """Builds harness/<name>.cpp; returns the program."""
        out = os.path.join(self.work, name + ''.join(defs))
        src = os.path.join(V, 'harness', name + '.cpp')
        obj = out + '.o'
        r = sh(['clang++', '-std=c++14', opt, '-g', '-fsanitize=thread',
                '-femulated-tls', '-fno-omit-frame-pointer', '-w',
                '-I' + os.path.join(V, 'harness', 'rt'), '-I' + os.path.join(V, 'harness'),
                '-I' + self.include_dir()] + ['-D' + d for d in defs]
               + ['-c', src, '-o', obj], timeout=300)
        if r.returncode:
            raise CheckError('building %s failed:\n%s' % (name, r.stderr[-4000:]))
        r = sh(['clang++', '-rdynamic', obj, self.runtime(), '-o', out,
                '-ldl', '-lpthread', '-latomic'])
        if r.returncode:
            raise CheckError('linking %s failed:\n%s' % (name, r.stderr[-4000:]))
        return out

    # ----------------------------------------------------------- explore --
    def explore(self, prog, scenario, execs=0, dfs=0, dfs_execs=0, hb=False,
                budget=None, extra=(), env=None, seed=None, commute=False):
        """Runs executions; returns the distinct histories found."""
        budget = budget or self.n(120, 600)
        out = os.path.join(self.work, 'hist.%s.%d' % (scenario, len(self.cov['runs'])))
        cmd = [prog, '--scenario', scenario, '--execs', str(execs), '--dfs', str(dfs),
               '--dfs-execs', str(dfs_execs), '--seed', str(seed or self.seed),
               '--out', out, '--budget', str(budget), '--jobs', str(NPROC)] + list(extra)
        if hb:
            cmd.append('--hb')
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = sh(cmd, timeout=budget + 120, env=e)
        except subprocess.TimeoutExpired:
            raise CheckError('exploring %s timed out' % scenario)
        if r.returncode:
            raise CheckError('exploring %s: exit %d: %s' % (scenario, r.returncode,
                                                            r.stderr[-2000:]))
        info = json.loads(r.stdout.strip().splitlines()[-1])
        hists = {}
        for f in sorted(glob.glob(out + '.*')):
            for line in open(f):
                p = line.rstrip('\n').split(' ', 3)
                if len(p) < 4 or not p[3].endswith(']'):
                    continue
                text = canon(p[3]) if commute else p[3]
                key = (p[0], p[1] if hb else '', text)
                if key not in hists:
                    hists[key] = dict(scenario=p[0], variant=int(p[1]), sched=p[2],
                                      text=text, raw=p[3], prog=prog, hb=hb, extra=list(extra),
                                      env=env or {}, seed=seed or self.seed)
            os.remove(f)
        info.update(scenario=scenario, distinct=len(hists), hb=hb)
        self.cov['runs'].append(info)
        self.cov['executions'] += info['executions']
        return list(hists.values())

    def replay(self, h):
        cmd = [h['prog'], '--scenario', h['scenario'], '--variant', str(h['variant']),
               '--replay', h['sched'], '--seed', str(h['seed'])] + h['extra']
        if h['hb']:
            cmd.append('--hb')
        e = dict(os.environ)
        e.update(h['env'])
        try:
            r = sh(cmd, timeout=60, env=e)
        except subprocess.TimeoutExpired:
            return None
        p = r.stdout.rstrip('\n').split(' ', 3)
        return p[3] if len(p) == 4 else None

    def pick(self, hists, n, keep=None):
        """At most n histories: every one `keep` wants (crashes, hangs always),
        a deterministic sample of the others, all (scenario, variant)s alike."""
        must = [h for h in hists if '"crash"' in h['text'] or '"hang"' in h['text']
                or (keep and keep(h))]
        if len(must) > n:
            must = must[:n]
        ids = set(map(id, must))
        groups = {}
        for h in hists:
            if id(h) not in ids:
                groups.setdefault((h['scenario'], h['variant']), []).append(h)
        for g in groups.values():
            g.sort(key=lambda h: hashlib.md5((str(self.seed) + h['text']).encode()).digest())
        out = list(must)
        i = 0
        while len(out) < n and groups:
            for k in list(groups):
                if i < len(groups[k]):
                    if len(out) < n:
                        out.append(groups[k][i])
                else:
                    del groups[k]
            i += 1
        return out

    # ---------------------------------------------------------------- TLC --
    def _tlc(self, module, cfg, env=None, workers=1, heap='2g', timeout=800, args=(),
             fast=True):
        self._n = getattr(self, '_n', 0) + 1
        meta = os.path.join(self.work, 'tlc%d_%d' % (os.getpid(), self._n))
        shutil.rmtree(meta, ignore_errors=True)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
               '-Xmx' + heap, '-Xss32m']
        if fast:
            cmd += ['-XX:TieredStopAtLevel=1']
        cmd += ['-cp', JAR, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
                '-noGenerateSpecTE', '-config', cfg] + list(args) + [module]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired:
            out, rc = 'TIMEOUT', -1
        shutil.rmtree(meta, ignore_errors=True)
        return out, rc

    def model_check(self, module, cfg=None, workers=4, heap='6g', timeout=700, args=()):
        """TLC on a closed model; any error is an error of the specification."""
        cfg = cfg or module + '.cfg'
        t = time.time()
        out, rc = self._tlc(module + '.tla', cfg, workers=workers, heap=heap,
                            timeout=timeout, args=args, fast=False)
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        if 'No error has been found' not in out or not m:
            sys.stderr.write(out[-6000:])
            raise CheckError('TLC on %s (%s) did not succeed' % (module, cfg))
        gen, dis = (int(x.replace(',', '')) for x in m[-1])
        d = re.search(r'depth of the complete state graph search is (\d+)', out)
        self.cov['states'] += dis
        self.cov['transitions'] += gen
        self.cov['model_checks'].append(dict(module=module, cfg=cfg, distinct=dis,
                                             generated=gen, depth=int(d.group(1)) if d else 0,
                                             wall_s=round(time.time() - t, 1)))
        return out

    def _validate_shard(self, args):
        module, cfg, texts, idx, timeout = args
        f = os.path.join(self.work, 'traces.%s.%d.ndjson' % (module, idx))
        with open(f, 'w') as o:
            for t in texts:
                o.write(BIG.sub(clamp, t) + '\n')
        out, rc = self._tlc(module + '.tla', cfg, env=dict(TRACES=f), timeout=timeout,
                            heap='3g')
        os.remove(f)
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        st = tuple(int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        if ('Parsing or semantic analysis failed' in out or 'Semantic errors' in out
                or 'Parse Error' in out or 'ConfigFileException' in out
                or 'configuration file' in out or 'TIMEOUT' == out):
            sys.stderr.write(out[-4000:])
            raise CheckError('TLC cannot run %s' % module)
        if 'TraceReport done' not in out:
            return dict(error=out, stats=st)
        rej = [(int(a), int(b)) for a, b in re.findall(
            r'<<"REJECTED", (\d+), (\d+)>>', out)]
        bad = re.findall(r'Invariant (\w+) is violated', out)
        if bad:
            return dict(error=out, stats=st)
        return dict(rejected=rej, stats=st)

    def validate(self, module, hists, cfg=None, per_shard=None, timeout=600):
        """Lets TLC decide which histories are behaviours of the trace spec.
        Returns [(history, longest matched prefix)] for the rejected ones."""
        if not hists:
            return []
        cfg = cfg or module + '.cfg'
        n = len(hists)
        shards = max(1, min(NPROC, (n + 39) // 40))
        if per_shard:
            shards = max(shards, (n + per_shard - 1) // per_shard)
        hists = sorted(hists, key=lambda h: -len(h['text']))
        parts = [hists[i::shards] for i in range(shards)]
        jobs = [(module, cfg, [h['text'] for h in p], i, timeout)
                for i, p in enumerate(parts)]
        rejected = []
        errors = []
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for p, r in zip(parts, ex.map(self._validate_shard, jobs)):
                self.cov['trace_states'] += r['stats'][1]
                if 'error' in r:
                    errors.append((p, r['error']))
                else:
                    for i, mx in r['rejected']:
                        rejected.append((p[i - 1], mx))
        for p, err in errors:
            # One history made TLC stop (an invariant of the specification, or
            # a value outside its types): find it.
            rejected += self._bisect(module, cfg, p, err, timeout)
        self.cov['traces_validated_against_impl'] += n
        self.cov['trace_events'] += sum(h['text'].count('[') - 1 for h in hists)
        if len(self.cov['samples']) < 6 and hists:
            for h in (hists[0], hists[len(hists) // 2]):
                self.cov['samples'].append(dict(spec=module, scenario=h['scenario'],
                                                variant=h['variant'],
                                                history=h['text'][:700]))
        return rejected

    def _bisect(self, module, cfg, part, err, timeout):
        if len(part) == 1:
            r = self._validate_shard((module, cfg, [part[0]['text']], 900, timeout))
            if 'error' not in r:
                return [(part[0], mx) for _, mx in r['rejected']]
            if re.search(r'Invariant \w+ is violated|evaluat|Attempted|not a function|'
                         r'not in the domain|out of domain|Exception', r['error']):
                part[0]['tlc'] = r['error'][-1500:]
                return [(part[0], 0)]
            sys.stderr.write(r['error'][-4000:])
            raise CheckError('TLC failed on a history (%s)' % module)
        mid = len(part) // 2
        res = []
        for k, half in enumerate((part[:mid], part[mid:])):
            r = self._validate_shard((module, cfg, [h['text'] for h in half], 800 + k, timeout))
            if 'error' in r:
                res += self._bisect(module, cfg, half, r['error'], timeout)
            else:
                res += [(half[i - 1], mx) for i, mx in r['rejected']]
            if res:
                break
        return res

    def check_histories(self, module, hists, cfg=None, label='', per_shard=None,
                        known=None, confirm=True):
        """validate() + confirmation by replay + violation reporting."""
        rej = self.validate(module, hists, cfg, per_shard=per_shard)
        self.cov['rejected'] += len(rej)
        rej.sort(key=lambda r: len(r[0]['text']))
        reported = 0
        odd = []
        for h, mx in rej:
            if reported >= 3 or (reported and odd) or len(odd) > 20:
                break
            if confirm and h.get('prog'):
                again = self.replay(h)
                if again != h['raw']:
                    odd.append((h, again))
                    continue
                r2 = self._validate_shard((module, cfg or module + '.cfg', [h['text']],
                                           700, 600))
                if 'error' not in r2 and not r2['rejected']:
                    raise CheckError('TLC verdict on %s is not repeatable' % h['sched'])
            ev = json.loads(h['text'])
            if known:
                k = known(ev)
                if k:
                    if k not in self.known:
                        self.known.append(k)
                    continue
            reported += 1
            self.violation(dict(spec=module, scenario=h['scenario'], variant=h['variant'],
                                schedule=h['sched'], seed=h['seed'],
                                program=os.path.basename(h.get('prog') or ''),
                                matched_prefix=mx - 1 if mx else None,
                                first_unexplained=(ev[mx - 1] if 0 < mx <= len(ev) else None),
                                tlc=h.get('tlc'), env=h.get('env'), extra=h.get('extra'),
                                history=ev, label=label,
                                how='events are checked against spec/%s.tla by TLC' % module))
        # What depends on more than the schedule (memory which was not set,
        # addresses) goes differently when replayed; what is rejected each time
        # it is tried is a violation all the same.
        if odd and not reported:
            for h, again in odd[:5]:
                if again is None:
                    continue
                r2 = self._validate_shard((module, cfg or module + '.cfg', [again], 700, 600))
                if 'error' in r2 or r2['rejected']:
                    ev = json.loads(again)
                    if known and known(ev):
                        continue
                    self.violation(dict(spec=module, scenario=h['scenario'], variant=h['variant'],
                                        schedule=h['sched'], seed=h['seed'],
                                        program=os.path.basename(h.get('prog') or ''),
                                        extra=h.get('extra'), env=h.get('env'), history=ev,
                                        first_history=json.loads(h['text']), label=label,
                                        how='rejected by spec/%s.tla, differently when replayed' % module))
                    return rej
            raise CheckError('execution %s of %s is not reproducible'
                             % (odd[0][0]['sched'], odd[0][0]['scenario']))
        return rej

    def races(self, prog, runs, execs, cap=400):
        """Happens-before validation of full access logs: runs = [(scenario,
        variants or None, extra)]."""
        for sc, variants, extra in runs:
            h = []
            for v in variants or [None]:
                x = list(extra) + (['--variant', str(v)] if v is not None else [])
                h += self.explore(prog, sc, execs=execs, dfs=1, dfs_execs=execs // 2,
                                  hb=True, extra=x)
            self.check_histories('Trace_HappensBefore', self.pick(h, cap), label='data race')

    # ------------------------------------------------------------- report --
    def violation(self, info):
        d = os.path.join(OUT, 'work', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s_%d.json' % (self.pid, len(self.violations) + 1))
        info['property'] = self.pid
        with open(path, 'w') as f:
            json.dump(info, f, indent=1)
        self.violations.append(path)
        print('VIOLATION property=%s replay=%s' % (self.pid, path))
        print('  %s scenario=%s variant=%s schedule=%s first unexplained event: %s' % (
            info.get('spec'), info.get('scenario'), info.get('variant'),
            str(info.get('schedule'))[:80], info.get('first_unexplained')))
        sys.stdout.flush()

    def finish(self, level='model_checking'):
        cov = self.cov
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
        with open(os.path.join(OUT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        print('%s %s: %d model states, %d executions, %d histories validated, %d violations, %.1fs'
              % (self.pid, self.tier, cov['states'], cov['executions'],
                 cov['traces_validated_against_impl'], len(self.violations),
                 time.time() - self.t0))
        return 1 if self.violations else 0


def main(pid, body):
    c = Check(pid)
    try:
        body(c)
        rc = c.finish()
    except CheckError as e:
        sys.stderr.write('ERROR in check %s: %s\n' % (pid, e))
        rc = 1 if c.violations else 2
        if rc == 1:
            c.finish()
    sys.exit(rc)
