"""Shared machinery of the checks: building the runner from /repo's working tree, running cases
against the real code, running TLC, evidence and verdicts."""
import base64, contextlib, concurrent.futures as cf, hashlib, json, os, random, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
EVID = os.path.join(VERIF, 'evidence')
JAVA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
MEMORY = 4 << 30
CORES = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """the machinery itself failed: neither a pass nor a violation"""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.violations = []   # (why, replay dict)
        self.known = []
        self.sched_ok = False
        self.cov = {}
        self.assumptions = []
        self.samples = []
        self.undecided = []
        self.bin = None
        self.procs_ok = False

    @property
    def quick(self):
        return self.tier == 'quick'

    def rng(self, *salt):
        return random.Random('%d/%s/%s' % (self.seed, self.prop, '/'.join(map(str, salt))))

    def path(self, *p):
        q = os.path.join(self.tmp, *p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        return q

    def violate(self, why, replay):
        self.violations.append((why, replay))

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def goenv():
    e = dict(os.environ)
    gobin = '/opt/veriftools/go1.27.3/bin'
    e.update(PATH=gobin + ':' + e.get('PATH', '/usr/bin:/bin'), HOME=e.get('HOME', '/root'),
             GOFLAGS='-mod=vendor', GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off')
    e.setdefault('GOCACHE', '/root/.cache/go-build')
    return e


def perturbed(ctx):
    """copies of the packages of /repo with scheduling points: {file: copy}, or None if that cannot be done"""
    tool = ctx.path('bin', 'perturb')
    src = os.path.join(HARNESS, 'perturb')
    e = goenv()
    e['GOFLAGS'] = ''
    if subprocess.run(['go', 'build', '-o', tool, '.'], cwd=src, env=e, capture_output=True, timeout=300).returncode:
        return None
    rep = {os.path.join(REPO, 'zzvsched', 'sched.go'): os.path.join(src, 'sched.go.txt')}
    out = os.path.dirname(ctx.path('perturbed', 'x'))
    for k, p in enumerate(('.', 'ihex32', 'srec19', 'a2l')):
        d = os.path.normpath(os.path.join(REPO, p))
        files = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.go') and not f.endswith('_test.go')]
        r = subprocess.run([tool, 'github.com/asap2Go/calibrationReader/zzvsched', out, str(2000 * k)] + files, capture_output=True, text=True, timeout=120)
        if r.returncode:
            return None
        rep.update(l.split(' ') for l in r.stdout.splitlines())
    return rep


def build(ctx, race=False):
    """builds the runner inside /repo's module through an overlay"""
    rdir = os.path.join(HARNESS, 'runner')
    sched = None if race else perturbed(ctx)
    for variant, points in (('on', True), ('on', False), ('off', True), ('off', False)):
        if points and sched is None:
            continue
        rep = dict(sched) if points else {}
        for f in ('main.go', 'flatten.go', 'shape.go'):
            rep[os.path.join(REPO, 'zzverif', f)] = os.path.join(rdir, f)
        rep[os.path.join(REPO, 'zzverif', 'procs.go')] = os.path.join(rdir, 'procs_%s.go' % variant)
        rep[os.path.join(REPO, 'zzverif', 'sched.go')] = os.path.join(rdir, 'sched_%s.go' % ('on' if points else 'off'))
        if variant == 'on':
            for p in ('ihex32', 'srec19', 'a2l'):
                rep[os.path.join(REPO, p, 'zz_verif_procs.go')] = os.path.join(rdir, 'procs_%s.txt' % p)
        ov = ctx.path('overlay-%s-%d.json' % (variant, points))
        json.dump({'Replace': rep}, open(ov, 'w'))
        out = ctx.path('bin', 'verifrun-race' if race else 'verifrun')
        cmd = ['go', 'build', '-overlay', ov, '-o', out] + (['-race'] if race else []) + ['./zzverif']
        r = subprocess.run(cmd, cwd=REPO, env=goenv(), capture_output=True, text=True, timeout=600)
        if r.returncode == 0:
            ctx.bin = out
            ctx.procs_ok = variant == 'on'
            if not race:
                ctx.sched_ok = points
            return out
    raise CheckError('cannot build the runner: ' + r.stderr[-2000:])


def _limit():
    # a parser that allocates without end must not take the machine down
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))


def _run_shard(ctx, k, cases, binary, cpus, env, budget, limit=_limit):
    cin, cout = ctx.path('shard', '%s.in' % k), ctx.path('shard', '%s.out' % k)
    if os.path.exists(cout):
        os.unlink(cout)
    with open(cin, 'w') as f:
        for c in cases:
            f.write(json.dumps(c) + '\n')
    cwd = ctx.path('cwd', str(k), 'x')
    cwd = os.path.dirname(cwd)
    res, skip, crashes, hangs, oom = {}, 0, 0, 0, -1
    e = goenv()
    e.update(env or {})
    while skip < len(cases):
        cmd = [binary, cin, cout, str(skip)]
        if cpus:
            cmd = ['taskset', '-c', cpus] + cmd
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=budget,
                           preexec_fn=limit)
        lines = [l for l in open(cout).read().splitlines() if l.strip()] if os.path.exists(cout) else []
        log = p.stdout.decode('utf8', 'replace')
        for l in lines[len(res):]:
            r = json.loads(l)
            r['log'] = log[-3000:] if (r.get('hang')) else ''
            r['outs'] = r.get('outs') or []
            res[r['id']] = r
        done = len(lines)
        if p.returncode == 0:
            break
        if p.returncode == 3:
            raise CheckError('runner: ' + log[-2000:])
        if p.returncode != 4:
            # the process died on the case behind the last result
            if p.returncode < 0 and p.returncode != -6:
                raise CheckError('runner killed by signal %d' % -p.returncode)
            if 'panic' not in log and 'fatal error' not in log and 'WARNING: DATA RACE' not in log:
                raise CheckError('runner ended with %d: %s' % (p.returncode, log[-1500:]))
            if ('out of memory' in log or 'cannot allocate' in log) and oom != done:
                oom = skip = done      # once more, in a process of its own
                continue
            c = cases[done]
            i = max(0, log.find('panic'), log.find('fatal error'), log.find('WARNING: DATA RACE'))
            r = {'id': c['id'], 'crash': True, 'outs': [], 'log': log[i:i + 3000], 'ms': 0}
            with open(cout, 'a') as f:
                f.write(json.dumps(r) + '\n')
            res[c['id']] = r
            done += 1
        crashes += 1
        hangs += p.returncode == 4
        skip = done
        if crashes >= 25 or hangs >= 2:      # enough evidence, do not spend the whole budget on it
            break
    return res


def run_cases(ctx, cases, par=None, binary=None, cpus=None, env=None, budget=800, tag='', fresh=False):
    """runs the cases on the real code, sharded over processes (fresh: each in one of its own); returns {id: result}"""
    if not cases:
        return {}
    if binary is None and ctx.sched_ok and not any('sched' in c for c in cases):
        for c in cases:
            r = ctx.rng('sched', c['id'])
            c['sched'] = r.randrange(1, 10 ** 9) if r.random() < c.pop('held', SCHED) else 0
        ctx.cov['executions_held_up'] = ctx.cov.get('executions_held_up', 0) + sum(len(c['calls']) for c in cases if c['sched'])
    if not ctx.procs_ok and cpus is None and any(k.get('procs') for c in cases for k in c['calls']):
        return _run_by_affinity(ctx, cases, par, binary, env, budget, tag, fresh)
    par = par or CORES
    n = max(1, min(par, len(cases)))
    shards = [[c] for c in cases] if fresh else [cases[i::n] for i in range(n)]
    res = {}
    with cf.ThreadPoolExecutor(n) as ex:
        for r in ex.map(lambda t: _run_shard(ctx, tag + str(t[0]), t[1], binary or ctx.bin, cpus, env, budget),
                        enumerate(shards)):
            res.update(r)
    return res


def _run_by_affinity(ctx, cases, par, binary, env, budget, tag, fresh):
    """the worker count cannot be set from outside: the number of usable CPUs decides it.
    Cases whose calls all want the same number run as they are, the others are split by it."""
    ncpu = os.cpu_count() or 1

    def eff(q):
        return q if 0 < q < ncpu else 0
    split = {}
    for c in cases:
        ks = {eff(k.get('procs', 0)) for k in c['calls']}
        if c.get('mode') == 'par' or len(ks) == 1:
            q = min(ks)
            split.setdefault(q, []).append((c, list(range(len(c['calls'])))))
        else:
            for q in ks:
                split.setdefault(q, []).append((c, [i for i, k in enumerate(c['calls']) if eff(k.get('procs', 0)) == q]))
    out = {}
    for q, part in sorted(split.items()):
        sub = [dict(c, calls=[c['calls'][i] for i in ix]) for c, ix in part]
        res = run_cases(ctx, sub, par, binary, '0-%d' % (ncpu - 1) if q == 0 else ','.join(map(str, range(q))),
                        env, budget, tag + 'q%d-' % q, fresh)
        for c, ix in part:
            r = res.get(c['id'])
            if r is None:
                continue
            o = out.setdefault(c['id'], dict(r, outs=[None] * len(c['calls'])))
            for b in ('hang', 'crash'):
                if r.get(b):
                    o[b], o['log'] = True, r.get('log', '')
            for j, i in enumerate(ix):
                if j < len(r['outs']):
                    o['outs'][i] = r['outs'][j]
    return out


ACCESS = re.compile(r'(?m)^(?:Previous )?(read|write|atomic read|atomic write) at 0x\w+ by ([^\n]*):\n((?:  .*\n)+)', re.I)


def unordered(log):
    """the pairs of accesses in the reports of the race detector"""
    pairs = []
    for rep in log.split('WARNING: DATA RACE')[1:]:
        acc = []
        for m in ACCESS.finditer(rep):
            fr = re.findall(r'(?m)^  (\S.*)\n +(\S+:\d+)', m.group(3))
            by, at = 'other', fr[0][1] if fr else '?'
            for fn, where in fr:
                if where.startswith(REPO + '/'):
                    rel = where[len(REPO) + 1:]
                    by = 'other' if rel.startswith('vendor/') else 'caller' if rel.startswith('zzverif/') else 'parser'
                    at = rel + ' ' + fn.split('/')[-1]
                    break
                if not where.startswith('/opt/veriftools/go'):
                    break      # a library
            if by == 'other' and '/zerolog' in (fr[0][1] if fr else ''):
                by = 'logger'
            acc.append({'kind': m.group(1).lower().split()[-1], 'by': by, 'at': at})
        if len(acc) == 2:
            pairs.append({'first': acc[0], 'second': acc[1]})
    return pairs


def order(ctx, cases, par=4, label=''):
    """runs the cases on a build that records unordered accesses to shared state and lets TLC judge them (Order)"""
    with timed(ctx, 'order build'):
        plain, ok = ctx.bin, ctx.procs_ok
        try:
            binary = build(ctx, race=True)
        finally:
            ctx.bin, ctx.procs_ok = plain, ok
    if not ok:
        cases = [dict(c, calls=[dict(k, procs=0) for k in c['calls']]) for c in cases]
    shards = [cases[i::par] for i in range(par) if cases[i::par]]

    def one(t):
        k, cs = t
        res = []
        for j, c in enumerate(cs):
            lp = ctx.path('order', '%d-%d' % (k, j))
            try:
                out = _run_shard(ctx, 'order%d-%d' % (k, j), [c], binary, None, {'GORACE': 'halt_on_error=0 exitcode=0 log_path=' + lp}, 300, None)
            except subprocess.TimeoutExpired:
                raise CheckError('order run took too long')
            d = os.path.dirname(lp)
            log = ''.join(open(os.path.join(d, f)).read() for f in os.listdir(d) if f.startswith('%d-%d.' % (k, j)))
            res.append((c, log, out))
        return res

    entries, by, results = [], {}, {}
    with timed(ctx, 'order run'), cf.ThreadPoolExecutor(par) as ex:
        for rs in ex.map(one, enumerate(shards)):
            for c, log, out in rs:
                results.update(out)
                e = {'id': c['id'], 'pairs': unordered(log)[:40]}
                entries.append(e)
                by[c['id']] = (c, e, log)
    ctx.cov['executions_checked_for_order'] = ctx.cov.get('executions_checked_for_order', 0) + sum(len(c['calls']) for c in cases)
    if any({p['first']['by'], p['second']['by']} == {'logger', 'parser'} for e in entries for p in e['pairs']):
        listed = known_finding(ctx.prop, 'logger-setup')
        if listed and listed not in ctx.known:
            ctx.known.append(listed)
    for b in judge(ctx, 'Order', entries, shards=1):
        c, e, log = by[b['id']]
        p = e['pairs'][b['result'] - 1]
        ctx.violate('%s %s: %s of %s and %s of %s' % (label, b['why'], p['first']['kind'], p['first']['at'], p['second']['kind'], p['second']['at']),
                    {'calls': [{k: v for k, v in x.items() if k != 'want'} for x in c['calls']],
                     'files': {x['file']: (file_b64(x['file']) or '')[:60000] for x in c['calls']}, 'pairs': e['pairs'], 'log': log[:6000]})
    return results


def tlc(ctx, module, cfg=None, env=None, workers=1, extra=(), timeout=800, mem='3g', tag='', cfgtext=None, files=None):
    """runs TLC in a scratch copy of spec/; returns (returncode, output)"""
    d = ctx.path('tlc-%s%s' % (module, tag), 'x')
    d = os.path.dirname(d)
    for f in os.listdir(SPEC):
        if f.endswith(('.tla', '.cfg')):
            shutil.copy(os.path.join(SPEC, f), d)
    for n, t in (files or {}).items():
        open(os.path.join(d, n), 'w').write(t)
    if cfgtext:
        cfg = 'generated'
        open(os.path.join(d, 'generated.cfg'), 'w').write(cfgtext)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + mem, '-Xss64m', '-cp', JAVA_CP, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', os.path.join(d, 'states'), '-noTE',
           '-config', (cfg or module) + '.cfg'] + list(extra) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC on %s timed out' % module)
    return p.returncode, p.stdout + p.stderr


def tlc_stats(out):
    import re
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', '').replace('generated ', 'generated, ')) \
        or re.findall(r'(\d+) states generated (\d+) distinct states found', out.replace(',', ''))
    if m:
        return int(m[-1][0]), int(m[-1][1])
    return 0, 0


def model_check(ctx, module, cfg=None, **kw):
    """exhaustive check of a design model: must pass, otherwise the machinery is wrong"""
    rc, out = tlc(ctx, module, cfg, **kw)
    if rc != 0 or 'No error has been found' not in out:
        raise CheckError('model %s/%s: %s' % (module, cfg, out[-3000:]))
    g, d = tlc_stats(out)
    ctx.cov['states'] = ctx.cov.get('states', 0) + d
    ctx.cov['transitions'] = ctx.cov.get('transitions', 0) + g
    ctx.cov.setdefault('models', []).append({'module': module, 'config': kw.get('cfgtext') or cfg or module,
                                             'generated': g, 'distinct': d})
    return out


def printed(out, kinds):
    """the values a specification printed as strings "KIND <<...>>" """
    for l in out.splitlines():
        if l.startswith('"') and l.endswith('"') and l[1:].split(' ', 1)[0] in kinds:
            kind, body = l[1:-1].split(' ', 1)
            body = body.replace('\\"', '"').replace('<<', '[').replace('>>', ']')
            yield kind, json.loads(body.replace('TRUE', 'true').replace('FALSE', 'false'))


@contextlib.contextmanager
def timed(ctx, what):
    t = time.time()
    yield
    ctx.cov.setdefault('seconds', {})[what] = round(ctx.cov.get('seconds', {}).get(what, 0) + time.time() - t, 1)


def judge(ctx, module, entries, shards=None, timeout=800, mem='2500m', env=None, per=4):
    """lets TLC judge recorded executions; returns the list of rejected entries"""
    if not entries:
        return []
    n = max(1, min(shards or CORES, (len(entries) + per - 1) // per))
    # balance by size
    order = sorted(range(len(entries)), key=lambda i: -entries[i].get('_w', 1))
    bins = [[0, []] for _ in range(n)]
    for i in order:
        b = min(bins, key=lambda b: b[0])
        b[0] += entries[i].get('_w', 1)
        b[1].append(entries[i])
    bins = [b[1] for b in bins if b[1]]

    def one(t):
        k, es = t
        tr, ve = ctx.path('trace', '%s%d.ndjson' % (module, k)), ctx.path('trace', '%s%d.json' % (module, k))
        if os.path.exists(ve):
            os.unlink(ve)
        with open(tr, 'w') as f:
            for x in es:
                f.write(json.dumps({a: b for a, b in x.items() if a != '_w'}) + '\n')
        e = {'VERIF_TRACE': tr, 'VERIF_VERDICT': ve}
        e.update(env or {})
        rc, out = tlc(ctx, module, env=e, timeout=timeout, mem=mem, tag='-%d' % k)
        if rc != 0 or not os.path.exists(ve):
            raise CheckError('TLC judge %s failed: %s' % (module, out[-3000:]))
        v = json.load(open(ve))
        if v['judged'] != len(es):
            raise CheckError('TLC judged %d of %d entries' % (v['judged'], len(es)))
        g, d = tlc_stats(out)
        return v, g, d

    bad = []
    with cf.ThreadPoolExecutor(len(bins)) as ex:
        for v, g, d in ex.map(one, enumerate(bins)):
            bad += v['bad']
            ctx.undecided += v.get('undecided', [])
            ctx.cov['traces_validated_against_impl'] = ctx.cov.get('traces_validated_against_impl', 0) + v['judged']
            ctx.cov['trace_states'] = ctx.cov.get('trace_states', 0) + d
            for k2, x in v.get('info', {}).items():
                ctx.cov[k2] = ctx.cov.get(k2, 0) + x
    return bad


SCHED = .4      # share of the cases whose goroutines are held up at scheduling points


def known_finding(prop, key):
    """the entry of a finding in KNOWN_FINDINGS.txt, if it is listed there"""
    for l in open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')):
        w = l.split(None, 3)
        if len(w) == 4 and w[0] == 'known:' and w[1] == 'property=' + prop and w[2] == key:
            return key + ' ' + w[3].strip()


def write_replay(ctx, k, why, replay):
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    p = os.path.join(EVID, 'replay', '%s-%d.json' % (ctx.prop, k))
    json.dump({'property': ctx.prop, 'why': why, **replay}, open(p, 'w'), indent=1)
    return p


def file_b64(path):
    try:
        return base64.b64encode(open(path, 'rb').read()).decode()
    except OSError:
        return None


def finish(ctx, level):
    os.makedirs(EVID, exist_ok=True)
    cov = dict(ctx.cov)
    cov['samples'] = ctx.samples[:5] or ['none']
    ev = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level, 'coverage': cov,
          'assumptions': ctx.assumptions, 'wall_s': round(time.time() - ctx.t0, 2),
          'violations': len(ctx.violations)}
    json.dump(ev, open(os.path.join(EVID, ctx.prop + '.json'), 'w'), indent=1)
    for k in ctx.known:
        print('KNOWN-FINDING: property=%s %s' % (ctx.prop, k))
    if ctx.violations:
        why, rp = ctx.violations[0]
        p = write_replay(ctx, 0, why, rp)
        print('violation: %s' % why)
        print('VIOLATION property=%s replay=%s' % (ctx.prop, p))
        for i, (w, r) in enumerate(ctx.violations[1:4]):
            print('also: %s (%s)' % (w, write_replay(ctx, i + 1, w, r)))
        return 1
    print('OK property=%s tier=%s %s in %.1fs' % (ctx.prop, ctx.tier,
          ' '.join('%s=%s' % (a, b) for a, b in cov.items() if isinstance(b, int)), ev['wall_s']))
    return 0
