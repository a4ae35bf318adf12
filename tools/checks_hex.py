"""C01-C05: the memory image parsers."""
import os
import hexgen as hg
import vlib

PROCS = [1, 2, 3, 4, 5, 7, 8, 12, 16, 32, 64]


def pick_procs(r, nlines, k):
    c = {0}
    if nlines < 200:
        c |= {r.choice([max(1, nlines - 1), nlines, nlines + 1])}
    while len(c) < k:
        c.add(r.choice(PROCS))
    return sorted(c)


def make_case(ctx, cid, fmt, data, procs, repeat=1, group=None):
    p = ctx.path('files', '%d.%s' % (cid, 'hex' if fmt == 'ihex' else 's19'))
    open(p, 'wb').write(data)
    return {'id': cid, 'fmt': fmt, 'data': data, 'path': p,
            'calls': [{'op': fmt, 'file': p, 'procs': q, 'want': ['image']} for q in procs for _ in range(repeat)]}


def observe(ctx, cases, **kw):
    """runs the cases and condenses the distinct outcomes of each"""
    wire = [{'id': c['id'], 'calls': c['calls'], 'timeout': 60} for c in cases]
    res = kw['res'] if 'res' in kw else vlib.run_cases(ctx, wire, **kw)
    entries = []
    calls = 0
    for c in cases:
        r = res.get(c['id'])
        if r is None:
            continue
        dist, keys = [], {}
        if r.get('hang') or r.get('crash'):
            dist.append({'outcome': 'hang' if r.get('hang') else 'crash', 'runs': [], 'procs': []})
            c['log'] = r.get('log', '')
        for k, o in enumerate(r['outs']):
            if o is None:
                continue
            calls += 1
            key = (o['outcome'], o.get('digest', ''))
            if key not in keys:
                keys[key] = len(dist)
                dist.append({'outcome': o['outcome'], 'runs': o.get('runs') or [], 'procs': []})
            dist[keys[key]]['procs'].append(c['calls'][k]['procs'])
        c['results'] = dist
        lines = hg.lines_of(c['data'])
        entries.append({'id': c['id'], 'fmt': c['fmt'], 'lines': lines, 'results': dist,
                        '_w': 200 + sum(len(l) for l in lines) + sum(len(x[2]) * 3 for d in dist for x in d['runs'])})
    ctx.cov['executions'] = ctx.cov.get('executions', 0) + calls
    ctx.cov['evaluations'] = ctx.cov.get('evaluations', 0) + len(entries)
    return entries


def decide(ctx, cases, entries, label=''):
    by = {c['id']: c for c in cases}
    for b in vlib.judge(ctx, 'HexTrace', entries):
        c = by[b['id']]
        rr = c['results'][b['result'] - 1]
        ctx.violate('%s %s %s (workers %s)' % (c['fmt'], label, b['why'], rr['procs'] or 'any'),
                    {'format': c['fmt'], 'text': c['data'].decode('latin1')[:20000], 'kind': c.get('kind'),
                     'result': {'outcome': rr['outcome'], 'procs': rr['procs'], 'runs': rr['runs'][:50]},
                     'log': c.get('log', '')})


def sample(ctx, cases, n=3):
    for c in cases[:n]:
        ctx.samples.append({'format': c['fmt'], 'kind': c.get('kind'), 'text': c['data'].decode('latin1')[:300],
                            'outcomes': [d['outcome'] for d in c.get('results', [])]})


def sizes(r, quick):
    m = r.random()
    if m < .3:
        return r.randrange(1, 6)
    if m < .75:
        return r.randrange(5, 40)
    if m < .95:
        return r.randrange(40, 120)
    return r.randrange(120, 260)


def exact(ctx, fmt, n, nbig, kproc):
    cases = []
    for i in range(n):
        r = ctx.rng(fmt, i)
        k = sizes(r, ctx.quick)
        recs = hg.ihex_valid(r, k) if fmt == 'ihex' else hg.srec_valid(r, k)
        data = hg.text(r, recs, ctrlz=r.random() < .03)
        cases.append(make_case(ctx, i, fmt, data, pick_procs(r, len(recs), kproc)))
    for i in range(n, n + nbig):
        r = ctx.rng(fmt, i)
        k = r.choice([600, 1000, 1800])
        recs = hg.ihex_valid(r, k, maxlen=4) if fmt == 'ihex' else hg.srec_valid(r, k, maxlen=4)
        cases.append(make_case(ctx, i, fmt, hg.text(r, recs), pick_procs(r, len(recs), kproc + 2), repeat=2))
    # the smallest files
    for j, recs in enumerate([[], ['']]):
        cases.append(make_case(ctx, n + nbig + j, fmt, '\n'.join(recs).encode(), [0, 1, 3, 8]))
    return cases


def pipe(ctx, fmt, alpha, maxlen, ns, minlen=1, limit=None, repeat=1):
    """model checks the parallel pipeline on all small files and returns its terminal states as
    cases for the real code"""
    cfg = 'CONSTANTS\n Fmt = "%s"\n MinLen = %d\n MaxLen = %d\n Ns = {%s}\n Alpha = {%s}\n' \
          'SPECIFICATION Spec\nINVARIANTS Agree OffsetSound Emit\n' % (
              fmt, minlen, maxlen, ','.join(map(str, ns)), ','.join('"%s"' % a for a in alpha))
    out = vlib.model_check(ctx, 'HexPipe', cfgtext=cfg, workers=vlib.CORES, mem='8g', timeout=850)
    lines, byfile = {}, {}
    for kind, v in vlib.printed(out, ('LINE', 'CASE')):
        if kind == 'LINE':
            lines[v[0]] = bytes(v[1])
        else:
            byfile.setdefault(tuple(v[2]), set()).add(v[0])
    if set(lines) != set(alpha) or not byfile:
        raise vlib.CheckError('cannot read the cases of HexPipe')
    ctx.cov['model_cases'] = ctx.cov.get('model_cases', 0) + sum(map(len, byfile.values()))
    files = sorted(byfile)
    if limit and len(files) > limit:
        r = ctx.rng('limit')
        files = sorted(r.sample(files, limit))
    cases = []
    for i, f in enumerate(files):
        r = ctx.rng('eol', i)
        data = r.choice([b'\n', b'\r\n']).join(lines[a] for a in f)
        c = make_case(ctx, BASE + i, fmt, data, sorted(byfile[f]), repeat)
        c['kind'] = 'model ' + ' '.join(f)
        cases.append(c)
    return cases


BASE = 1000000


def both(ctx, cases, label=''):
    with vlib.timed(ctx, 'run'):
        ent = observe(ctx, cases)
    with vlib.timed(ctx, 'judge'):
        decide(ctx, cases, ent, label)
    seen = set()
    for c in cases:
        k = (c.get('kind') or '').split(' ')[0]
        if k not in seen and len(ctx.samples) < 5:
            seen.add(k)
            sample(ctx, [c])


def long_files(ctx, jobs, cid0=3000000):
    """jobs: (format, number of records, damage, worker counts)"""
    cases = []
    for i, (fmt, n, damage, procs) in enumerate(jobs):
        r = ctx.rng('long', fmt, i, damage)
        data = hg.text(r, hg.long_file(r, fmt, n, damage), blanks=False)
        c = make_case(ctx, cid0 + i, fmt, data, procs)
        c['kind'] = 'long file %s' % (damage or '')
        cases.append(c)
    with vlib.timed(ctx, 'run'):
        ent = observe(ctx, cases)
    es, by = [], {}
    for e, c in zip(ent, cases):
        for k, d in enumerate(c['results']):
            es.append({'id': len(es), 'fmt': e['fmt'], 'lines': e['lines'], 'outcome': d['outcome'], 'runs': d['runs'], '_w': e['_w']})
            by[len(es) - 1] = (c, d)
    with vlib.timed(ctx, 'judge'):
        for b in vlib.judge(ctx, 'HexStream', es, per=1, mem='4g'):
            c, d = by[b['id']]
            ctx.violate('%s %s: %s (workers %s)' % (c['fmt'], c['kind'], b['why'], d['procs'] or 'any'),
                        {'format': c['fmt'], 'kind': c['kind'], 'records': c['data'].count(b'\n'), 'text': c['data'].decode('latin1')[:2000],
                         'outcome': d['outcome'], 'procs': d['procs'], 'log': c.get('log', '')})
    ctx.cov['long_files'] = len(cases)


def ordered(ctx, fmts, cid0=4000000):
    """whether the accesses of the routines to the records they share are ordered, on valid and on bad files"""
    cases = []
    for fmt in fmts:
        for i in range(5 if ctx.quick else 40):
            r = ctx.rng('order', fmt, i)
            recs = (hg.ihex_valid if fmt == 'ihex' else hg.srec_valid)(r, [30, 60, 5, 40, 40][i % 5], maxlen=3)
            if i % 5 == 3:
                recs = hg.collide(r, fmt, recs) or recs
            elif i % 5 == 4:
                recs, _ = hg.corrupt(r, fmt, recs)
            c = make_case(ctx, cid0 + len(cases), fmt, hg.text(r, recs), [2, 3, 8, 16], 2)
            c['kind'] = 'order'
            cases.append(c)
    res = vlib.order(ctx, [{'id': c['id'], 'calls': c['calls'], 'timeout': 120} for c in cases], label=' '.join(fmts))
    with vlib.timed(ctx, 'judge'):
        decide(ctx, cases, observe(ctx, cases, res=res), 'order')


IALPHA = ['e0', 'e1', 'd', 'f', 'x', 'bad']
SALPHA = ['h', 'd', 'f', 'g', 'x', 'end']


def specials(ctx, fmt, twice, cid0):
    cases = []
    for i, recs in enumerate(hg.special(ctx.rng('special', fmt), fmt, twice)):
        r = ctx.rng('special', fmt, i)
        c = make_case(ctx, cid0 + i, fmt, hg.text(r, recs), [r.choice([0, 1, 2, 3, 8])])
        c['kind'] = 'special address'
        cases.append(c)
    return cases


def c01(ctx):
    vlib.build(ctx)
    q = ctx.quick
    cases = exact(ctx, 'ihex', 330 if q else 6000, 10 if q else 120, 3 if q else 5)
    cases += specials(ctx, 'ihex', False, 5000000)
    cases += pipe(ctx, 'ihex', ['e0', 'e1', 'e2', 'd', 'x'], 4 if q else 5, [1, 2, 3] if q else [1, 2, 3, 4])
    both(ctx, cases)
    long_files(ctx, [('ihex', 205000, None, [0])] + ([] if q else [('ihex', 150000, None, [0, 1, 64])] * 3))
    ordered(ctx, ['ihex'])
    return 'model_checking'


def c02(ctx):
    vlib.build(ctx)
    q = ctx.quick
    cases = exact(ctx, 'srec', 330 if q else 6000, 10 if q else 120, 3 if q else 5)
    cases += specials(ctx, 'srec', False, 5000000)
    cases += pipe(ctx, 'srec', SALPHA, 4 if q else 5, [1, 2, 3] if q else [1, 2, 3, 4])
    both(ctx, cases)
    long_files(ctx, [('srec', 205000, None, [0])] + ([] if q else [('srec', 150000, None, [0, 1, 64])] * 3))
    ordered(ctx, ['srec'])
    return 'model_checking'


def c03(ctx):
    vlib.build(ctx)
    q = ctx.quick
    cases, cid = [], 0

    def add(fmt, recs, kind, procs, r):
        nonlocal cid
        c = make_case(ctx, cid, fmt, hg.text(r, recs, blanks=False), procs)
        c['kind'] = kind
        cases.append(c)
        cid += 1

    for fmt in ('ihex', 'srec'):
        # every digit of every record of small files replaced, one at a time
        for f in range(1 if q else 6):
            r = ctx.rng('digits', fmt, f)
            recs = (hg.ihex_valid if fmt == 'ihex' else hg.srec_valid)(r, 4, maxlen=4)
            if fmt == 'ihex':
                recs = [hg.ihex_rec(4, 0, [8, 0])] + recs
            h = 1 if fmt == 'ihex' else 2
            for k, t in enumerate(recs):
                for i in range(h if fmt == 'ihex' else 1, len(t)):
                    vals = [x for x in hg.HEXD if x != t[i].upper()]
                    for x in r.sample(vals, 3 if q else 15) + [r.choice('gG :')]:
                        add(fmt, recs[:k] + [t[:i] + x + t[i + 1:]] + recs[k + 1:], 'digit', [r.choice([0, 1, 2, 3, 16])], r)
                for i in range(1, len(t)):         # every truncation of every record
                    add(fmt, recs[:k] + [t[:i]] + recs[k + 1:], 'cut', [r.choice([0, 1, 2, 3, 16])], r)
        # all kinds of damage at random places of random files
        for f in range(500 if q else 9000):
            r = ctx.rng('dmg', fmt, f)
            recs = (hg.ihex_valid if fmt == 'ihex' else hg.srec_valid)(r, r.choice([1, 2, 5, 10, 20, 40]), maxlen=None if f % 7 == 0 else 8)
            pos = r.choice([0, len(recs) - 1, r.randrange(len(recs)), r.randrange(len(recs))])
            recs, kind = hg.corrupt(r, fmt, recs, pos=pos)
            add(fmt, recs, kind, pick_procs(r, len(recs), 2), r)
        for kind, t in hg.odd_lines(ctx.rng('odd', fmt), fmt):
            r = ctx.rng('odd', fmt, t)
            recs = (hg.ihex_valid if fmt == 'ihex' else hg.srec_valid)(r, r.choice([0, 1, 3, 9]), maxlen=2)
            recs.insert(r.randrange(len(recs) + 1), t)
            add(fmt, recs, kind, [r.choice([0, 1, 2, 3, 16])], r)
    cases += pipe(ctx, 'ihex', ['e1', 'd', 'bad', 'junk', 'seg', 'blank'], 4 if q else 5, [1, 2, 3])
    both(ctx, cases)
    long_files(ctx, [(f, 68000, d, [0]) for f in ('ihex', 'srec') for d in ('sum', 'cut')] * (1 if q else 5))
    ordered(ctx, ['ihex', 'srec'])
    return 'model_checking'


def c04(ctx):
    vlib.build(ctx)
    q = ctx.quick
    cases, cid = [], 0
    for fmt in ('ihex', 'srec'):
        for f in range(450 if q else 8000):
            r = ctx.rng('col', fmt, f)
            n = r.choice([2, 3, 5, 10, 20, 40, 90])
            recs = (hg.ihex_valid if fmt == 'ihex' else hg.srec_valid)(r, n, maxlen=None if f % 7 == 0 else 8)
            new = hg.collide(r, fmt, recs) if r.random() < .85 else recs
            if new is None:
                continue
            c = make_case(ctx, cid, fmt, hg.text(r, new), pick_procs(r, len(new), 2))
            c['kind'] = 'collision' if new is not recs else 'free'
            cases.append(c)
            cid += 1
    cases += specials(ctx, 'ihex', True, 5000000) + specials(ctx, 'srec', True, 6000000)
    cases += pipe(ctx, 'ihex', ['e0', 'e1', 'd', 'f', 'x'], 4 if q else 5, [2, 3])
    more = pipe(ctx, 'srec', ['d', 'f', 'g', 'x', 'k'], 4 if q else 5, [2, 3])
    for c in more:
        c['id'] += BASE
    both(ctx, cases + more)
    long_files(ctx, [(f, 68000, 'twice', [0]) for f in ('ihex', 'srec')] * (1 if q else 5))
    ordered(ctx, ['ihex', 'srec'])
    return 'model_checking'


def c05(ctx):
    vlib.build(ctx)
    q = ctx.quick
    cases, cid = [], 0
    for fmt in ('ihex', 'srec'):
        for f in range(90 if q else 1500):
            r = ctx.rng('sched', fmt, f)
            n = r.choice([3, 8, 15, 30, 60])
            recs = (hg.ihex_valid if fmt == 'ihex' else hg.srec_valid)(r, n, maxlen=8)
            m = r.random()
            if m < .15:
                recs = hg.collide(r, fmt, recs) or recs
            elif m < .3:
                recs, _ = hg.corrupt(r, fmt, recs)
            forms = [dict(eol='\n', case='u', final=True, blanks=False), dict(eol='\r\n', case='u', final=True, blanks=False)]
            forms += r.sample([dict(eol='\n', case='l', final=False, blanks=False),
                               dict(eol='\r\n', case='byte', final=False, blanks=True),
                               dict(eol='mix', case='digit', final=True, blanks=False),
                               dict(eol='mix', case='u', final=False, blanks=True),
                               dict(eol='\n', case='digit', final=True, blanks=False),
                               dict(eol='\n', case='line', final=True, blanks=True)], 2 if q else 6)
            for k, fm in enumerate(forms):
                procs = sorted(set(pick_procs(r, n, 4) + ([1, 2, 3, 4, n] if k == 0 else [])))
                c = make_case(ctx, cid, fmt, hg.text(r, recs, **fm), procs, repeat=2 if k == 0 else 1)
                c['kind'] = 'form %s' % fm
                cases.append(c)
                cid += 1
        for f in range(4 if q else 60):
            r = ctx.rng('schedbig', fmt, f)
            recs = (hg.ihex_valid if fmt == 'ihex' else hg.srec_valid)(r, r.choice([500, 900]), maxlen=2)
            c = make_case(ctx, cid, fmt, hg.text(r, recs), [0, 2, 3, 5, 7, 8, 13, 16, 24, 32, 64, 128], repeat=3)
            c['kind'] = 'schedules'
            cases.append(c)
            cid += 1
    more = pipe(ctx, 'ihex', IALPHA, 4 if q else 5, [1, 2, 3] if q else [1, 2, 3, 4], limit=1300 if q else None)
    both(ctx, cases + more)
    long_files(ctx, [(f, 67000, None, [0, 1, 2, 5, 32]) for f in ('ihex', 'srec')] * (1 if q else 5))
    ordered(ctx, ['ihex', 'srec'])
    return 'model_checking'
