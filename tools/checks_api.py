"""C14 and C15: look ups on the parsed file."""
import itertools
import a2lgen as ag
import checks_a2l as ca
import vlib

LOOKED = ['AXIS_PTS', 'CHARACTERISTIC', 'COMPU_METHOD', 'COMPU_TAB', 'COMPU_VTAB', 'COMPU_VTAB_RANGE', 'FUNCTION', 'GROUP', 'MEASUREMENT',
          'RECORD_LAYOUT', 'UNIT']


def run(ctx, cases, label):
    wire = [{'id': c['id'], 'calls': c['calls'], 'timeout': 60} for c in cases]
    with vlib.timed(ctx, 'run'):
        res = vlib.run_cases(ctx, wire)
    entries = []
    for c in cases:
        r = res.get(c['id'])
        if r is None:
            continue
        rs = []
        if r.get('hang') or r.get('crash'):
            rs.append({'outcome': 'hang' if r.get('hang') else 'crash', 'idx': 0, 'looks': [], 'layouts': [], 'wantLayouts': False, 'nmod': c['nmod']})
            c['log'] = r.get('log', '')
        for k, o in enumerate(r['outs']):
            if o is None:
                continue
            ctx.cov['executions'] = ctx.cov.get('executions', 0) + 1
            for m in o.get('multi') or [{'idx': 0, 'looks': []}]:
                rs.append({'outcome': o['outcome'], 'idx': m['idx'],
                           'looks': [{'ident': l['ident'], 'objs': l['objs']} for l in m.get('looks') or []],
                           'layouts': o.get('layouts') or [], 'wantLayouts': 'layouts' in c['calls'][k]['want'], 'nmod': c['nmod']})
            if o['outcome'] == 'panic':
                c['log'] = o.get('msg', '')
        # the same answer once
        uniq = []
        for x in rs:
            if x not in uniq:
                uniq.append(x)
        c['results'] = uniq
        entries.append({'id': c['id'], 'words': c['words'], 'results': uniq,
                        '_w': 50 + len(c['words']) * (1 + sum(len(x['looks']) + len(x['layouts']) for x in uniq) // 4)})
    ctx.cov['evaluations'] = ctx.cov.get('evaluations', 0) + len(entries)
    by = {c['id']: c for c in cases}
    with vlib.timed(ctx, 'judge'):
        bads = vlib.judge(ctx, 'A2LApi', entries)
    for b in bads:
        c = by[b['id']]
        rr = c['results'][b['result'] - 1]
        ctx.violate('%s %s: %s' % (label, c['kind'], b['why']), {'text': c['data'].decode('latin1')[:20000], 'idx': rr['idx'], 'outcome': rr['outcome'],
                                                                  'layouts': rr['layouts'][:5], 'log': c.get('log', '')})
    for c in cases[:3]:
        ctx.samples.append({'kind': c['kind'], 'text': c['data'].decode('latin1')[:400], 'calls': len(c['calls'])})


# ------------------------------------------------------------------ C14
def c14(ctx):
    vlib.build(ctx)
    g = ag.load(ctx)
    many = [k for k in g.types['Module']['kids'] if k[3] == 'M' and g.types[k[2]]['mode'] != 'raw']
    looked = [k for k in many if k[0].split(' ')[1] in LOOKED]
    assert len(looked) == len(LOOKED), looked
    modpar = next(k for k in g.types['Module']['kids'] if k[0] == '/begin MOD_PAR')
    sysc = next(k for k in g.types[modpar[2]]['kids'] if k[0] == 'SYSTEM_CONSTANT')
    cases = []
    for i in range(130 if ctx.quick else 2500):
        r = ctx.rng('look', i)
        gen = ag.Gen(g, r, wild=.1)
        pool = [gen.ident() for _ in range(r.choice([1, 3, 8]))]
        nmod = r.choice([1, 1, 2, 3])
        mods, idents = [], set()
        for m in range(nmod):
            objs, used = [], set()

            def name(k):
                n = r.choice(pool) if r.random() < .6 else gen.ident()
                if (k[0], n) in used:
                    n = gen.ident()
                used.add((k[0], n))
                idents.add(n)
                return n
            ks = [r.choice(looked) for _ in range(r.randrange(0, 8))] + [r.choice(many) for _ in range(r.randrange(0, 3))]
            if i % 4 == 0:
                ks += looked
            if i % 4 == 1 and m == 0:      # one identifier for everything
                n0 = pool[0]
                idents.add(n0)
                for k in looked:
                    used.add((k[0], n0))
                    objs.append(gen.kid(k, sub=0, name=n0))
            for k in ks:
                objs.append(gen.kid(k, sub=r.choice([0, 0, .1, .3]), name=name(k)))
            if r.random() < .5:
                sc = [(None, gen.kid(sysc, name=(pool[0] if j == 0 and i % 4 == 1 else name(sysc)))) for j in range(r.randrange(1, 4))]
                if i % 4 == 1:
                    used.add((sysc[0], pool[0]))
                objs.append(gen.kid(modpar, kids=sc))
            r.shuffle(objs)
            mods.append(objs)
        words = gen.project(mods)
        data = ag.layout(r, words)
        c = ca.make(ctx, i, words, data, [0], '%d modules' % nmod)
        c['nmod'] = nmod
        ids = sorted(idents)
        near = [x for y in r.sample(ids, min(4, len(ids))) for x in (y.lower(), y.upper(), y + ' ', ' ' + y, y + '1', y[:-1], y + '.', '"' + y + '"')]
        strange = ['', 'zzz', '/begin', 'FORMAT', '{', '0', words[words.index('MODULE') + 1]]
        look = [x for x in dict.fromkeys(r.sample(ids, min(len(ids), 25)) + r.sample(near, min(len(near), 6)) + r.sample(strange, 3)) if x in idents or x.strip() not in idents or x == x.strip()]
        idx = list(range(nmod)) + [r.choice([nmod, nmod + 1, 255, 254, 128])]
        look += r.sample(look, min(3, len(look)))
        idx = idx + [r.choice(idx)]
        r.shuffle(idx)
        c['calls'] = [{'op': 'lookup', 'file': c['path'], 'procs': r.choice(ca.PROCS), 'idxs': idx, 'look': look, 'want': []}]
        cases.append(c)
    # more modules than a module index can tell apart
    for j, nmod in enumerate([255, 256, 257, 300]):
        r = ctx.rng('many modules', nmod)
        gen = ag.Gen(g, r, wild=.1)
        pool = [gen.ident() for _ in range(4)]
        mods, idents = [], set()
        for m in range(nmod):
            k = r.choice(looked)
            n = r.choice(pool) if m % 5 else gen.ident()
            idents.add(n)
            mods.append([gen.kid(k, sub=0, name=n)])
        words = gen.project(mods)
        c = ca.make(ctx, 100000 + j, words, ag.layout(r, words), [0], '%d modules' % nmod)
        c['nmod'] = nmod
        c['calls'] = [{'op': 'lookup', 'file': c['path'], 'procs': 0, 'idxs': [0, 1, 43, 254, 255], 'look': pool + r.sample(sorted(idents), 10), 'want': []}]
        cases.append(c)
    run(ctx, cases, 'look up')
    return 'model_checking'


# ------------------------------------------------------------------ C15
def c15(ctx):
    vlib.build(ctx)
    g = ag.load(ctx)
    rl = next(k for k in g.types['Module']['kids'] if k[0] == '/begin RECORD_LAYOUT')
    kids = g.types[rl[2]]['kids']
    comps = [k for k in kids if g.types[k[2]]['mode'] == 'attr' and g.types[k[2]]['ps'][0][0].lower() == 'position']
    other = [k for k in kids if k not in comps]
    ctx.cov['components'] = len(comps)

    def comp(gen, k, pos):
        gen.force = {(k[2], 'ps', 0): str(pos)}
        w = gen.kid(k)
        gen.force = {}
        return (None, w)

    jobs = []          # each one: list of (component, position), extra keywords
    r = ctx.rng('jobs')
    for a, b in itertools.combinations(comps, 2):
        # the same position, and positions that look alike when cut off
        for p in dict.fromkeys([0, 65535, r.randrange(1, 70), r.choice([1, 2, 255, 256, 32767, 32768, r.randrange(65536)])]):
            jobs.append([(a, p), (b, p)])
        p = r.randrange(0, 70)
        for q in r.sample([p + 1, p * 2 + 1, p + 256, p + 4096, p + 32768, 65535 - p, 65535], 2 if ctx.quick else 5):
            jobs.append([(a, p), (b, q)])
    for a in comps:
        for p in (0, 1, 65535, r.randrange(65536)):
            jobs.append([(a, p)])
        jobs.append([(k, 1 + j) for j, k in enumerate(comps) if k is not a])
    jobs.append([])
    jobs.append([(k, 1 + j) for j, k in enumerate(comps)])
    for _ in range(600 if ctx.quick else 20000):
        ks = r.sample(comps, r.randrange(2, len(comps) + 1))
        ps = r.sample(range(1, 100), len(ks)) if r.random() < .6 else [r.randrange(0, 65536) for _ in ks]
        if r.random() < .5:
            x, y = r.sample(range(len(ks)), 2)
            ps[x] = ps[y]
        jobs.append(list(zip(ks, ps)))
    r.shuffle(jobs)
    per = 40
    cases = []
    for i in range(0, len(jobs), per):
        rr = ctx.rng('file', i)
        gen = ag.Gen(g, rr, wild=.1)
        part = jobs[i:i + per]
        nmod = rr.choice([1, 1, 1, 2, 3])
        mods = [[] for _ in range(nmod)]
        for j in part:
            seq = [comp(gen, k, p) for k, p in j] + [k for k in other if rr.random() < .05]
            rr.shuffle(seq)
            mods[rr.randrange(nmod)].append(gen.kid(rl, kids=seq))
        words = gen.project(mods)
        c = ca.make(ctx, i // per, words, ag.layout(rr, words), [0], 'record layouts')
        c['nmod'] = nmod
        c['calls'] = [{'op': 'a2l', 'file': c['path'], 'procs': rr.choice(ca.PROCS), 'want': ['layouts']}]
        cases.append(c)
    ctx.cov['record_layouts'] = len(jobs)
    run(ctx, cases, 'record layout')
    return 'model_checking'
