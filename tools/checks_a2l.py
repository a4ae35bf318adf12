"""C06-C10, C14-C17: the A2L parser."""
import base64
import a2lgen as ag
import vlib

# worker counts; the package itself uses an even number
PROCS = [2, 4, 6, 8, 12, 16, 24, 32, 64]


def make(ctx, cid, words, data, procs, kind=None, repeat=1, **kw):
    p = ctx.path('files', '%d.a2l' % cid)
    open(p, 'wb').write(data)
    return dict({'id': cid, 'words': [ag.normal(w) for w in words], 'data': data, 'path': p, 'kind': kind,
                 'calls': [{'op': 'a2l', 'file': p, 'procs': q, 'want': ['leaves']} for q in procs for _ in range(repeat)]}, **kw)


def pick(r, k=2):
    return [0] + r.sample(PROCS, k - 1)


def observe(ctx, cases, **kw):
    wire = [{'id': c['id'], 'calls': c['calls'], 'timeout': 60} for c in cases]
    with vlib.timed(ctx, 'run'):
        res = kw['res'] if 'res' in kw else vlib.run_cases(ctx, wire, **kw)
    entries, calls = [], 0
    for c in cases:
        r = res.get(c['id'])
        if r is None:
            continue
        dist, keys = [], {}
        if r.get('hang') or r.get('crash'):
            dist.append({'outcome': 'hang' if r.get('hang') else 'crash', 'leaves': [], 'procs': []})
            c['log'] = r.get('log', '')
        for k, o in enumerate(r['outs']):
            if o is None:
                continue
            calls += 1
            key = (o['outcome'], o.get('digest', ''))
            if key not in keys:
                keys[key] = len(dist)
                dist.append({'outcome': o['outcome'], 'leaves': o.get('leaves') or [], 'procs': [], 'msg': o.get('msg', '')[:300]})
            dist[keys[key]]['procs'].append(c['calls'][k]['procs'])
        c['results'] = dist
        src = {'text': c['data'].decode('latin1'), 'codes': list(c['data'])} if c.get('bytext') else {'words': c['words']}
        entries.append({'id': c['id'], **src,
                        'results': [{'outcome': d['outcome'], 'leaves': d['leaves']} for d in dist],
                        '_w': 50 + (len(c['data']) if c.get('bytext') else len(c['words'])) + sum(len(d['leaves']) for d in dist)})
    ctx.cov['executions'] = ctx.cov.get('executions', 0) + calls
    ctx.cov['evaluations'] = ctx.cov.get('evaluations', 0) + len(entries)
    return entries


def decide(ctx, cases, entries, label='', module='A2LTrace'):
    by = {c['id']: c for c in cases}
    with vlib.timed(ctx, 'judge'):
        bads = vlib.judge(ctx, module, entries)
    for b in bads:
        c = by[b['id']]
        rr = c['results'][b['result'] - 1]
        ctx.violate('a2l %s %s: %s (workers %s)' % (label, c.get('kind') or '', b['why'], rr['procs'] or 'any'),
                    {'kind': c.get('kind'), 'text': c['data'].decode('latin1')[:20000],
                     'file_b64': base64.b64encode(c['data'][:100000]).decode(),
                     'result': {'outcome': rr['outcome'], 'procs': rr['procs'], 'msg': rr.get('msg', '')},
                     'log': c.get('log', '')})


def both(ctx, cases, label=''):
    decide(ctx, cases, observe(ctx, cases), label)
    und = set(ctx.undecided)
    ctx.cov['undecided'] = len(und)
    kinds = {}
    for c in cases:
        if c['id'] in und:
            k = str(c.get('kind'))
            k = 'model' if k.startswith('model ') else k
            kinds[k] = kinds.get(k, 0) + 1
    ctx.cov['undecided_kinds'] = kinds
    for c in cases[:3]:
        ctx.samples.append({'kind': c.get('kind'), 'text': c['data'].decode('latin1')[:400],
                            'outcomes': [d['outcome'] for d in c.get('results', [])]})


def ordered(ctx, g, cid0=4000000):
    """whether the accesses of the routines to what they share are ordered, on files of all kinds"""
    cases = []
    many = [k for k in g.types['Module']['kids'] if k[3] == 'M']
    for i in range(8 if ctx.quick else 60):
        r = ctx.rng('order', i)
        gen = ag.Gen(g, r)
        if i % 4 == 0:
            objs = [gen.kid(k, sub=.1) for k in many + many] + [gen.kid(k, sub=.3) for k in g.types['Module']['kids'] if k[3] == '1']
            r.shuffle(objs)
            words = gen.project([objs])
        elif i % 4 == 1:
            words = gen.project([gen.objects(6, sub=.1) for _ in range(r.choice([2, 3, 6]))])
        else:
            words = gen.project([gen.objects(30, sub=.05)])
        if i % 4 == 2:
            at = [j for j in range(len(words) - 1) if words[j] == '/end']
            for j in sorted(r.sample(at[:-2], min(len(at) - 2, r.choice([1, 3, 8]))), reverse=True):
                words[j + 1:j + 2] = [r.choice(['FRAME', 'UNIT', 'MODULE'])] if r.random() < .5 else []
            cases.append(text_case(ctx, cid0 + i, ag.layout(r, words, '\n'), [0, 2, 4, 16], 'order'))
        else:
            cases.append(make(ctx, cid0 + i, words, ag.layout(r, words, r.choice(['\n', '\r\n'])), [0, 2, 4, 16], 'order', repeat=1))
    res = vlib.order(ctx, [{'id': c['id'], 'calls': c['calls'], 'timeout': 120} for c in cases], label='a2l')
    decide(ctx, cases, observe(ctx, cases, res=res), 'order')


# ------------------------------------------------------------------ C08
def fragments(g, r, maxpair=None):
    """every ordered pair of keywords of every block, as (module level keyword, words)"""
    frags = []
    for ty in g.blocks:
        if ty == 'Module':
            continue
        ks = g.types[ty]['kids']
        pairs = [(a, b) for a in ks for b in ks if a is not b or a[3] in 'LM']
        pairs += [(a,) for a in ks] + [()]
        if maxpair and len(pairs) > maxpair:
            pairs = r.sample(pairs, maxpair)
        for p in pairs:
            frags.append((ty, p))
    return frags


def pack(ctx, g, frags, per, cid0, kproc=2):
    """puts fragments into files: one-off blocks at most once per file"""
    r = ctx.rng('pack')
    r.shuffle(frags)
    single = {k[0]: k for k in g.types['Module']['kids'] if k[3] == '1'}
    files = []
    open_files = []
    for ty, p in frags:
        top = g.path[ty][0][1][0]
        for f in open_files:
            if len(f['f']) < per and not (top in single and top in f['tops']):
                break
        else:
            f = {'f': [], 'tops': set()}
            open_files.append(f)
            files.append(f)
        f['f'].append((ty, p))
        f['tops'].add(top)
        if len(f['f']) >= per:
            open_files.remove(f)
    cases = []
    for i, f in enumerate(files):
        rr = ctx.rng('pack', i)
        gen = ag.Gen(g, rr)
        objs = []
        for ty, p in f['f']:
            kids = gen.tidy(list(p))
            path = g.path[ty]
            pt, k = path[-1]
            ws = gen.kid(k, kids=kids, sub=0)
            objs.append(gen.wrap(pt, ws) if pt != 'Module' else ws)
        words = gen.project([objs])
        cases.append(make(ctx, cid0 + i, words, ag.layout(rr, words), pick(rr, kproc), 'keyword pairs'))
    return cases


def random_docs(ctx, g, n, cid0, sizes=(1, 30), sub=None, kproc=2, kind='random', **kw):
    cases = []
    for i in range(n):
        r = ctx.rng(kind, i)
        gen = ag.Gen(g, r)
        k = r.randrange(*sizes)
        words = gen.project([gen.objects(k, sub=sub if sub is not None else r.choice([.05, .2, .4, .7]), **kw)])
        cases.append(make(ctx, cid0 + i, words, ag.layout(r, words, r.choice(['\n', '\r\n'])), pick(r, kproc), kind))
    return cases


def c08(ctx):
    vlib.build(ctx)
    g = ag.load(ctx)
    r = ctx.rng('frag')
    frags = fragments(g, r)
    cases = pack(ctx, g, frags, 25, 0)
    ctx.cov['keyword_pairs'] = len(frags)
    cases += random_docs(ctx, g, 60 if ctx.quick else 1500, 100000)
    cases += long_docs(ctx, g, 200000)
    both(ctx, cases, 'parameters')
    two_reserved(ctx)
    return 'model_checking'


def long_docs(ctx, g, cid0):
    """every open list very long, every repeatable keyword very often, every word very long"""
    cases = []

    def add(kind, objs, gen, r):
        i = cid0 + len(cases)
        words = gen.project([objs])
        cases.append(make(ctx, i, words, ag.layout(r, words), pick(r, 2), kind))

    lens = [17, 33, 70, 140, 300] if ctx.quick else [9, 16, 17, 31, 33, 64, 65, 70, 127, 129, 140, 255, 257, 300, 520, 1100]
    lists = [ty for ty in g.blocks if g.types[ty]['rest'] and g.types[ty]['need'] < 0]
    lists += [(ty, k) for ty in g.blocks for k in g.types[ty]['kids'] if g.types[k[2]]['mode'] == 'open']
    single = {k[0] for k in g.types['Module']['kids'] if k[3] == '1'}
    for n in lens:
        r = ctx.rng('long lists', n)
        gen = ag.Gen(g, r)
        gen.many = n
        objs, tops = [], set()
        for x in lists:
            ty = x if isinstance(x, str) else x[0]
            path = g.path[ty]
            pt, k = path[-1]
            top = path[0][1][0]
            if top in tops:
                add('long lists', objs, gen, r)
                objs, tops = [], set()
            ws = gen.kid(k, kids=[] if isinstance(x, str) else [x[1]], sub=0)
            objs.append(gen.wrap(pt, ws) if pt != 'Module' else ws)
            if top in single:
                tops.add(top)
        add('long lists', objs, gen, r)
        for ty in g.blocks:
            ks = [k for k in g.types[ty]['kids'] if k[3] in 'LM']
            if not ks or ty == 'Module':
                continue
            gen.many = 2
            for k in ks:
                m = n
                path = g.path[ty]
                pt, pk = path[-1]
                ws = gen.kid(pk, kids=gen.tidy([k] * m), sub=0)
                add('keyword very often', [gen.wrap(pt, ws) if pt != 'Module' else ws], gen, r)
    # lists of thousands of entries, one of them longer than anything else
    for j, x in enumerate(lists):
        r = ctx.rng('huge lists', j)
        gen = ag.Gen(g, r)
        gen.many = 66000 if (j + ctx.seed) % len(lists) == 0 else r.choice([1100, 2100])
        ty = x if isinstance(x, str) else x[0]
        pt, k = g.path[ty][-1]
        ws = gen.kid(k, kids=[] if isinstance(x, str) else [x[1]], sub=0)
        add('huge lists', [gen.wrap(pt, ws) if pt != 'Module' else ws], gen, r)
    for i in range(12 if ctx.quick else 150):
        r = ctx.rng('long words', i)
        gen = ag.Gen(g, r)
        gen.big = r.choice([.05, .3])
        objs = gen.objects(r.randrange(5, 15), sub=r.choice([.2, .5]))
        add('long words', objs, gen, r)
    ctx.cov['long_lists'] = len(lists)
    return cases


def two_reserved(ctx):
    """known finding: the second RESERVED of a record layout replaces the first one"""
    text = ('ASAP2_VERSION 1 61\n/begin PROJECT P ""\n/begin MODULE M ""\n/begin RECORD_LAYOUT R\n'
            'FNC_VALUES 1 UBYTE COLUMN_DIR DIRECT\nRESERVED 2 BYTE\nRESERVED 3 WORD\n/end RECORD_LAYOUT\n/end MODULE\n/end PROJECT\n')
    c = text_case(ctx, 900000, text.encode(), [0], 'two RESERVED')
    e = observe(ctx, [c])
    want = {'2', '3'}
    got = [{v for p, v in d['leaves'] if '.Reserved' in p and p.endswith('.Position')} for d in c['results'] if d['outcome'] == 'ok']
    listed = vlib.known_finding('C08', 'two-reserved')
    if listed and all(d['outcome'] == 'ok' for d in c['results']) and all(x == {'3'} for x in got):
        ctx.known.append(listed)
    elif got != [want]:
        ctx.violate('a2l two RESERVED entries in one RECORD_LAYOUT: neither both nor the known result', {'text': text, 'results': c['results']})


# ------------------------------------------------------------------ the design model and its replay
TEXT_ALPHA = ['so', 'sc', 'en', 'un', 'be', 'ub', 'co', 'cc', 'lc', 'qu', 'cs', 'bl']
TREE_ALPHA = ['u3', 'u4', 'me', 'if', 'mp', 'kw', 'e1', 'op', 'cl', 'em', 'bm']


def line_texts():
    """the concrete lines behind the letters of the model, read from the model itself"""
    import os, re
    src = open(os.path.join(vlib.SPEC, 'A2LPipe.tla')).read()
    part = src[src.index('LineText =='):src.index('Joined(ls)')]
    res = {m.group(1): m.group(2).replace('\\"', '"').replace('\\\\', '\\')
           for m in re.finditer(r'"(\w\w)" :> "((?:[^"\\]|\\.)*)"', part)}
    fix = {k: re.search(k + r' == "((?:[^"\\]|\\.)*)"', src).group(1).replace('\\"', '"') for k in ('Prefix', 'Suffix')}
    return res, fix


def pipeline(ctx, alpha, maxlen, ns, cid0, limit=None, minlen=0):
    """checks the model exhaustively within the bounds and replays its files, with these worker counts, on the real code"""
    cfg = ('CONSTANTS\n Alpha = {%s}\n MinLen = %d\n MaxLen = %d\n Ns = {%s}\nSPECIFICATION Spec\nINVARIANTS Agree Report\n'
           % (', '.join('"%s"' % a for a in alpha), minlen, maxlen, ', '.join(map(str, ns))))
    with vlib.timed(ctx, 'model'):
        out = vlib.model_check(ctx, 'A2LPipe', cfgtext=cfg, workers=vlib.CORES, mem='10g', tag='-%d' % cid0)
    files = {}
    for _, (w, v, f) in vlib.printed(out, {'CASE'}):
        files.setdefault(tuple(f), (v, set()))[1].add(w)
    texts, fix = line_texts()
    r = ctx.rng('pipe', cid0)
    must = [f for f in sorted(files) if files[f][0] != 'unspec']
    rest = [f for f in sorted(files) if files[f][0] == 'unspec']
    if limit and len(must) > limit:
        # the valid files first, they say most
        okf = [f for f in must if files[f][0] == 'ok']
        er = [f for f in must if files[f][0] != 'ok']
        k = min(len(okf), limit * 2 // 3)
        must = r.sample(okf, k) + r.sample(er, min(len(er), limit - k))
    rest = r.sample(rest, min(len(rest), max(20, len(must) // 10)))
    ctx.cov['model_files'] = ctx.cov.get('model_files', 0) + len(files)
    cases = []
    for i, f in enumerate(must + rest):
        eol = r.choice(['\n', '\n', '\r\n'])
        t = eol.join([fix['Prefix']] + [texts[x] for x in f] + [fix['Suffix']])
        cases.append(text_case(ctx, cid0 + i, t.encode('latin1'), sorted(files[f][1]), 'model ' + ' '.join(f)))
    ctx.cov['model_files_replayed'] = ctx.cov.get('model_files_replayed', 0) + len(cases)
    return cases


# ------------------------------------------------------------------ C06
def text_case(ctx, cid, data, procs, kind, **kw):
    c = make(ctx, cid, [], data, procs, kind, **kw)
    c['bytext'] = True
    return c


LAYOUT_STYLES = ['wild', 'wild', 'rich', 'squeezed', 'oneline', 'words', 'escapes']


def c06(ctx):
    vlib.build(ctx)
    g = ag.load(ctx)
    cases = []
    n = 140 if ctx.quick else 3000
    for i in range(n):
        r = ctx.rng('doc', i)
        gen = ag.Gen(g, r, wild=.8)
        words = gen.project([gen.objects(r.randrange(0, 8), sub=r.choice([.05, .15, .3]))], header=r.random() < .3)
        eol = r.choice(['\n', '\r\n'])
        st = r.choice(LAYOUT_STYLES)
        if st == 'wild':
            data = ag.wild_layout(r, words, eol, .15)
        elif st == 'rich':
            data = ag.wild_layout(r, words, eol, .5, .9)
        elif st == 'squeezed':
            data = ag.squeezed(r, words, eol)
        elif st == 'oneline':
            data = ag.layout(r, words, ' ')
        elif st == 'words':
            data = ag.wild_layout(r, words, eol, 0, 1)
        else:
            data = ag.wild_layout(r, words, eol, .2, .5, .3)
        cases.append(text_case(ctx, i, data, pick(r, 4), st))
    # very long lines, strings and comments
    for i, what in enumerate(['string', 'line comment', 'block comment', 'one line', 'lines', 'word']):
        r = ctx.rng('huge', i)
        gen = ag.Gen(g, r, wild=.2)
        n = 70000 if ctx.quick else 300000
        objs = gen.objects(r.randrange(2, 6), sub=.1)
        eol = r.choice(['\n', '\r\n'])
        if what == 'string':
            words = gen.project([objs])
            k = r.choice([j for j, w in enumerate(words) if w.startswith('"')])
            words[k] = '"' + ' '.join('/end' if j % 9 == 4 else 'x' * (n // 60) for j in range(60)) + '"'
            data = ag.layout(r, words, eol)
        elif what == 'one line':
            gen.wild = .02
            words = gen.project([gen.objects(60, sub=.2)])
            data = ag.layout(r, words, ' ', 'line')
        elif what == 'word':
            words = gen.project([objs + [['/begin', 'UNIT', 'u' * n, '"u"', '"u"', 'DERIVED', '/end', 'UNIT']]])
            data = ag.layout(r, words, eol)
        else:
            words = gen.project([objs])
            k = r.randrange(1, len(words))
            c = {'line comment': '// ' + 'c "' * (n // 3) + eol, 'block comment': '/*' + ' c "/*' * (n // 6) + '*/', 'lines': (eol + ' ') * (n // 3)}[what]
            data = ag.layout(r, words[:k], eol) + (' ' + c).encode() + ag.layout(r, words[k:], eol)
        cases.append(text_case(ctx, 90000 + i, data, pick(r, 4), 'huge ' + what))
    cases += pipeline(ctx, TEXT_ALPHA, 3 if ctx.quick else 4, [2, 3] if ctx.quick else [2, 3, 4], 200000, 700 if ctx.quick else 12000)
    both(ctx, cases, 'layout')
    ordered(ctx, g)
    return 'model_checking'


# ------------------------------------------------------------------ C07
def shuffled_module(ctx, g, r, kind):
    """objects of a module in various mixes of kinds, numbers and sizes"""
    gen = ag.Gen(g, r, wild=.15)
    many = [k for k in g.types['Module']['kids'] if k[3] == 'M']
    ones = [k for k in g.types['Module']['kids'] if k[3] == '1']
    lists = [k for k in g.types['Module']['kids'] if k[3] == 'L']
    objs = []
    if kind == 'one kind':
        k = r.choice(many)
        objs = [gen.kid(k, sub=r.choice([0, .1, .3])) for _ in range(r.randrange(1, 40))]
    elif kind == 'all kinds':
        objs = [gen.kid(k, sub=r.choice([0, .1])) for k in many + lists for _ in range(r.randrange(1, 4))]
        objs += [gen.kid(k, sub=.1) for k in ones]
    elif kind == 'tiny':
        objs = [gen.kid(r.choice(many + lists), sub=0) for _ in range(r.randrange(0, 6))]
    elif kind == 'one big':
        # one object much larger than all the others together
        k = r.choice([k for k in many if g.types[k[2]]['kids'] or g.types[k[2]]['rest']])
        objs = [gen.kid(r.choice(many), sub=0) for _ in range(r.randrange(1, 8))]
        objs.append(gen.kid(k, sub=1))
    elif kind == 'one-off':
        objs = [gen.kid(k, sub=r.choice([.1, .5])) for k in ones if r.random() < .8]
        objs += [gen.kid(r.choice(many), sub=0) for _ in range(r.randrange(0, 3))]
    elif kind == 'many':
        objs = [gen.kid(r.choice(many), sub=0) for _ in range(r.randrange(60, 200))]
    r.shuffle(objs)
    return gen.project([objs])


def c07(ctx):
    vlib.build(ctx)
    g = ag.load(ctx)
    cases = []
    n = 110 if ctx.quick else 2500
    kinds = ['one kind', 'all kinds', 'tiny', 'one big', 'one-off', 'tiny', 'one kind']
    for i in range(n):
        r = ctx.rng('mod', i)
        kd = kinds[i % len(kinds)] if i >= 4 else 'many'
        words = shuffled_module(ctx, g, r, kd)
        procs = r.sample(PROCS + [2, 3, 5, 7, 10], 3) + [0]
        cases.append(make(ctx, i, words, ag.layout(r, words, r.choice(['\n', '\r\n'])), procs, kd))
    if not ctx.quick:
        for i in range(6):
            r = ctx.rng('big', i)
            gen = ag.Gen(g, r, wild=.1)
            many = [k for k in g.types['Module']['kids'] if k[3] == 'M']
            words = gen.project([[gen.kid(r.choice(many), sub=.1) for _ in range(3000)]])
            cases.append(make(ctx, 50000 + i, words, ag.layout(r, words), PROCS, 'big', repeat=2))
    # more words than 16 bits can count
    for i in range(1 if ctx.quick else 8):
        r = ctx.rng('huge', i)
        gen = ag.Gen(g, r, wild=.05)
        many = [k for k in g.types['Module']['kids'] if k[3] == 'M']
        objs = [gen.kid(many[j % len(many)], kids=[], sub=0) for j in range(9000)]
        r.shuffle(objs)
        words = gen.project([objs])
        cases.append(make(ctx, 80000 + i, words, ag.layout(r, words), [0, r.choice([2, 6, 64])], 'huge'))
    # very many objects of every kind
    many = [k for k in g.types['Module']['kids'] if k[3] == 'M']
    r = ctx.rng('crowds')
    order = r.sample(many, len(many))
    for i in range(0, len(order), 3):
        gen = ag.Gen(g, r, wild=.05)
        objs = [gen.kid(k, kids=[], sub=0) for k in order[i:i + 3] for _ in range(1100 if ctx.quick else 2500)]
        r.shuffle(objs)
        words = gen.project([objs])
        cases.append(make(ctx, 70000 + i, words, ag.layout(r, words), [0, r.choice([2, 4, 6]), r.choice([12, 32, 64])], 'crowd'))
    # every worker count on the same files, several times
    for i in range(4 if ctx.quick else 40):
        r = ctx.rng('sweep', i)
        words = shuffled_module(ctx, g, r, r.choice(['all kinds', 'one kind', 'one-off']))
        cases.append(make(ctx, 60000 + i, words, ag.layout(r, words), [0] + list(range(2, 33)) + [48, 64], 'sweep'))
    cases += pipeline(ctx, ['u3', 'u4', 'me', 'if', 'mp', 'bl'] if ctx.quick else ['u3', 'u4', 'me', 'if', 'mp', 'bl', 'kw', 'em'],
                      3 if ctx.quick else 4, [2, 3], 200000, 300 if ctx.quick else 6000)
    both(ctx, cases, 'objects')
    ordered(ctx, g)
    return 'model_checking'


# ------------------------------------------------------------------ C10
def c10(ctx):
    vlib.build(ctx)
    g = ag.load(ctx)
    cases = []
    many = [k for k in g.types['Module']['kids'] if k[3] == 'M']
    ones = [k for k in g.types['Module']['kids'] if k[3] == '1']
    for i in range(160 if ctx.quick else 3000):
        r = ctx.rng('mods', i)
        gen = ag.Gen(g, r, wild=.15)
        n = r.choice([1, 2, 2, 2, 3, 3, 4, 5, 8]) if i > 5 else [17, 40, 100, 300, 0, 0][i]
        shared = [gen.ident() for _ in range(6)]
        mods = []
        for m in range(n):
            objs = []
            used = set()
            for _ in range(r.choice([0, 1, 2, 5, 12]) if n < 10 else r.choice([0, 1, 2])):
                k = r.choice(many)
                nm = r.choice(shared)
                nm = nm if (k[0], nm) not in used and r.random() < .6 else None
                if nm:
                    used.add((k[0], nm))
                objs.append(gen.kid(k, sub=r.choice([0, .1]), name=nm))
            objs += [gen.kid(k, sub=.2) for k in ones if r.random() < (.25 if n < 10 else .02)]
            r.shuffle(objs)
            mods.append(objs)
        words = gen.project(mods)
        if r.random() < .15:     # modules of the same name
            at = [j + 2 for j in range(len(words) - 2) if words[j] == '/begin' and words[j + 1] == 'MODULE']
            if len(at) > 1:
                words[at[1]] = words[at[0]]
        cases.append(make(ctx, i, words, ag.layout(r, words, r.choice(['\n', '\r\n'])), pick(r, 3), '%d modules' % n))
    both(ctx, cases, 'modules')
    ordered(ctx, g)
    return 'model_checking'


# ------------------------------------------------------------------ C17
NESTED = ['MODULE', 'PROJECT', 'CHARACTERISTIC', 'MEASUREMENT', 'UNIT', 'A2ML', 'SOURCE', 'QP_BLOB', 'RASTER', 'ANNOTATION', 'GROUP',
          'FUNCTION', 'RECORD_LAYOUT', 'X', 'AXIS_DESCR', 'MOD_PAR', 'COMPU_METHOD', 'FRAME', 'VARIANT_CODING']


def vendor(gen, g, depth=0, size=7):
    """content of an IF_DATA block: anything, nested blocks properly closed, no IF_DATA within"""
    r = gen.r
    kw = sorted(w for w in g.reserved if ' ' not in w and w)
    ws = []
    for _ in range(r.randrange(0, size + 1)):
        m = r.random()
        if m < .22 and depth < 5:
            n = r.choice(NESTED + [gen.ident(), gen.again(), 'IF_DATA' + r.choice(['_X', '2', '.a', '_IF_DATA', '-']), r.choice(kw) + r.choice(['_X', '2', '.a']),
                                   'if_data', 'If_Data', 'XIF_DATA'])
            n = n.strip('"/') or 'N'
            ws += ['/begin', n] + vendor(gen, g, depth + 1, size) + ['/end', n]
        elif m < .45:
            ws.append(r.choice(kw))
        elif m < .6:
            ws.append(gen.string())
        elif m < .75:
            ws.append(gen.address())
        elif m < .85:
            ws.append(gen.number('f'))
        elif m < .88 and (ws or gen.seen):
            ws.append(r.choice(ws[-3:] + [gen.again()]) if ws and ws[-1] not in ('/begin', '/end') else gen.again())
            if ws[-1] in ('/begin', '/end'):
                ws.pop()
        elif m < .91:
            ws.append(r.choice(['-', '0', '1', '.', ',', ';', '{', '}', '=', '->', 'a/b', 'ASAP2_VERSION', 'IF_DATA', '\xe4']))
        else:
            ws.append(gen.ident())
    return ws


def c17(ctx):
    vlib.build(ctx)
    g = ag.load(ctx)
    homes = sorted((t, k[0]) for t, v in g.types.items() if t in g.path for k in v['kids'] if k[2] == 'IfData')
    ctx.cov['places'] = len(homes) + 1
    ifd = {t: next(k for k in g.types[t]['kids'] if k[2] == 'IfData') for t, _ in homes}
    cases = []
    n = 340 if ctx.quick else 3500
    for i in range(n):
        r = ctx.rng('vendor', i)
        gen = ag.Gen(g, r, wild=.5)
        objs = []
        used = set()
        for t in [homes[(i * 5 + j) % len(homes)][0] for j in range(5)] if i % 3 else [r.choice(homes)[0] for _ in range(r.randrange(1, 4))]:
            k = ifd[t]
            top = g.path[t][0][1][0] if g.path[t] else ''
            if top and next(x for x in g.types['Module']['kids'] if x[0] == top)[3] == '1':
                if top in used:
                    continue
                used.add(top)
            blocks = []
            for _ in range(r.choice([1, 1, 1, 2, 3]) if k[3] in 'LM' else 1):
                body = vendor(gen, g, 0, r.choice([0, 2, 6, 11]))
                nm = gen.ident()
                if r.random() < .25:
                    body = [nm] * r.choice([1, 1, 2]) + body
                if r.random() < .1:
                    body = body + [r.choice([nm, '"IF_DATA"', '"/end IF_DATA"', 'end', '/END', 'IF_DATA'])]
                if r.random() < .1:
                    nm = r.choice(['"' + nm + '"', 'IF_DATA_X', '0x1', '1', 'MODULE', 'CHARACTERISTIC'])
                blocks.append((None, ['/begin', 'IF_DATA', nm] + body + ['/end', 'IF_DATA']))
            if t == 'Module':
                objs += [b[1] for b in blocks]
                continue
            pt, kk = g.path[t][-1]
            others = [x for x in gen.choose(t, r.choice([0, .1, .3])) if x[2] != 'IfData' and g.types[x[2]]['mode'] != 'open']
            seq = others + blocks
            r.shuffle(seq)
            if g.types[kk[2]]['mode'] == 'block':
                ws = gen.kid(kk, kids=seq, sub=0)
                objs.append(gen.wrap(pt, ws) if pt != 'Module' else ws)
        if r.random() < .35 and '/begin A2ML' not in used:
            objs.append(['/begin', 'A2ML'] + a2ml_text(gen, g) + ['/end', 'A2ML'])
        many = [k for k in g.types['Module']['kids'] if k[3] == 'M']
        objs += [gen.kid(r.choice(many), sub=0) for _ in range(r.randrange(0, 5))]
        r.shuffle(objs)
        words = gen.project([objs])
        data = ag.layout(r, words, r.choice(['\n', '\r\n']))
        cases.append(make(ctx, i, words, data, pick(r, 3), 'vendor blocks'))
    # huge blocks, deep nesting
    for i in range(8 if ctx.quick else 60):
        r = ctx.rng('huge vendor', i)
        gen = ag.Gen(g, r, wild=.3)
        body = []
        size = 66000 if i == 0 else r.choice([1100, 2100, 4200, 9000])
        if i % 4 == 1:      # deep
            deep = r.choice([70, 140, 300])
            names = [r.choice(['SOURCE', 'X%d' % j, 'UNIT', 'RASTER']) for j in range(deep)]
            body = [w for n in names for w in ['/begin', n, gen.ident()]] + [w for n in reversed(names) for w in [gen.ident(), '/end', n]]
        elif i % 4 == 2:    # wide
            while len(body) < size:
                n = r.choice(['SOURCE', 'QP_BLOB', 'UNIT', 'RASTER'])
                body += ['/begin', n, gen.ident(), '"x"', str(len(body)), '/end', n]
        else:
            while len(body) < size:
                body += vendor(gen, g, 0, 11)
        t = homes[r.randrange(len(homes))][0] if i else 'Module'
        k = ifd[t]
        blk = ['/begin', 'IF_DATA', gen.ident()] + body + ['/end', 'IF_DATA']
        objs = [blk]
        if t != 'Module' and g.types[g.path[t][-1][1][2]]['mode'] == 'block':
            pt, kk = g.path[t][-1]
            ws = gen.kid(kk, kids=[(None, blk)], sub=0)
            objs = [gen.wrap(pt, ws) if pt != 'Module' else ws]
        if i % 4 == 3:
            text = []
            while len(text) < 1500:
                text += a2ml_text(gen, g)
            objs.append(['/begin', 'A2ML'] + text + ['/end', 'A2ML'])
        many = [x for x in g.types['Module']['kids'] if x[3] == 'M' and x[2] != 'IfData']
        objs += [gen.kid(r.choice(many), sub=0) for _ in range(r.randrange(2, 30))]
        r.shuffle(objs)
        words = gen.project([objs])
        cases.append(make(ctx, 500000 + i, words, ag.layout(r, words, r.choice(['\n', '\r\n'])), pick(r, 3), 'huge vendor blocks'))
    both(ctx, cases, 'vendor')
    ordered(ctx, g)
    return 'model_checking'


def a2ml_text(gen, g):
    r = gen.r
    kw = sorted(w for w in g.reserved if ' ' not in w and w)
    ws = []
    for _ in range(r.randrange(1, 25)):
        m = r.random()
        if m < .5:
            ws += r.choice([['struct', '{'], ['uint;'], ['block', '"IF_DATA"', 'taggedunion'], ['};'], ['"CAN"'], ['ulong', '[3];'],
                            ['enum', '{', '"A"', '=', '1', '}'], ['(taggedstruct', '{'], ['})*;'], ['char[101];']])
        elif m < .7:
            ws.append(r.choice(kw))
        elif m < .8:
            ws.append(gen.string())
        elif m < .85:
            n = r.choice(['SOURCE', 'UNIT', 'CHARACTERISTIC', 'X'])
            ws += ['/begin', n, 'x', '/end', n]
        else:
            ws.append(gen.ident())
    return ws


# ------------------------------------------------------------------ C09
def small_doc(g, gen, ty, sub):
    """a file around one block of a type; returns words and where the block is"""
    r = gen.r
    pt, k = g.path[ty][-1]
    inner = gen.kid(k, kids=gen.choose(ty, sub), sub=sub)
    obj = gen.wrap(pt, inner) if pt != 'Module' else inner
    many = [x for x in g.types['Module']['kids'] if x[3] == 'M']
    before = [gen.kid(r.choice(many), sub=0) for _ in range(r.randrange(0, 3))]
    after = [gen.kid(r.choice(many), sub=0) for _ in range(r.randrange(0, 3))]
    mods = [before + [obj] + after]
    if r.random() < .2:
        mods.append([gen.kid(r.choice(many), sub=0)])
    words = gen.project(mods)
    # where the object is
    for i in range(len(words) - len(obj) + 1):
        if words[i:i + len(obj)] == obj:
            return words, i, i + len(obj)
    raise AssertionError


def mutate(g, gen, words, a, b, how):
    """one structural defect (which the specification may or may not find decisive)"""
    r = gen.r
    ws = list(words)
    if how == 'truncate':
        return ws[:r.randrange(a, len(ws))]
    if how == 'truncate early':
        return ws[:r.randrange(0, a + 1)]
    if how in ('drop end', 'other end', 'late end', 'double end'):
        es = [i for i in range(max(0, a), len(ws) - 1) if ws[i] == '/end']
        i = r.choice([e for e in es if e < b] or es) if r.random() < .8 else r.choice(es)
        if how == 'drop end':
            del ws[i:i + 2]
        elif how == 'other end':
            ws[i + 1] = r.choice(sorted(w.split(' ')[1] for w in gen.ends if w.split(' ')[1] != ws[i + 1]))
        elif how == 'double end':
            ws[i:i] = ws[i:i + 2]
        else:
            e = ws[i:i + 2]
            del ws[i:i + 2]
            j = r.randrange(i, len(ws) + 1)
            ws[j:j] = e
        return ws
    if how == 'drop begin':
        bs = [i for i in range(a, b) if ws[i] == '/begin']
        i = r.choice(bs)
        del ws[i:i + r.choice([1, 2])]
        return ws
    if how == 'drop word':
        del ws[r.randrange(a + 1, b)]
        return ws
    if how == 'keyword for word':
        i = r.randrange(a + 2, b)
        ws[i:i + 1] = r.choice(gen.kws).split(' ')
        return ws
    if how == 'insert keyword':
        i = r.randrange(a, b + 1)
        ws[i:i] = r.choice(gen.kws).split(' ')
        return ws
    if how == 'insert object':
        i = r.randrange(a + 1, b + 1)
        t = r.choice(sorted(g.path))
        if not g.path[t]:
            return ws
        ws[i:i] = gen.kid(g.path[t][-1][1], sub=0)
        return ws
    if how == 'swap':
        i, j = r.randrange(a, b), r.randrange(a, b)
        ws[i], ws[j] = ws[j], ws[i]
        return ws
    if how == 'move block':
        bs = [i for i in range(a, b) if ws[i] == '/begin']
        i = r.choice(bs)
        d, j = 0, i
        while j < len(ws):
            d += ws[j] == '/begin'
            d -= ws[j] == '/end'
            j += 1
            if d == 0:
                j += 1
                break
        blk = ws[i:j]
        del ws[i:j]
        k = r.randrange(0, len(ws) + 1)
        ws[k:k] = blk
        return ws
    raise AssertionError(how)


HOW = ['truncate', 'truncate', 'truncate early', 'drop end', 'other end', 'late end', 'double end', 'drop begin', 'drop word', 'drop word',
       'keyword for word', 'keyword for word', 'insert keyword', 'insert keyword', 'insert object', 'swap', 'move block']


def missing(g, gen, ty):
    """every parameter of every attribute of a type replaced by what follows it: a keyword or the end"""
    for k in g.types[ty]['kids']:
        t = g.types[k[2]]
        if t['mode'] != 'attr':
            continue
        for n in range(len(t['ps'])):
            yield k, n


def c09(ctx):
    vlib.build(ctx)
    g = ag.load(ctx)
    cases = []
    ends = sorted({t['end'] for t in g.types.values() if t['end']})
    kws = sorted({k[0] for t in g.types.values() for k in t['kids']} | set(ends))
    blocks = [t for t in g.blocks if t != 'Module']

    def gen_for(r):
        gen = ag.Gen(g, r, wild=.15)
        gen.ends, gen.kws = ends, kws
        return gen

    # every attribute with every number of its parameters missing, followed by a keyword or the end of the block
    cid = 0
    todo = [(ty, k, n, how) for ty in g.blocks for k, n in missing(g, None, ty) for how in (0, 1)]
    ctx.cov['missing_parameters'] = len(todo)
    if ctx.quick:
        todo = [x for i, x in enumerate(todo) if (i + ctx.seed) % 2 == 0]
    for ty, k, n, how in todo:
        r = ctx.rng('miss', ty, k[0], n, how)
        gen = gen_for(r)
        ps = gen.params(g.types[k[2]])[:n]
        att = (None, k[0].split(' ') + ps)
        fol = []
        if how:
            alike = [x for x in g.types[ty]['kids'] if x is not k and g.types[x[2]]['mode'] in ('attr', 'flag')]
            if not alike:
                continue
            fol = [r.choice(alike)]
        if ty == 'Module':
            continue
        pt, kk = g.path[ty][-1]
        ws = gen.kid(kk, kids=[att] + fol, sub=0)
        obj = gen.wrap(pt, ws) if pt != 'Module' else ws
        words = gen.project([[obj]])
        cases.append(make(ctx, cid, words, ag.layout(r, words), [r.choice([0, 2, 8])], 'missing parameter'))
        cid += 1
    # a foreign keyword in front of every single parameter, all parameters being there
    for ty in sorted(x for x in g.path if g.path[x]):
        t = g.types[ty]
        allowed = {k[0] for k in t['kids']} | {t['end']}
        for w in ('ps', 'rest'):
            for i, (f, k) in enumerate(t[w]):
                for j in range(2 if ctx.quick else 20):
                    r = ctx.rng('intruder', ty, w, i, j)
                    gen = gen_for(r)
                    ws = with_value(g, gen, ty, w, i, '@@')
                    if ws is None or '@@' not in ws:
                        continue
                    at = r.choice([x for x, y in enumerate(ws) if y == '@@'])
                    ws = [gen.param(f, k) if y == '@@' and x != at else y for x, y in enumerate(ws)]
                    ws[at:at + 1] = r.choice([x for x in kws if x not in allowed]).split(' ') + [gen.param(f, k)]
                    words = gen.project([[ws]])
                    cases.append(make(ctx, 800000 + cid, words, ag.layout(r, words), [r.choice([0, 2, 8])], 'intruder'))
                    cid += 1
    # every keyword in blocks that do not allow it
    pairs = [(ty, kw) for ty in g.blocks if ty != 'Module' for kw in kws if kw not in {k[0] for k in g.types[ty]['kids']} and kw != g.types[ty]['end']]
    pairs += [('Module', kw) for kw in kws if kw not in {k[0] for k in g.types['Module']['kids']} and kw != '/end MODULE']
    ctx.cov['misplaced_keyword_pairs'] = len(pairs)
    if ctx.quick:
        pairs = ctx.rng('pairs').sample(pairs, min(len(pairs), 900))
    for i, (ty, kw) in enumerate(pairs):
        r = ctx.rng('misplaced', ty, kw)
        gen = gen_for(r)
        body = kw.split(' ')
        if r.random() < .5:
            ks = [k for t in g.types.values() for k in t['kids'] if k[0] == kw]
            if ks:
                body = gen.kid(ks[0], sub=0)
        if ty == 'Module':
            objs = [gen.kid(k, sub=0) for k in r.sample([k for k in g.types['Module']['kids'] if k[3] == 'M'], 3)]
            objs.insert(r.randrange(0, 4), body)
        else:
            pt, kk = g.path[ty][-1]
            seq = gen.choose(ty, .1)
            seq.insert(r.randrange(len(seq) + 1), (None, body))
            ws = gen.kid(kk, kids=seq, sub=0)
            objs = [gen.wrap(pt, ws) if pt != 'Module' else ws]
        words = gen.project([objs])
        cases.append(make(ctx, 20000 + i, words, ag.layout(r, words), [r.choice([0, 2, 4, 16])], 'misplaced keyword'))
    # defects of all kinds
    for i in range(1100 if ctx.quick else 30000):
        r = ctx.rng('defect', i)
        gen = gen_for(r)
        words, a, b = small_doc(g, gen, blocks[i % len(blocks)], r.choice([.05, .2, .4]))
        how = r.choice(HOW)
        ws = mutate(g, gen, words, a, b, how)
        if r.random() < .1:
            hw2 = r.choice(HOW)
            if len(ws) > b and how.startswith(('drop word', 'keyword', 'insert keyword')):
                ws, how = mutate(g, gen, ws, a, b, hw2), how + ' + ' + hw2
        cases.append(make(ctx, 50000 + i, ws, ag.layout(r, ws, r.choice(['\n', '\r\n'])), pick(r, 2), how.split(' + ')[0]))
    # truncation at every word of some files, in text form also within words
    for i in range(2 if ctx.quick else 25):
        r = ctx.rng('cut', i)
        gen = gen_for(r)
        words, a, b = small_doc(g, gen, r.choice(blocks), .15)
        if len(words) > 250:
            continue
        for j in range(len(words)):
            cases.append(make(ctx, 200000 + i * 1000 + j, words[:j], ag.layout(r, words[:j]), [r.choice([0, 2, 6])], 'cut'))
        data = ag.wild_layout(r, words, '\n', .1)
        for j in r.sample(range(len(data)), min(len(data), 60)):
            cases.append(text_case(ctx, 300000 + i * 5000 + j, data[:j], [r.choice([0, 2, 6])], 'cut text'))
    for i, t in enumerate(EMPTY):
        cases.append(text_case(ctx, 600000 + i, t.encode('latin1'), [0, 2, 8], 'nothing there'))
    cases += pipeline(ctx, TREE_ALPHA, 2 if ctx.quick else 3, [2, 3] if ctx.quick else [2, 3, 4], 700000, 600 if ctx.quick else 6000)
    both(ctx, cases, 'defect')
    ordered(ctx, g)
    return 'model_checking'


EMPTY = ['', ' ', '\n', '\n\n\n', '// nothing', '/* nothing */', 'ASAP2_VERSION 1 61', 'ASAP2_VERSION 1', 'ASAP2_VERSION',
         'ASAP2_VERSION 1 61 A2ML_VERSION 1 31', '/begin PROJECT', '/begin PROJECT P', '/begin PROJECT P ""',
         '/begin PROJECT P "" /begin MODULE', '/begin PROJECT P "" /begin MODULE M', '/begin PROJECT P "" /begin MODULE M ""',
         '/begin PROJECT P "" /begin MODULE M "" /end MODULE', '/begin MODULE M "" /end MODULE', '/end PROJECT',
         '/begin PROJECT P "" /begin MODULE M "" /end PROJECT', '/begin PROJECT P "" /end MODULE', '/begin PROJECT P "" /end MODULE /end PROJECT',
         '/begin PROJECT P "" /begin MODULE M "" /end MODULE /begin MODULE N "" /end PROJECT',
         '/begin PROJECT P "" /begin MODULE M "" /end MODULE /begin MODULE N ""',
         '/begin PROJECT P "" /begin HEADER "" /begin MODULE M "" /end MODULE /end PROJECT',
         '/begin HEADER "" /end HEADER', '/begin PROJECT P "" /begin PROJECT Q "" /end PROJECT /end PROJECT',
         '/begin PROJECT P "" /begin MODULE M "" /begin MODULE N "" /end MODULE /end MODULE /end PROJECT',
         '/begin PROJECT P "" /begin MODULE M "" /begin UNIT U "" "" DERIVED /end MODULE /end PROJECT',
         'FORMAT ""', '/begin UNIT U "" "" DERIVED /end UNIT', '/begin CHARACTERISTIC /begin PROJECT P "" /end PROJECT',
         '/begin PROJECT P "" /begin MODULE M "" /end MODULE /end PROJECT /begin PROJECT',
         '/begin PROJECT P "" /begin MODULE M "" /end MODULE /end PROJECT /end PROJECT',
         '/begin PROJECT P "" /begin MODULE M "" /end MODULE /end PROJECT FORMAT']


# ------------------------------------------------------------------ C16
NUMBERS = {
    'u16': (['0', '1', '255', '256', '32767', '32768', '65535', '007', '10000'],
            ['65536', '-1', '-32768', '4294967296', '99999999999999999999', '1.5', '1e3', 'abc', '""', '"1"', '-', '12a', '1,5', '65536000', '131071', '.', 'FF']),
    'i16': (['0', '1', '-1', '32767', '-32768', '255', '-256', '00100'],
            ['32768', '-32769', '65535', '4294967295', '1.5', 'abc', '--1', '"-1"', '1-', '-', '12a', '99999999999999999999']),
    'u32': (['0', '1', '65536', '2147483647', '2147483648', '4294967295', '00042'],
            ['4294967296', '-1', '99999999999999999999', '1.0', '1e3', 'abc', '""', '12L', '18446744073709551616']),
    'i32': (['0', '-1', '65536', '2147483647', '-2147483648', '0000012'],
            ['2147483648', '-2147483649', '4294967295', '1.5', 'abc', '"1"', '1e3', '18446744073709551616']),
    'f': (['0', '0.0', '-0', '1', '-1', '0.1', '123456.789', '1e10', '1E-10', '-2.5e+3', '3.14159265358979', '16777217', '0.000001', '1.', '.5', '1e38',
           '3.5e38', '1e39', '1e200', '1e-200', '4294967296', '900719925474099', '-32768.5', '0.30000000000000', '100000000000000', '1e0', '12345678.9012345'],
          ['abc', '1.2.3', '1e', '""', '"1.0"', '-', '1,5', '--1', 'e5', '1e400', '-1e999', '1..2', '12a', '1e5.5', '.', '1e+']),
}


def illegal(r, g, kind):
    vals = g.enums[kind]
    v = r.choice(vals)
    other = sorted(x for k, e in g.enums.items() if k != kind for x in e if x not in vals)
    cand = [v.lower(), v + 'X', v[:-1], 'X' + v, v + '_', v.replace('_', '') + '1', '"' + v + '"', '1', 'abc', '""', v.capitalize(), v[1:], v + v,
            '0', '-1', 'UNKNOWN', v + '.', r.choice(other), r.choice(other)]
    return [c for c in cand if c and c not in vals and c not in g.reserved - set(other)]


def slots(g):
    for ty in sorted(g.types):
        t = g.types[ty]
        if ty not in g.path and ty not in ('asap2Version', 'a2mlVersion'):
            continue
        for w in ('ps', 'rest'):
            for i, (f, k) in enumerate(t[w]):
                if k != 'str':
                    yield ty, w, i, k


def with_value(g, gen, ty, w, i, word):
    """the words of an object that has the word at that place"""
    gen.force = {(ty, w, i): word}
    if ty not in g.path:
        return None
    pt, k = g.path[ty][-1]
    ws = gen.kid(k, sub=0)
    ws = gen.wrap(pt, ws) if pt != 'Module' else ws
    return ws


def c16(ctx):
    vlib.build(ctx)
    g = ag.load(ctx)
    sl = list(slots(g))
    ctx.cov['slots'] = len(sl)
    good, bad = [], []
    for ty, w, i, k in sl:
        r = ctx.rng('val', ty, w, i)
        if k in g.enums:
            good += [(ty, w, i, v) for v in g.enums[k]]
            b = illegal(r, g, k)
        else:
            count = g.types[ty]['need'] == -2 and w == 'ps' and i == len(g.types[ty]['ps']) - 1
            good += [(ty, w, i, v) for v in NUMBERS[k][0] if not count or int(v) < 300]
            b = NUMBERS[k][1]
        if ctx.quick:
            b = r.sample(b, min(len(b), 6))
        bad += [(ty, w, i, v) for v in b]
    ctx.cov['legal_values'], ctx.cov['illegal_values'] = len(good), len(bad)
    cases, cid = [], 0
    # legal values: many per file
    single = {k[0] for k in g.types['Module']['kids'] if k[3] == '1'}
    open_files = []
    r = ctx.rng('good')
    r.shuffle(good)
    for x in good:
        top = g.path[x[0]][0][1][0] if x[0] in g.path else x[0]
        for f in open_files:
            if not ((top in single or x[0] not in g.path) and top in f[1]):
                break
        else:
            f = ([], set())
            open_files.append(f)
        f[0].append(x)
        f[1].add(top)
        if len(f[0]) >= 25:
            open_files.remove(f)
            cid += 1
            cases.append(legal_file(ctx, g, cid, f[0]))
    for f in open_files:
        cid += 1
        cases.append(legal_file(ctx, g, cid, f[0]))
    # illegal values: one per file
    for n, (ty, w, i, v) in enumerate(bad):
        r = ctx.rng('bad', n)
        gen = ag.Gen(g, r, wild=.1)
        ws = with_value(g, gen, ty, w, i, v)
        words = gen.project([[ws] if ws else []])
        cases.append(make(ctx, 50000 + n, words, ag.layout(r, words), [r.choice([0, 2, 8])], 'illegal %s' % g.types[ty][w][i][1]))
    # random legal numbers
    for n in range(30 if ctx.quick else 600):
        r = ctx.rng('num', n)
        xs = []
        for ty, w, i, k in r.sample(sl, 30):
            if k in g.enums or ty not in g.path or g.path[ty][0][1][0] in single:
                continue
            xs.append((ty, w, i, ag.Gen(g, r).number(k)))
        cid += 1
        cases.append(legal_file(ctx, g, cid, xs))
    both(ctx, cases, 'values')
    datatypes(ctx)
    return 'model_checking'


def legal_file(ctx, g, cid, xs):
    r = ctx.rng('legal', cid)
    gen = ag.Gen(g, r, wild=.1)
    objs = []
    last = {}
    for ty, w, i, v in xs:
        ws = with_value(g, gen, ty, w, i, v)
        if ws is None:
            last = {(ty, w, i): v}
        else:
            objs.append(ws)
    gen.force = last
    words = gen.project([objs])
    gen.force = {}
    return make(ctx, cid, words, ag.layout(r, words), pick(r, 2), 'legal values')


def datatypes(ctx):
    """lengths of data types and data sizes"""
    c = {'id': 990000, 'calls': [{'op': 'datatypes', 'file': '', 'procs': 0, 'want': []}], 'timeout': 60}
    r = vlib.run_cases(ctx, [c], tag='dt')[990000]
    res = [{'outcome': o['outcome'], 'types': o.get('leaves') or []} for o in r['outs']] or [{'outcome': 'crash', 'types': []}]
    with vlib.timed(ctx, 'judge'):
        for b in vlib.judge(ctx, 'A2LApi', [{'id': 990000, 'kind': 'types', 'results': res}]):
            ctx.violate('data types: ' + b['why'], {'results': res})
