"""C11-C13: ReadCalibration, histories of calls, and termination on any input."""
import base64
import itertools, os
import a2lgen as ag
import checks_a2l as ca
import checks_hex as ch
import hexgen as hg
import vlib

PROCS = [1, 2, 3, 4, 8, 16, 32]
A2LPROCS = ca.PROCS


class World:
    """the files of a history and the calls made on them"""

    def __init__(self, ctx, cid, kind):
        self.ctx, self.cid, self.kind = ctx, cid, kind
        self.files, self.calls, self.ix = [], [], {}
        self.mode, self.recheck, self.timeout = 'seq', False, 60

    def file(self, name, data, there='file'):
        p = self.ctx.path('files', str(self.cid), name)
        if there == 'file':
            open(p, 'wb').write(data)
        elif there == 'dir':
            os.makedirs(p, exist_ok=True)
        self.files.append({'path': p, 'there': there == 'file', 'data': data if there == 'file' else b''})
        return len(self.files)

    def call(self, op, a=0, h=0, at=None, **kw):
        """at: the path to use for the files if it is not their own (they are copied there first)"""
        fs = [self.files[i - 1] for i in (a, h) if i]
        paths = [f['path'] for f in fs]
        c = {'op': op, 'procs': 0, 'want': ['leaves', 'image'], **kw}
        if at:
            paths = [self.ctx.path('files', str(self.cid), x) for x in at]
            c['copy'] = [[f['path'], p] for f, p in zip(fs, paths)]
        c['file'] = paths[0]
        if op == 'readcal':
            c['file2'] = paths[1]
        self.calls.append((c, a, h))

    def wire(self):
        return {'id': self.cid, 'calls': [c for c, _, _ in self.calls], 'mode': self.mode, 'recheck': self.recheck, 'timeout': self.timeout}


def entry(w, res):
    calls, uniq = [], {}
    outs = list(res['outs'])
    if res.get('hang') or res.get('crash'):
        w.log = res.get('log', '')
    for k, (c, a, h) in enumerate(w.calls):
        o = outs[k] if k < len(outs) else None
        if o is None:
            if res.get('hang') or res.get('crash'):
                o = {'outcome': 'hang' if res.get('hang') else 'crash'}
            else:
                continue
        kept = not o.get('after') or o['after'] == o.get('digest')
        if o['outcome'] == 'panic':
            w.log = o.get('msg', '')
        key = (c['op'], a, h, c.get('file2') or c['file'], o['outcome'], o.get('digest', ''), kept, o.get('idx', 0))
        if key in uniq:
            continue
        uniq[key] = True
        p = (c.get('file2') or c['file']) if c['op'] != 'a2l' else ''
        calls.append({'op': c['op'], 'a': a, 'h': h, 'path': list(p.encode('utf8')), 'outcome': o['outcome'], 'leaves': o.get('leaves') or [],
                      'runs': o.get('runs') or [], 'idx': o.get('idx', 0), 'kept': kept})
    used_a = {a for _, a, _ in w.calls}
    used_h = {h for _, _, h in w.calls}
    files = []
    for i, f in enumerate(w.files):
        d = f['data']
        files.append({'there': f['there'], 'text': d.decode('latin1') if i + 1 in used_a else '', 'codes': list(d) if i + 1 in used_a else [],
                      'lines': hg.lines_of(d) if i + 1 in used_h else []})
    w.judged = calls
    return {'id': w.cid, 'files': files, 'calls': calls,
            '_w': 100 + sum(len(w.files[c['a'] - 1]['data']) if c['a'] else 0 for c in calls) * 2
            + sum(len(w.files[c['h'] - 1]['data']) if c['h'] else 0 for c in calls)}


def settle(ctx, worlds, label, order=False, fresh=False):
    if order:
        res = vlib.order(ctx, [dict(w.wire(), timeout=200) for w in worlds], label=label)
    else:
        with vlib.timed(ctx, 'run'):
            res = vlib.run_cases(ctx, [w.wire() for w in worlds], tag='fresh' if fresh else '', fresh=fresh)
    es = [entry(w, res[w.cid]) for w in worlds if w.cid in res]
    ctx.cov['executions'] = ctx.cov.get('executions', 0) + sum(len(res[w.cid]['outs']) for w in worlds if w.cid in res)
    ctx.cov['evaluations'] = ctx.cov.get('evaluations', 0) + len(es)
    by = {w.cid: w for w in worlds}
    with vlib.timed(ctx, 'judge'):
        bads = vlib.judge(ctx, 'CalTrace', es)
    for b in bads:
        w = by[b['id']]
        c = w.judged[b['result'] - 1]
        ctx.violate('%s %s: %s' % (label, w.kind, b['why']),
                    {'kind': w.kind, 'mode': w.mode, 'calls': [{k: v for k, v in x.items() if k != 'want'} for x, _, _ in w.calls],
                     'files': [{'path': f['path'], 'there': f['there'], 'text': f['data'].decode('latin1')[:8000]} for f in w.files],
                     'call': {k: c[k] for k in ('op', 'a', 'h', 'outcome', 'idx', 'kept')}, 'log': getattr(w, 'log', '')})
    for w in worlds[:2] + worlds[-1:]:
        ctx.samples.append({'kind': w.kind, 'mode': w.mode, 'calls': [(c['op'], os.path.basename(c['file']), os.path.basename(c.get('file2', ''))) for c, _, _ in w.calls][:12]})


# ------------------------------------------------------------------ the model
def model(ctx, ops, lens, tag, locked=True, live=False, cap=2):
    cfg = ('CONSTANTS\n Ops = {%s}\n Lens <- LensDef\n Locked = %s\n Cap = %d\nSPECIFICATION Spec\nINVARIANTS Own NoLateSend Report\n%s'
           % (','.join('"%s"' % o for o in ops), str(locked).upper(), cap, 'PROPERTY Ends\n' if live else ''))
    mod = '---- MODULE CalRun ----\nEXTENDS CalModel\nLensDef == <<%s>>\n====\n' % ', '.join(map(str, lens))
    with vlib.timed(ctx, 'model'):
        if not locked or cap < 2:
            rc, out = vlib.tlc(ctx, 'CalRun', cfgtext=cfg, files={'CalRun.tla': mod}, workers=vlib.CORES, mem='8g', tag=tag)
            if rc == 0:
                raise vlib.CheckError('the model does not notice a flaw: ' + tag)
            ctx.cov['flawed_models_refuted'] = ctx.cov.get('flawed_models_refuted', 0) + 1
            return []
        out = vlib.model_check(ctx, 'CalRun', cfgtext=cfg, files={'CalRun.tla': mod}, workers=vlib.CORES, mem='8g', tag=tag)
    ps = sorted({tuple(tuple(x) for x in p) for _, p in vlib.printed(out, ('CASE',))})
    if not ps:
        raise vlib.CheckError('no programs from CalModel')
    ctx.cov['model_programs'] = ctx.cov.get('model_programs', 0) + len(ps)
    return ps


def broken_a2l(g, r, ctx):
    gen = ag.Gen(g, r, wild=.1)
    words = gen.project([gen.objects(r.randrange(1, 3), sub=0)])
    cut = r.randrange(1, len(words) - 1)
    if r.random() < .5:
        return ag.layout(r, words[:cut])
    i = max(k for k in range(len(words)) if words[k] == '/end')
    del words[i:i + 2]
    return ag.layout(r, words)


def good_a2l(g, r, nmod=1, size=(1, 4), sub=0):
    gen = ag.Gen(g, r, wild=.1)
    words = gen.project([gen.objects(r.randrange(*size), sub=sub) for _ in range(nmod)])
    return ag.layout(r, words, r.choice(['\n', '\r\n']))


def hex_file(r, fmt, bad=False, size=(1, 12)):
    k = r.randrange(*size)
    recs = hg.ihex_valid(r, k) if fmt == 'ihex' else hg.srec_valid(r, k)
    if bad:
        recs, _ = hg.corrupt(r, fmt, recs)
    return hg.text(r, recs)


def letters(w, g, r):
    """the files behind the letters of CalModel"""
    ctx = w.ctx
    f = {'A': {}, 'H': {}}
    for x in 'ac':
        f['A'][x] = w.file(x + '.a2l', good_a2l(g, r))
    f['A']['m'] = w.file('m.a2l', good_a2l(g, r, 2, (0, 3)))
    f['A']['b'] = w.file('b.a2l', broken_a2l(g, r, ctx))
    f['A']['n'] = w.file('none.a2l', b'', r.choice(['missing', 'dir']))
    f['H']['i'] = w.file('i' + r.choice(['.hex', '.HEX', '.Hex']), hex_file(r, 'ihex'))
    f['H']['s'] = w.file('s' + r.choice(['.s19', '.S19']), hex_file(r, 'srec'))
    f['H']['x'] = w.file('x.hex', hex_file(r, 'ihex', True))
    f['H']['o'] = w.file('o' + r.choice(['.bin', '.hexx', '.s28', '', '.txt', '.hex.bak']), hex_file(r, r.choice(['ihex', 'srec'])))
    f['H']['n'] = w.file('none' + r.choice(['.hex', '.s19']), b'', r.choice(['missing', 'dir']))
    return f


def add(w, f, op, **kw):
    a, h = op[0], op[1]
    if a != '-' and h != '-':
        w.call('readcal', f['A'][a], f['H'][h], **kw)
    elif a != '-':
        w.call('a2l', f['A'][a], 0, **kw)
    else:
        w.call('srec' if h == 's' else 'ihex', 0, f['H'][h], **kw)


# ------------------------------------------------------------------ C11
YES = [('x.hex', 'ihex'), ('x.HEX', 'ihex'), ('x.Hex', 'ihex'), ('x.hEx', 'ihex'), ('x.s19', 'srec'), ('x.S19', 'srec'), ('a.b.hex', 'ihex'),
       ('dir.s19/x.hex', 'ihex'), ('dir.hex/x.s19', 'srec'), ('x.s19.hex', 'ihex'), ('x.hex.s19', 'srec'), ('.hex', 'ihex'), ('.s19', 'srec'),
       ('..hex', 'ihex'), ('x y.hex', 'ihex'), ('\xe4.hex', 'ihex'), ('s19/hex.hex', 'ihex'), ('hex/s19.s19', 'srec'), ('x-.s19', 'srec'),
       ('.hex/.s19', 'srec'), ('x.S19.HEX', 'ihex'), ('x.a2l.hex', 'ihex'), ('long' * 40 + '.s19', 'srec'), ('s19.hex', 'ihex'), ('hex.s19', 'srec')]
NO = ['x', 'x.hex.bak', 'x.he', 'x.hexx', 'x.ihex', 'x.s1', 'x.s190', 'x.s18', 'x.s28', 'x.mot', 'hex', 's19', 'dir.hex/x', 'x.hex ', 'x.h.ex',
      'x.hex.', 'xhex', 'x.txt', 'x.srec', 'dir.s19/s19', 'x.s19~', '.hex.', 'x.a2l', 'x.hex.gz', 'S19', 'x_hex', 'x.s37', 'x..', '.', 'x.h', 'x.S-19']


def ordered(ctx, g, cid0):
    """whether the accesses of readers and callers to what they share are ordered"""
    worlds = []
    for i in range(8 if ctx.quick else 60):
        r = ctx.rng('order', i)
        w = World(ctx, cid0 + i, 'order')
        f = letters(w, g, r)
        w.recheck = True
        q = r.choice(A2LPROCS + [0, 0])
        if ctx.prop == 'C11':
            for op in [['ai', 'bx', 'cs'], ['ms', 'ao', 'bi'], ['an', 'nx', 'ai'], ['bx', 'ms', 'ax']][i % 4]:
                add(w, f, op, procs=q)
        else:
            w.mode = 'threads'
            for t in range(4):
                for op in r.sample([['a-', 'm-', 'b-', 'c-'], ['ai', 'ms', 'cs', 'bi'], ['-i', '-s', '-x', 'ai'], ['a-', 'm-', '-i', '-s']][i % 4], 3):
                    add(w, f, op, thread=t, procs=q)
        worlds.append(w)
    if ctx.prop == 'C12':
        # a reader that has something to log while the first call of ReadCalibration sets up the logger (known finding)
        for k in range(4):
            r = ctx.rng('order logger', k)
            w = World(ctx, cid0 + len(worlds), 'order')
            w.mode = 'threads'
            f = letters(w, g, r)
            for t in range(k + 1):
                for _ in range(40 // (k + 1)):
                    add(w, f, '-x', thread=t, procs=4)
            for _ in range(3):
                add(w, f, 'ai', thread=k + 1, procs=4)
            worlds.append(w)
    settle(ctx, worlds, 'order', order=True)
    if ctx.prop == 'C12' and not ctx.known:
        # whether the schedule of this run showed the finding or not
        listed = vlib.known_finding('C12', 'logger-setup')
        if listed:
            ctx.known.append(listed + ' (not observed in this run)')


def c11(ctx):
    vlib.build(ctx)
    g = ag.load(ctx)
    ops = [a + h for a in 'acmbn' for h in 'isxon']
    progs = model(ctx, ops, [1], '-1', live=True)
    model(ctx, ['bx'], [1], '-cap', cap=1)     # an error channel that is too small
    worlds = []
    reps = 2 if ctx.quick else 25
    for i, p in enumerate(progs):
        for j in range(reps):
            r = ctx.rng('model', i, j)
            w = World(ctx, len(worlds), 'model ' + p[0][0])
            f = letters(w, g, r)
            add(w, f, p[0][0], procs=r.choice(A2LPROCS + [0]))
            add(w, f, p[0][0], procs=0)
            worlds.append(w)
    # all names with good content, and with content of the other format
    for i, (name, fmt) in enumerate(YES + [(n, None) for n in NO if n != '.']):
        for other in (False, True):
            r = ctx.rng('name', i, other)
            w = World(ctx, len(worlds), 'name ' + name)
            content = fmt or r.choice(['ihex', 'srec'])
            if other:
                content = 'srec' if content == 'ihex' else 'ihex'
            a = w.file(r.choice(['x.a2l', 'x.A2L', 'x', 'x.hex', 'x.txt', 'a.s19']) if r.random() < .3 else 'c.a2l', good_a2l(g, r, r.choice([1, 1, 2])))
            h = w.file('h/' + name, hex_file(r, content))
            w.call('readcal', a, h, procs=r.choice(A2LPROCS + [0, 0]))
            worlds.append(w)
    # combinations of files of all sorts, each in all states
    for i in range(170 if ctx.quick else 6000):
        r = ctx.rng('pair', i)
        w = World(ctx, len(worlds), 'pair')
        sa, sh = r.choice(['ok'] * 5 + ['multi', 'bad', 'missing', 'dir', 'empty']), r.choice(['ok'] * 6 + ['bad', 'bad', 'missing', 'dir', 'empty', 'other'])
        fmt = r.choice(['ihex', 'srec'])
        ext = {'ihex': ['.hex', '.HEX', '.heX'], 'srec': ['.s19', '.S19']}[fmt]
        if sh == 'other':
            ext = ['.bin', '.ihex', '', '.s28', '.hex.bak', '.hex_', '.s19x']
        a = w.file('a.a2l', {'ok': lambda: good_a2l(g, r, 1, (0, 6), r.choice([0, .1])), 'multi': lambda: good_a2l(g, r, r.choice([2, 3]), (0, 4)),
                             'bad': lambda: broken_a2l(g, r, ctx), 'missing': lambda: b'', 'dir': lambda: b'', 'empty': lambda: r.choice([b'', b'\n', b' '])}[sa](),
                   sa if sa in ('missing', 'dir') else 'file')
        h = w.file(r.choice(['h', 'a.b', 'x/y', 'hex', 's19', 'hex.s19']) + r.choice(ext),
                   {'ok': lambda: hex_file(r, fmt, False, (1, 30)), 'bad': lambda: hex_file(r, fmt, True, (1, 30)), 'missing': lambda: b'', 'dir': lambda: b'',
                    'empty': lambda: b'', 'other': lambda: hex_file(r, fmt)}[sh](),
                   sh if sh in ('missing', 'dir') else 'file')
        w.kind = 'a2l %s, hex %s' % (sa, sh)
        for q in r.sample(A2LPROCS, 1) + [0]:
            w.call('readcal', a, h, procs=q)
        worlds.append(w)
    # the same file for both, and the files the wrong way round
    for i in range(40 if ctx.quick else 300):
        r = ctx.rng('same', i)
        w = World(ctx, len(worlds), 'same file')
        name = 'f' + ['.hex', '.s19', '.a2l', '.HEX', ''][i % 5]
        what = i // 5 % 4
        data = [lambda: good_a2l(g, r, r.choice([1, 2])), lambda: hex_file(r, 'ihex'), lambda: hex_file(r, 'srec'), lambda: r.choice([b'', b'\n', broken_a2l(g, r, ctx)])][what]()
        f = w.file(name, data)
        w.call('readcal', f, f, procs=0)
        if i % 2:
            a = w.file('x.a2l', good_a2l(g, r, 1))
            h = w.file('x.hex', hex_file(r, 'ihex'))
            w.call('readcal', h, a, procs=0)
            w.call('readcal', f, h, procs=0)
            w.call('readcal', a, f, procs=0)
        worlds.append(w)
    settle(ctx, worlds, 'ReadCalibration')
    ordered(ctx, g, len(worlds))
    return 'model_checking'


# ------------------------------------------------------------------ C12
ALLOPS = ['a-', 'c-', 'm-', 'b-', 'n-', '-i', '-s', '-x', 'ai', 'ms', 'bi', 'cx', 'bx', 'nn', 'ao']


def c12(ctx):
    vlib.build(ctx)
    g = ag.load(ctx)
    worlds = []
    seqs = model(ctx, ALLOPS, [3], '-seq')
    two = model(ctx, ['a-', 'm-', 'b-', 'ai', 'ms', 'bx', '-i'], [2, 1], '-two', live=False)
    three = model(ctx, ['a-', 'ms', 'ci', 'b-'], [1, 1, 1], '-three')
    model(ctx, ['a-', 'm-'], [1, 1], '-flaw', locked=False)
    if not ctx.quick:
        model(ctx, ['a-', 'm-', 'bi', 'cs'], [2, 2], '-twotwo')
        model(ctx, ['a-', 'm-', 'b-', 'ai', 'ms', 'bx'], [1, 1], '-live', live=True)
    r0 = ctx.rng('choice')
    long = [p for p in seqs if len(p[0]) == 3]
    pick = long if not ctx.quick else r0.sample(long, min(len(long), 230))
    for i, p in enumerate(pick):
        r = ctx.rng('seq', p)
        w = World(ctx, len(worlds), 'history ' + ' '.join(p[0]))
        f = letters(w, g, r)
        w.recheck = True
        sp = r.random() < .4
        over = r.random() < .3
        for k, op in enumerate(p[0]):
            kw = {'procs': r.choice(A2LPROCS + [0, 0, 0])}
            if sp and r.random() < .5:
                kw['spoil'] = True
            if over and 'n' not in op and 'o' not in op:
                # all files at the same place, one after the other
                kw['at'] = (['same.a2l'] if op[0] != '-' else []) + ([{'s': 'same.s19'}.get(op[1], 'same.hex')] if op[1] != '-' else [])
            add(w, f, op, **kw)
        worlds.append(w)
    for j, p in enumerate((two if not ctx.quick else r0.sample(two, min(len(two), 90))) + (three if not ctx.quick else r0.sample(three, min(len(three), 40)))):
        for rep in range(1 if ctx.quick else 3):
            r = ctx.rng('par', p, rep)
            w = World(ctx, len(worlds), 'callers ' + ' | '.join(' '.join(x) for x in p))
            f = letters(w, g, r)
            w.mode, w.recheck = 'threads', True
            q = r.choice(A2LPROCS + [0, 0])
            for t, ops in enumerate(p):
                for op in ops:
                    add(w, f, op, thread=t, procs=q)
            worlds.append(w)
    # many callers at once on larger files
    for i in range(24 if ctx.quick else 400):
        r = ctx.rng('crowd', i)
        w = World(ctx, len(worlds), 'crowd')
        w.mode, w.recheck = 'threads', True
        fa = [w.file('a%d.a2l' % k, good_a2l(g, r, r.choice([1, 1, 2, 3]), (1, 12))) for k in range(3)] + [w.file('b.a2l', broken_a2l(g, r, ctx))]
        fi = [w.file('i%d.hex' % k, hex_file(r, 'ihex', k == 2, (5, 60))) for k in range(3)]
        fs = [w.file('s%d.s19' % k, hex_file(r, 'srec', k == 2, (5, 60))) for k in range(3)]
        if i % 2:        # files with nothing in them among the others
            fa[r.randrange(4)] = w.file('e.a2l', r.choice([good_a2l(g, r, 0), good_a2l(g, r, 1, (0, 1)), good_a2l(g, r, 3, (0, 1)), b'', b'ASAP2_VERSION 1 61']))
            fi[0], fs[0] = w.file('e.hex', r.choice([b'', b'\n', b':00000001FF'])), w.file('e.s19', r.choice([b'', b'\r\n', b'S9030000FC']))
        q = r.choice(A2LPROCS + [0, 0])
        style = r.choice(['mix', 'mix', 'readcal', 'a2l', 'hex'])
        for t in range(r.choice([3, 4, 6, 8])):
            for _ in range(r.choice([1, 2, 3])):
                m = {'mix': r.random(), 'readcal': 0, 'a2l': .5, 'hex': r.choice([.7, .9])}[style]
                if m < .4:
                    w.call('readcal', r.choice(fa), r.choice(fi + fs), thread=t, procs=q)
                elif m < .7:
                    w.call('a2l', r.choice(fa), 0, thread=t, procs=q)
                elif m < .85:
                    w.call('ihex', 0, r.choice(fi), thread=t, procs=q)
                else:
                    w.call('srec', 0, r.choice(fs), thread=t, procs=q)
        worlds.append(w)
    # other content of the same length at the same place
    for i in range(14 if ctx.quick else 150):
        r = ctx.rng('samesize', i)
        w = World(ctx, len(worlds), 'same size')
        w.recheck = True
        op = ['ihex', 'srec', 'a2l', 'readcal'][i % 4]
        fs, name = [], {'ihex': 's.hex', 'srec': 's.s19', 'a2l': 's.a2l', 'readcal': 's.hex'}[op]
        if op == 'a2l':
            base = good_a2l(g, r, r.choice([1, 1, 2]), (1, 6)).decode('latin1')
            k = base.index('PROJECT') + 8
            e = k + 1
            while base[e] not in ' \t\r\n':
                e += 1
            for x in 'abc':
                fs.append((w.file('v%s.a2l' % x, (base[:k] + x * (e - k) + base[e:]).encode('latin1')), 0))
        else:
            for x in range(3):
                rr = ctx.rng('samesize', i, 0)
                n = rr.randrange(1, 20)
                lines = [hg.srec_rec(3, 0x1000 + 4 * j, [r.randrange(256) for _ in range(4)]) if op == 'srec' else
                         hg.ihex_rec(0, 0x1000 + 4 * j, [r.randrange(256) for _ in range(4)]) for j in range(n)]
                fs.append((0, w.file('v%d%s' % (x, name[1:]), ('\n'.join(lines) + '\n').encode())))
        a0 = w.file('fix.a2l', good_a2l(g, r)) if op == 'readcal' else 0
        for j in [0, 1, 0, 2, 1]:
            a, h = fs[j]
            if op == 'readcal':
                w.call(op, a0, h, at=['fix2.a2l', name], procs=0)
            else:
                w.call(op, a, h, at=[name], procs=0, spoil=r.random() < .3)
        worlds.append(w)
    # the same reader many times at once on files that take some time
    for i in range(9 if ctx.quick else 150):
        r = ctx.rng('rush', i)
        w = World(ctx, len(worlds), 'rush')
        w.mode, w.recheck = 'threads', True
        op = ['ihex', 'srec', 'a2l'][i % 3]
        if op == 'a2l':
            fs = [w.file('r%d.a2l' % k, good_a2l(g, r, r.choice([1, 1, 2]), (25, 60))) for k in range(3)]
        else:
            fs = [w.file('r%d.%s' % (k, {'ihex': 'hex', 'srec': 's19'}[op]),
                         hg.text(r, (hg.ihex_valid if op == 'ihex' else hg.srec_valid)(r, r.choice([800, 1500, 2500]), 2), blanks=0)) for k in range(3)]
        q = r.choice([0, 0, 4, 16])
        for t in range(8):
            for _ in range(3):
                w.call(op, fs[t % 3] if op == 'a2l' else 0, 0 if op == 'a2l' else fs[t % 3], thread=t, procs=q)
        worlds.append(w)
    # long histories
    for i in range(16 if ctx.quick else 200):
        r = ctx.rng('long', i)
        w = World(ctx, len(worlds), 'long history')
        f = letters(w, g, r)
        w.recheck = True
        for _ in range(20):
            add(w, f, r.choice(ALLOPS), procs=r.choice(A2LPROCS + [0]), spoil=r.random() < .3)
        worlds.append(w)
    settle(ctx, worlds, 'calls')
    # the first calls of a process, every one behind every other
    n = len(worlds)
    worlds = []
    pairs = [p[0] for p in seqs if len(p[0]) == 2]
    if ctx.quick:
        pairs = [p for k, p in enumerate(pairs) if (k + k // 15 + ctx.seed) % 3 == 0]
    for i, p in enumerate(pairs):
        r = ctx.rng('first', i)
        w = World(ctx, n + len(worlds), 'first calls ' + ' '.join(p))
        f = letters(w, g, r)
        w.recheck = True
        q = r.choice(A2LPROCS + [0, 0])
        if r.random() < .3:
            w.mode = 'threads'
        for t, op in enumerate(p):
            add(w, f, op, procs=q, thread=t)
        worlds.append(w)
    # the same call again and again, then others: nothing a call holds may be left behind
    many = 70 if ctx.quick else 300
    for i, kind in enumerate(['a2l missing', 'a2l broken', 'a2l fine', 'ihex missing', 'ihex corrupt', 'ihex line', 'ihex twice', 'ihex fine', 'srec missing', 'srec corrupt',
                              'srec line', 'srec twice', 'srec fine', 'nn', 'bx', 'ai', 'ms', 'ao', 'bi', 'cx', 'nx', 'an']):
        r = ctx.rng('again', i)
        w = World(ctx, n + len(worlds), 'again ' + kind)
        f = letters(w, g, r)
        q = r.choice([0, 0, 4, 16])
        w.timeout = 240
        if ' ' in kind:
            op, what = kind.split(' ')
            name = {'a2l': 'y.a2l', 'ihex': 'y.hex', 'srec': 'y.s19'}[op]
            rec = (lambda k, d: hg.srec_rec(3, k, d)) if op == 'srec' else (lambda k, d: hg.ihex_rec(0, k, d))
            good = [rec(16 * k, [r.randrange(256) for _ in range(8)]) for k in range(r.choice([1, 9, 40]))]
            if what == 'missing':
                k = w.file(name, b'', r.choice(['missing', 'dir']))
            elif op == 'a2l':
                k = f['A']['b' if what == 'broken' else 'a']
            else:
                if what == 'corrupt':
                    good[-1] = good[-1][:-1] + ('0' if good[-1][-1] != '0' else '1')
                elif what == 'line':
                    good[0] = good[0][1:]
                elif what == 'twice':
                    good.append(good[0])
                k = w.file(name, ('\n'.join(good) + '\n').encode())
            for _ in range(many):
                w.call(op, k if op == 'a2l' else 0, 0 if op == 'a2l' else k, procs=q)
        else:
            for _ in range(many):
                add(w, f, kind, procs=q)
        for op in ['a-', '-i', '-s', 'ms', '-x', 'b-']:
            add(w, f, op, procs=q)
        worlds.append(w)
    settle(ctx, worlds, 'calls', fresh=True)
    ordered(ctx, g, n + len(worlds))
    return 'model_checking'


# ------------------------------------------------------------------ C13
def soup(r, g, n):
    kw = sorted(g.reserved)
    out = []
    for _ in range(n):
        m = r.random()
        if m < .6:
            out.append(r.choice(kw))
        elif m < .7:
            out.append(r.choice(['"a b"', '""', '"', '/', '//', '/*', '*/', '\\', '\\"', '/begin', '/end', '/begin/end', '"/begin X"', '/beginX', '/', '/e']))
        elif m < .8:
            out.append(str(r.randrange(-5, 70000)))
        else:
            out.append(r.choice(['x', 'A.B[1]', '0x1F', '1e5', '-', '.', 'UBYTE', 'COLUMN_DIR', 'DIRECT', '{', '\xff']))
    return r.choice([' ', '\n', '\t', ' \r\n']).join(out)


def damaged(r, data):
    """random byte level damage"""
    b = bytearray(data)
    for _ in range(r.choice([1, 1, 2, 5, 20])):
        m = r.random()
        if not b:
            b += bytes([r.randrange(256)])
            continue
        i = r.randrange(len(b))
        if m < .25:
            b[i] = r.choice([0, 10, 13, 32, 34, 47, 42, 92, 58, 83, 255, r.randrange(256)])
        elif m < .45:
            del b[i:i + r.choice([1, 1, 2, 8, 40])]
        elif m < .65:
            b[i:i] = r.choice([b'"', b'/', b'/*', b'*/', b'//', b'\\', b'\n', b'\r', b'/begin ', b'/end ', b'\x00', b':', b'S', b'\xef\xbb\xbf', b' ', b'\x1a'])
        elif m < .8:
            j = r.randrange(len(b))
            b[i:i] = b[j:j + r.choice([1, 5, 30, 100])]
        elif m < .9:
            b = b[:i]
        else:
            b = b[i:]
    return bytes(b)


def c13(ctx):
    vlib.build(ctx)
    g = ag.load(ctx)
    q = ctx.quick
    model(ctx, ['a-', 'b-', 'ai', 'bx', 'nn'], [1, 1], '-live', live=True)
    model(ctx, ['bx'], [1], '-cap', cap=1)
    jobs = []      # (kind, ops, bytes or None, there)

    def put(kind, ops, data, there='file'):
        jobs.append((kind, ops, data, there))

    def wrap(inner, mods=1):
        pre = 'ASAP2_VERSION 1 61 /begin PROJECT P "" ' + '/begin MODULE M0 "" /end MODULE ' * (mods - 1)
        return pre + '/begin MODULE M "" ' + inner
    # end of the file behind every keyword, in a file with one and with two modules, alone and within its block
    kws = sorted({k[0] for t in g.types.values() for k in t['kids']} | {t['end'] for t in g.types.values() if t['end']})
    for kw in kws:
        put('ends behind keyword', ['a2l'], wrap(kw).encode('latin1'))
        put('ends behind keyword', ['a2l'], wrap(kw, 2).encode('latin1'))
        if not q or ctx.rng('kw', kw).random() < .3:
            put('only a keyword', ['a2l'], kw.encode())
            put('keyword twice', ['a2l'], wrap(kw + ' ' + kw + ' /end MODULE /end PROJECT').encode())
    for ty in g.blocks:
        if ty == 'Module':
            continue
        for k in g.types[ty]['kids']:
            r = ctx.rng('in', ty, k[0])
            gen = ag.Gen(g, r)
            t = g.types[k[2]]
            ps = gen.params(t) + [gen.param(f, kd) for _ in range(3) for f, kd in t['rest']]
            if t['mode'] in ('dims', 'open', 'text', 'anytext', 'raw') and not ps:
                ps = [gen.ident(), gen.ident()]
            pt, kk = g.path[ty][-1]
            for n in {0, len(ps), r.randrange(0, len(ps) + 1)} if not q else {len(ps), r.randrange(0, len(ps) + 1)}:
                for mods in ([1, 2] if not q else [2] if n == len(ps) else [r.choice([1, 2])]):
                    ws = gen.kid(kk, kids=[(None, ['@@@'])], sub=0)
                    obj = gen.wrap(pt, ws) if pt != 'Module' else ws
                    words = gen.project([[]] * (mods - 1) + [[obj]])
                    put('ends within %s %s' % (ty, k[0]), ['a2l'], ag.layout(r, words[:words.index('@@@')] + k[0].split(' ') + ps[:n]))
    # blocks that never end, in any order
    for i in range(120 if q else 4000):
        r = ctx.rng('soup', i)
        t = soup(r, g, r.choice([3, 10, 40, 200, 1000]))
        if r.random() < .7:
            t = wrap(t + r.choice(['', ' /end MODULE', ' /end MODULE /end PROJECT']), r.choice([1, 1, 2]))
        put('words', ['a2l'], t.encode('latin1'))
    # every pair of awkward words (and a sample of the triples) at the end of the file, bare and in a module, and before the closing ends
    awk = ['"', '"a', 'a"', '""', '"""', '/begin', '/end', '/*', '*/', '//', '/', 'a', '\\', '"\\"', '"\\', '/begin/end', '/begin"x', '/BEGIN', '1', '/begin\n', '//\n', '/begin/*', '\n']
    pairs = [list(p) for p in itertools.product(awk, awk)]
    r = ctx.rng('awkward')
    seqs = pairs + [[r.choice(awk) for _ in range(r.choice([3, 3, 4, 5]))] for _ in range(150 if q else 6000)]
    for i, ws in enumerate(seqs):
        r = ctx.rng('awk', i)
        t = r.choice([' ', ' ', ' ', '\n', '']).join(ws) if len(ws) > 2 else ' '.join(ws)
        for kind in (['module', r.choice(['bare', 'closed', 'block', 'tight'])] if q else ['module', 'bare', 'closed', 'block', 'tight']):
            x = t if kind == 'bare' else wrap(t) if kind == 'module' else wrap(t + ' /end MODULE /end PROJECT') if kind == 'closed' else \
                wrap('/begin ' + r.choice(['GROUP', 'IF_DATA', 'CHARACTERISTIC', 'FUNCTION', 'A2ML', 'MOD_PAR', 'ANNOTATION_TEXT']) + ' ' + t) if kind == 'block' else wrap(t.replace(' ', '')).rstrip()
            put('awkward words', ['a2l'], x.encode('latin1'))
    # damaged files
    for i in range(260 if q else 12000):
        r = ctx.rng('damage', i)
        m = r.random()
        if m < .6:
            put('damaged a2l', ['a2l'], damaged(r, good_a2l(g, r, r.choice([1, 1, 2]), (0, 5), r.choice([0, .1, .3]))))
        elif m < .8:
            put('damaged hex', ['ihex'], damaged(r, hex_file(r, 'ihex')))
        else:
            put('damaged s19', ['srec'], damaged(r, hex_file(r, 'srec')))
    # a fault in everything: every record, every object, every module
    for i in range(240 if q else 2500):
        r = ctx.rng('flood', i)
        m = ['ihex', 'srec', 'ihex', 'srec', 'a2l', 'modules', 'a2l'][i % 7]
        if m in ('ihex', 'srec'):
            recs = (hg.ihex_valid if m == 'ihex' else hg.srec_valid)(r, r.choice([20, 60, 150, 400]), 4)
            how = r.choice([['sum'], ['sum'], ['sum'], ['sum'], ['nonhex'], ['digit'], ['cut2'], ['type'], ['short'], ['sum', 'short', 'nonhex', 'type', 'count'], ['twice']])
            if how == ['twice']:
                recs = recs[:-1] * 3
            else:
                for k in range(len(recs)):
                    recs, _ = hg.corrupt(r, m, recs, r.choice(how), k)
            put('every record faulty', [m], hg.text(r, recs))
        else:
            gen = ag.Gen(g, r, wild=.1)
            allkinds = sorted(k[0].split(' ')[1] for k in g.types['Module']['kids'])
            kinds = None if i % 7 == 6 else [allkinds[i // 7 % len(allkinds)]]
            mods = []
            for _ in range(1 if m == 'a2l' else r.choice([2, 5, 30])):
                objs = gen.objects(r.choice([5, 40, 150]) if m == 'a2l' else 3, sub=0, kinds=kinds)
                how = r.choice(['word', 'drop', 'end', 'twice'])
                for o in objs:
                    j = r.randrange(len(o))
                    if how == 'word':
                        o[j] = r.choice(sorted(g.reserved))
                    elif how == 'drop':
                        del o[j]
                    elif how == 'end':
                        del o[-2:]
                mods.append(objs * (2 if how == 'twice' else 1))
            put('every object faulty', ['a2l'], ag.layout(r, gen.project(mods)))
    # any bytes
    for i in range(90 if q else 3000):
        r = ctx.rng('bytes', i)
        n = r.choice([0, 1, 2, 3, 5, 9, 30, 200, 3000])
        alpha = r.choice([bytes(range(256)), b'/"* \n', b'/', b'"', b'\\', b'\n', b'\r\n', b'\x00', b' ', b':0123456789ABCDEF\n', b'S0123456789ABCDEF\r\n', b'/begin end\n"',
                          b'\xff\xfe', b'*/', b'\\"/', b'\x1a\n', b':', b'S', b'S1', b'\t ', b'\xef\xbb\xbf'])
        d = bytes(r.choice(alpha) for _ in range(n))
        put('bytes', ['a2l', 'ihex', 'srec'], d)
    # deep nesting and long lines
    for n in (10, 1000, 20000 if q else 200000):
        for t in ('/begin X ', '/begin IF_DATA X ', '/begin MODULE M "" ', '/begin GROUP G "" ', '/begin SUB_GROUP ', '/begin CHARACTERISTIC ', '/begin PROJECT P "" ',
                  '/begin VARIANT_CODING /begin VAR_CHARACTERISTIC '):
            put('deep', ['a2l'], (wrap('') + t * n).encode())
        put('long', ['a2l', 'ihex', 'srec'], b'a' * n)
        put('long', ['a2l'], b'"' + b'a ' * n)
        put('long', ['a2l'], b'/*' + b'a\n' * n)
        put('long', ['ihex', 'srec'], b':' + b'00' * n)
        put('long', ['ihex', 'srec'], b'S3' + b'FF' * n)
        put('long', ['ihex', 'srec'], b'\n' * n)
    # every short line of the hex formats
    for i in range(40 if q else 600):
        r = ctx.rng('short', i)
        fmt = r.choice(['ihex', 'srec'])
        recs = (hg.ihex_valid if fmt == 'ihex' else hg.srec_valid)(r, r.randrange(1, 6))
        k = r.randrange(len(recs))
        for cut in r.sample(range(len(recs[k]) + 1), min(len(recs[k]) + 1, 8)):
            put('short line', [fmt], '\n'.join(recs[:k] + [recs[k][:cut]] + recs[k + 1:]).encode())
    for there in ('missing', 'dir'):
        put(there, ['a2l', 'ihex', 'srec'], None, there)
    cases = []
    for i, (kind, ops, data, there) in enumerate(jobs):
        r = ctx.rng('case', i)
        p = ctx.path('files', 'c%d' % i)
        if there == 'file':
            open(p, 'wb').write(data)
        elif there == 'dir':
            os.makedirs(p)
        calls = []
        for op in ops:
            ps = [r.choice(A2LPROCS + [0])] if op == 'a2l' else [r.choice(PROCS + [0])]
            if not q:
                ps.append(0)
            for n in ps:
                calls.append({'op': op, 'file': p, 'procs': n, 'want': ['digest']})
        if r.random() < .15 or there != 'file':
            for ext in ('.hex', '.s19'):
                if there == 'file':
                    open(p + ext, 'wb').write(data)
                calls.append({'op': 'readcal', 'file': p, 'file2': p + ext, 'procs': 0, 'want': ['digest']})
        flood = kind.startswith('every')
        if flood:
            calls = calls[:1] + [dict(calls[0], procs=n) for n in r.sample(A2LPROCS, 3)] + calls[1:]
        cases.append({'id': i, 'calls': calls, 'kind': kind, 'data': data or b'', 'timeout': 60, 'held': .85 if flood else .3})
    cases.append({'id': len(jobs), 'kind': 'no name', 'data': b'', 'timeout': 60,
                  'calls': [{'op': o, 'file': '', 'file2': '', 'procs': 0, 'want': []} for o in ('a2l', 'ihex', 'srec', 'readcal')]})
    # the same input again and again
    tiny = {'a2l': [b'', b'x', b'/begin PROJECT P ""\n/begin MODULE M ""\n/end MODULE\n/end PROJECT', b'/begin PROJECT P "" /begin MODULE M "" /begin UNIT /end MODULE'],
            'ihex': [b'', b':', b':0100000001FE\n:00000001FF\n', b':0100000001FE\n:0100000001FE\n', b':0100000001FF\n'],
            'srec': [b'', b'S', b'S104000001FA\nS9030000FC\n', b'S104000001FA\nS104000001FA\n', b'S104000001FF\n']}
    d = ctx.path('again', 'dir', 'x')
    for op in ('a2l', 'ihex', 'srec', 'readcal'):
        for j, data in enumerate([None, 'dir'] + tiny.get(op, [b''])):
            p = os.path.dirname(d) if data == 'dir' else ctx.path('again', '%s%d' % (op, j))
            if isinstance(data, bytes):
                open(p, 'wb').write(data)
            cases.append({'id': len(cases), 'kind': 'again and again', 'data': data if isinstance(data, bytes) else b'', 'timeout': 240,
                          'calls': [{'op': op, 'file': p, 'file2': p + '.hex', 'procs': 0, 'want': []} for _ in range(70 if ctx.quick else 400)]})
    ctx.cov['inputs'] = len(cases)
    with vlib.timed(ctx, 'run'):
        res = vlib.run_cases(ctx, [{k: c[k] for k in ('id', 'calls', 'timeout', 'held') if k in c} for c in cases])
    entries, by = [], {}
    for c in cases:
        r = res.get(c['id'])
        if r is None:
            continue
        outs = [o['outcome'] for o in r['outs'] if o]
        c['log'] = r.get('log', '') or next((o.get('msg', '') for o in r['outs'] if o and o['outcome'] == 'panic'), '')
        if r.get('hang') or r.get('crash'):
            outs.append('hang' if r.get('hang') else 'crash')
        by[c['id']] = c
        entries.append({'id': c['id'], 'outcomes': outs})
        ctx.cov['executions'] = ctx.cov.get('executions', 0) + len(outs)
    ctx.cov['evaluations'] = len(entries)
    with vlib.timed(ctx, 'judge'):
        bads = vlib.judge(ctx, 'Total', entries)
    for b in bads:
        c = by[b['id']]
        ctx.violate('%s: %s' % (c['kind'], b['why']), {'calls': c['calls'], 'text': c['data'].decode('latin1')[:20000],
                                                        'file_b64': base64.b64encode(c['data'][:200000]).decode(), 'log': c['log'][:6000]})
    for c in cases[:2] + cases[-2:]:
        ctx.samples.append({'kind': c['kind'], 'text': c['data'].decode('latin1')[:200]})
    return 'model_checking'
