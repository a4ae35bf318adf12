"""Generators of ASAP2 files. The grammar comes from the specification (spec/A2LGrammar.tla)."""
import json, os
import vlib

STRINGS = {'longidentifier', 'comment', 'formatstring', 'unit', 'label', 'origin', 'displaystring', 'format', 'formula',
           'grouplongidentifier', 'versionidentifier', 'cpu', 'customer', 'number', 'controlunit', 'identifier_', 'telnum',
           'manufacturer', 'username', 'separator', 'value_', 'fx', 'gx', 'text', 'annotationtext', 'modelname', 'symbolname',
           'display', 'executable32', 'executable64', 'version', 'outval', 'method', 'componenttype'}
ADDR = {'address', 'mask', 'size', 'handle', 'addressoffset', 'offset'}


def load(ctx):
    p = ctx.path('grammar', 'g.json')
    rc, out = vlib.tlc(ctx, 'A2LExport', env={'VERIF_GRAMMAR': p})
    if rc != 0 or not os.path.exists(p):
        raise vlib.CheckError('grammar export: ' + out[-1500:])
    g = json.load(open(p))
    for t in g['types'].values():
        t['kids'].sort()
    for e in g['enums'].values():
        e.sort()
    return Grammar(g)


class Grammar:
    def __init__(self, g):
        self.types, self.enums = g['types'], g['enums']
        self.reserved = set(g['keywords']) | set(g['soft']) | {v for e in self.enums.values() for v in e}
        # how to get from the module to a type: list of (parent type, kid)
        self.path = {'Module': []}
        todo = ['Module']
        while todo:
            t = todo.pop(0)
            for k in self.types[t]['kids']:
                if k[2] not in self.path:
                    self.path[k[2]] = self.path[t] + [(t, k)]
                    todo.append(k[2])
        self.blocks = sorted(t for t, v in self.types.items() if v['mode'] == 'block' and t in self.path)


WORDSTUFF = ['FORMAT', '/begin', '/end', 'CHARACTERISTIC', '/*', '*/', '//', 'a/b', "it's", 'x', '100%', '->', 'READ_ONLY',
             '/end', 'MODULE', '\xb0C', '\xe4\xf6', '\xc3\xbc', ';', '{', '}', ',', '\x7e', '...', 'UBYTE', '%6.2', '#', '@']


class Gen:
    def __init__(self, g, rng, wild=.35):
        self.g, self.r, self.n, self.wild = g, rng, 0, wild
        self.seen = []       # words used lately, to be used again at other places
        self.force = {}      # (type, 'ps' or 'rest', index) -> word to use there
        self.many = None     # how long open lists are
        self.big = 0         # how likely a word is very long

    # ---- words
    def ident(self, hint=''):
        r = self.r
        self.n += 1
        base = '%s%d' % (r.choice(['Sig', 'k_', 'Abc.d.', 'x', 'Map', 'T_', 'EngN', 'a', '_']) + hint, self.n)
        m = r.random()
        if m < .1:
            base += '[%d]' % r.randrange(9)
        elif m < .15:
            base += '.FORMAT'
        elif m < .2:
            base = r.choice(sorted(self.g.reserved - {''})).replace('/', '').replace(' ', '_') + '_%d' % self.n
        elif m < .23:
            base = base.upper() + '-' + str(r.randrange(99))
        if self.big and r.random() < self.big:
            base += '.' + r.choice('aZ_7') * (r.choice([31, 63, 64, 127, 128, 255, 256, 500, 1023, 1024, 2047, 4096, 8192]) + r.randrange(-2, 3) - len(base))
        self.seen.append(base)
        return base

    def again(self):
        """a word that has been used before, mostly close by, or one that looks like it"""
        r = self.r
        if not self.seen:
            return self.ident()
        w = self.seen[-1 - min(int(r.expovariate(.7)), len(self.seen) - 1)]
        m = r.random()
        if m < .75:
            return w
        return r.choice([w + '_', w[:-1] or w, w.upper(), w.lower(), w + '.' + w]) if m < .95 and w not in self.g.reserved else self.ident()

    def string(self):
        r = self.r
        if self.big and r.random() < self.big:
            n = r.choice([63, 127, 128, 255, 256, 1000, 1024, 4095, 4096, 9000]) + r.randrange(-4, 5)
            if r.random() < .35:     # without any white space in it
                return '"' + r.choice('aZ_7') * (n + r.choice([0, 0, 0, 0, 60000])) + '"'
            ws = []
            while sum(map(len, ws)) + len(ws) + 1 < n:
                ws.append(r.choice(WORDSTUFF) if r.random() < .3 else r.choice('abcxyz') * r.randrange(1, 40))
            return '"' + ' '.join(ws) + '"'
        if r.random() < .08:
            return '""'
        if r.random() < self.wild:
            ws = [r.choice(WORDSTUFF) for _ in range(r.randrange(1, 5))]
            if r.random() < .15:
                ws.append('""quoted""')
        else:
            self.n += 1
            ws = [r.choice(['speed', 'of', 'the', 'engine', 'rpm', 'text']) + (str(self.n) if r.random() < .5 else '')
                  for _ in range(r.randrange(1, 5))]
        return '"' + r.choice(['', '', ' ']) * (r.random() < .2) + ' '.join(ws) + (' ' if r.random() < .05 else '') + '"'

    def number(self, kind):
        r = self.r
        if kind == 'u16':
            return str(r.choice([0, 1, 2, 65535, 32768, r.randrange(65536), r.randrange(300)]))
        if kind == 'u32':
            return str(r.choice([0, 1, 4294967295, 2147483648, r.randrange(1 << 32), r.randrange(70000)]))
        if kind == 'i16':
            return str(r.choice([0, -1, 1, 32767, -32768, r.randrange(-32768, 32768)]))
        if kind == 'i32':
            return str(r.choice([0, -1, 2147483647, -2147483648, r.randrange(-1 << 31, 1 << 31), r.randrange(-99, 99)]))
        m = r.random()
        sg = '-' if r.random() < .3 else ''
        if m < .15:
            return r.choice(['0', '0.0', '0.', '1', '-1', '100', '65535'])
        if m < .45:
            return sg + str(r.randrange(100000))
        if m < .75:
            return sg + '%d.%0*d' % (r.randrange(5000), r.randrange(1, 6), r.randrange(10))
        if m < .95:
            return sg + '%d.%d%s%s%d' % (r.randrange(10), r.randrange(1000), r.choice('eE'), r.choice(['', '+', '-']), r.randrange(40))
        return sg + '%d.%d' % (r.randrange(10 ** 7), r.randrange(10 ** 7))

    def address(self):
        r = self.r
        return r.choice(['0x%X' % r.randrange(1 << 32), '0x%08x' % r.randrange(1 << 32), str(r.randrange(1 << 20)), '0x0'])

    def param(self, field, kind, key=False):
        if kind in self.g.enums:
            return self.r.choice(self.g.enums[kind])
        if kind != 'str':
            return self.number(kind)
        f = field.lower()
        if f in STRINGS:
            return self.string()
        if f in ADDR:
            return self.address()
        if self.r.random() < .04:
            return self.string() if not key else '"%s %s"' % (self.ident(), self.r.choice(['x', '/begin', '//', '\xe4']))
        if not key and self.r.random() < .15:
            w = self.again()
            return w if w not in self.g.reserved and w[:1] not in '-0123456789' else self.ident()
        return self.ident()

    # ---- structure
    def raw(self, depth=0):
        """content of a vendor block"""
        r = self.r
        ws = []
        for _ in range(r.randrange(0, 7)):
            m = r.random()
            if m < .2 and depth < 4:
                n = r.choice([self.ident(), 'CHARACTERISTIC', 'SOURCE', 'QP_BLOB', 'MEASUREMENT', 'RASTER', 'TP_BLOB', 'MODULE_X', 'A2ML_X'])
                ws += ['/begin', n] + self.raw(depth + 1) + ['/end', n]
            elif m < .35:
                ws.append(r.choice(['FORMAT', 'READ_ONLY', 'ECU_ADDRESS', 'MATRIX_DIM', 'VERSION', 'UBYTE', 'DISCRETE', 'ROOT']))
            elif m < .5:
                ws.append(self.string())
            elif m < .7:
                ws.append(self.address())
            elif m < .85:
                ws.append(self.number('f'))
            else:
                ws.append(self.ident())
        return ws

    def params(self, t, ty=None):
        return [self.force.get((ty, 'ps', i)) or self.param(f, k, i == 0) for i, (f, k) in enumerate(t['ps'])]

    def body(self, ty, kids=(), sub=None, name=None):
        """words of a block behind its keyword and before its end; kids: list of (kid, words or None)"""
        t = self.g.types[ty]
        r = self.r
        ws = self.params(t, ty)
        if name is not None:
            ws[0] = name
        if t['rest']:
            n = t['need'] if t['need'] >= 0 else self.many if self.many is not None else r.choice([0, 1, 1, 2, 3, 5, 8]) if r.random() < .99 else r.choice([20, 70, 300])
            forced = any(x[0] == ty and x[1] == 'rest' for x in self.force)
            if forced and t['need'] < 0:
                n = max(n, 1)
            cnt = self.force.get((ty, 'ps', len(ws) - 1))
            if t['need'] == -2 and cnt is None:
                ws[-1] = str(n)
            elif t['need'] == -2 and cnt.isdigit():
                n = min(int(cnt), 3000)
            for _ in range(n):
                ws += [self.force.get((ty, 'rest', i)) or self.param(f, k) for i, (f, k) in enumerate(t['rest'])]
        for k in kids:
            ws += self.kid(k, sub=sub) if not isinstance(k, tuple) else k[1]
        return ws

    def kid(self, k, kids=None, sub=None, name=None):
        """keyword k with everything that belongs to it"""
        tok, _, ty, _ = k
        t = self.g.types[ty]
        r = self.r
        head = tok.split(' ')
        m = t['mode']
        if m == 'flag':
            return head
        if m == 'attr':
            ps = self.params(t, ty)
            if name is not None:
                ps[0] = name
            return head + ps
        if m == 'dims':
            n = r.randrange(1, 6)
            for x in self.force:
                n = max(n, x[2] + 1) if x[0] == ty else n
            return head + [self.force.get((ty, 'ps', i)) or self.number('u16') for i in range(n)]
        if m == 'open':
            return head + [self.ident() for _ in range(self.many or r.randrange(1, 4))]
        if m == 'raw':
            return head + [name or self.ident()] + self.raw() + t['end'].split(' ')
        if m == 'text':
            return head + [self.string() for _ in range(r.randrange(1, 4))] + t['end'].split(' ')
        if m == 'anytext':
            return head + self.a2ml() + t['end'].split(' ')
        if kids is None:
            kids = self.choose(ty, sub)
        return head + self.body(ty, kids, sub, name) + t['end'].split(' ')

    def a2ml(self):
        ws = []
        for _ in range(self.r.randrange(1, 12)):
            ws += self.r.choice([['struct', '{'], ['uint;'], ['block', '"IF_DATA"', 'taggedunion'], ['};'], ['FORMAT'], ['"CAN"'],
                                 ['ulong', '[3];'], ['READ_ONLY'], ['enum', '{', '"A"', '=', '1', '}']])
        return ws

    def choose(self, ty, sub=None):
        """some of the keywords of a block in some order; sub: how likely each is"""
        r = self.r
        t = self.g.types[ty]
        sub = .3 if sub is None else sub
        res = []
        for k in t['kids']:
            if r.random() < sub:
                res += [k] * ((r.randrange(1, 4) if r.random() < .995 else r.choice([12, 40])) if k[3] in 'LM' else 1)
        r.shuffle(res)
        return self.tidy(res)

    def tidy(self, kids):
        """an open list can only be followed by IF_DATA or the end"""
        op = [k for k in kids if self.g.types[k[2]]['mode'] == 'open']
        if op:
            rest = [k for k in kids if k not in op]
            late = [k for k in rest if k[2] == 'IfData']
            kids = [k for k in rest if k[2] != 'IfData'] + op + late
        return kids

    def kid_named(self, ty, tok):
        return next(k for k in self.g.types[ty]['kids'] if k[0] == tok)

    # ---- files
    def project(self, modules, header=None, version=True):
        """modules: list of lists of word lists"""
        r = self.r
        ws = []
        if version:
            ws += ['ASAP2_VERSION', self.force.get(('asap2Version', 'ps', 0)) or '1',
                   self.force.get(('asap2Version', 'ps', 1)) or r.choice(['60', '61', '71'])]
            if r.random() < .3 or any(x[0] == 'a2mlVersion' for x in self.force):
                ws += ['A2ML_VERSION', self.force.get(('a2mlVersion', 'ps', 0)) or '1', self.force.get(('a2mlVersion', 'ps', 1)) or '31']
        ws += ['/begin', 'PROJECT', self.ident(), self.string()]
        if header or (header is None and r.random() < .4):
            ws += self.kid(self.kid_named('Project', '/begin HEADER'), sub=.6)
        for m in modules:
            ws += ['/begin', 'MODULE', self.ident('Mod'), self.string()]
            for o in m:
                ws += o
            ws += ['/end', 'MODULE']
        return ws + ['/end', 'PROJECT']

    def objects(self, n, sub=None, kinds=None, singles=True):
        """n objects of a module, in random order, one-off blocks at most once"""
        r = self.r
        ks = [k for k in self.g.types['Module']['kids'] if kinds is None or k[0].split(' ')[1] in kinds]
        many = [k for k in ks if k[3] == 'M']
        res = [self.kid(r.choice(many), sub=sub) for _ in range(n)] if many else []
        if singles:
            res += [self.kid(k, sub=sub) for k in ks if k[3] == '1' and r.random() < .4]
        r.shuffle(res)
        return res

    def wrap(self, ty, words_kid):
        """embeds a kid of type ty (given as words) into the blocks leading from the module to ty"""
        path = self.g.path[ty]
        if not path:
            return words_kid
        (pt, k) = path[-1]
        inner = self.kid(k, kids=[(None, words_kid)])
        return self.wrap(pt, inner) if pt != 'Module' else inner


# ---- layout
def normal(w):
    """a word with white space runs within it as one space"""
    return ' '.join(w.split()) if not w.startswith('"') else _norm(w)


def _norm(w):
    out, sp = [], False
    for ch in w:
        if ch in ' \t\n\r\v\f':
            sp = True
        else:
            if sp:
                out.append(' ')
            sp = False
            out.append(ch)
    return ''.join(out)


def layout(r, words, eol='\n', style=None):
    """plain layout: words separated by blanks and line breaks"""
    style = style or r.choice(['line', 'long', 'word', 'mix'])
    out = []
    for i, w in enumerate(words):
        if style == 'word':
            sep = eol
        elif style == 'long':
            sep = ' ' if r.random() < .97 else eol
        elif style == 'line':
            sep = eol if i + 1 < len(words) and words[i + 1] in ('/begin', '/end') or r.random() < .1 else ' '
        else:
            sep = r.choice([' ', ' ', '  ', '\t', eol, eol + eol, eol + '    '])
        out.append(w)
        out.append(sep)
    return ''.join(out).encode('latin1')


COMMENT_STUFF = ['"', '""', '"open', '/begin', '/end MODULE', '/begin MODULE', '/begin CHARACTERISTIC X', '/end', 'FORMAT', '//', '*', '/', '**',
                 "it's", 'text', '0x12', '/end PROJECT', '@', 'a/b', '\\n', '\\"', '/* ', 'READ_ONLY', '\xe4', 'C:\\temp', '%', '{', '}']


def line_comment(r, eol):
    return '//' + r.choice(['', ' ', '/', '-----', '*']) + ' '.join(r.choice(COMMENT_STUFF) for _ in range(r.randrange(0, 5))) + eol


def block_comment(r, eol):
    inner = r.choice(['', ' ', '*', '**', eol])
    inner += r.choice([' ', '', '*', '\t']).join(r.choice(COMMENT_STUFF + [eol, eol + ' * ', eol + eol]) for _ in range(r.randrange(0, 7)))
    while '*/' in inner:
        inner = inner.replace('*/', '* /')
    inner = inner.rstrip('\\') + r.choice(['', ' ', '*', eol])
    return '/*' + inner + '*/'


def gap(r, eol, rich, must=True):
    """what may be between two words"""
    out = r.choice([' ', ' ', '  ', '\t', eol, eol + '  ', eol + eol, ' ' + eol, '\v', '\f', ' \t '])
    while rich and r.random() < rich:
        m = r.random()
        if m < .45:
            c = line_comment(r, eol)
        else:
            c = block_comment(r, eol)
        if r.random() < .3:          # comment without white space in front of it
            out = c + ('' if c.endswith(eol) or r.random() < .5 else ' ')
        else:
            out = out + c + r.choice(['', ' ', eol])
    return out


def break_string(r, w, eol, p):
    """other white space and line breaks for the blanks of a string"""
    if not w.startswith('"') or ' ' not in w or r.random() > p:
        return w
    out = ''
    for ch in w:
        out += r.choice([' ', '  ', '\t', eol, eol + '  ', eol + eol, ' ' + eol]) if ch == ' ' and r.random() < .6 else ch
    return out


def wild_layout(r, words, eol='\n', rich=.3, strings=.5, escapes=.0):
    out = [r.choice(['', '', eol, '\t', '\xef\xbb\xbf', block_comment(r, eol), line_comment(r, eol)]) if rich else '']
    for i, w in enumerate(words):
        w = break_string(r, w, eol, strings)
        if escapes and w.startswith('"') and len(w) > 2 and r.random() < escapes:
            k = r.randrange(1, len(w))
            w = w[:k] + '\\' + r.choice('"ntx\\*/1') + w[k:]
        out.append(w)
        if i + 1 < len(words):
            out.append(gap(r, eol, rich))
    out.append(r.choice(['', eol, ' ', eol + eol, '\x1a', eol + '\x1a', ' ' + block_comment(r, eol), eol + '// end']) if rich else eol)
    return ''.join(out).encode('latin1')


def squeezed(r, words, eol='\n'):
    """as little white space as possible: comments in between"""
    out = []
    for i, w in enumerate(words):
        out.append(w)
        out.append(r.choice(['/**/', '//' + eol, ' ', '/* */', '/***/', '/*"*/', '// "' + eol]))
    return ''.join(out).encode('latin1')
