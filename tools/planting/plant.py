#!/usr/bin/env python3
"""plant.py: makes /verif/seeded/<id> from a description; everything happens in a scratch copy of /repo.
usage: plant.py BUGS.py [id...]   BUGS.py defines BUGS: list of dicts
 id, property, needs, what, edits: [(file, old, new)], files: {name: bytes or str}, cmds: [..], cpus: ['all']"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOFLAGS='-mod=vendor', GOTOOLCHAIN='local',
           GOPROXY='off', GOWORK='off')
BASE = '3e77257^'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)


def passing(cwd):
    r = sh(['go', 'test', '-json', '-count=1', './...'], cwd)
    res = set()
    for l in r.stdout.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get('Action') == 'pass' and e.get('Test'):
            res.add((e['Package'], e['Test']))
    return res


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    tmp = tempfile.mkdtemp(prefix='plant-')
    clean = os.path.join(tmp, 'clean')
    shutil.copytree('/repo', clean, symlinks=True)
    ok0 = passing(clean)
    print('clean tree passes', len(ok0))
    for b in ns['BUGS']:
        if want and b['id'] not in want:
            continue
        wt = os.path.join(tmp, 'bug')
        shutil.rmtree(wt, ignore_errors=True)
        shutil.copytree('/repo', wt, symlinks=True)
        bad = None
        for f, old, new in b['edits']:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = 'edit of %s matches %d times' % (f, s.count(old))
                break
            open(p, 'w').write(s.replace(old, new))
        if bad:
            print(b['id'], 'REFUSED', bad)
            continue
        diff = sh(['git', 'diff'], wt).stdout
        # the changed lines have to be lines of the original repository
        mine = []
        for f in {e[0] for e in b['edits']}:
            bl = sh(['git', 'blame', '-s', '-w', 'HEAD', '--', f], wt).stdout.splitlines()
            rm = [l for l in sh(['git', 'diff', '-U0', '--', f], wt).stdout.splitlines() if l.startswith('@@')]
            n = tot = 0
            for h in rm:
                x = h.split()[1][1:].split(',')
                a, c = int(x[0]), int(x[1]) if len(x) > 1 else 1
                for i in range(a, a + c):
                    tot += 1
                    n += not (bl[i - 1].startswith('^') or bl[i - 1].startswith('e6d74ac'))
            mine.append((f, n, tot))
        r = sh(['go', 'build', './...'], wt)
        if r.returncode:
            print(b['id'], 'REFUSED does not build', r.stderr[:500])
            continue
        miss = ok0 - passing(wt)
        if miss:
            print(b['id'], 'REFUSED tests fail', sorted(miss)[:5])
            continue
        d = os.path.join(tmp, 'seed')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for n, c in b['files'].items():
            open(os.path.join(d, n), 'wb').write(c.encode('latin1') if isinstance(c, str) else c)
        shutil.copy(os.path.join(HERE, 'dump.go.txt'), d)
        shutil.copy(os.path.join(HERE, 'demo.sh'), d)
        open(os.path.join(d, 'cmds'), 'w').write('\n'.join(b['cmds']) + '\n')
        open(os.path.join(d, 'cpus'), 'w').write(' '.join(b.get('cpus', ['all'])) + '\n')
        # expected output from the clean tree
        ov = os.path.join(tmp, 'ov.json')
        json.dump({'Replace': {clean + '/zzdemo/main.go': d + '/dump.go.txt'}}, open(ov, 'w'))
        r = sh(['go', 'build', '-overlay', ov, '-o', tmp + '/dump', './zzdemo'], clean)
        if r.returncode:
            print(r.stderr)
            sys.exit(1)
        r = sh([tmp + '/dump', d, d + '/cmds'], tmp)
        open(os.path.join(d, 'expected.txt'), 'w').write(r.stdout)
        c0 = [sh(['bash', d + '/demo.sh'], clean).returncode for _ in range(3)]
        res = [sh(['bash', d + '/demo.sh'], wt) for _ in range(3)]
        c1 = [x.returncode for x in res]
        if any(c0) or not all(x == 1 for x in c1):
            print(b['id'], 'REFUSED demo clean', c0, 'bug', c1, res[0].stdout[:300], res[0].stderr[:300])
            print(open(os.path.join(d, 'expected.txt')).read()[:300])
            continue
        dst = os.path.join(VERIF, 'seeded', b['id'])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        open(os.path.join(dst, 'patch.diff'), 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']},
                  open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
        print(b['id'], 'kept; expected', os.path.getsize(dst + '/expected.txt'), 'bytes; own lines touched', mine)
    shutil.rmtree(tmp)


main()
