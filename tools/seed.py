#!/usr/bin/env python3
"""Make and confirm planted bugs.  usage: seed.py DEFS.py [id ...]
DEFS.py holds BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo, cflags, libs)].
Works in a scratch copy of /repo (/tmp/wrepo, shown as /repo in a mount namespace of its own)."""
import sys, os, subprocess, json, shutil
W = '/tmp/wrepo'
OUT = '/verif/seeded'
def ns(cmd, log=None):
    p = subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (W, cmd)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout
DEMO = '''#!/bin/bash
# run with cwd /repo after the build: exit 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -w -g %(cflags)s -I. -Ivital -I_build -I_build/vital -I_build/vital/config -I_build/vital/kwiversys %(eigen)s "$here/demo.cpp" -o "$t/demo" \\
  -L_build/lib %(libs)s -Wl,-rpath,"$PWD/_build/lib" || exit 98
cd "$t" && timeout 60 ./demo
'''
def main():
    ns_ = {}
    exec(open(sys.argv[1]).read(), ns_)
    want = sys.argv[2:]
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = set(base['stable'])
    if not os.path.isdir(W):
        shutil.copytree('/repo', W, symlinks=True)
    subprocess.run(['git', '-C', W, 'fetch', '-q', '/repo', 'HEAD'], check=True)
    subprocess.run(['git', '-C', W, 'reset', '-q', '--hard', 'FETCH_HEAD'], check=True)
    print('base build', ns('bash /opt/vp/build.sh')[0])
    for b in ns_['BUGS']:
        if want and b['id'] not in want: continue
        d = os.path.join(OUT, b['id']); os.makedirs(d, exist_ok=True)
        demo = DEMO % dict(cflags=b.get('cflags', ''), libs=b.get('libs', '-lvital -lvital_config -lvital_logger -lkwiversys'), eigen='-isystem /usr/include/eigen3')
        open(d + '/demo.sh', 'w').write(b.get('demo_sh', demo)); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.cpp', 'w').write(b['demo'].lstrip('\n'))
        rc0, o0 = ns('bash %s/demo.sh' % d)
        if rc0 != 0:
            print(b['id'], 'DEMO FAILS ON GOOD TREE', rc0, o0[-1500:]); continue
        ok = True
        for f, old, new in b['edits']:
            s = open(W + '/' + f, encoding='latin-1').read()
            if s.count(old) != 1:
                print(b['id'], 'edit matches', s.count(old), f); ok = False; break
            open(W + '/' + f, 'w', encoding='latin-1').write(s.replace(old, new))
        if ok:
            diff = subprocess.run(['git', '-C', W, 'diff'], stdout=subprocess.PIPE).stdout
            open(d + '/patch.diff', 'wb').write(diff)
            rc, o = ns('bash /opt/vp/test.sh /tmp/seed/t.json')
            r = json.load(open('/tmp/seed/t.json'))
            failed = stable - set(r['passed'])
            rc1, o1 = ns('bash %s/demo.sh' % d)
            good = not failed and rc1 not in (0, 98, 99) and bool(r['passed'])
            print(b['id'], 'OK' if good else 'BAD', 'passed', len(r['passed']), 'newly failed', sorted(failed)[:5], 'demo rc', rc1, o1[-300:].strip().replace('\n', ' / '), '' if r['passed'] else o[-800:])
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'])
        ns('bash /opt/vp/build.sh')
        sys.stdout.flush()
    print('rebuild', ns('bash /opt/vp/build.sh')[0])
main()
