"""like mkseed, edits in a scratch worktree: mk(id, prop, file, [(old,new)], needs, breaks, demo)"""
import os, subprocess, json, difflib
def mk(id, prop, f, edits, needs, breaks, demo, header=None):
    d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
    files = f if isinstance(f, dict) else {f: edits}
    out = ''
    for fn, ed in files.items():
        s = t = open('/repo/' + fn).read()
        for e in ed:
            old, new = e[0], e[1]; n = t.count(old); want = e[2] if len(e) > 2 else 0
            if len(e) > 2:
                p = -1
                for _ in range(e[2] + 1): p = t.index(old, p + 1)
                t = t[:p] + new + t[p + len(old):]
            else:
                assert n == 1, (fn, n, old); t = t.replace(old, new)
        out += ''.join(difflib.unified_diff(s.splitlines(1), t.splitlines(1), 'a/' + fn, 'b/' + fn))
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo.cc', 'w').write(demo)
    if header: subprocess.check_call(['cp', '/verif/tools/' + header, d])
    subprocess.check_call(['cp', '/verif/tools/demo.sh', d + '/demo.sh'])
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
