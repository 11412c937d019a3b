"""Helper: edit(id, props, [(file, old, new)]) writes edits/<id>.diff, an edit that changes no behaviour, and the
properties whose checks it concerns (edits/props.json)."""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def edit(id, props, edits):
    scratch = tempfile.mkdtemp(prefix='mkedit')
    try:
        subprocess.run('git clone -q /repo %s/r' % scratch, shell=True, check=True)
        for f, old, new in edits:
            p = scratch + '/r/src/' + f
            s = open(p).read()
            n = s.count(old)
            assert n == 1, '%s: %d matches of %r in %s' % (id, n, old, f)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run('git -C %s/r diff' % scratch, shell=True, capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(scratch)
    os.makedirs(V + '/edits', exist_ok=True)
    open('%s/edits/%s.diff' % (V, id), 'w').write(diff)
    f = V + '/edits/props.json'
    d = json.load(open(f)) if os.path.exists(f) else {}
    d[id] = props
    json.dump(d, open(f, 'w'), indent=1, sort_keys=True)
