"""Helper: creates seeded/<id> from edits.  bug(id, prop, needs, breaks, [(file, old, new)], demo)"""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''#![allow(unused_imports, dead_code, unused_mut, unused_variables)]
use serde_json::{json, Value};
use wot_td::{builder::*, extend::*, hlist::*, thing::*, Thing};
'''
def bug(id, prop, needs, breaks, edits, demo, pre=PRE):
    d = '%s/seeded/%s' % (V, id)
    os.makedirs(d, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='mkbug')
    try:
        subprocess.run('git clone -q /repo %s/r' % scratch, shell=True, check=True)
        for f, old, new in edits:
            p = scratch + '/r/src/' + f
            s = open(p).read()
            n = s.count(old)
            assert n == 1, '%s: %d matches of %r in %s' % (id, n, old, f)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run('git -C %s/r diff' % scratch, shell=True, capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(scratch)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.rs', 'w').write(pre + demo)
    shutil.copy(V + '/tools/demo/demo.sh', d + '/demo.sh')
    shutil.copy(V + '/harness/Cargo.lock', d + '/Cargo.lock')
