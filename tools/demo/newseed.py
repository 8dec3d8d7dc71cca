#!/usr/bin/env python3
"""newseed.py ID PROPERTY NEEDS WHAT < demo body ; takes the diff of the scratch tree /tmp/seed as the patch"""
import sys, os, json, subprocess
sid, prop, needs, what = sys.argv[1:5]
body = sys.stdin.read()
d = f'/verif/seeded/{sid}'
os.makedirs(d, exist_ok=True)
p = subprocess.run(['git', '-C', '/tmp/seed', 'diff'], capture_output=True, text=True).stdout
assert p.strip(), 'no diff'
open(d + '/patch.diff', 'w').write(p)
here = os.path.dirname(os.path.abspath(__file__))
open(d + '/demo.sh', 'w').write(open(here + '/demo.sh').read())
os.chmod(d + '/demo.sh', 0o755)
open(d + '/demo.rs', 'w').write(open(here + '/support.rs').read() + body)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
subprocess.run(['git', '-C', '/tmp/seed', 'checkout', '-q', '--', '.'])
