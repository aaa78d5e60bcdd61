"""python3-vt -m vf.replay <property> <driver> <replay file>: run a stored case on the real code"""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, registry, fuzz
pid, name, path = sys.argv[1:4]
d = [x for x in registry.PROPS[pid]['drivers'] if x['name'] == name][0]
exe = build.build_driver(d['src'], tuple(d.get('defs', ())), True, tuple(d.get('wraps', ())), tuple(d.get('libflags', ())))
m = re.search(r'case \(hex\): ([0-9a-f]*)', open(path).read())
f = os.path.join(build.scratch(), 'case')
open(f, 'wb').write(bytes.fromhex(m.group(1)))
rc, t = fuzz.run_file(exe, f)
print(fuzz.excerpt(t))
sys.exit(1 if rc else 0)
