"""Makes and validates a planted change (developer tool, not used by checks).

  python3 tools/mkseed.py SPEC.py     where SPEC.py defines ID, PROP, NEEDS,
  BREAKS, EDITS = [(file, old, new)], DEMO (python source run with the repo's
  interpreter).  Works in a scratch copy; keeps the seed only when it passes
  the tests and the demonstration discriminates.
"""
import json, os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
w = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
r = os.path.join(w, 'repo')
shutil.copytree('/repo', r, symlinks=True)
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', JAX_PLATFORMS='cpu')
try:
  d = os.path.join(w, 'seed')
  os.makedirs(d)
  open(d + '/demo.py', 'w').write(ns['DEMO'].lstrip())
  open(d + '/demo.sh', 'w').write(
      '#!/bin/bash\nset -eu\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu \\\n'
      '  exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
  os.chmod(d + '/demo.sh', 0o755)
  def demo():
    p = subprocess.run([d + '/demo.sh'], cwd=r, env=env, capture_output=True, text=True)
    return p.returncode, (p.stdout + p.stderr)[-600:]
  rc, out = demo()
  if rc != 0:
    print('demo fails on clean tree:', out); sys.exit(1)
  for f, old, new in ns['EDITS']:
    p = os.path.join(r, f)
    s = open(p).read()
    if s.count(old) != 1:
      print('edit matches', s.count(old), 'times:', f, old[:80]); sys.exit(1)
    open(p, 'w').write(s.replace(old, new))
  diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
  rc, out = demo()
  if rc == 0:
    print('demo passes with the change'); sys.exit(1)
  print('demo with change:', out.strip()[-250:])
  p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                      '-n', '8', '--timeout=300', 'autobound'], cwd=r, env=env,
                     capture_output=True, text=True)
  tail = p.stdout.strip().splitlines()[-6:]
  if p.returncode != 0:
    print('TESTS CATCH IT:\n', '\n'.join(tail)); sys.exit(1)
  print(tail[-1])
  out = os.path.join(V, 'seeded', ns['ID'])
  shutil.rmtree(out, ignore_errors=True)
  os.makedirs(out)
  open(out + '/patch.diff', 'w').write(diff)
  for f in ('demo.py', 'demo.sh'):
    shutil.copy(os.path.join(d, f), out)
  os.chmod(out + '/demo.sh', 0o755)
  json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
            open(out + '/meta.json', 'w'), indent=1)
  print('kept', ns['ID'])
finally:
  shutil.rmtree(w)
