"""Parses every specification once (nothing has to be compiled)."""
import glob, os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
d = tempfile.mkdtemp(prefix='verif_setup_')
try:
  for f in glob.glob(core.SPEC + '/*.tla'):
    shutil.copy(f, d)
  p = subprocess.run(['java', '-cp', core.CP, 'tla2sany.SANY'] + sorted(f for f in os.listdir(d) if f.endswith('.tla')),
                     cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
  out = p.stdout.decode()
  if p.returncode or 'rror' in out:
    sys.stdout.write(out)
    sys.exit(1)
  print('specifications parse')
finally:
  shutil.rmtree(d)
