"""Regenerate the pinned reference model /verif/ref/aviary_ref from /repo.

Run by hand only, never by a check.  The reference is the code of the release under study (plus
the fixes committed in /repo), with its package renamed so that both can be imported into one process.
"""
import re, shutil, subprocess
from pathlib import Path

SRC = Path('/repo/aviary')
DST = Path(__file__).resolve().parent.parent / 'ref' / 'aviary_ref'
SKIP = {'docs', 'validation_cases', 'visualization', '__pycache__', 'test', 'tests'}
KEEP_SUFFIX = {'.py', '.csv', '.txt', '.json', '.eng', '.dat', '.in', '.scaled', '.map', '.prop'}

if DST.exists():
    shutil.rmtree(DST)
files = subprocess.run(['git', '-C', '/repo', 'ls-files', 'aviary'], capture_output=True, text=True, check=True).stdout.split('\n')
n = 0
for f in files:
    if not f:
        continue
    p = Path(f).relative_to('aviary')
    if str(p) == 'subsystems/test/subsystem_tester.py':
        pass
    elif SKIP & set(p.parts) or p.name.startswith('test_') or p.name == 'run_all_benchmarks.py':
        continue
    s = SRC / p
    d = DST / p
    if p.suffix == '.py':
        t = s.read_text()
        t = re.sub(r'^(\s*)from aviary(\.|\s)', r'\1from aviary_ref\2', t, flags=re.M)
        t = re.sub(r'^(\s*)import aviary\.', r'\1import aviary_ref.', t, flags=re.M)
        t = t.replace("importlib_resources.files('aviary')", "importlib_resources.files('aviary_ref')")
        if p.name == 'cmd_entry_points.py':
            continue
        d.parent.mkdir(parents=True, exist_ok=True)
        d.write_text(t)
    elif p.suffix in KEEP_SUFFIX and p.parts[0] in ('models', 'subsystems', 'utils'):
        d.parent.mkdir(parents=True, exist_ok=True)
        shutil.copyfile(s, d)
    else:
        continue
    n += 1
print(n, 'files')
