"""Nothing is compiled ahead of time: check that the tools the checks need are there."""
import shutil, subprocess, sys
bad = [t for t in ('clang', 'gcc', 'cvc5', 'python3-vt') if not shutil.which(t)]
r = subprocess.run(['python3-vt', '-c', 'import z3, numpy; print(z3.get_version_string())'], capture_output=True, text=True)
if r.returncode:
    bad.append('z3 bindings')
print('missing: %s' % bad if bad else 'tools present, z3 ' + r.stdout.strip())
sys.exit(bool(bad))
