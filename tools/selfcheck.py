"""setup: nothing is compiled; check that the tools the checks need are there"""
import shutil, subprocess, sys
ok = shutil.which('python3-vt') is not None and subprocess.run(['python3-vt', '-c', 'import z3']).returncode == 0
ok = ok and subprocess.run(['/opt/venv/bin/python', '-c', 'import unidecode']).returncode in (0, 1)
sys.exit(0 if ok else 1)
