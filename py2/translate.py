"""Translate the package /repo/pykrylov (Python 2) into DEST, as /opt/vp does.

usage: translate.py REPO DEST    (run by the PyPy of /opt/venv)
A file that cannot be translated becomes a module that raises SyntaxError."""
import os
import re
import shutil
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from lib2to3.refactor import RefactoringTool, get_fixers_from_package

repo, dest = sys.argv[1:3]
tool = RefactoringTool(get_fixers_from_package('lib2to3.fixes') + ['fix_classic_div'])
root = os.path.join(repo, 'pykrylov')
for d, dirs, files in os.walk(root):
    dirs[:] = sorted(x for x in dirs if x not in ('__pycache__', 'tests', 'build', 'dist', '.git'))
    for n in sorted(files):
        if not n.endswith('.py') or n == 'setup.py':
            continue
        src = os.path.join(d, n)
        dst = os.path.join(dest, os.path.relpath(src, repo))
        try:
            raw, _ = tool._read_python_source(src)
            if raw and not raw.endswith('\n'):
                raw += '\n'
            text = str(tool.refactor_string(raw, src)) if raw.strip() else raw
            compile(text, src, 'exec', dont_inherit=True)
        except Exception as e:
            text = 'raise SyntaxError(%r)\n' % ('%s: %s' % (n, e))
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(dst, 'w', encoding='utf-8') as f:
            f.write(re.sub(r'(?m)\A((?:#.*\n)?)(#.*coding[:=]\s*)[-\w.]+', r'\1\2utf-8', text))
shutil.copyfile(os.path.join(HERE, 'py2rt.py'), os.path.join(dest, '_py2rt.py'))
