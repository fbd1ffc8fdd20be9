#!/usr/bin/env python3
"""lists library functions that no harness of the last run executed (reads evidence/*.json)"""
import glob
import json
import os
import subprocess
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = set()


def walk(n):
    for c in n.get('inner', []):
        if isinstance(c, dict):
            if c.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl') and '3kln' in c.get('mangledName', '') \
                    and not c.get('isImplicit') and not c.get('explicitlyDeleted') and any(x.get('kind') == 'CompoundStmt' for x in c.get('inner', [])):
                out.add(c['mangledName'])
            walk(c)


for std in ('17', '11'):
    with tempfile.NamedTemporaryFile('w', suffix='.cpp') as f:
        f.write('#include <klein/klein.hpp>\n')
        f.flush()
        r = subprocess.run(['clang++-18', '-std=c++' + std, '-msse3', '-DKLEIN_USE_SIMDE', '-I/repo/public', '-isystem', '/usr/include/simde', '-fsyntax-only',
                            '-Xclang', '-ast-dump=json', f.name], stdout=subprocess.PIPE, text=True)
    walk(json.loads(r.stdout))
dm = lambda l: subprocess.run(['c++filt'], input='\n'.join(l), text=True, stdout=subprocess.PIPE).stdout.split('\n')
enc = set()
for f in glob.glob(os.path.join(HERE, 'evidence', '*.json')):
    enc |= set(json.load(open(f))['coverage']['functions_encoded'])
names = sorted(set(dm(out)) - {''})
miss = [x for x in names if x not in enc]
print('%d of %d library functions encoded' % (len(names) - len(miss), len(names)))
for x in miss:
    print('  not encoded:', x)
