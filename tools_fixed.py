"""tools_fixed.py <property> <what failed>: record /repo's HEAD fix commit in known_findings.json"""
import json, subprocess, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
sha = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '--short', 'HEAD'], text=True).strip()
if len(sys.argv) > 3:
    sha = sys.argv[3]
d['fixed'].append(f'fixed: property={sys.argv[1]} {sha} {sys.argv[2]}')
json.dump(d, open(p, 'w'), indent=1)
