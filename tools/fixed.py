#!/usr/bin/env python3
"""tools/fixed.py PROP GREP TEXT: record a fix commit in known_findings.json."""
import json, subprocess, sys, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
pid, grep, txt = sys.argv[1:]
cc = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h',
                              '--grep', grep, '-1'], text=True).strip()
assert cc
dd = json.load(open('known_findings.json'))
dd['fixed'].append('fixed: property=%s %s %s' % (pid, cc, txt))
json.dump(dd, open('known_findings.json', 'w'), indent=1)
