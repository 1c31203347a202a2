#!/usr/bin/env python3
"""addsuite.py name san quick thorough: adds the suite to suites.py (before the C20 line the caller adds the property by hand)."""
import sys
p='/verif/suites.py';s=open(p).read()
n,san,qk,th=sys.argv[1:5]
i=s.index("\n}\nOWN")
s=s[:i]+f'\n    "{n}": {{"san": "{san}", "src": ["{n}.cpp"], "quick": {qk}, "thorough": {th}}},'+s[i:]
if len(sys.argv)>5:
    cid,tech,rule=sys.argv[5:8]
    j=s.index('    "C20":')
    s=s[:j]+f'    "{cid}": {{"suites": ["{n}"], "technique": {tech!r},\n            "rule": {rule!r}}},\n'+s[j:]
open(p,'w').write(s)
