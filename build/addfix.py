#!/usr/bin/env python3
"""addfix.py PROP COMMIT TEXT: record a repaired defect in known_findings.json."""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json')
d = json.load(open(p))
d.append({'status': 'fixed', 'property': sys.argv[1], 'what': f'fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}'})
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
