"""addfix.py PROPERTY COMMIT TEXT: record a repaired defect"""
import json, sys
p = 'known_findings.json'; d = json.load(open(p))
d['fixed'].append('fixed: property=%s %s %s' % tuple(sys.argv[1:4]))
json.dump(d, open(p, 'w'), indent=1)
