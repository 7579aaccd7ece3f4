"""writes MANIFEST.json from props.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        q = props.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3-vt check.py %s quick" % i,
                       "thorough_cmd": "python3-vt check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": props.CONC_TECHNIQUE if q.get('engine') == 'conc' else props.TECHNIQUE, "level": "model_checking",
                       "level_note": (props.CONC_NOTE if q.get('engine') == 'conc' else props.NOTE) % q['bounds']})
    else:
        na.append({"property": i, "reason": props.NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks use the public interface only. Counterexamples are replayed against the real code before they are reported; 'python3-vt check.py --replay <file>' repeats one."}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
