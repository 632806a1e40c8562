import json, sys
sys.path.insert(0, '/verif')
try:
    import deduct as proof
except ImportError:
    proof = None
P = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks = []
for p in P:
    i = p['id']
    c = {"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough"}
    if proof and proof.covers(i):
        c["technique"] = proof.technique(i)
        c["level"] = proof.level(i)
        c["level_note"] = proof.level_note(i)
    else:
        c["technique"] = "bounded check of the compiled crate against an independent executable specification (stand-in; the contracts do not reach these functions yet)"
        c["level"] = "exploration"
        c["level_note"] = "bounded: generated registries, bytes and settings on the compiled crate against an independent reference; not a proof"
    checks.append(c)
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "cfg substrate_parser_verif", "enable": 'RUSTFLAGS="--cfg substrate_parser_verif"', "source_commits": ["0e94669"]},
     "checks": checks, "not_applicable": []}
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
