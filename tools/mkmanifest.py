import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
note=("Every instruction of generated multi-transaction histories is executed on the compiled program (native build of /repo) and compared with the step function and property "
      "predicates of the Quint specification (exact integer semantics). Trusted: the harness's models of the surrounding programs (SPL Token, Token-2022, System, Metadata, DAMM v1/v2, locker, zap) "
      "and the projection of account data. Not covered: what lies outside the generated histories, compute limits.")
json.dump({"version":1,"setup_cmd":"./setup.sh",
 "checks":[{"property":p['id'],"quick_cmd":"./check.sh "+p['id'],"thorough_cmd":"./check.sh "+p['id'],"technique":"Quint specification; lockstep conformance of the real program with it over specification-generated histories","level":"exploration","level_note":note} for p in props],
 "not_applicable":[],
 "notes":"No hooks in /repo: the harness links the program crate as it is."},open('/verif/MANIFEST.json','w'),indent=1)
