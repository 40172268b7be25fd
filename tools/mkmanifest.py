#!/usr/bin/env python3
# Writes MANIFEST.json for the properties which have a check.
import json, subprocess, sys
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
have=set(sys.argv[1].split(',')) if len(sys.argv)>1 and sys.argv[1]!='all' else set(ids)
T={
'C01':"property-based testing: generated descriptions compiled with the tool, every access decoded to bits by an independent decoder, disjointness and bounds as the oracle",
'C02':"property-based testing: generated descriptions and direct constructor calls, redundant fields recomputed from the decoded placement",
'C03':"property-based testing: generated nested blocks, interval invariants over address spaces and recomputed sizes",
'C04':"property-based testing: generated descriptions, isolation invariants over registers with side effects",
'C05':"property-based testing: generated procedures and streams, exact reference model of the frame",
'C06':"model-based property testing: generated programs with a meaning computed by an independent elaborator, compared with the compiled result and constants dump",
'C07':"metamorphic property testing: typed program against its expansion made by an independent elaborator, byte for byte",
'C08':"differential property testing: generated expressions against an exact big number evaluator, undefined ones must be rejected",
'C09':"model-based property testing: programs with few shadowed names over scopes, files and packages against a lexical scope elaborator",
'C10':"metamorphic property testing: the same program in two spellings or orders, byte for byte comparison",
'C11':"fuzzing: random bytes, structured token soups and mutations of valid descriptions, with crash, hang, memory and partial output oracles; token position invariants",
'C12':"property-based testing: valid generated programs with one rule broken at a known place, rejection and location oracle",
'C13':"stateful property testing: histories of compilations in one process and metamorphic variations of the environment",
'C14':"metamorphic property testing: single edits of generated interfaces must change the ID, respellings and timestamps must not",
'C15':"property-based testing: bit strings and values against a digit model, through the Go API and the compiler",
'C16':"property-based testing: ranges against a big number model, through the Go API and the compiler",
'C17':"model-based property testing: generated command lines against a reference model of the documented options",
'C18':"property-based testing: every query method of the public Go API over compiled and made-up structures against answers recomputed from the data",
}
checks=[]
na=[]
for i in ids:
    if i in have:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","technique":T[i],"level":"exploration",
          "level_note":"Random search with shrinking against an explicit oracle over the real compiler built from /repo; shows presence of violations, absence only on the explored cases. See DESIGN.md."})
    else:
        na.append({"property":i,"reason":"check under construction"})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,"notes":"Known and fixed findings are in known-findings.jsonl. Replay a violation with ./replay.sh FILE."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')
