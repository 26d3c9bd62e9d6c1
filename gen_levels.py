import json
T="contract-based deductive verification (contracts on the real functions, obligations from go/ssa of /repo, z3/cvc5)"
TB="bounded executions of the real code against executable specifications (no discharged contract yet)"
proof="C15 C02 C16 C20 C01 C03 C04 C06 C07 C08 C09 C10 C11 C12 C13 C14 C17 C18 C19".split()
LV={}
for i in range(1,21):
    p="C%02d"%i
    LV[p]={"technique":T,"level":"proof","note":"see DESIGN.md for what is proved, assumed and bounded"} if p in proof else {"technique":TB,"level":"exploration","note":"bounded; see DESIGN.md"}
json.dump(LV,open('/verif/levels.json','w'),indent=1)
