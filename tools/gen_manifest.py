import json
CORE = "explicit-state model checking of the real contract: breadth-first enumeration of all operation sequences up to a depth over boundary-valued alphabets, every transition executed by the contract's own entry points on an in-memory chain and compared with an exact-arithmetic reference model"
TRUST = "Trusts the reference model in harness/src (exact 512-bit integers), the in-memory chain (storage, bank and cw20 ledgers, atomic rollback) and the bounded alphabets: depth, number of accounts, pools and positions are finite, so a defect that needs a longer history or values outside the alphabets' shapes is not seen."
N = {
"C01": ("all histories, then all leaving orders; every leaving state drained on the real code",),
"C02": ("all open/close pairs with interleaved non-trading operations of others",),
"C03": ("all round trips of one account from all reachable base states",),
"C04": ("every swap of every reachable state compared with a segment walk over the open positions",),
"C05": ("every swap/open request of the boundary product judged for success exactly when allowed",),
"C06": ("every reachable state's pool, ticks and tick map compared with the open positions",),
"C07": ("every reachable state's claimable fees compared with exact per-position entitlement",),
"C08": ("protocol fee ledger compared after every transition",),
"C09": ("every governance message by every account at every reachable state",),
"C10": ("every token message by every account at every reachable grant state, with time",),
"C11": ("position list compared with a list model after every transition",),
"C12": ("all balances compared with the reported amounts after every transition, with every attached-coins shape",),
"C13": ("every quote compared with the execution from a clone of the same state",),
"C14": ("every route compared with hop-by-hop execution from a clone of the same state",),
"C15": ("every creation/listing message over the boundary product; other pools compared",),
"C21": ("every page size and starting point at every reachable state",),
"C22": ("every pair of ticks' counters compared with measured time in range",),
"C24": ("the attributes of every successful transition compared with the observed movements, positions and prices",),
}
M = {
"C16": ("exhaustive enumeration of the whole tick domain and of every price-rounding boundary on the real functions against exact-arithmetic tables", "Complete over all 443,637 ticks and, for prices, over every point where the answer can change by one unit on either side, for every tick spacing 1..100; prices strictly between two such points rest on the monotonicity of the function and are covered by a fixed grid."),
"C17": ("explicit-state enumeration of all tick maps with up to three initialized ticks on chunk/horizon boundaries, all spacings and all starting ticks, on the real tick map and query entry points", "Complete over the slot bijection for all ticks and spacings; the search is complete over the stated sets of ticks and starting points around them."),
"C18": ("exhaustive enumeration of all operand pairs of 8-bit instances of the fixed-point macros and of boundary products of the real types against exact integer arithmetic", "Complete for 8-bit instances of every scale combination used; the production types (64/128/256 bit) are covered on the product of boundary values."),
"C19": ("explicit-state model checking: at every reachable pool state of the real contract every swap request is simulated by the SDK code fed from the contract's own queries and compared with the contract's execution; mirrored functions are compared over boundary products", "The SDK runs natively (not in a JS engine); the harness replaces the JavaScript value decoding crate, nothing else."),
"C23": ("exhaustive enumeration of price x target x liquidity x fee x amount products on the real step and amount functions against exact rational arithmetic", "Complete over the stated products, whose amounts include every threshold of the step (the amount that exactly reaches the target and its neighbours, before and after the contract's own rounding)."),
"C20": ("exhaustive enumeration of amounts x ranges x prices over boundary products on the real helpers of contract and SDK against the exact curve amounts", "Complete over the stated products only."),
}
import sys, os
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
have=set(N)|set(json.load(open("/verif/tools/have.json")))
checks=[];na=[]
for p in props:
    if p not in have:
        na.append({"property":p,"reason":"check under construction"}); continue
    if p in N: t=CORE; note="Exhaustive within the bounds: "+N[p][0]+". "+TRUST
    else: t,note=M[p]; note+=" Trusts the exact-arithmetic oracle in the harness."
    checks.append({"property":p,"quick_cmd":f"./run.sh {p}","thorough_cmd":f"./run.sh {p} thorough","evidence_file":f"evidence/{p}.json","technique":t,"level":"model_checking","level_note":note})
m={"version":1,"setup_cmd":"tools/build.sh core"+(" math" if {"C16","C17","C18","C20","C23"}&have else "")+(" sdk" if "C19" in have else ""),
 "hooks":{"guard":"cfg(verif_hooks)","enable":"no hook is needed: the harness drives public entry points only","source_commits":json.load(open("/verif/tools/hooks.json"))},
 "checks":checks,"not_applicable":na,
 "notes":"run.sh PROPERTY [thorough] rebuilds harness/ against /repo's working tree and runs one check; replays are written to evidence/replay. Fixed defects: known_findings.txt."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); print(len(checks),len(na))
