import json,os,subprocess
HERE=os.path.join(os.path.dirname(__file__),"..")
T={
"C01":"explicit-state BFS of the real Game in lock step with a reference model; legality compared for every point under all 16 rule combinations in every state",
"C02":"explicit-state BFS of the real Game in lock step with a reference model; every transition compared with capture by flood fill",
"C03":"explicit-state BFS over games (state = position + set of past positions) under superko rules, refusals compared with the explicit list of past positions",
"C04":"explicit-state BFS in lock step with a reference model; ko verdict compared for every empty point of every state",
"C05":"explicit-state BFS over games and over placements/removals on bare boards (state includes the group layout); all group queries compared with flood fill",
"C06":"enumeration of all pairs of small positions and all one- and two-stone differences, boards rebuilt in several orders; states of the explicit-state BFS rebuilt and compared",
"C07":"explicit-state BFS in lock step with a reference model; territory, scores under all 8 counting rules and outcomes compared in every state",
"C08":"explicit-state BFS over plays, passes, resumptions and resignations in lock step with a reference state machine",
"C09":"explicit-state BFS; in every state all refused moves and all queries are executed and the state and all its successors compared with an untouched twin",
"C10":"explicit-state BFS; every view of the board read in every state and compared with the model",
"C11":"exhaustive enumeration of all 361 board sizes, all their points and outside coordinates, plus lock-step BFS on every size",
"C12":"exhaustive enumeration of a bounded SGF grammar, imported by the real code and replayed on a reference interpreter; all mutated and truncated records up to the bound must give errors",
"C13":"exhaustive enumeration of builder configurations and option orders against a reference model, continuations compared in lock step",
"C14":"bounded exhaustive lock-step exploration of aged boards against new ones, and deterministic long runs beyond every counter width in use",
"C15":"explicit-state BFS of all eight orientations and both colourings in lock step",
"C16":"explicit-state BFS and enumeration of all 3x3 neighbourhoods; eye verdicts and fill-eye legality compared in every state",
"C17":"explicit-state BFS for floating groups; stateless exploration of the real tree search with every random choice made by the explorer (exhaustive on tiny boards, deviation-bounded beyond)",
"C18":"explicit-state BFS over games with the history as part of the state, compared with the model's list of positions",
"C19":"explicit-state BFS with every query in every state, in a build with debug assertions and overflow checks; panics, watchdog time-outs and memory growth are violations",
"C20":"explicit-state BFS in lock step with a reference model; stone balance and prisoner counts compared after every transition",
"C21":"explicit-state BFS; in every state every permitted move is simulated and then played, capture prediction compared with the model",
"C22":"explicit-state BFS of the same bounded state spaces in four builds of the library; the facts of every state compared between the builds",
"C23":"exhaustive enumeration of names, sizes, coordinates, colours and results; all games under the named rules on small boards to a depth, in lock step with the reference model",
"C24":"exhaustive enumeration of pairs, windows and one-step changes of liberty sets against sets of integers; all operation sequences on the table of chains to a depth",
"C25":"explicit-state BFS; in every state every iterator is stepped through, skipped and collected at every point of its consumption",
}
m={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[],
 "notes":"No hooks: everything is decided through the public API. fix: commits in /repo are listed in known_findings.txt and DESIGN.md."}
for p in sorted(T):
    m["checks"].append({"property":p,"quick_cmd":f"VERIF_TIER=quick ./run.sh {p}","thorough_cmd":f"VERIF_TIER=thorough ./run.sh {p}","evidence_file":f"evidence/{p}.json","technique":T[p],"level":"model_checking",
      "level_note":"Exhaustive within the bounds written in evidence/%s.json and DESIGN.md, on the real code; assumes the reference model (arrays and flood fill, mc/src/refgo.rs%s) states the rules of Go correctly. Nothing is claimed beyond the bounds."%(p,", sgf.rs" if p=="C12" else "")})
json.dump(m,open(os.path.join(HERE,"MANIFEST.json"),"w"),indent=1)
