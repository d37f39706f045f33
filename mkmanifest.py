#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
T="deterministic simulation with fault injection: seeded search over schedules, random streams and fault sequences"
COMMON=" Sampling of runs, not exhaustive: a violation that needs a rarer history can be missed. Trusted: simulator, harness, reference model, compiler, memory model seen as interleavings of sequentially consistent steps (weak-memory effects are not simulated)."
H=' The property itself has no schedule or clock in it; what the simulator decides is the history (operations, failing calls, warm-up, concurrent readers, schedule) before and around each step.'
NOTE={
"C01":"Every sample of every simulated history is judged by the reference network, including histories whose random words are forced to the extremes.",
"C02":"Statistical oracle with false-alarm exponent 25 per count test: deviations of rates of a few percent in one parent configuration, dependence between successive waiting times or between choice and waiting time are found, smaller biases are not.",
"C03":"Shape of every recorded trajectory is checked exactly, the law of the recorded part statistically (censored observation).",
"C04":"Bit-exact comparison of seeded calls in differing schedules, pools, entropy, clocks, earlier histories and log levels.",
"C05":"Unseeded calls: distinctness for distinct simulated entropy, reproducibility from the entropy alone, independence of time and schedule; faults of the entropy source.",
"C06":"Statistical oracle on reset/abandoned/concurrent samplers and on successive trajectories.",
"C07":"The result of every simulated search is judged by an independent reference of score, neighbourhood and local optimality.",
"C08":"Reference elimination with independently implemented F and chi-square distributions; runs with a decision closer than 1e-5 to its threshold are not judged. Two open findings of the tests on unobserved rows are listed in known_findings.txt; a result is accepted as one of them only when it equals the reference with exactly that quirk.",
"C09":"Every cached answer is compared bit for bit with the uncached learner, under failing fills; scoped to one variable and one dataset, as the library uses it.",
"C10":"State space and single-state evaluations are compared bit for bit under all simulated interleavings.",
"C11":"Estimates are compared with moments of the collected reward integrated from the backward equations; alarm at 9 standard deviations.",
"C12":"Bit-exact comparison with the definition under shuffled hash-map orders and user-supplied inner evaluations.",
"C13":"Panics are injected at chosen callback invocations; afterwards all objects are compared bit for bit with undisturbed ones.",
"C14":"Calls of concurrent clients are compared bit for bit with the same calls made alone in a fresh process.",
"C15":"Exact binomial tails for every ordered pair, two pairs, and successive graphs; exact for densities 0 and 1 also under extreme draws.",
"C16":"Every matrix is validated; exit rates by Kolmogorov-Smirnov, successors by exact binomial tails, dependence by correlation. Extreme draws are judged for validity only, with intervals away from 0.",
"C17":"Transitions are compared exactly, residence times and intensities to 1e-9, with an independent accumulator over the recorded rows, under recorder faults.",
"C18":"All amalgamated rows of all joint states of the explored networks are compared with the network; histories of each process are tested statistically against the law of the other.",
"C30":"After every step of a simulated history of valid, invalid (broken at one or two places), unchecked and resetting updates the held parameters and the verdict are compared with the model; errors between 1e-8 and 1e-4 of a row sum are not judged."+H,
"C31":"Every look-up along simulated trajectories and every configuration of blocks of up to 2000 configurations is compared with the model, also while the structure is edited and by several threads."+H,
"C32":"Every score is compared with an independent evaluation (own log-gamma, own sufficient statistics) to 1e-9 relative."+H,
"C33":"Every evaluation along simulated trajectories is compared with the model while the tables change."+H,
"C35":"Consistent and inconsistent inputs of nine kinds (trajectories, datasets, learning calls, generators, scores, unset parameters) in simulated histories of several threads; later operations are compared bit for bit with a process without refusals. NaN as an argument is not judged."+H,
"C34":"After every step of a simulated history (including failing insertions) the whole structure is compared with the model; then by concurrent readers."+H,
}
REASON={}
checks=[];na=[]
for l in open('properties.jsonl'):
    p=json.loads(l)['id']
    if p in NOTE:
        checks.append({"property":p,"quick_cmd":f"bash check.sh {p}","thorough_cmd":f"bash check.sh {p} --tier thorough","evidence_file":f"evidence/{p}.json","technique":T,"level":"exploration","level_note":NOTE[p]+COMMON})
    else:
        na.append({"property":p,"reason":REASON[p]})
json.dump({"version":1,"setup_cmd":"bash build.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: threads, locks, clock and entropy are interposed at link level, rand_chacha is patched in the harness workspace, user traits are implemented by the harness. Repairs are listed in known_findings.txt."},open('MANIFEST.json','w'),indent=1)
