#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json, subprocess, sys
T = {
 "C01": ("runtime verdict monitor over generated honest runs", "acceptance of every generated honest run; trusts the generator's own algebra for 'satisfied'"),
 "C02": ("runtime verdict monitor over false statements, honest and cheating provers", "no false statement of the generated classes was accepted; soundness against every prover is out of reach of observation"),
 "C03": ("runtime verdict monitor with component-wise tampering", "every changed component, pair and statement variant that was tried was rejected"),
 "C04": ("runtime verdict monitor over generated honest runs", "acceptance of every generated honest run, including degenerate vectors"),
 "C05": ("runtime verdict monitor with tampering and false claims", "all tried false claims and changes were rejected, also from an independent cheating prover"),
 "C06": ("runtime verdict monitor over generated honest runs", "acceptance of every generated honest run"),
 "C07": ("runtime verdict monitor with tampering and false targets", "all tried false targets and changes were rejected"),
 "C08": ("runtime verdict monitor over generated honest runs", "acceptance of every generated honest run"),
 "C09": ("runtime verdict monitor with tampering, false targets and forgeries", "all tried false targets, changes and forgeries were rejected"),
 "C10": ("runtime verdict monitor over generated honest runs", "acceptance of every generated honest run"),
 "C11": ("runtime verdict monitor with tampering and cheating provers", "all tried changes and false openings were rejected, also from an independent cheating prover"),
 "C12": ("runtime comparison with an executable model of the placement", "placements agree with the model and refusals occur exactly where the model refuses, on the inputs tried"),
 "C13": ("runtime monitor of the masks: scripted randomness, mask recovery, sensitivity and freshness oracles", "masks recovered from published values in the runs observed; statistical strength is bounded by the samples"),
 "C14": ("runtime invariant monitor on sampled vectors (scripted randomness)", "orthogonality and randomness observed on the vectors tried"),
 "C15": ("transcript event log: challenge sensitivity oracle, adaptive-prover workload", "every component tried moved every later challenge"),
 "C16": ("transcript event log comparison between prover and verifier, chained sessions", "logs equal on the sessions observed"),
 "C17": ("fault injection into proofs, runtime verdict and panic monitor", "every malformed proof tried was rejected without a panic"),
 "C18": ("output capture of a child process under workload", "no byte was written in the runs observed"),
 "C19": ("runtime comparison with executable definitions", "agreement on the shapes and entries tried"),
 "C20": ("history monitor: verdicts under permutation, repetition and threads; mask uniqueness across threads", "verdicts equal in the interleavings that occurred"),
 "C21": ("AddressSanitizer, ThreadSanitizer, Miri and overflow checks under workload", "no report in the executions driven; says nothing about code the workload does not reach"),
 "C22": ("runtime monitor of proof component counts", "counts equal the formula on the shapes tried"),
 "C23": ("transcript event log, recomputation and distribution monitor", "recomputed on every challenge observed; distribution within very wide bounds"),
 "C24": ("differential monitor against an independent implementation", "provers and verifiers agree in both directions on the cases tried"),
 "C26": ("history monitor of the process: counting allocator, open files, threads, bytes written, environment", "no growth over the walks of several hundred sessions observed"),
 "C27": ("runtime monitor of heap requests and processor time per call (counting allocator)", "limits are a generous multiple of what the current tree uses"),
 "C25": ("runtime comparison with executable definition", "agreement on the inputs tried"),
}
have = sys.argv[1].split(",")
hooks = subprocess.run(["git","-C","/repo","log","--format=%H %s"],capture_output=True,text=True).stdout.splitlines()
hk = [l.split()[0] for l in hooks if l.split(" ",1)[1].startswith("hooks:")]
m = {"version":1,
 "setup_cmd":"./run setup",
 "hooks":{"guard":"--cfg qesa_hooks","enable":"RUSTFLAGS='--cfg qesa_hooks' when building the harness crate in /verif/harness, which depends on /repo by path","source_commits":hk},
 "checks":[],
 "not_applicable":[],
 "notes":"./run ID builds /verif/harness against /repo and runs one check; ./run replay FILE re-executes a recorded case. vendor/ holds merlin and rand with recording added."}
for k,(t,n) in T.items():
    if k in have:
        m["checks"].append({"property":k,"quick_cmd":f"./run {k}","thorough_cmd":f"VERIF_TIER=thorough ./run {k}","technique":t,"level":"exploration","level_note":n})
    else:
        m["not_applicable"].append({"property":k,"reason":"check under construction"})
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
