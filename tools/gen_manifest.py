#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
ids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
T="deterministic simulation: seeded search over "
C={
"C01":(T+"process and message interleavings, delays, starved processes and short or interrupted file operations of one client and its multi-process proving server",
 "Sampled sessions, graphs and schedules; MPI, shared memory, HTTP, GKR and polynomial commitments are models, so only the repository's own protocol and shard logic is judged."),
"C02":(T+"the order in which one client's witness creation, requests, confirmations, time-outs and releases meet the server's reads, with message faults and stalled processes",
 "Sampled sessions and schedules; MPI, shared memory, HTTP, GKR and polynomial commitments are models; every mapping and release of a segment is observed at the shared-memory seam."),
"C03":(T+"concurrent setup, prove and exit requests of several clients to one multi-process server, some of them impossible, with message, file and shared-memory faults",
 "Sampled request histories and schedules; collectives are observed at the MPI seam, so a mismatch that never reaches a collective call would not be seen."),
"C04":(T+"histories of setups, witnesses, proves and exits on one multi-process server with starved ranks, delayed messages and interrupted reads; windows fault after release and every vector inside them is tracked",
 "Sampled histories and schedules; MPI windows, shared memory and HTTP are models, so only the repository's own allocation, replacement and release logic is judged."),
"C05":(T+"random objects packed into windows by simulated ranks and read back by every other rank, and witness files exchanged with short and interrupted reads and writes",
 "Sampled graphs, witnesses and files; reads outside the image fault at the window seam."),
"C06":(T+"sessions of client and server under lost, delayed and refused messages, failing and full disks, failing shared memory, killed and stalled processes, foreign services and left-over servers, with recovery after the faults stop",
 "Sampled sessions and fault sequences; MPI, shared memory, HTTP, GKR and polynomial commitments are models; a call that never returns is accepted while faults last."),
"C07":(T+"worker-thread interleavings, instance counts and failing hint calls against a sequential model of random kernels",
 "Sampled programs and schedules; worker threads switch at task boundaries, hint calls and field operations, not at every memory access."),
"C08":(T+"thread interleavings, hash seeds and heap addresses of the in-process provers on generated graphs, against an array model and the backend's own verifier",
 "Sampled graphs and schedules; sumcheck/GKR and polynomial commitments are transparent stand-ins (binding and completeness by construction), so field-level soundness error is out of scope."),
"C09":(T+"tampering sequences on combined proofs (drop, truncate, duplicate, swap, corrupt, foreign graph or request, lying prover, violating witness)",
 "Sampled graphs and tamperings; sumcheck/GKR and polynomial commitments are transparent stand-ins, so only the repository's own verifier logic is judged."),
"C17":(T+"device-context histories (views, kernel calls, downloads, reload in a second process, invalid operations) against an array model",
 "Sampled histories of small arrays; the array model and the scalar kernel evaluator are trusted."),
"C18":(T+"separate setup, server, prove, verify and cleanup programs run as simulated processes, killed and restarted at any point, exchanging only files",
 "Sampled schedules, crash points and disk/network faults; MPI, HTTP and the proof back end are stand-ins; disk writes may tear but are not reordered."),
"C12":(T+"simulated processes and threads that compile the same program at the same time, before and after others, with their own hash seeds and random draws; all bytes must agree",
 "Sampled small programs; tasks switch at field operations; the byte format of basic types (and of maps, written in key order) is a stand-in."),
"C15":(T+"threads sharing one witness solver, batch sizes around the packing width, calling modes and hint calls that fail at seeded points, against per-assignment evaluation",
 "Sampled small programs and batches; trusts the evaluator and the stand-in field crates; threads switch at hint calls and field operations."),
"C13":(T+"hash seeds, random draws, compile options, source programs and inputs; the compiled circuit, its export and its witness solver against an independent evaluator, and a lying prover",
 "Sampled small programs; trusts the evaluator and the stand-in field crates. The simulated nondeterminism is the compiler's hash seeds and random draws; there is no schedule or I/O in a compilation."),
"C14":(T+"hash seeds, random draws, compile options and source programs; an independent gate-by-gate reading of every returned circuit",
 "Sampled small programs; fan-out limits are checked per variable before layering and per wire for programs without sub-circuits."),
"C10":(T+"short, interrupted and failing transfers of a stream, a pipe between two processes or a file, and the objects written one after the other, against the bytes and the objects written",
 "Sampled objects; the byte format of integers, vectors, options, maps and derived structures is a stand-in, so only the repository's own readers and writers are judged."),
"C11":(T+"cuts, torn blocks, damaged headers and lengths, writers killed half-way and foreign files, read with short transfers under a limit on memory",
 "Sampled files; the byte format of basic types is a stand-in that never allocates ahead of its data. Two kinds of file with the same header (normal and cross-layer circuit; source circuit and witness solver) are not told apart, nor is a graph, which has no header."),
"C16":(T+"operation histories, key sets, hash seeds and random draws against plain models",
 "Sampled histories on the real containers; trusts the plain models and that all entropy passes through getrandom."),
"C20":(T+"the answers a simulated prover gives to the gadgets' hints, its claimed inputs and outputs and the verifier's random draws, against reference implementations; wrong values must be refused whatever the prover answers",
 "Sampled inputs and lies; the emulated prover changes single answers, moves carries and forges products, it is no general solver. Gadgets run in the library's own evaluating builder. Lies are the faults; a gadget has no schedule or I/O."),
}
NA={
"C19":"The Go front end needs gnark modules and a prebuilt shared library that this sandbox does not have; the bridge cannot be run under the simulator.",
}
checks=[]
for i in ids:
    if i in C:
        t,n=C[i]
        checks.append({"property":i,"quick_cmd":f"bin/check {i} quick","thorough_cmd":f"bin/check {i} thorough",
          "evidence_file":f"evidence/{i}.json","technique":t,"level":"exploration","level_note":n})
na=[{"property":i,"reason":NA.get(i,"Not claimed yet: its scenarios are still being built.")} for i in ids if i not in C]
m={"version":1,"setup_cmd":"bin/setup",
 "checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: the unmodified crate is compiled in place against simulated dependencies (dst/stubs) and OS seams (dst/simrt). Known and repaired findings: known_findings.txt."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
open("/verif/MANIFEST.json","a").write("\n")
