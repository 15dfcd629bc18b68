#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays valid JSON)."""
import json, os
E="expander_compiler/src/"
Z=E+"zkcuda/"
P=Z+"proving_system/"
props=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    props.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Distributed prove proves exactly the submitted witness",
 "When a client sets up a computation graph on the multi-process proving server and then asks it to prove any sequence of witnesses, every prove call that returns hands back a proof that the matching verifier accepts for a satisfying witness and whose commitments are commitments to exactly the witness given in that call. A proof of an earlier or different witness is never returned, and a non-satisfying witness never leads to an accepted proof. Without faults every such call does return a proof. This holds for every backend (one process per parallel instance, deferred polynomial-commitment opening, and bounded process count with or without batched openings), every number of server processes and every parallel count.",
 ["schedules","histories","configurations","inputs"],
 "all interleavings of client threads, HTTP delivery and server ranks; all histories of setups and proves with growing and shrinking witnesses; all rank counts, parallel counts, broadcast patterns and backends",
 "The integration tests need a built MPI server and run one setup and one prove per backend on one machine schedule; a second prove, a smaller witness after a larger one, or another rank interleaving is never tried, and none of them runs in the stable suite.",
 [P+"expander_parallelized/client_utils.rs",P+"expander_parallelized/server_ctrl.rs",P+"expander_parallelized/prove_impl.rs",P+"expander_parallelized/verify_impl.rs",P+"expander_pcs_defered/prove_impl.rs",P+"expander_pcs_defered/verify_impl.rs",P+"expander_no_oversubscribe/prove_impl.rs",P+"expander/prove_impl.rs"],
 [("client request sequence","client_send_witness_and_prove"),("root and worker request handlers","root_main / worker_main"),("instance to rank partition","get_local_vals, get_local_vals_multi_copies, generate_local_mpi_config")],
 ["return value of ProvingSystem::prove","result of ProvingSystem::verify","commitments inside the proof"])

p("C02","Shared witness survives until the server has read it",
 "A witness handed to the proving server through shared memory stays allocated and unchanged from the moment the prove request is sent until the server has confirmed that it copied the whole witness, and the confirmation of one request is never taken for that of another. The client releases the shared copy once it is confirmed. If no confirmation ever comes, the client call fails after its bounded waiting time; it neither waits for ever nor returns a proof.",
 ["schedules","histories","crash_points","fault_sequences"],
 "all interleavings of client writer, client poller, HTTP delivery and server reader, over histories of several proves, with delayed or stalled servers and with a server that dies at any point before or after the copy",
 "Existing tests observe one schedule in which the server always answers quickly; the poller/reader race, a stale acknowledgement from the previous prove and the 300 s timeout are never exercised.",
 [P+"expander_parallelized/shared_memory_utils.rs",P+"expander_parallelized/client_utils.rs",P+"expander_parallelized/server_ctrl.rs"],
 [("acknowledgement protocol","reset_witness_ack / signal_witness_read_complete / wait_for_witness_read_complete"),("named segment reuse","allocate_shared_memory_if_necessary")],
 ["lifetime and contents of the named shared segments","witness held by every server rank"])

p("C03","Proving server runs one request at a time on all ranks",
 "The proving server executes client requests one at a time: the effects of two requests that arrive concurrently are never interleaved. Every server process takes part in the same requests in the same order as the root, so that each collective operation is entered by all its members with matching kind and size, and no request leaves a process waiting for ever.",
 ["schedules","histories"],
 "all arrival orders and overlaps of concurrent setup, prove and status requests, all rank speeds, all message delays",
 "Tests send strictly sequential requests from one client; overlap of requests and slow ranks are never produced.",
 [P+"expander_parallelized/server_ctrl.rs",P+"expander_parallelized/server_fns.rs",P+"expander_no_oversubscribe/server_fn.rs",P+"expander_pcs_defered/server_fns.rs"],
 [("request lock","root_main"),("request broadcast","broadcast_request_type, broadcast_string"),("sub-communicator split","generate_local_mpi_config")],
 ["sequence of collective operations per rank","HTTP responses"])

p("C04","Server releases every shared window exactly once",
 "When the server is set up again, receives another witness, or is told to exit, each memory window shared between its processes is released collectively exactly once and only after no live data structure refers to it; memory inside a window is never handed to the process allocator. After an exit request every server process terminates, with no window left allocated.",
 ["histories","schedules","configurations"],
 "all histories of setup, prove and exit requests, with any rank schedule and rank count",
 "Tests perform one setup and one prove before exit; a leaked or doubly released window or a stray deallocation is invisible to their assertions.",
 [P+"expander_parallelized/server_fns.rs",P+"expander_parallelized/server_ctrl.rs",Z+"mpi_mem_share.rs"],
 [("window replacement","read_circuit, setup_shared_witness"),("clean-up","shared_memory_clean_up"),("giving up ownership","discard_control_of_shared_mem")],
 ["window registry at exit","allocator calls on window addresses","termination of every rank"])

p("C05","Shared-memory image of graph and witness is faithful on every rank",
 "A computation graph placed in shared memory by the root occupies exactly the number of bytes it announces, and every process that maps it sees a graph equal to the original in every part that proving uses: circuits, input layout, commitment lengths and proof templates. The same holds for the witness vectors. Reading it back is independent of which process reads first.",
 ["inputs","programs","schedules"],
 "all computation graphs (any kernels, nested segments, broadcast flags, bit orders, parallel counts) and witnesses, any number of ranks and any rank order",
 "One test shares one hand-written graph under MPI and is not in the stable suite.",
 [Z+"mpi_mem_share.rs",P+"expander_parallelized/shared_memory_utils.rs",P+"expander_parallelized/server_fns.rs"],
 [("memory image writers and readers","MPISharedMemory impls of graph, kernel, circuit, segment, proof template"),("witness image","write_witness_to_shared_memory / read_shared_witness_from_shared_memory")],
 ["graph and witness objects on every rank","bytes written versus announced"])

p("C06","Faults in the proving service never turn into a wrong success",
 "If a server process crashes, a request or reply is lost or delayed, the setup file is truncated, unreadable or the disk is full, or a process stalls, then a client call that returns normally has done its work, and a prove call that returns hands back a proof that is valid for exactly the submitted witness; otherwise the call fails or is still waiting. No call reports success for work that was not done. Once faults stop and the server is started afresh, a setup followed by a prove succeeds.",
 ["fault_sequences","crash_points","schedules","histories"],
 "all placements of process crashes, connection failures, reply losses, delays, stalls and file errors in a setup/prove/exit history",
 "No test injects any fault.",
 [P+"expander_parallelized/client_utils.rs",P+"expander_parallelized/server_ctrl.rs",P+"expander_parallelized/shared_memory_utils.rs",P+"expander_parallelized/server_fns.rs"],
 [("HTTP client","post_request"),("server start and readiness wait","client_launch_server_and_setup"),("proof hand-back","read_proof_from_shared_memory")],
 ["outcome of each client call","verifier result"])

p("C07","Parallel kernel execution equals sequential execution",
 "Calling a kernel over many parallel instances produces, in every output position, the value that running the instances one after another produces, whatever the order, overlap or number of worker threads and whichever execution path is chosen. If the kernel's hint computation fails for any instance, the call reports an error; results of other instances never leak into a wrong position.",
 ["schedules","programs","inputs"],
 "all kernels, instance counts, broadcast/partition layouts and shapes, under every interleaving of worker threads and failing hints in any subset of instances",
 "The example tests run a few fixed kernels under whatever schedule the thread pool picks and compare final values only.",
 [Z+"context.rs",Z+"kernel.rs",Z+"shape.rs",Z+"vec_shaped.rs",E+"circuit/ir/hint_normalized/mod.rs",E+"circuit/layered/mod.rs"],
 [("parallel instance loop","Context::call_kernel"),("witness solving of device memories","Context::solve_witness")],
 ["copy_to_host values","exported device memories","returned errors"])

p("C08","Local proving backends are complete and schedule independent",
 "For every computation graph and witness that satisfies it, each in-process proving backend (reference, single-threaded, and batched parallel) produces a proof that its own verifier accepts, and that proof depends only on graph and witness, not on thread scheduling, hash seeds or allocation addresses. Per-template proofs appear in template order.",
 ["schedules","programs","inputs","configurations"],
 "all worker interleavings and counts, graphs with several templates and parallel counts around the internal thresholds, all supported fields",
 "Examples check a handful of graphs with the pool's default schedule; nothing compares two schedules.",
 [P+"expander_local_deferred/api.rs",P+"expander/api_single_thread.rs",P+"dummy.rs",P+"common.rs",P+"expander/commit_impl.rs"],
 [("parallel template proving","ExpanderLocalDeferred::prove"),("parallel verification","par_iter in verify"),("input checks","check_inputs")],
 ["proof bytes","verifier result"])

p("C09","Verifiers reject incomplete, mixed-up or foreign proofs",
 "A verifier accepts a combined proof only if it contains a valid proof for every template of the computation graph over the commitments it carries: dropping, truncating, duplicating, swapping or corrupting template proofs, commitments or claims, or pairing a proof with another graph or another request's commitments, is never accepted. A proof made from a witness that violates the graph is never accepted.",
 ["inputs","fault_sequences","histories","configurations"],
 "all ways in which a stored or transmitted proof can be damaged, cut short, reordered or mixed with parts of proofs of other requests, for every backend",
 "Tests only verify honest, complete proofs.",
 [P+"expander_parallelized/api_parallel.rs",P+"expander_parallelized/verify_impl.rs",P+"expander_pcs_defered/verify_impl.rs",P+"expander_local_deferred/api.rs",P+"expander/api_single_thread.rs",P+"expander/verify_impl.rs",P+"dummy.rs"],
 [("per-template verification","verify_kernel / verify_gkr"),("commitment claim aggregation","verify_pcs_opening_and_aggregation_*"),("deferred opening","verify_defered_pcs_opening")],
 ["result of ProvingSystem::verify"])

p("C10","Stored artifacts round-trip exactly over imperfect streams",
 "Writing a circuit, witness, witness solver, source circuit, computation graph, kernel, setup or proof to a stream and reading it back yields an object equal to the original in its observable behaviour, however the stream splits the data into short or interrupted reads and writes, and consumes exactly the bytes it wrote. If the stream fails during writing or reading, the operation reports an error.",
 ["fault_sequences","inputs","programs"],
 "all objects the compiler can produce for every field, all patterns of short transfers, interruptions and stream errors",
 "The serialization tests use in-memory buffers, which never split, interrupt or fail.",
 [E+"circuit/layered/serde.rs",E+"circuit/layered/witness.rs",E+"circuit/ir/common/serde.rs",E+"circuit/ir/source/serde.rs",E+"circuit/ir/hint_normalized/serde.rs",E+"circuit/ir/expr.rs",Z+"kernel.rs",Z+"context.rs"],
 [("stream writers and readers","ExpSerde::serialize_into / deserialize_from implementations")],
 ["bytes on the stream","re-read object","returned errors"])

p("C11","Damaged or foreign artifacts are refused, not misread",
 "Reading a circuit, witness, witness solver, source circuit or computation graph file that was cut short at any point, or whose header belongs to another field, configuration or format, ends in an error. A damaged file never crashes the reading process through an unbounded allocation or a panic, and is never silently read as data of another field or kind.",
 ["fault_sequences","crash_points","inputs"],
 "every truncation point (crash while writing), torn block, and header corruption of every artifact, for every field",
 "Tests read only intact files.",
 [E+"circuit/layered/serde.rs",E+"circuit/layered/witness.rs",E+"circuit/ir/common/serde.rs",E+"circuit/ir/source/serde.rs",E+"circuit/ir/hint_normalized/serde.rs",E+"circuit/ir/expr.rs"],
 [("magic, modulus and configuration checks","deserialize_from of layered circuit, witness, root circuits")],
 ["result of deserialize_from"])

p("C12","Compilation is reproducible across runs and processes",
 "Compiling the same circuit or kernel with the same options gives byte-for-byte the same layered circuit and the same witness solver in every run, process and thread, regardless of hash-map seeds, random generator state, addresses, or other compilations running before or at the same time. Independent processes that compile the same program therefore always agree on the artifact they prove and verify against.",
 ["schedules","programs","configurations","histories"],
 "all circuits and options, all values of per-process hash seeds and random draws, any preceding or concurrent compilations",
 "Tests compile once per process and never compare two outputs; hash seeds vary only by chance.",
 [E+"compile/mod.rs",E+"layering/compile.rs",E+"layering/ir_split.rs",E+"layering/layer_layout.rs",E+"layering/wire.rs",E+"builder/basic.rs",E+"builder/final_build_opt.rs",E+"builder/hint_normalize.rs",E+"circuit/layered/opt.rs",E+"utils/pool.rs",E+"utils/static_hash_map.rs"],
 [("canonical ordering","sort_everything, pools and ordered maps"),("layer layout","LayerLayout subsets"),("optimiser passes","circuit/layered/opt.rs")],
 ["serialized layered circuit and witness solver"])

p("C13","Compilation preserves the program's meaning",
 "For every circuit and input, the compiled circuit together with its witness solver computes what the source program specifies: outputs, hint values and constraint satisfaction of the layered circuit (normal or cross-layer, at every optimisation level and fan-out limit) and of its backend export equal those of direct evaluation of the source. This holds for every hash seed and random draw the compiler meets.",
 ["programs","inputs","configurations","schedules"],
 "all source circuits with sub-circuits, hints, constraints, look-ups of constants and random coefficients; all compile options, fields and entropy draws",
 "Randomised unit tests cover single passes under one entropy value each, need the absent backend crates and are not in the stable suite.",
 [E+"compile/mod.rs",E+"builder/hint_normalize.rs",E+"builder/final_build_opt.rs",E+"builder/final_build.rs",E+"builder/basic.rs",E+"circuit/ir/common/opt.rs",E+"circuit/ir/dest/mod.rs",E+"circuit/ir/dest/mul_fanout_limit.rs",E+"layering/compile.rs",E+"layering/wire.rs",E+"circuit/layered/opt.rs",E+"circuit/layered/export.rs",E+"frontend/builder.rs"],
 [("pass pipeline","compile_with_options"),("constant folding, common-subexpression and segment optimisations","builder, layering and layered opt passes"),("export","export_to_expander")],
 ["layered circuit evaluation","witness solver output","backend circuit evaluation"])

p("C14","Compiled circuits honour their structural contract",
 "Every circuit returned by the compiler is valid for the prover: gates refer only to wires of the layers they may read, layer sizes are powers of two and agree between neighbouring layers, input and output counts match the program, and requested multiplication fan-out limits and layered-input forms are respected. A circuit that cannot be compiled is refused with an error rather than a crash or an invalid result.",
 ["programs","configurations","schedules"],
 "all circuits and compile options (fan-out limits, optimisation levels, cross-layer or normal input), all fields and all entropy draws",
 "Validity is asserted in a few unit tests on sampled circuits outside the stable suite.",
 [E+"circuit/layered/mod.rs",E+"circuit/ir/dest/mod.rs",E+"circuit/ir/dest/mul_fanout_limit.rs",E+"layering/compile.rs",E+"circuit/ir/common/mod.rs",E+"compile/mod.rs"],
 [("validators","validate of layered and IR circuits"),("fan-out limiting","mul_fanout_limit.rs")],
 ["structure of the returned circuit","returned errors"])

p("C15","Witness solving is consistent in every calling mode",
 "Solving one assignment, many assignments, or a generated stream of assignments gives the same per-assignment witness and public inputs, and a witness solver shared by concurrent threads gives each thread its own result. A witness passes the compiled circuit exactly when the assignment satisfies the program, each failing instance is reported at its own position, and a hint error makes the solve fail.",
 ["schedules","inputs","programs","configurations"],
 "all assignments, batch sizes around the packing width, interleavings of concurrent solvers, and failing hint calls at any position",
 "Tests solve a few fixed assignments from one thread.",
 [E+"frontend/witness.rs",E+"circuit/ir/hint_normalized/witness_solver.rs",E+"circuit/ir/hint_normalized/mod.rs",E+"circuit/layered/witness.rs",E+"circuit/layered/mod.rs",E+"hints/builtin.rs",E+"hints/registry.rs"],
 [("batch and packed witness solving","solve_witness*, Witness"),("hint dispatch","HintRegistry, builtin hints")],
 ["witness values","run results per instance","returned errors"])

p("C16","Index structures are correct for every random draw and history",
 "The compiler's own containers answer as their plain mathematical models do after any history of operations: the randomised static hash table finds every stored key with its own value and always finishes building (for any set of up to a thousand distinct keys), value pools give equal values one stable index and distinct values distinct indices, the heap is a priority queue, bucket sort and topological ordering give correct orders, and disjoint sets merge correctly. No outcome depends on hash seeds or random draws beyond permitted ties.",
 ["histories","inputs","schedules"],
 "all operation histories and key sets, including adversarial ones, and all values of hash seeds and random generator draws",
 "Two unit tests sample the heap and the hash table with one random stream.",
 [E+"utils/static_hash_map.rs",E+"utils/pool.rs",E+"utils/heap.rs",E+"utils/bucket_sort.rs",E+"utils/union_find.rs",E+"utils/misc.rs",E+"utils/function_id.rs"],
 [("randomised table construction","StaticHashMap::new"),("interning","Pool"),("ordering","heap, bucket_sort, topo_order")],
 ["return values of container operations"])

p("C17","Device-context histories match a simple reference model",
 "After any sequence of uploads, reshapes, transposes, kernel calls and downloads on a device context, downloaded data equals what a plain array model computes, invalid operations are refused, and compiling the recorded history yields a computation graph whose solved witness has the announced lengths and satisfies every template. A context that loads a graph compiled from the same history accepts it and yields the same witness, independently of memory addresses.",
 ["histories","programs","inputs"],
 "all operation histories, including repeated and dropped kernels, shared and re-laid-out buffers, and several contexts in one process",
 "Tests run a few fixed scripts; kernels sharing an address, repeated shapes, re-used graphs and long histories never occur.",
 [Z+"context.rs",Z+"shape.rs",Z+"vec_shaped.rs",Z+"kernel.rs"],
 [("kernel identity and caching","Context::call_kernel"),("layout propagation","shape.rs"),("graph compile and load","compile_computation_graph / load_computation_graph"),("witness export","solve_witness, export_device_memories")],
 ["downloaded arrays","exported witness","verifier result on the graph"])

p("C18","Separate setup, prove and verify programs agree through files",
 "When setup, proving and verification run as separate processes that exchange only files and the running server, verification of a proof from a completed prove accepts, and a process that crashes, restarts or reads a partly written file never makes verification of a wrong or missing proof succeed. Clean-up stops the server so that a new setup can start.",
 ["crash_points","histories","fault_sequences","schedules"],
 "all crash points of the setup, prove and verify processes, all torn or missing files, reruns in any order, different hash seeds and addresses per process",
 "The integration script runs the three programs once, in order, without faults.",
 ["expander_compiler/bin/zkcuda_integration/setup.rs","expander_compiler/bin/zkcuda_integration/prove.rs","expander_compiler/bin/zkcuda_integration/verify.rs","expander_compiler/bin/zkcuda_integration/cleanup.rs",P+"expander_no_oversubscribe/api_no_oversubscribe.rs"],
 [("file exchange","setup/prove/verify programs"),("graph regeneration","gen_computation_graph_and_witness")],
 ["exit status and output of each program"])

p("C19","Go front end and its native bridge agree with the Rust compiler",
 "A circuit built with the Go front end and passed through the native bridge compiles, solves and proves exactly as the same circuit built in Rust; errors come back as errors.",
 ["programs","inputs"],
 "all Go circuits and assignments",
 "The Go tests need the gnark modules and a prebuilt bridge library.",
 ["ecgo/rust/wrapper/wrapper.go","expander_compiler/ec_go_lib/src/compile.rs","expander_compiler/ec_go_lib/src/proving.rs"],
 [("C ABI bridge","ec_go_lib")],["compiled circuit bytes"])

p("C20","Standard circuit gadgets compute their specified functions",
 "Each gadget of the circuit library (hashes, big-integer and curve arithmetic, look-ups, matrix products) constrains its outputs to be the specified function of its inputs for all inputs, and rejects all other outputs.",
 ["inputs"],
 "all gadget inputs and claimed outputs",
 "Tests sample a few vectors and need crates that are absent here.",
 ["circuit-std-rs/src/lib.rs"],
 [("gadget constraint systems","circuit-std-rs/src")],["constraint satisfaction"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in props: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(props))
