COMMON = "Seeded search, not exhaustive: a violation needs a history the search does not reach to stay hidden. Trusts the reference tree (sim/model.cc, sim/ops.cc), the clang/ASan runtime and the recorded choice stream."
DISK = "storage and input streams (sim/io.cc: byte media with fragmentation, errors, cuts, lost, stale, duplicated and flipped data)"
OUTM = "output media (sim/io.cc: refuse, fail, throw or stutter at any byte)"
CHAN = "the channel between replicas (loses, duplicates, reorders updates)"
def lib(*x): return [LIBREAL] + list(x)
prop('C01', 150000, "one run = two containers and a history of up to 17 operations (all ~190 container calls, copies, merge, collapse, compare, every text writer and reader, binary images, tables, C sessions), each with a memory request failing: the position is drawn uniformly from the requests the operation makes when undisturbed; distinct state = (operation, types, position class, outcome)", [MEMSTUB], real=lib("the JSON, YAML and TOML readers and writers with their vendored parsers"), assume=["memory requests of rapidjson go to malloc directly and are not failed", "std::complex formatted by libstdc++ may be cut without notice"],
  note="Each operation is first run undisturbed on copies; a disturbed one must raise, report its failure, or give exactly that result; read operands keep their value, containers stay inspectable, no block stays allocated. " + COMMON)
prop('C02', 160000, "one run = a random tree and a history of up to 60 calls drawn from ~190 call forms on random nodes; distinct state = (call form, stored type, size class, accepted/rejected)", [MEMSTUB],
  "Every result and the whole tree are compared with the reference tree after every call. " + COMMON)
prop('C03', 160000, "as C02; more than half of the calls are ones the current state forbids; distinct state = (call form, stored type, size class, accepted/rejected)", [MEMSTUB],
  "Every forbidden call must raise and leave an identical tree; keys and messages are unterminated views, all library memory is under AddressSanitizer. " + COMMON)
prop('C04', 200000, "one run = three containers, a history of copies in 11 forms between random (possibly overlapping) nodes, interleaved with random calls, destructions and failing memory requests; distinct state = (copy form, source type, destination type, alias, depths)", [MEMSTUB],
  "After every step all containers are compared with independent reference trees. " + COMMON)
prop('C05', 200000, "one run = containers grown by random histories, saved into exactly sized and too small guarded blocks, restored over random earlier contents, several images back to back, memory requests failing on the way; distinct state = (value shape, buffer class, outcome)", [MEMSTUB, "the block of storage the image is written to"],
  "Restored tree and byte counts are compared exactly; the blocks are allocated to the byte under AddressSanitizer. " + COMMON)
prop('C06', 200000, "one run = an image put through crash/torn/lost/stale/duplicated sectors, bit flips and lying counts, then read; distinct state = (damage kinds, outcome, value shape)", [MEMSTUB, DISK],
  "Cut images must be refused; anything else must be refused or restored well formed, within the bytes supplied, a memory budget proportional to them and a step budget. " + COMMON)
prop('C07', 160000, "one run = a random document written as JSON to the simulated disk and read back under random fragmentation, read errors, cuts and damage; distinct state = (document shape, media fault, outcome)", [MEMSTUB, DISK], real=lib("src_json_interface (with its vendored rapidjson)"),
  note="Documents are compared node by node at the printed precision; failures must be reported and leave the reader's container unchanged. " + COMMON)
prop('C08', 160000, "one run = a random document written as YAML to the simulated disk and read back under random fragmentation, read errors, cuts and damage; distinct state = (document shape, media fault, outcome)", [MEMSTUB, DISK], real=lib("src_yaml_interface (with its vendored fkYAML)"),
  note="Documents are compared node by node at the printed precision; damaged input must end in a report or a usable container within a step budget. " + COMMON)
prop('C09', 160000, "one run = a random document written as TOML to the simulated disk and read back under random fragmentation, read errors, cuts and damage; distinct state = (document shape, media fault, outcome)", [MEMSTUB, DISK], real=lib("src_toml_interface (with its vendored toml++)"),
  note="Documents are compared node by node; containers TOML cannot express must be refused; damaged input must end in a report or a usable container. " + COMMON)
prop('C10', 180000, "one run = a random container and a series of writer calls on streams with random formatting whose medium fills up, errors, throws or accepts short writes at a random byte; distinct state = (writer, fault kind, position class)", [OUTM], real=lib("the JSON, YAML and TOML writers"),
  note="What reached the medium is compared with the healthy output; stream state, formatting and container are compared before and after. " + COMMON)
prop('C11', 60000, "one run = two to four threads with programs over their own containers (container calls, copies, every text writer and reader, binary images, tables) or readers of one shared container, preempted by the simulator at branches and memory accesses of the library; distinct state = hash of the schedule (who was preempted where, in favour of whom)", ["the thread scheduler (one baton, preemption at every instrumented branch, load and store; mutexes and one-time initialisation wait on the baton)"], variant='threads', real=lib("the JSON, YAML and TOML readers and writers with their vendored parsers"), assume=["interleavings are sequentially consistent; effects of weak memory are not simulated"],
  note="Every result and the final containers are compared with the same programs run alone. " + COMMON)
prop('C12', 160000, "one run = up to four C clients interleaved over named containers, up to 70 calls, misuse and failing memory requests included; distinct state = (call, type at the head, outcome)", [MEMSTUB],
  "Every return value, every named container and every cursor is compared with the cursor model after every call. " + COMMON)
prop('C13', 30000, "one run = an interpreter, random values pushed in and pulled out, scripts and calls that fail at random points, script files that fail to read, Lua and C++ memory requests failing; distinct state = (operation, value shape, outcome)", [MEMSTUB, "the Lua allocator (fails on command)", "script files (sim/lua_seams.h: open, read errors, fragments)", "Lua's hash seed and clock"], real=lib("src_lua_interface/GenericContainerInterface_lua.cc and the bundled Lua 5.4.6 interpreter"),
  note="Values are compared element by element after each transfer; the interpreter stack height is compared around every call; a failing call must raise and leave target and interpreter usable. " + COMMON)
prop('C14', 160000, "one run = a random table written and read back in the vector and map forms under fragmentation, read errors, cuts and damage; distinct state = (table shape, media fault, outcome)", [MEMSTUB, DISK],
  "Headers, counts and values are compared; damaged input must give equal column lengths or an error. " + COMMON)
prop('C15', 180000, "one run = three replicas fed by a lossy, duplicating, reordering channel and single point changes of a copy; distinct state = (types compared, outcome)", [CHAN],
  "The verdict of each comparison is compared with exact snapshot equality. " + COMMON)
prop('C16', 130000, "one run = maps merged under lost, duplicated and reordered deliveries and nested vectors unified, memory requests failing on the way; distinct state = (shape, operation, outcome)", [MEMSTUB, CHAN],
  "Merges are compared with the union model, unification element by element with the numeric values before it. " + COMMON)
prop('C18', 120000, "one run = up to four documents, each spelled in two random ways by a foreign writer and read under random fragmentation and read errors; distinct state = (format, fragmentation, document type, length class, earlier content)", [DISK, "the other program that wrote the document (sim/scen_foreign.cc)"], real=lib("the JSON, YAML and TOML readers with their vendored parsers"), assume=["YAML limited to block and flow collections, plain, single and double quoted scalars and plain numbers", "reals in JSON are compared to 2e-14"],
  note="What was read is compared node by node with the document spelled, and the two spellings with each other. " + COMMON)
prop('C17', 120000, "one run = up to 30 transfers between containers and a simulated MATLAB (values of every class and shape, the two MEX functions, the console), memory requests failing on either side; distinct state = (transfer, class or type, outcome, fault)", [MEMSTUB, "MATLAB itself (sim/matlab: the documented C matrix API with separate complex storage, arrays in exactly sized blocks, memory that fails on command)"], variant='matlab', real=lib("src_matlab_interface (the conversions and both MEX functions)"), assume=["the simulated MATLAB follows the documented C matrix API; MATLAB ends a MEX function when it cannot provide an array, and mxArrayToString returns NULL"],
  note="Every array is compared element by element with the container and every container with the document the array denotes, by code that reads the simulated arrays directly. " + COMMON)
prop('C20', 110000, "one run = up to three sessions of the stand-alone interpreter with random command lines, start-up variables, libraries, scripts and typed lines; input cut or failing at a random byte, output and error media failing, interrupts, Lua memory requests and script files failing; distinct state = (options, start-up form, script, outcome, number of errors, memory fault)", [MEMSTUB, "the Lua allocator (fails on command)", "script and library files (sim/lua_seams.h: open, read errors, fragments)", "the terminal: input, output and error stream, the interrupt signal", "the environment variables", "Lua's hash seed and clock"], real=lib("src_lua_interface/GenericContainerLuaPmain.cc and the bundled Lua 5.4.6 interpreter"), assume=["sessions run one at a time"],
  note="Output, status and errors are compared with a model of the command line, start-up, library, script and line-by-line semantics; Lua blocks and the signal disposition are compared around every session. " + COMMON)
NA_WHY = {'C19': "The Ruby module calls the C interface through the ffi gem, which is not installed, and stops on the installed Ruby (it names Fixnum); it cannot be loaded here, so there is no execution to simulate. The C interface it calls is decided by C12."}
NA = [dict(property=p, reason=NA_WHY.get(p, "check under construction")) for p in ["C%02d" % k for k in range(1, 20)] if p not in P]
NOTES = "One simulator binary (sim/*.cc) linked with the library compiled from /repo's working tree; check.py builds, searches, shrinks, replays and writes evidence."
