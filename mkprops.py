#!/usr/bin/env python3
"""Source of truth for properties.jsonl (run: python3 mkprops.py > properties.jsonl)."""
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
HH="include/GenericContainer/GenericContainer.hh"
GC="src/GenericContainer.cc"; PR="src/GenericContainerPromote.cc"; SE="src/GenericContainerSerialize.cc"
UN=("type tag + union of owning pointers","which alternative is live and who owns it",HH+": m_data / m_data_type")
prop("C01","A failed memory request never corrupts, leaks or crashes",
 "If any memory request made inside any container operation fails (construct, assign, copy, set, push, index, promote, merge, collapse, compare, print, save or load in any format, C interface), the caller sees an out-of-memory error or the operation's own failure report, never a crash. Every container involved can still be inspected, reused and destroyed, operands that were only read keep their value, and once the containers are destroyed no memory remains allocated.",
 ["fault_sequences","histories"],"every operation in every reachable container state, every position (and every set of positions) at which a memory request made by that operation fails",
 "The examples never run out of memory; the property quantifies over every failing request inside every operation, including those made while replacing or converting stored data.",
 [GC,PR,SE,HH,"src/GenericContainerCollapse.cc","src_json_interface/from_json.cc","src_yaml_interface/from_yaml.cc","src_toml_interface/from_toml.cc"],
 [("allocate_* functions switch type and own new storage",GC),("promote_* take over old storage",PR),("matrix dimensions and element storage kept in step",HH+": mat_type::resize")],
 [UN],["get_type()/typed const accessors after the failed call","live heap blocks after destruction"],None)
prop("C02","Every history of container operations behaves like a typed value tree",
 "After any sequence of assignments, sets, pushes, indexed and keyed accesses, resizes, promotions, erasures and clears, a container reports exactly the type, size and contents that the same sequence produces on a simple typed value tree. Every value a read accessor or numeric conversion returns along the way equals the value that tree holds.",
 ["histories","inputs"],"every finite sequence of public operations on a tree of containers, with accepted and rejected operations interleaved",
 "The examples run a few fixed straight-line programs and never look at the result; state-dependent promotions, growth and type switches multiply beyond any list of examples.",
 [GC,PR,HH],[("type switch on every accessor",GC+": set_*, get_*, push_*, operator[]"),("automatic promotion",PR+": promote_to_*, copyto_*")],[UN],
 ["typed const accessors","return values of get_*, get_*_at, get_if_exists, exists, get_as_*, copyto_*"])
prop("C03","A rejected operation reports an error and changes nothing",
 "When an operation cannot be carried out in the container's current state (wrong stored type, missing key, index or element position out of range, value not representable in the requested type, impossible promotion) it raises an error, and the container and everything reachable from it are exactly as before. No memory outside the stored data is ever read or written while finding this out.",
 ["histories","inputs"],"every operation that the current state cannot satisfy, at every point of every history",
 "The examples only issue valid operations; an error path is exercised a handful of times and the state after it is never checked.",
 [GC,PR,HH],[("type check before access",GC+": ck, GC_ASSERT"),("range checks of indexed access",GC+": operator(), get_*_at")],[UN],["exception seen by the caller","container snapshot before and after"])
prop("C04","A copy or assignment yields an equal, independent value",
 "Copy construction, assignment, load and conversion to or from another container make the destination equal to the source whatever the destination held before, including when source and destination are the same container or one lies inside the other. Afterwards the two are independent: no later operation on one, including its destruction, is visible through the other.",
 ["histories","inputs"],"every source value, every previous destination value, every aliasing relation between them, every later history of either side",
 "The examples copy into fresh containers only; the property is about every earlier destination content, aliasing and later operations on both sides.",
 [GC,HH],[("deep copy",GC+": from_gc, to_gc, operator="),("assignment of typed vectors and matrices",GC+": operator=, set_vec_*, set_mat_*")],[UN],["snapshots of both sides after each later step"])
prop("C05","A saved binary image restores the exact tree and never overruns",
 "The size a container announces is the number of bytes its binary image occupies and the number of bytes reading it back consumes, and restoring the image into any container gives the original value exactly (raw machine pointers excepted). Saving into a smaller buffer raises an error and never touches a byte beyond the size given.",
 ["inputs","histories","fault_sequences"],"every value reachable by any history, every buffer size offered, every previous content of the restoring container, several images stored back to back",
 "One example round-trips one container in a large enough buffer and does not compare the result.",
 [SE],[("mem_size / serialize / de_serialize agree",SE),("space check before each write",SE+": *_to_buffer")],None,["bytes around the buffer","returned byte counts","restored snapshot"])
prop("C06","A damaged binary image is refused or restored whole, never overrun",
 "Reading an image that was cut short, torn, partly lost, overwritten or bit-flipped either raises an error or yields a well formed container; it never reads outside the bytes supplied, never requests memory out of proportion to them, and always terminates. An image that was cut short is always refused, and the container stays usable afterwards.",
 ["crash_points","fault_sequences","inputs"],"every crash point of the writer, every byte flip, lost, stale or duplicated sector, every declared count or type code",
 "No test ever reads a damaged image; a crash or a bad sector can cut or alter the image at any byte.",
 [SE],[("bounds check on each read",SE+": buffer_to_*, de_serialize")],None,["sanitizer reports","exception or byte count","snapshot of result"])
prop("C07","JSON documents survive storage and reloading",
 "A container made of maps, vectors, matrices, strings, booleans, integers and finite reals, written as JSON and read back by either JSON reader (from_json, from_json2) from any medium however it fragments the bytes, yields the same document (integers exactly, reals to the printed precision, uniform vectors possibly re-typed; complex numbers and pointers, for which JSON has no notation, as the text that shows their value), whatever the reading container held before. A map or sequence cut short, or any document on a medium that fails, is reported as a failure and leaves the reading container unchanged.",
 ["inputs","crash_points","fault_sequences"],"every document in the stated domain, every fragmentation of delivery, every cut point, every read error position",
 "Examples write or parse a fixed file and ignore the outcome.",
 ["src_json_interface/to_json.cc","src_json_interface/from_json.cc","src_json_interface/from_json2.cc","src_json_interface/jsonLexer.cc","src_json_interface/jsonParser.yy","src/GenericContainerCollapse.cc",GC+" (string_escape)"],
 [("writer","src_json_interface/to_json.cc"),("reader","src_json_interface/from_json.cc"),("second reader","src_json_interface/from_json2.cc"),("type unification","src/GenericContainerCollapse.cc")],None,["return value of the reader","snapshot of the reading container"])
prop("C08","YAML documents survive storage and reloading",
 "A map of maps, vectors, matrices, strings, booleans, integers and finite reals, written as YAML and read back from any medium however it fragments the bytes, yields the same document (integers exactly, reals to the printed precision, uniform vectors possibly re-typed; complex numbers as the text that shows their value, pointers as that or as the integer), whatever the reading container held before. A medium that fails is reported as a failure; a document whose bytes were cut or altered is read or reported as a failure, never a crash or a hang; a failed read leaves the reading container unchanged.",
 ["inputs","crash_points","fault_sequences"],"every document in the stated domain, every fragmentation, cut point, byte flip and read error position",
 "Examples write or parse a fixed file and ignore the outcome.",
 ["src_yaml_interface/to_yaml.cc","src_yaml_interface/from_yaml.cc","src/GenericContainerCollapse.cc"],
 [("writer","src_yaml_interface/to_yaml.cc"),("reader","src_yaml_interface/from_yaml.cc")],None,["return value of the reader","snapshot of the reading container"])
prop("C09","TOML documents survive storage and reloading",
 "A map of maps, vectors, strings, booleans, integers and reals, written as TOML and read back from any medium however it fragments the bytes, yields the same document (uniform vectors possibly re-typed; a complex number as the array of its two parts, a pointer as its hexadecimal text, a matrix as a table holding its type, sizes and data by columns), whatever the reading container held before. A container holding an empty value, which TOML cannot express, is reported as a failure when written. A medium that fails is reported as a failure when reading; a document whose bytes were cut or altered is read or reported as a failure, never a crash or a hang; a failed read leaves the reading container unchanged.",
 ["inputs","crash_points","fault_sequences"],"every document in the stated domain, every fragmentation, cut point, byte flip and read error position",
 "Examples write or parse a fixed file and ignore the outcome.",
 ["src_toml_interface/to_toml.cc","src_toml_interface/from_toml.cc","src/GenericContainerCollapse.cc"],
 [("writer","src_toml_interface/to_toml.cc"),("reader","src_toml_interface/from_toml.cc")],None,["return value of reader and writer","snapshot of the reading container"])
prop("C10","Writers tolerate a failing output medium and leave no trace on it",
 "Whatever byte the output medium starts refusing (full disk, error, throwing stream), every text writer (print, info, type listing, JSON, YAML, TOML, table) delivers a prefix of what it would have written to a healthy medium, leaves the failure visible on the stream, and does not alter the container. After any writer returns, the stream formats later output as it did before the call. On a healthy medium the listing shows every key, position and stored value in order and nothing else; the type listing names the type and size of every value, info that of the container.",
 ["fault_sequences","inputs"],"every container, every writer, every byte position and manner of output failure, every preset formatting state",
 "Examples write to an ever-healthy console and nobody looks at the stream afterwards.",
 [GC,"src_json_interface/to_json.cc","src_yaml_interface/to_yaml.cc","src_toml_interface/to_toml.cc","src/GenericContainerTables.cc","src/GenericContainerSupport.cc"],
 [("stream state left to the caller","writers"),("const writers",HH)],None,["bytes accepted by the medium","stream state and format flags","container snapshot"])
prop("C11","Threads using separate containers, or only reading one, never interfere",
 "Threads that each work on their own containers (build, convert, print, save, load in any format) obtain under every interleaving exactly the results each would obtain alone. Threads that only read a shared container obtain the values it held, and it is unchanged afterwards.",
 ["schedules"],"every interleaving of any number of threads at any point inside the library",
 "All tests are single threaded.",
 [GC,HH,"src_json_interface/from_json.cc"],[("no shared mutable state between containers",GC),("const access does not modify",GC+": operator[] const, dump")],
 [("process-wide state","regular expression matcher, default precision",GC)],["per-thread results compared with a serial run"])
prop("C12","C interface sessions follow a cursor model and never leak C++ errors",
 "For every sequence of C calls, well used or misused, interleaved over any number of named containers, each call returns success or an error code, no C++ exception or crash reaches the caller, and a call that reports an error changes no stored data. Successful calls leave each named container holding what the same calls build on a simple cursor-over-tree model, values read back match it, and sessions on different names never affect each other.",
 ["histories","programs"],"every finite sequence of C calls by any number of interleaved clients, including calls in the wrong state and with wrong types, keys or indices",
 "Two small C examples follow one correct path each.",
 ["src/GenericContainerInterface_C.cc","include/GenericContainer/GenericContainerInterface_C.h"],[("cursor stack per named container","src/GenericContainerInterface_C.cc: GenericContainerExplorer"),("exception barrier","src/GenericContainerInterface_C.cc: GC_TRY")],
 [("registry of named containers and current one","which container calls act on","src/GenericContainerInterface_C.cc: gc_explorer, gc_active")],["return codes","values read back","named container snapshots"])
prop("C13","Data crosses the Lua boundary intact and script failures are contained",
 "A container pushed into the interpreter and read back (as a global, a call argument or a call result) yields the same document as far as Lua can represent it. A script, function or file that fails (syntax or run-time error, missing global or function, exhausted memory) is reported as an error, destroys nothing on either side, and the interpreter keeps working for any number of later calls. A Lua value that cannot be converted (a table that contains itself or mixes positions and names) is reported as an error and leaves the target unchanged.",
 ["histories","inputs","fault_sequences"],"every document in the stated domain, every history of exchanges, every failing script and every allocation failure inside the interpreter",
 "Three Lua examples run fixed scripts that succeed, a handful of times.",
 ["src_lua_interface/GenericContainerInterface_lua.cc"],[("table conversion","src_lua_interface/GenericContainerInterface_lua.cc"),("protected calls","src_lua_interface/GenericContainerInterface_lua.cc: LuaInterpreter")],
 None,["container after read back","exceptions","interpreter stack and later calls"])
prop("C14","Tables survive storage and bad table input is contained",
 "A table of named numeric columns written as text and read back from any medium however it fragments the bytes yields the same headers, column count, row count and values, with comment lines ignored and lines ended by LF or CR LF, in both the vector and the map form. A table without columns is written as nothing; one that lacks a column named in its headers is refused with an error and left unchanged. A medium or file that cannot be read is reported as an error. Input that is cut short or altered yields a container in which all columns have equal length, or an error, never a crash or a hang.",
 ["inputs","crash_points","fault_sequences"],"every table, every fragmentation, cut point, altered byte and read error position",
 "One example reads one file and does not check it.",
 ["src/GenericContainerSupport.cc","src/GenericContainerTables.cc"],[("row parser","src/GenericContainerSupport.cc"),("table writers","src/GenericContainerTables.cc")],None,["snapshot of the table container","exceptions"])
prop("C15","Comparison finds every divergence between replicas and nothing else",
 "Comparing two containers terminates and reports no difference exactly when they hold the same type and value at every position, whatever histories of applied, lost, duplicated or reordered updates produced them. It alters neither container.",
 ["histories","fault_sequences","inputs"],"every pair of containers produced by related update histories with lost, duplicated and reordered updates",
 "Examples print a comparison of two fixed containers and do not look at it.",
 [GC],[("recursive comparison",GC+": compare_content")],None,["comparison result against snapshots"])
prop("C16","Merging and unifying preserve every value",
 "Merging one map into another leaves the union of the keys with the merged-in values winning and everything else untouched, so repeated or re-delivered merges change nothing more; a merge that is refused changes nothing. Unifying nested vectors keeps every element at its position with its numeric value, never raises an error on data that cannot be unified, and doing it again changes nothing; a vector whose elements are all of one scalar type becomes the typed vector.",
 ["histories","inputs","fault_sequences"],"every pair of maps, every order and duplication of merge deliveries, every nested vector",
 "Examples call these once on one value without checking.",
 [GC,"src/GenericContainerCollapse.cc"],[("merge",GC+": merge"),("collapse","src/GenericContainerCollapse.cc")],None,["snapshots"])
prop("C17","Data crosses the MATLAB boundary intact",
 "A container handed to MATLAB becomes a logical, integer, double, complex or char array, a cell array or a struct with the same shape and values (an empty value or a pointer becomes an empty array), and a dense or sparse array of any numeric class, real or complex, a logical, char, string, cell or struct value of MATLAB becomes the container with the same values in the same order, whatever the container held before. A value that has no counterpart is reported and read as an empty value. When memory runs out on either side the failure is reported, the container given is unchanged, nothing is leaked and both containers stay usable.",
 ["inputs","fault_sequences","histories"],"every document whose keys are MATLAB names and whose text holds no NUL, every MATLAB value of the listed kinds, every point at which memory runs out on either side",
 "The tests do not build this interface; MATLAB is not available to them.",
 ["src_matlab_interface/GenericContainerInterface_matlab.cc"],[("conversion both ways","src_matlab_interface/GenericContainerInterface_matlab.cc: mxArray_to_GenericContainer, GenericContainer_to_mxArray, to_mxArray, mxSparse_to_GenericContainer"),("MEX functions","src_matlab_interface/mex_test_gc.cc, mex_print_recursive.cc")])
prop("C20","The stand-alone Lua interpreter runs its input in order and reports failures",
 "A session of the interactive interpreter (LuaInterpreter::interactive) runs the start-up statements of the environment, the option statements and libraries, the script with its arguments and the typed lines in that order, each seeing the effects of the earlier ones, and prints what they print. A start-up statement, option, library or script that fails or cannot be read, or a wrong option, ends the session with a failure status and its error on the error stream; a typed statement that fails or is interrupted is reported and the session goes on. A typed statement may continue over several lines, and the session ends when the input ends or fails, wherever that is; whatever fails, memory included, nothing stays allocated, the interrupt handler is removed and later sessions are not affected.",
 ["histories","inputs","fault_sequences"],"every command line, environment, script, library and typed session, every point at which the input ends or fails, the output medium refuses, an interrupt arrives or a memory request fails, every sequence of sessions in one program",
 "No test runs the interactive interpreter; it needs a terminal.",
 ["src_lua_interface/GenericContainerLuaPmain.cc"],[("options, script and library handling","src_lua_interface/GenericContainerLuaPmain.cc: collectargs, runargs, handle_script, dolibrary, handle_luainit"),("read-eval-print loop","src_lua_interface/GenericContainerLuaPmain.cc: doREPL, loadline, multiline"),("protected calls and interrupts","src_lua_interface/GenericContainerLuaPmain.cc: docall, laction")],
 [("progname, globalL","name shown in errors and state an interrupt acts on, shared by all sessions","src_lua_interface/GenericContainerLuaPmain.cc")],["returned status","bytes on output and error stream","Lua blocks allocated, signal disposition after the session"])
prop("C19","Data crosses the Ruby boundary intact",
 "A Ruby object loaded into a container through the Ruby module and read back yields the same object as far as the container can represent it.",
 ["inputs","histories"],"every Ruby value made of hashes, arrays, strings, symbols, numbers and booleans",
 "The Ruby test does not run at this commit.",
 ["src_ruby_interface/GenericContainer_ffi.rb"],[("conversion","src_ruby_interface/GenericContainer_ffi.rb")])
prop("C18","Documents written by other programs are read as the values they denote",
 "A well formed JSON, YAML or TOML document is read as the maps, sequences, strings, booleans, integers, reals and empty values it denotes, however another program laid it out and spelled it (white space, comments, key order, quoting, escapes, number notation, block or inline form, literal text blocks) and however the medium fragments it. TOML dates and times become a tagged string, two spellings of one document give the same container, and a medium that fails while the document is read is reported and leaves the container unchanged.",
 ["inputs","fault_sequences"],"every document in the stated domain, every spelling of it, every fragmentation and read error position",
 "Examples parse a few fixed files and ignore the outcome; spellings multiply beyond any list of files.",
 ["src_json_interface/from_json.cc","src_json_interface/from_json2.cc","src_json_interface/jsonLexer.cc","src_yaml_interface/from_yaml.cc","src_toml_interface/from_toml.cc","src/GenericContainerCollapse.cc"],
 [("JSON readers","src_json_interface/from_json.cc, from_json2.cc"),("YAML reader","src_yaml_interface/from_yaml.cc"),("TOML reader","src_toml_interface/from_toml.cc")],None,["return value of the reader","snapshot of the reading container"])
for p in P: print(json.dumps(p))
