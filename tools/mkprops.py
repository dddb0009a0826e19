#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CLI = "cli/command/"
OPT = "include/operations/optimization/"
ALG = "include/operations/algorithms/"
NET = "include/database/network/"
IO = "include/operations/io/"

prop("C01", "Rewriting never changes what the circuit computes",
 "For every combinational AIG and every accepted option setting of `rewrite`, the command terminates without a crash and the resulting AIG has the same primary inputs and outputs in the same order and every primary output computes exactly the same Boolean function as before. "
 "The result is a well-formed AIG: acyclic, every fanin defined, no AND with constant, identical or complementary fanins, no two ANDs with the same fanins.",
 ["inputs", "configurations"], "all AIGs (any sharing, constants, dangling logic, duplicate outputs) x all accepted -P/-C/-l/-z values",
 "the unit tests never run rewrite on a circuit and compare functions; equivalence must hold for every graph shape and every cut replacement",
 [CLI+"rewrite.hpp", OPT+"rewrite.hpp", OPT+"detail/node_rewriting.hpp", OPT+"detail/database_npn4_aig.hpp"],
 [("rewrite()", OPT+"rewrite.hpp"), ("local_replacement", OPT+"rewrite.hpp"), ("NPN4 library", OPT+"detail/database_npn4_aig.hpp")],
 ["AIGER written by write_aiger before and after the command"])

prop("C02", "Refactoring never changes what the circuit computes",
 "For every combinational AIG and every accepted option setting of `refactor`, the command terminates without a crash and the resulting AIG has the same primary inputs and outputs in order, every output computing exactly the same Boolean function as before. "
 "The result is a well-formed AIG (acyclic, strashed, no trivial gates) and never has more AND gates than the cleaned-up input.",
 ["inputs", "configurations"], "all AIGs x all accepted -I/-C/-l/-z values",
 "test_refactor checks a handful of fixed graphs; cone selection, truth-table computation and SOP resynthesis depend on the whole graph",
 [CLI+"refactor.hpp", OPT+"refactor.hpp", OPT+"detail/sop_refactoring.hpp"],
 [("refactor()", OPT+"refactor.hpp"), ("sop resynthesis", OPT+"detail/sop_refactoring.hpp")],
 ["AIGER written before and after the command"])

prop("C03", "AND-tree balancing preserves functions and never deepens the AIG",
 "For every combinational AIG, `balance` terminates without a crash, keeps the primary inputs and outputs in order, and every primary output computes exactly the same Boolean function as before. "
 "The depth (longest input-to-output path in AND gates) of the result is never larger than before, the number of AND gates never exceeds that of the cleaned-up input, and the result is a well-formed AIG; balancing a circuit whose outputs are wires, inverters or constants is legal.",
 ["inputs"], "all AIGs, including gate-free ones and ones with dangling logic",
 "test_and_balance compares sizes of a few chains only",
 [CLI+"balance.hpp", OPT+"and_balance.hpp", ALG+"cleanup.hpp", "include/database/views/depth_view.hpp"],
 [("balance_and", OPT+"and_balance.hpp"), ("cleanup_dangling", ALG+"cleanup.hpp")],
 ["AIGER written before and after", "print_stats"])

prop("C04", "LUT-based resynthesis (lut_opt) preserves functions",
 "For every combinational AIG and every accepted option setting of `lut_opt` (map into K-LUTs, convert back to an AIG), the command terminates without a crash, primary inputs and outputs keep their number and order, and every output computes exactly the same Boolean function as before. "
 "The result is a well-formed AIG.",
 ["inputs", "configurations"], "all AIGs x all accepted -P/-C/-G/-L/-z values",
 "no test composes mapping, LUT-network construction and LUT-to-AIG conversion",
 [CLI+"lut_opt.hpp", ALG+"klut_mapping.hpp", ALG+"network_to_klut.hpp", ALG+"detail/convert_to_aig.hpp"],
 [("klut_mapping", ALG+"klut_mapping.hpp"), ("choice_to_klut", ALG+"network_to_klut.hpp"), ("convert_klut_to_aig", ALG+"detail/convert_to_aig.hpp")],
 ["AIGER written before and after"])

prop("C05", "Any optimisation script preserves the circuit's functions at every step",
 "After any finite sequence of `rewrite`, `refactor`, `balance`, `lut_opt` and `cleanup` commands with accepted options, in any order and repetition, the current AIG still has the interface and computes the output functions of the AIG that was read, and it is well-formed. "
 "A refactor step never adds AND gates and a balance step never adds AND gates or depth; statistics and written files after each step describe that same AIG.",
 ["programs", "inputs"], "all command sequences x all AIGs",
 "each operator leaves behind storage (dead nodes, flags, hash table, fanout counts) the next one works on; tests run operators in isolation",
 ["cli/command", OPT+"rewrite.hpp", OPT+"refactor.hpp", OPT+"and_balance.hpp", NET+"aig_network.hpp"],
 [("in-place AIG mutation", OPT+"rewrite.hpp"), ("shared storage", NET+"aig_network.hpp")],
 ["AIGER written after every command", "print_stats after every command"])

prop("C06", "Cleanup removes exactly the dangling logic",
 "For every AIG, `cleanup` yields a network with the same primary inputs and outputs in order and the same output functions, whose AND gates are exactly (up to isomorphism) those reachable from the primary outputs: nothing reachable is lost or added, nothing unreachable remains. "
 "Cleaning up twice gives the same network as cleaning up once.",
 ["inputs"], "all AIGs, with any amount of dangling logic and unused inputs",
 "requires comparison with the exact reachable cone of arbitrary graphs",
 [CLI+"cleanup.hpp", ALG+"cleanup.hpp"],
 [("cleanup_dangling", ALG+"cleanup.hpp")],
 ["AIGER before and after", "print_stats"])

prop("M07", "FPGA mapping yields an equivalent K-LUT network",
 "For every combinational AIG and every accepted option setting, `map_fpga -t 0` terminates without a crash and produces a LUT network with the same primary inputs and outputs in order in which every output computes exactly the AIG's function and no LUT has more than K (-C) inputs. "
 "The LUT depth never exceeds the AIG depth (1 if the AIG only has inverters), and the number of LUTs never exceeds the number of AND gates plus the number of outputs that need an inverted copy.",
 ["inputs", "configurations"], "all AIGs x all accepted -P/-C/-G/-L values",
 "the mapping unit tests check a few small networks' sizes",
 [CLI+"map_fpga.hpp", ALG+"klut_mapping.hpp", ALG+"network_to_klut.hpp", "include/database/cut/general_cut_enumeration.hpp"],
 [("klut_mapping", ALG+"klut_mapping.hpp"), ("choice_to_klut", ALG+"network_to_klut.hpp")],
 ["Verilog written by write_fpga", "print_stats -t 1"])

prop("M08", "Mapping with history choices is equivalent to the optimised circuit",
 "For every AIG, every sequence of optimisation and history commands and every accepted option setting, `map_fpga -t 1` terminates without a crash and yields a LUT network over the same primary inputs and outputs in order that computes exactly the circuit's output functions, with at most K inputs per LUT and no undefined or cyclic wires. "
 "When no history has been recorded the command says so and maps without choices.",
 ["programs", "inputs", "configurations"], "all AIGs x history-building scripts x accepted -P/-C/-G/-L values",
 "choice computation (simulation, SAT, class merging) and choice-aware cut merging interact on arbitrary sets of restructured copies",
 [CLI+"map_fpga.hpp", ALG+"choice_miter.hpp", ALG+"choice_computation.hpp", ALG+"aig_with_choice.hpp", ALG+"klut_mapping.hpp", ALG+"network_to_klut.hpp"],
 [("merge_aigs_to_miter", ALG+"choice_miter.hpp"), ("compute_choice", ALG+"choice_computation.hpp"), ("choice cut merging", ALG+"klut_mapping.hpp")],
 ["Verilog written by write_fpga"])

prop("M09", "Structural choices only group functionally equivalent nodes",
 "For any non-empty list of AIGs that are functionally equivalent output by output, the merged miter contains every AIG's outputs with their functions, and the choice network computed from it has primary outputs computing the original output functions. "
 "In the choice network every node linked into an equivalence class computes the same function as the class representative up to the recorded phase, class links are finite and acyclic, no choice node is in the fan-in cone of its own class representative's class, and the network is acyclic.",
 ["inputs"], "all lists of equivalent AIGs",
 "the two choice tests run fixed files and check nothing about class members",
 [ALG+"choice_miter.hpp", ALG+"choice_computation.hpp", ALG+"aig_with_choice.hpp"],
 [("choice_miter", ALG+"choice_miter.hpp"), ("choice_computation", ALG+"choice_computation.hpp")],
 ["public accessors of aig_with_choice"])

prop("M10", "Enumerated cuts are real cuts with correct functions",
 "For every AIG and every cut size K and cut limit P, every cut enumerated for a node is a set of at most K nodes that separates the node from the primary inputs, its stored truth table equals the node's function over the cut's leaves in leaf order, and no node has more than P+1 cuts. "
 "The trivial cut {n} is present, no stored cut dominates (is a subset of) another cut of the same node, and cut / cut_set operations (merge, dominates, contains, insertion in cost order, limit) behave as set operations.",
 ["inputs", "configurations"], "all AIGs x all K, P within the library's limits; all operation sequences on cut sets",
 "cut tests construct two or three cuts by hand",
 ["include/database/cut/cut.hpp", "include/database/cut/cut_set.hpp", "include/database/cut/cut_enumeration.hpp"],
 [("cut_enumeration", "include/database/cut/cut_enumeration.hpp"), ("cut_set::insert", "include/database/cut/cut_set.hpp"), ("cut::merge", "include/database/cut/cut.hpp")],
 ["public cut API"])

prop("D11", "AIG construction is canonical and computes the requested functions",
 "For every sequence of create_* calls on an aig_network, each returned signal computes exactly the named Boolean function of its operands (and, nand, or, nor, lt, le, xor, xnor, ite, maj, xor3, n-ary forms, buf, not, constants), and creating an AND of the same operands in any order returns the same signal without growing the network. "
 "At every moment fanins precede their gate, no gate has constant, equal or complementary fanins, no two gates have the same fanins, num_gates equals the number of gates iterated, every node's fanout_size equals its references from gates and outputs, and each node's phase is its value under the all-zero input.",
 ["histories"], "all finite sequences of construction calls",
 "test_aig samples each call on two inputs; canonicity and the counters are invariants over all histories",
 [NET+"aig_network.hpp", NET+"details/storage.hpp", NET+"details/node_hash.hpp"],
 [("create_and / strash", NET+"aig_network.hpp")],
 ["public aig_network API"])

prop("D12", "Editing an AIG in place keeps every output's function",
 "If a node is substituted by a signal computing the same function that is not in its own fan-out (substitute_node, and cleanup afterwards), every primary output keeps its function; in general the outputs compute what they computed with the old node replaced by the new signal. "
 "After every edit no live gate or output refers to a dead node, the network is acyclic, no two live gates have the same fanins and none has trivial fanins, num_gates equals the number of live gates, and the on_add/on_modified/on_delete events announce exactly the gates that were created, changed and removed.",
 ["histories"], "all interleavings of create, substitute, output creation and cleanup",
 "substitution cascades (a replacement makes another gate trivial or a duplicate) depend on the history",
 [NET+"aig_network.hpp", NET+"details/events.hpp", ALG+"cleanup.hpp"],
 [("substitute_node", NET+"aig_network.hpp"), ("take_out_node", NET+"aig_network.hpp"), ("replace_in_node", NET+"aig_network.hpp")],
 ["public aig_network API, event callbacks"])

prop("D13", "A LUT network means what its truth tables say",
 "For every sequence of klut_network construction calls, every created node computes the given truth table (or named gate function) of its fanins, where fanin j is truth-table variable j; constants are nodes 0 and 1, and counts, fanins, fanout sizes and iteration agree with the calls made. "
 "Converting any LUT network to an AIG (convert_klut_to_aig) keeps the interface and every output function.",
 ["histories", "inputs"], "all construction sequences and all LUT functions up to 6 inputs",
 "test_klut_network creates single gates; constants, repeated fanins and non-support variables need arbitrary functions",
 [NET+"klut_network.hpp", ALG+"detail/convert_to_aig.hpp"],
 [("create_node", NET+"klut_network.hpp"), ("convert_klut_to_aig", ALG+"detail/convert_to_aig.hpp")],
 ["public klut_network API"])

prop("D14", "Depth and topological views agree with the network they wrap",
 "For every AIG and LUT network, depth_view reports for every node reachable from the outputs its longest distance from the inputs and for the network the maximum over its outputs (a complemented edge counting one level if that is asked for, a node what its cost function says), also after gates and outputs are added through the view, and topo_view visits the constant(s), the inputs (register outputs included) and exactly the reachable gates once, each after its fanins, also when it is updated after the network has changed. "
 "Wrapping a network does not change it.",
 ["inputs", "histories"], "all networks and all additions through a view",
 "the views have no tests; mapping, balancing and print_stats rely on them for every graph",
 ["include/database/views/depth_view.hpp", "include/database/views/topo_view.hpp"],
 [("depth_view", "include/database/views/depth_view.hpp"), ("topo_view", "include/database/views/topo_view.hpp")],
 ["public view API"])

prop("I15", "Reading a binary AIGER file yields exactly the circuit it encodes",
 "For every well-formed combinational binary AIGER file of any size, with or without symbol table and comment, `read_aiger` yields a network with the header's number of inputs and outputs, in file order, in which every output computes the function the file defines. "
 "Redundant ANDs (constant, equal, complementary or repeated fanins) and constant outputs are legal, and port names from the symbol table attach to the ports they name while unnamed ports get distinct default names.",
 ["inputs"], "all well-formed combinational AIGER files (delta codes of any length, any symbol table)",
 "no test reads a file it has an independent decoding of",
 [CLI+"io/read_aiger.hpp", IO+"reader.hpp", IO+"detail/aiger_reader.hpp"],
 [("aiger_reader", IO+"detail/aiger_reader.hpp"), ("port naming", IO+"reader.hpp")],
 ["AIGER and Verilog written right after reading", "print_stats"])

prop("I16", "Written AIGER files encode the current AIG and read back identically",
 "At every point of a session, `write_aiger` produces a well-formed binary AIGER file (consistent header, gates in topological order, literals decreasing, every delta decodable) with the current AIG's inputs, outputs in order and output functions. "
 "Reading that file back and writing it again yields a circuit with the same functions and the same number of gates, for networks of any size.",
 ["inputs", "programs"], "all AIGs reachable by reading and optimising, including ones needing multi-byte deltas",
 "needs an independent decoder of the byte format and large networks",
 [CLI+"io/write_aiger.hpp", IO+"detail/write_aiger.hpp"],
 [("write_aiger", IO+"detail/write_aiger.hpp")],
 ["bytes of the written file"])

prop("I17", "The LUT netlist written by write_fpga denotes the mapped network",
 "For every mapped network, the Verilog of `write_fpga` declares exactly the circuit's inputs and outputs in order under their port names (distinct names without blanks that are no generated names or keywords), drives every output and every internal wire exactly once, references only declared wires, gives each LUTn exactly n inputs and a 2^n-bit INIT value, has no combinational cycle, and evaluates to the mapped AIG's functions. "
 "The number of LUT instances equals the area and the longest LUT path equals the depth reported by print_stats -t 1.",
 ["inputs", "programs"], "all mapped networks x all port-name tables (full, partial, none; duplicates of inputs as outputs)",
 "no test parses the emitted Verilog",
 [CLI+"io/write_fpga.hpp", IO+"detail/writer_lut.hpp", IO+"writer.hpp"],
 [("write_lut", IO+"detail/writer_lut.hpp")],
 ["text of the written file", "print_stats -t 1"])

prop("I18", "The gate-level Verilog and DOT files describe the current AIG",
 "For every current AIG, the Verilog of `write_primary` declares its inputs and outputs in order, drives every output once and every wire it reads exactly once, references only declared wires and evaluates to the AIG's output functions. "
 "The DOT graph of `write_dot` (AIG or LUT network) has one vertex per input, gate and output and exactly the network's edges with their inversions.",
 ["inputs"], "all AIGs reachable by reading and optimising",
 "no test parses either format",
 [CLI+"io/write_verilog.hpp", CLI+"io/write_dot.hpp", IO+"detail/write_verilog.hpp", IO+"detail/write_dot.hpp"],
 [("write_verilog", IO+"detail/write_verilog.hpp"), ("write_dot", IO+"detail/write_dot.hpp")],
 ["text of the written files"])

prop("S19", "History slots are faithful snapshots of the session's AIGs",
 "Across any sequence of commands, `history -a` records the current AIG in the next of five slots, -r i overwrites recorded slot i with the current AIG, -c empties the history, -s reports how many slots are recorded, and a refused request (history full, bad index) changes nothing and does not disturb later history commands. "
 "A recorded AIG never changes through later commands on the current AIG, a newly read file starts with an empty history, and the current AIG is never altered by history commands.",
 ["programs", "histories"], "all sequences of read, optimise and history commands",
 "the CLI has no tests; the slots share storage with the live AIG",
 [CLI+"history.hpp", CLI+"io/read_aiger.hpp", CLI+"map_fpga.hpp"],
 [("history_command", CLI+"history.hpp"), ("storage aliasing", CLI+"history.hpp")],
 ["stdout of history -s", "write_aiger", "store -a / map_fpga -t 1"])

prop("S20", "Refused or inapplicable commands leave the session intact",
 "A command whose options are out of the documented range, that needs an AIG or a mapping that is not there, or that names a missing file, a directory or a file without AIGER header prints a diagnostic, terminates normally and changes neither the current AIG, the mapping, the history nor what later commands do. "
 "No sequence of commands with arbitrary numeric options on arbitrary valid circuits makes the tool crash or hang, and options not given on a command line take their documented defaults rather than leftovers of earlier commands.",
 ["programs", "configurations"], "all sequences of CLI commands with in-range and out-of-range option values and missing prerequisites",
 "the CLI has no tests",
 ["cli/command", "cli/imap.cpp"],
 [("range checks", "cli/command")],
 ["stdout, exit status, files written afterwards"])

prop("S21", "Printed statistics are exact and printing changes nothing",
 "`print_stats` reports exactly the number of primary inputs, primary outputs, AND gates (`-t 0`) or LUTs (`-t 1`) of the current AIG or mapped network and the length of its longest path to an output, at every point of a session. "
 "Printing any number of times, in any order, returns the same numbers and has no effect on any later command or written file.",
 ["programs", "inputs"], "all sessions and networks",
 "the CLI has no tests; the printing command wraps the live storage",
 [CLI+"print_stats.hpp", NET+"klut_network.hpp", "include/database/views/depth_view.hpp"],
 [("print_stats", CLI+"print_stats.hpp"), ("klut_network(storage)", NET+"klut_network.hpp")],
 ["stdout", "AIGER / Verilog written afterwards"])

prop("S22", "Results are deterministic and independent of unrelated session history",
 "Running the same script twice produces byte-identical output files and statistics. "
 "The result of processing a circuit does not depend on which circuits were processed earlier in the same session: reading a file starts afresh.",
 ["programs", "histories"], "all scripts, and all prefixes of unrelated work before a read_aiger",
 "hash iteration order, static state and leftover stores only show across whole sessions",
 ["cli/command", CLI+"io/read_aiger.hpp", ALG+"choice_computation.hpp"],
 [("store reset", CLI+"io/read_aiger.hpp"), ("simulation seeds", ALG+"choice_computation.hpp")],
 ["written files, stdout"])

prop("V23", "The built-in equivalence check and simulators tell the truth",
 "For every pair of networks with the same interface, the miter has one output that is 1 exactly on the assignments where they differ, equivalence_checking answers `equivalent` exactly if the networks compute the same functions, and any counter-example it returns really distinguishes them. "
 "simulate() returns exactly the output functions and circuit_validator accepts a substitution only if it is functionally correct and otherwise returns a distinguishing assignment.",
 ["inputs"], "all pairs of networks, equivalent or differing in one minterm",
 "they are the tool's own oracle (debug mode of the flow, the examples); tests use them but never check them",
 [ALG+"equivalence_checking.hpp", ALG+"miter.hpp", ALG+"cnf.hpp", ALG+"simulation.hpp", ALG+"circuit_validator.hpp"],
 [("equivalence_checking", ALG+"equivalence_checking.hpp"), ("generate_cnf", ALG+"cnf.hpp"), ("simulate", ALG+"simulation.hpp"), ("circuit_validator", ALG+"circuit_validator.hpp")],
 ["library API"])

prop("V24", "Resynthesis engines build exactly the requested function",
 "The SOP/factoring resynthesis used by refactoring and SOP balancing, given any truth table and leaf signals, yields a signal computing that truth table of the leaves; SOP balancing of a network preserves every output function. "
 "The 4-input NPN library yields for every one of the 65536 functions, applied through rewriting, a structure computing that function.",
 ["inputs"], "all truth tables up to 4 inputs, samples up to 10 inputs; all networks",
 "no test enumerates functions",
 [OPT+"detail/sop_refactoring.hpp", OPT+"balancing/sop_balancing.hpp", OPT+"balancing.hpp", OPT+"detail/database_npn4_aig.hpp"],
 [("sop refactoring", OPT+"detail/sop_refactoring.hpp"), ("sop_rebalancing", OPT+"balancing/sop_balancing.hpp")],
 ["library API, rewrite on exhaustive 4-input circuits"])

prop("F25", "The one-shot FPGA flow produces a verified mapping",
 "For every combinational AIG with at least one gate, the packaged flow (flow_manager: optimise, merge choices, map, write) terminates, and the LUT netlist it writes has the circuit's ports and computes exactly its functions with at most cut_size inputs per LUT. "
 "Its self-check verdict is `equivalent`.",
 ["inputs", "configurations"], "all AIGs x flow configurations",
 "no test runs the flow",
 ["include/flow/flow_manager.hpp", "include/flow/configer.hpp", "examples/ifpga.cpp"],
 [("flow_manager::run", "include/flow/flow_manager.hpp")],
 ["LUT Verilog written by the flow", "stdout"])

prop("P26", "The Python interface is the shell",
 "Every method of the Python engine (EngineIMAP) runs exactly the shell command it stands for, with the options it was given and the documented defaults for the others, and leaves the session in the state that command leaves: everything observable afterwards (written files, statistics, mapped network, stored history) is what the same commands typed in the shell give, also when several engines share the process. "
 "write() writes the recorded command texts in order, and the sequence the bundled demo writes reproduces, typed in the shell, the results the demo had.",
 ["inputs", "histories"], "all call sequences x option values given or left out",
 "no test uses the Python interface",
 ["ai_infra/imap_engine.py", "ai_infra/demo.py", "cli/imap.cpp"],
 [("EngineIMAP", "ai_infra/imap_engine.py"), ("Demo", "ai_infra/demo.py")],
 ["calls arriving at the tool", "written AIGER", "LUT Verilog", "stdout", "sequence file"])

prop("X27", "The standalone programs and batch modes agree with the shell",
 "The programs rewrite, refactor, balance, compress and compress2 and the shell's one-line (`-c`) and standard-input modes, used as documented on any well-formed combinational AIGER file, terminate normally and report the size and level of the circuit read as the values before; "
 "the values after are those of the network the same script leaves in a shell session, and the same call reports the same values again. "
 "balance never reports a larger level and writes Verilog with the circuit's ports, names and functions; refactor never reports a larger area and its equivalence check says true.",
 ["inputs"], "all AIGs x programs x script lengths",
 "no test runs the programs",
 ["examples/rewrite.cpp", "examples/refactor.cpp", "examples/balance.cpp", "examples/compress.cpp", "examples/compress2.cpp", "cli/imap.cpp"],
 [("main", "examples/balance.cpp"), ("main", "examples/compress.cpp")],
 ["stdout", "Verilog written by balance", "exit status"])

prop("M28", "Mapped networks, their conversions and their checkers agree",
 "A mapping view holds exactly the cells (root, leaves, function) that were put in and not taken out again, its copies share them, and no call on a view touches the network under it. "
 "Mapping a view, with or without choices and however often it was mapped before, gives a complete cover of the outputs with no cell of more than K leaves, cells only where they are used, and the right function in every cell. "
 "Converting a mapped view to a LUT network (each of the four converters) or back to an AIG gives a network of the same interface that computes what the cells compute, a refused conversion exactly when a driver has no cell; "
 "and the checkers of mapped networks, sequential and parallel, terminate, accept every mapping whose cells are right and refuse every mapping that does not compute the outputs of the network.",
 ["inputs", "histories"], "all AIGs x cell assignments x call histories x mapper options",
 "no test looks at a mapped view again after another mapping, or at mappings the mapper would not produce",
 ["include/database/views/mapping_view.hpp", ALG+"klut_mapping.hpp", ALG+"network_to_klut.hpp", ALG+"detail/checker_4_mapped_graph.hpp", ALG+"detail/checker_4_mapped_graph_parallel.hpp"],
 [("mapping_view", "include/database/views/mapping_view.hpp"), ("klut_mapping_impl", ALG+"klut_mapping.hpp"), ("collapse_mapped_network", ALG+"network_to_klut.hpp")],
 ["library API"])

prop("N29", "Reading a network: lists, indices, registers, marks, cones and node maps",
 "For every network, AIG or LUT network, combinational or with registers, after any history of calls: the lists of nodes, gates, inputs, outputs, register inputs and outputs and fanins are what was created (without removed nodes), every way of walking through them visits the same elements in the same order, passes their positions and stops exactly when asked; index functions invert the lists and registers pair their two ends with their reset value. "
 "Values, visited marks, traversal ids and flags hold what was last put there, node by node, and nothing else changes them. "
 "Dereferencing a node counts exactly the gates nothing else needs, with the remaining references as values, and referencing it again restores them. "
 "Node maps (vector and hash) return what was last stored for a node, through every name of the same map and never through a deep copy, however the network grew.",
 ["inputs", "histories"], "all networks x call histories",
 "tests sample single calls; every algorithm of the tool relies on these contracts in any combination",
 [NET+"aig_network.hpp", NET+"klut_network.hpp", NET+"details/foreach.hpp", ALG+"ref_deref.hpp", "include/utils/node_map.hpp"],
 [("iterators, registers, values", NET+"aig_network.hpp"), ("deref_node_recursive", ALG+"ref_deref.hpp"), ("node_map", "include/utils/node_map.hpp")],
 ["library API"])

prop("V30", "Clause encodings mean the network",
 "For every combinational AIG and LUT network, the clauses of generate_cnf, in both literal types, with the default or a shifted numbering of the gates, hold exactly for those valuations in which the constant is 0 and every gate has the value of its function; "
 "the literals follow the documented numbering and the returned output literals are the outputs.",
 ["inputs"], "all networks; LUT functions of up to four inputs one by one",
 "no test looks at the clauses; a missing clause only shows as a wrong verdict on some pairs",
 [ALG+"cnf.hpp"],
 [("generate_cnf", ALG+"cnf.hpp"), ("node_literals", ALG+"cnf.hpp")],
 ["library API"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
