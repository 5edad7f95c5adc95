BASE="Sound over the abstract semantics described in DESIGN.md: every path of the current SSA form from every exported entry point is covered; trusts go/types, x/tools/go/ssa and the library models. "
CHECKS={
"C01":("lock-guard analysis: interprocedural typestate of the file lock with guarded-field access obligations","proof",BASE+"Assumes one file per operation and that block mode is not switched while other goroutines run."),
"C02":("lock typestate over all paths (acquire/release/balance, no callback while held), block mode on and off","proof",BASE+"Assumes one file per operation."),
"C03":("alias and effect analysis: no store, map update or append through package-level state outside init and the documented hooks","proof",BASE),
"O01":("alias and escape analysis: origin of every returned collection, per function summaries to a fixpoint","proof",BASE),
"D01":("dataflow analysis of order- and time-dependent sources into results and output, with a sort-sanitised map-loop rule","other",BASE),
"O02":("interprocedural effect analysis: every store, table update and in-place append reachable from the pure queries, refined by path-sensitive dataflow","proof",BASE),
"O03":("path-sensitive effect analysis: storage writes recorded per path, none may lie on a path that returns an error","proof",BASE),
"E01":("interprocedural error-propagation dataflow (property simulation): each read or open split into success, end of input and failure, both loose modes","proof",BASE+"Trusts the models of bufio/io results."),
"E02":("interprocedural error-propagation dataflow over four option combinations, with obligations on searches for closing marks and on refused arguments","proof",BASE+"Covers the constructs listed in the rule; default section name not empty."),
"E03":("typestate analysis of the source stream (open, closed, failed) over all interprocedural paths, with a wrapper rule","proof",BASE+"A close on the loading path is taken to concern the stream opened last."),
"W01":("error-propagation and ordering analysis of destination writes against in-memory encoding","proof",BASE+"Trusts the io.Writer contract."),
"T02":("path-sensitive dataflow: each conversion split into success and failure, results and stores compared against the default and the formatter of its type","proof",BASE+"Trusts that strconv, time and fmt format and parse alike."),
"T01":("path-sensitive dataflow with loop-coverage rule: equality or bound facts required for each result","proof",BASE+"Float comparisons are not assumed total (NaN)."),
"T04":("dataflow of conversion arguments and results over every typed read and mapping, with a width rule on number conversions","proof",BASE),
"T03":("path-sensitive dataflow per loop round: conversion outcome against what is collected, with loop-coverage and early-exit rules","proof",BASE+"Which texts a value splits into is not decided."),
"M01":("interprocedural dataflow of conversion failures from mapping roots to their error results and to the reflect setters, strictness as calling context","proof",BASE+"A setter reached through a helper with the number as parameter is not matched with its overflow test."),
"P03":("interprocedural nil-ness dataflow at every return of the exported functions, with a non-nil invariant on what tables and lists store","proof",BASE+"Uses the table invariants I01 and I02; that loading the empty text cannot fail is assumed."),
"N01":("interprocedural dataflow of names under each combination of the case options: everything that indexes a table, enters an order list or names a stored object is compared with the name given","proof",BASE+"Assumes DefaultSection is not empty and that tables hold what these operations put there."),
"G01":("interprocedural effect reachability under each option's value (effect forbidden with the option off, reachable with it on), membership and search facts before repeated entries, and name-agreement of the option wiring","proof",BASE+"Covers the effects named in DESIGN.md; how the parser-level switches shape a value's text is not decided."),
"I01":("path-sensitive dataflow of paired updates: additions to and removals from the key list, key table and value hash collected per path and compared at each exit; unbalanced helpers followed into their callers","proof",BASE+"Elements removed in loops that do not leave at once are compared by presence only; a sort or swap is recognised by library calls and by moves from the end of the list."),
"I02":("path-sensitive dataflow of paired updates: additions to and removals from the section list, index list and section table collected per path, positions and counts compared by linear arithmetic","other",BASE+"Rebuilding of the index list in unrecognised forms is not judged; the entry deleted is taken to be found by counting (the count itself is not verified)."),
"W02":("interprocedural dataflow of emitted pieces (section, key, value, comment, body, nested value) per loop round, with loop-coverage and order rules on the writer's loops","proof",BASE+"Assumes the accessors the writer reads return complete lists (decided separately in L01)."),
"W03":("interprocedural line-state dataflow: what stands before each comment text on its line, and whether the text can contain a line break","proof",BASE+"The indentation given is white space; memory buffers do not fail."),
"W04":("path-sensitive dataflow: negative search facts required wherever a value or key name enters the output bare, matching quotes otherwise","proof",BASE+"That the quotes chosen read back unchanged is not decided (see R01)."),
"L01":("interprocedural path-sensitive dataflow with loop-coverage rule: each listing is a full copy of stored collection or a loop that covers it and puts each entry once, in place and unaltered","proof",BASE+"Assumes the tables and lists are in step (I01, I02)."),
"P01":("interval and linear-relation dataflow (interprocedural, path-sensitive, loop invariants by weakening): every index and slice expression is proved within bounds from the guards on the paths to it","proof",BASE+"Positions recorded in the file's section lists are taken to be valid (I02), texts gathered in buffers and lists typed by reflection are excluded; no integer overflow; library functions used for searching and trimming behave as documented."),
"P02":("ranking-function dataflow over loop heads (interprocedural, path-sensitive): every round of every loop takes input or lowers a lexicographic order of counters and lengths that a value fixed for the loop bounds; an argument of every recursion falls likewise","proof",BASE+"Given readers, writers and callbacks that return and types that do not nest in themselves; a delimiter is not empty after newFile (checked). The size an expanded value may reach is not bounded. Library read and search functions behave as documented."),
"M02":("kind-set and type-identity dataflow over the operands of every package reflect operation, with preconditions of helpers inferred from all call sites (greatest fixpoint)","proof",BASE+"Values whose kind is tested in a way not understood, or that are carried in structs, are counted as not judged (none on the present tree). Methods of the user's types return; package reflect works as documented."),
"M03":("kind-set dataflow in both directions: kinds of fields and elements set by mapping compared with the kinds whose contents reflecting reads, with constant propagation of time layouts, tags and default delimiters","other","Both directions are covered over all paths of the current SSA form from the exported mapping and reflecting operations. Only recognised readings and settings are compared: an operation whose operand's kind cannot be told counts as a possible setting or reading of every kind, so it never alarms but can hide a loss. The texts themselves (number formats, escaping) are not compared."),
}
NA={
"R01":"round trip of arbitrary content is an equality between runtime texts produced by two loops over unbounded strings; no sound static argument in reach decides it (structural necessary conditions are claimed as W02, W03, W04)",
"R02":"depends on the file system's behaviour at a crash point between system calls inside the standard library (os.Create truncation); no source-level argument in this repository bounds it, and the code documents that it does not provide it",
"R03":"equality of the data after two loads is a runtime relation between unbounded histories; the static building blocks (sources in order, tables in step) are claimed in E01, I01, I02",
"R04":"the text computed for a value by the parser is a function of unbounded input text; static analysis here bounds indices, termination and errors (P01, P02, E02) but not the resulting text",
"R05":"the text an expansion yields is a runtime string function; termination and absence of side effects are claimed in P02 and O02",
}
