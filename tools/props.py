"""The properties: single source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, **extra):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": dict({"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}, **extra)}
    if na:
        d["na"] = na
    else:
        d["technique"] = technique
        d["level_note"] = note
    PROPS.append(d)


LS = "language_server/src/"
PL = "parser_library/src/"

P("C01", "Every request is answered exactly once with its own id; notifications never",
  "Every well-formed LSP or DAP request for a supported method is passed exactly once to its handler, with or without parameters, "
  "and is answered with exactly one response that carries that request's own id (and, in DAP, its own command). "
  "Notifications and replies of the client are never answered. A request taken from the queue is never dropped or executed twice.",
  ["inputs", "histories"], "for every request or notification, in every state of the server (no session, no document, empty result), on every path through its handler",
  "Tests call handlers in the state where they succeed; early exits (no debug session, unknown file, empty result) and the id carried by each response are sampled at a few points only.",
  [LS + "lsp", LS + "dap", LS + "request_manager.cpp", LS + "server.cpp", LS + "feature.cpp"],
  [("message dispatch", LS + "lsp/lsp_server.cpp, dap/dap_server.cpp message_received"), ("handler table", LS + "server.cpp call_method"),
   ("request queue worker", LS + "request_manager.cpp")],
  "interprocedural path enumeration over CFGs counting response events, with value provenance of id/command",
  "all CFG paths (conditions abstracted) of every registered handler, of the dispatchers and of the queue worker; handlers that end by an exception are outside")

P("C02", "No input makes the server, one of its threads or a request die by an exception",
  "Whatever is received, opened or configured (malformed messages, wrong types in JSON, broken configuration files, unreadable or missing libraries, numbers that do not fit, "
  "stale references or positions), no exception ends a thread or the process, or a loop that serves messages; language queries (definition, references, hover, completion, semantic tokens, symbols) "
  "and debugger queries never fail by an exception; opening, changing, closing and configuring documents and workspaces never fail because of a JSON, file-system, regular-expression or number-conversion error.",
  ["inputs", "histories"], "for every message, document, configuration and state of the file system",
  "The inputs that make a library call fail (an over-long path, a huge number, a missing member, an unknown reference) are unbounded; tests contain a few of them.",
  [LS + "main.cpp", LS + "request_manager.cpp", LS + "dap/dap_session.cpp", PL + "workspaces", PL + "debugging/debugger.cpp", PL + "expressions/data_definition.cpp", "utils/src"],
  [("exception barriers", LS + "request_manager.cpp process_request_, dap/dap_session.cpp thread_routine, main.cpp"), ("configuration loading", PL + "workspaces/workspace.cpp load_config"),
   ("number parsing", PL + "expressions/data_definition.cpp parse_number")],
  "interprocedural may-throw escape analysis with handler matching and dominating-test discharge",
  "all call chains of the resolved call graph from thread entries, service loops, queries and document events to explicit throws and to a table of throwing library calls; resource exhaustion is outside")

P("C04", "Every message leaves as one whole frame with its exact byte length",
  "Everything the server writes to the client is a sequence of whole frames 'Content-Length: N', empty line, N bytes of the serialised message: the length is the number of bytes of the very text that follows, "
  "a frame is written completely under one lock, every message handed over for output reaches the channel exactly once and unchanged, serialisation fails for no content, and nothing else ever writes to the protocol output or standard output.",
  ["inputs", "schedules"], "for every message (with any characters) and every interleaving of the threads that send",
  "Tests compare a few ASCII frames written by one thread.",
  [LS + "base_protocol_channel.cpp", LS + "main.cpp", LS + "dispatcher.cpp", LS + "dap/dap_message_wrappers.h", LS + "logger.cpp", LS + "channel.h"],
  [("framing", LS + "base_protocol_channel.cpp write_message"), ("output lock", LS + "base_protocol_channel.cpp write_mutex"), ("wrappers", LS + "dap/dap_message_wrappers.h")],
  "symbolic string composition of the written frame over all CFG paths, lockset and effect analysis of output streams",
  "all paths of the functions that write to the output stream, all implementations of json_sink::write, all uses of standard output")

P("C03", "Members of received JSON are never read without checking that they exist",
  "Whatever JSON a client sends or a configuration file contains, with any members missing, the server never reads a missing member or element through an "
  "unchecked access (which would be undefined behaviour): it either tests for its presence or uses an access that reports the absence as an error.",
  ["inputs"], "for every received message and configuration file, with any subset of members missing",
  "Tests send complete messages; the number of messages with a missing member is unbounded and undefined behaviour may pass unnoticed.",
  [LS + "lsp", LS + "dap", LS + "feature.cpp", LS + "request_manager.cpp", PL + "workspaces/workspace.cpp", PL + "config"],
  [("JSON field access in handlers", LS + "lsp/*.cpp, dap/*.cpp"), ("configuration parsing", PL + "config/*.cpp")],
  "must-dataflow of presence tests over every JSON member access",
  "every JSON access of the sources is an obligation: checked accessor, or dominated by a presence test on every path")

P("C06", "State shared between threads is only touched under its own lock",
  "Whatever the interleaving of the reading thread, the request worker threads and the debugged analysis, data that more than one of them uses "
  "(message queues, the request queue, the table of open files, the debugger's stack, variables and breakpoints, the protocol output, the log) "
  "is never read or written without holding one and the same lock, unless it is atomic.",
  ["schedules"], "for every interleaving of the server's threads",
  "A data race depends on the schedule; tests run a handful of schedules and a race rarely fails a test.",
  [LS + "request_manager.cpp", LS + "base_protocol_channel.cpp", LS + "blocking_queue.h", LS + "logger.cpp", PL + "workspaces/file_manager_impl.cpp", PL + "debugging/debugger.cpp"],
  [("file table mutex", PL + "workspaces/file_manager_impl.cpp files_mutex"), ("debugger variable mutex", PL + "debugging/debugger.cpp variable_mtx_"),
   ("request queue mutex", LS + "request_manager.cpp q_mtx_"), ("output mutex", LS + "base_protocol_channel.cpp")],
  "interprocedural static lockset analysis",
  "every access to every field of every lock-owning class and of a frozen table of shared data; locks identified by the member that holds them")

P("C07", "No schedule deadlocks the server or loses a wake-up",
  "No thread ever locks a mutex it already holds, releases one it does not hold, or leaves a function still holding a lock it took; locks are always taken in one global order. "
  "Every wait on a condition is guarded by a predicate over state that is changed under the waiting mutex, and each change is followed by a notification, so no wake-up is lost.",
  ["schedules"], "for every interleaving of the server's threads, on every path",
  "Deadlocks and lost wake-ups appear only under particular schedules, which tests do not enumerate.",
  [LS + "request_manager.cpp", LS + "base_protocol_channel.cpp", LS + "blocking_queue.h", LS + "dispatcher.cpp", PL + "workspaces/file_manager_impl.cpp", PL + "debugging/debugger.cpp"],
  [("condition variables", PL + "debugging/debugger.cpp con_var, " + LS + "request_manager.cpp cond_, blocking_queue.h cond_var"), ("RAII guards", "std::lock_guard / std::unique_lock everywhere")],
  "path-sensitive lock typestate, lock-order graph, condition-variable discipline",
  "all CFG paths of all functions that touch a mutex, lock-order cycles over the call graph; liveness beyond the stated discipline is not decided")

P("C05", "The server changes nothing on the user's system",
  "Whatever is opened, analysed or debugged, the server only reads files: it never creates, changes, renames or removes a file or directory except its own log in the directory for "
  "temporary files, never starts or ends another process, never changes the environment or working directory, and offers its TCP port only on the loopback interface.",
  ["inputs", "histories"], "for every document, configuration and request",
  "A test can only look at the files it knows about, for the inputs it has; a write on an error path or for one kind of configuration is not seen.",
  [LS + "logger.cpp", LS + "native_server_streams.cpp", PL + "workspaces", "utils/src"],
  [("log file", LS + "logger.cpp logger::logger"), ("TCP end point", LS + "native_server_streams.cpp tcp_setup"), ("file reading", PL + "workspaces/file_impl.cpp load_text")],
  "who-may-call effect analysis over every resolved external call, with provenance of paths and addresses",
  "all external calls of all functions (generated parser included) against a table of effectful library and system functions; what third-party libraries do inside is outside")

P("C08", "Threads are stopped and joined before what they use goes away",
  "Ending the server, a debug session or a debugger, at any moment and on any path, tells its thread to stop before waiting for it, joins it before any object the thread uses is destroyed, "
  "and leaves a language or debug server only when none of its requests is running or queued; a thread never uses a member of its owner before it is initialised, and its result is read only after it ended.",
  ["schedules", "histories"], "for every moment at which a session, debugger or the server ends, on every path",
  "Whether a thread is still running when its owner is destroyed depends on timing; tests end sessions in one orderly way.",
  [LS + "request_manager.cpp", LS + "main.cpp", LS + "dispatcher.cpp", LS + "dap/dap_session.cpp", PL + "debugging/debugger.cpp"],
  [("worker end", LS + "request_manager.cpp end_worker"), ("session end", LS + "dap/dap_session.cpp ~session"), ("debugger end", PL + "debugging/debugger.cpp disconnect"),
   ("finishing a server", LS + "request_manager.cpp finish_server_requests")],
  "must-pass-through analysis of stop and join events over all paths, scope and initialisation order analysis",
  "every class that owns a std::thread; the events that make each thread finish are a table confirmed by reading")

P("C09", "Concurrent analyses share no mutable state",
  "The language server's analysis and any number of debugged analyses can run at the same time without influencing each other: no object with static storage is modified after its initialisation "
  "unless it is per thread, atomic or always used under one lock, and no library function that keeps hidden static state is called without such a lock.",
  ["schedules", "inputs"], "for every pair of analyses running at the same time, on any documents",
  "Interference needs two analyses touching the same object at the same moment; tests run one analysis at a time.",
  [PL, LS + "logger.cpp", "utils/src"],
  [("instruction checker map", PL + "checking/instruction_checker.cpp"), ("UTF conversion", PL + "lexing/lexer.cpp"), ("time conversion", "utils/src/platform.cpp, " + LS + "logger.cpp")],
  "mutation analysis of every object with static storage with lockset discharge",
  "every variable with static storage and every call of a table of non-reentrant library functions")

P("C20", "Absent results are never used",
  "Whatever the document, request or state (unknown names, undefined symbols, closed or missing files, no configuration, cancelled analysis, no debug session), the result of a search that found nothing, "
  "an empty optional, a null pointer returned by a lookup, or a member that has not been set is never dereferenced: every use is preceded, on every path, by a test that the result is there.",
  ["inputs", "histories"], "for every document, request and state of the server, on every path to a use",
  "The use of an absent result is undefined behaviour that shows only for the input whose lookup fails on that path; tests look up what exists.",
  [PL + "lsp", PL + "context", PL + "processing", PL + "workspaces", PL + "debugging", PL + "expressions", LS + "dap", LS + "request_manager.cpp"],
  [("symbol queries", PL + "lsp/lsp_context.cpp"), ("file lookup", PL + "workspaces/file_manager_impl.cpp find_processor_file"), ("symbol lookup", PL + "context/hlasm_context.cpp"),
   ("debugger session", LS + "dap/dap_feature.cpp")],
  "interprocedural must-dataflow of presence tests over search results, nullable results and nullable members",
  "every dereference of a search result, of a function result that can be null or nullopt, and of a frozen table of nullable members; a short list of accessors is exempt because the caller knows the kind")

P("C13", "Instruction tables agree with the architecture and with each other",
  "For every machine instruction the assembler knows, its name, format, length and operands (count, kinds, ranges, optional operands) are those of the architecture; every extended mnemonic stands for an existing instruction, "
  "substitutes operands that this instruction has, in positions inside its operand list, with the architecture's value (branch masks included); names are unique; "
  "and every assembler, conditional-assembly and macro-language instruction that is recognised has a checker or handler and consistent operand counts.",
  ["inputs"], "for every instruction, mnemonic and format in the tables (about 1400 machine instructions and 480 mnemonics)",
  "Tests use a few dozen instructions; a wrong entry is noticed only by a program that uses that instruction.",
  [PL + "context/instruction.cpp", PL + "context/instruction.h", PL + "checking/instruction_checker.cpp", PL + "processing/instruction_sets"],
  [("instruction table", PL + "context/instruction.cpp"), ("formats and operand shapes", PL + "context/instruction.h"), ("assembler checkers", PL + "checking/instruction_checker.cpp initialize_assembler_map"),
   ("conditional assembly handlers", PL + "processing/instruction_sets/ca_processor.cpp create_table")],
  "constant evaluation of the table initialisers in the syntax tree, cross-checked against each other and against a reference table",
  "every entry of every table; the reference is a committed transcription of the repaired tables reviewed against the architecture's format rules, so an error shared by both is outside")

P("C12", "Every part of an expression takes part in everything done with it",
  "Whatever symbol, attribute, location counter reference or variable symbol occurs in an operand, however deeply it is nested (subscripts, created names, parameters of functions, lists, "
  "lengths, factors and nominal values of constants, addresses), it is found by dependency resolution, by the test for errors and dependencies of an operand, by the substitution of the location counter, "
  "by attribute lookahead and by the search for occurrences behind definition, references and hover; the label, the instruction and the operands of every statement are searched.",
  ["inputs"], "for every kind of expression and operand, every part it owns, on every path on which the part is there",
  "Expressions nest without bound and there are some forty kinds of node; tests contain a few combinations, and a part that is skipped shows only for a symbol in just that place.",
  [PL + "expressions", PL + "semantics/operand_impls.cpp", PL + "processing/statement_analyzers"],
  [("dependencies", PL + "expressions/mach_operator.cpp, mach_expr_term.cpp, data_definition.cpp get_dependencies"), ("attribute lookahead", PL + "expressions/conditional_assembly get_undefined_attributed_symbols"),
   ("occurrences", PL + "processing/statement_analyzers/occurence_collector.cpp"), ("operands", PL + "semantics/operand_impls.cpp has_dependencies, has_error")],
  "must-visit analysis of every traversal against the owned parts of every class, over all paths",
  "all classes of expressions and operands and the parts derived from their fields; three parts that are never evaluated are listed as exceptions")

P("C10", "Every diagnostic raised by an analysis reaches the user",
  "A diagnostic that any part of the analysis raises (parser, expression, operand, statement processor, library, configuration) is passed on, once, to the published list of its document: "
  "no part is left out when diagnostics are gathered, no object is discarded or emptied before its diagnostics were taken, every open, change, close, watched-file and workspace event is followed by a publication "
  "unless the analysis was cancelled, the published message carries each diagnostic's own range, code, source, message, severity and related information, and documents whose diagnostics vanished are cleared.",
  ["inputs", "histories"], "for every class that holds diagnostics and every part it owns, every local gatherer, every event, on every path",
  "A diagnostic lost on one path shows only for the erroneous input that takes this path; tests contain one or two errors of each kind, in the simplest place.",
  [PL + "diagnosable_impl.h", PL + "expressions", PL + "parsing/parser_impl.cpp", PL + "processing", PL + "workspaces", PL + "workspace_manager_impl.h", LS + "lsp/lsp_server.cpp"],
  [("gathering", PL + "diagnosable_impl.h collect_diags_from_child"), ("publication", PL + "workspace_manager_impl.h notify_diagnostics_consumers"), ("message", LS + "lsp/lsp_server.cpp consume_diagnostics")],
  "must-visit analysis of the tree of collectable objects, path analysis of local gatherers, events and emptied containers",
  "all classes derived from collectable, all their owned parts, all local gatherers and events; that a condition raises a diagnostic in the first place is not decided")

P("C11", "Every diagnostic keeps its own code, severity, range and text",
  "Each of the diagnostics the analysis can report is identified by a code of its own that no other diagnostic uses, has the severity it is documented with, is shown at exactly the range of source text it was raised for, "
  "and mentions every item it is about; none of code, severity, message, range, file or related information is lost or exchanged on the way from where it is raised to the client.",
  ["inputs"], "for every diagnostic (about 260), wherever it is raised",
  "Most of the diagnostics are raised by no test, or a test looks only at their number; a shared code or a lost range is seen by the user only.",
  [PL + "diagnostic.cpp", PL + "diagnostic.h", PL + "diagnosable_ctx.h", PL + "protocol.cpp"],
  [("factories", PL + "diagnostic.cpp"), ("copies", PL + "diagnostic.h diagnostic_s, " + PL + "diagnosable_ctx.h"), ("accessors", PL + "protocol.cpp")],
  "constant evaluation of every factory in the syntax tree, value provenance of parameters and ranges through constructors and accessors",
  "every factory, constructor and accessor; whether the caller raises the fitting diagnostic is not decided")

P("C14", "No source text makes the analysis fail by an internal error",
  "Whatever is written in a program (names defined twice, external or section names that clash, removed operation codes, copy members that cannot be read, expressions that turn out absolute instead of relocatable or the other way round, "
  "operands of the wrong kind, forward references), the analysis reports it and goes on: an operation of the assembly context is never asked for what it rejects by an exception, and a symbol value, statement field or other variant is "
  "never read as an alternative it does not hold, so the document always gets its diagnostics and symbols.",
  ["inputs"], "for every program text, on every path to the operation or the read",
  "The failing combinations (a clash of names for one instruction, an expression of the wrong kind in one operand, resolved only at the end of the assembly) are many and rare; tests contain a few.",
  [PL + "processing/instruction_sets", PL + "context/ordinary_assembly", PL + "context/hlasm_context.cpp", PL + "expressions", PL + "checking/data_definition", PL + "semantics"],
  [("rejected names", PL + "context/ordinary_assembly/ordinary_assembly_context.cpp create_symbol, set_section, set_location_counter; " + PL + "context/hlasm_context.cpp add_mnemonic, enter_copy_member"),
   ("dependencies", PL + "context/ordinary_assembly/symbol_dependency_tables.cpp add_dependency"), ("alternatives", PL + "context/ordinary_assembly/symbol.cpp get_abs, get_reloc, std::get of label_si, instruction_si and others")],
  "path-sensitive must-analysis of the tests that establish an operation's precondition, moved to the callers where a name is a parameter; dataflow of the possible alternatives of tagged values",
  "operations that reject names, dependencies of symbols and all reads of one alternative of a variant or symbol value; other internal consistency errors (layout of location counters) are not decided")

P("C15", "Constants have the alignment, length and limits of their type",
  "For every type of constant that DC and DS know (39 letters and extensions): the alignment, the implicit length, the kind of nominal value, the ranges allowed for the bit length, length, scale and exponent modifiers "
  "(with DC and with DS), the explicit lengths accepted and the length of a constant without a value are those of the language; the letters written select that type; each modifier is checked against its own range, on every path; "
  "a length that follows from the value is computed for every type that needs it; and an explicit length, and only that, suppresses the alignment.",
  ["inputs"], "for every type of constant and every modifier",
  "Tests use a handful of the types and rarely at the ends of a range; a wrong entry shifts the address of everything behind the one constant that uses it.",
  [PL + "checking/data_definition"],
  [("types", PL + "checking/data_definition/data_def_types_address.cpp, data_def_types_fixed_point.cpp, data_def_types_floating_point.cpp, data_def_types_string.cpp constructors"),
   ("table and common checks", PL + "checking/data_definition/data_def_type_base.cpp")],
  "constant evaluation of constructor chains in the syntax tree against a reference table; dataflow of the accepted values of a length; path analysis of the checks",
  "every type and attribute; how a length is computed from the text of a value (digits, characters) is not decided")

P("C16", "Functions, operators and codes mean what language and protocol define",
  "Every built-in function and operator of conditional assembly is recognised by its name, takes and gives values of its kinds, has its number of parameters and its priority and is evaluated by the operation of that name on its operands in their order; "
  "results outside 32 bits are not silently wrapped and a shift is made from the value that is shifted; every attribute letter stands for its attribute with its default and kind of value; "
  "character codes are converted to EBCDIC and back without loss; and scopes of highlighting, kinds of completion items, severities and message types are sent with the protocol's codes, semantic tokens as five numbers relative to the token before.",
  ["inputs"], "for every function (37), operator (24), attribute, character (256), scope and kind",
  "These are tables of hundreds of entries of which tests read a few; an exchanged entry is noticed only by a program that uses it in a way in which the two differ.",
  [PL + "expressions/conditional_assembly", PL + "ebcdic_encoding.h", PL + "context/ordinary_assembly/symbol_attributes.cpp", LS + "lsp/feature_language_features.cpp"],
  [("policies", PL + "expressions/conditional_assembly/ca_expr_policy.cpp"), ("functions", PL + "expressions/conditional_assembly/terms/ca_function.cpp evaluate"),
   ("operators", PL + "expressions/conditional_assembly/ca_operator_binary.cpp, ca_operator_unary.cpp"), ("character codes", PL + "ebcdic_encoding.h"),
   ("attributes", PL + "context/ordinary_assembly/symbol_attributes.cpp"), ("codes of the protocol", LS + "lsp/feature_language_features.cpp register_capabilities, convert_tokens_to_num_array")],
  "dataflow of the values an enumeration can have, giving the feasible results of each policy per enumerator; constant evaluation of tables; shape and dependence of operator results",
  "every enumerator, character and entry; the inner computation of the conversion functions (A2B and the like) is not decided")

P("C21", "A statement cut short by a syntax error has no missing parts",
  "Whatever the source text, a statement the parser gives up on in the middle is still whole for the analysis: an expression always has an evaluable term (an explicit error value where none was written), a variable symbol that was not recognised is never put into "
  "an expression, a concatenation, a label or an operand, lists of concatenation points contain only usable points, and an operand that could not be parsed becomes an empty operand. The analysis of an unfinished line never dereferences a part that is not there.",
  ["inputs"], "for every statement and every point at which its parsing can fail, in every alternative of every grammar rule",
  "The parser recovers from an error at any token of any rule; each rule is left with the parts parsed so far. Tests contain a few erroneous statements, while people type unfinished statements all the time.",
  [PL + "parsing/grammar", PL + "semantics/concatenation.cpp", PL + "semantics/collector.cpp", PL + "parsing/parser_impl.cpp", PL + "expressions"],
  [("grammar actions", PL + "parsing/grammar/*.g4"), ("concatenation chains", PL + "semantics/concatenation.cpp clear_concat_chain"),
   ("replacement of missing operands", PL + "semantics/collector.cpp extract_statement, parsing/parser_impl.cpp parse_operand_field"), ("default of missing expressions", PL + "expressions/mach_expr_term.cpp, mach_operator.h")],
  "may-be-missing dataflow over the actions of all grammar rules (completion by error at every token, decision and predicate included), with presence dataflow over the C++ functions that complete the result",
  "every action of every rule of the grammar files and the functions that take over their results; identifiers taken from tokens are followed on normal completion only; that lexer and ANTLR deliver tokens as documented is assumed")

P("C18", "Every analysis comes to an end and can be cancelled",
  "Looping, recursive and self-including source text ends the analysis with a diagnostic instead of hanging the server: every branch taken uses up the branch counter of its scope, setting the counter anew (ACTR) is counted and limited, nested macro calls are limited, and all three limits are "
  "looked at before every executed statement; when one is exceeded the analysis gives up the macro or the whole program (too deeply nested calls are given up all together); a member that is being copied, in any source on the stack, is not copied again; reading from a macro or copy member "
  "always advances, never starts before the first statement and leaves the member at its end; a lookahead settles every symbol it was started for, found with attributes or not, so that a statement is not held up twice. A cancelled analysis stops before the next statement, "
  "in libraries too, and every processing that was started is ended exactly once.",
  ["inputs", "schedules"], "for every program, macro, copy member and branch target, and for a cancellation at any time",
  "The programs that loop are those that nobody wrote a test for (a symbol without attributes in a copy member hung the server until this check was written); a hang of the analysis blocks every later request.",
  [PL + "processing", PL + "context/hlasm_context.cpp", PL + "context/processing_context.cpp", PL + "analyzer.cpp"],
  [("main loop", PL + "processing/processing_manager.cpp start_processing, finish_processor"), ("limits", PL + "processing/statement_processors/ordinary_processor.cpp check_fatals"),
   ("branches", PL + "processing/processing_manager.cpp jump_in_statements, start_lookahead, finish_lookahead"), ("counters", PL + "context/hlasm_context.cpp set_branch_counter, decrement_branch_counter, whole_copy_stack"),
   ("copy", PL + "processing/instruction_sets/asm_processor.cpp process_copy"), ("lookahead", PL + "processing/statement_processors/lookahead_processor.cpp"),
   ("member providers", PL + "processing/statement_providers")],
  "path analysis over the control flow graphs: events (counting, leaving, registering, pushing) that every path from a move, a limit or a start must pass, with summaries of called functions",
  "every place that moves, starts, enters or executes; loops inside the lexer, the parser and the evaluation of expressions, and how much work is done below the limits, are not decided")

P("C22", "The text analysed is the editor's, and a text somebody works with never changes",
  "While a document is open, its text is exactly what the editor sent: opening and changing it take over the text and all changes, in their order, each at the range (in UTF-16 units) it was given for, and nothing is read from the disk in the meantime. After it is closed (saved or not), its text is "
  "that of the disk, made valid UTF-8. Lines are found again after every change. A document that somebody else holds (an analysis, a debugged program) is replaced by a copy before it is changed. The manager of documents is told before the analysis starts, and a document is forgotten only when "
  "it is neither open nor used by an open program. An analysis works on the current text of its document, and after a change all open programs that use the document are analysed again.",
  ["inputs", "histories"], "for every sequence of opening, changing, closing and analysing documents, with any holders and any text",
  "What the user sees is only right if the server's copy of the text is right; it is wrong only after particular sequences (an edit between the two halves of a line separator, a dependency closed without saving, an edit while the document is held), which tests do not sample.",
  [PL + "workspaces", PL + "workspace_manager_impl.h", "language_server/src/lsp/feature_text_synchronization.cpp"],
  [("state of a document", PL + "workspaces/file_impl.cpp did_open, did_change, did_close, load_text, update_and_get_bad"), ("copy before change", PL + "workspaces/file_manager_impl.cpp prepare_file_for_change_"),
   ("order of changes", PL + "workspaces/file_manager_impl.cpp did_change_file, language_server/src/lsp/feature_text_synchronization.cpp on_did_change"),
   ("forgetting documents", PL + "workspaces/workspace.cpp did_close_file, filter_and_close_dependencies_, is_dependency_"), ("positions in the text", PL + "workspaces/file_impl.cpp index_from_position, replace_non_utf8_chars")],
  "typestate of a document (events every path of its functions must pass, in order, with summaries of helpers), who may write its state, and path rules for the copy, the order of changes and forgetting",
  "every write of a document's state and every place that opens, changes, closes, reads, forgets or analyses one; that the positions the index yields are right for every text follows from the rebuilt index and the widths of characters, which are compared with UTF-8; files changed on disk by others are not covered")

P("C27", "Each program is analysed with its configured group, libraries and options",
  "The configuration of a workspace is replaced as a whole, only after both files were read, and old entries never survive a successful reload; a program is entered only with a group that exists and is reported otherwise. The group of a program is that of its own entry, or else of the first "
  "pattern its name (relative to the workspace) matches, or else the implicit one. Members are looked for in the group's libraries in the given order and the first one found is used, in analyses and in debugging alike, with the options of the group. A library is listed before it is searched and "
  "again when files change; names are upper case without the longest extension that fits, the first of two files of one name is used and the other reported, a library that cannot be read is reported unless it is optional and does not exist. Extensions of a library go before those of all "
  "libraries and these before the deprecated list; relative libraries are taken from the workspace. Both files are read again when either changes, and the open programs are analysed with the new configuration. Settings of the workspace go before those of the editor and these before the defaults. Each name in the files fills the setting documented under it.",
  ["inputs", "histories"], "for every content of the configuration files and the libraries, and every sequence of changes of them",
  "Which macro is used depends on combinations of entries, patterns, libraries and extensions and on reloads that fail half way, of which tests sample a few; a wrong choice silently analyses the program with another macro.",
  [PL + "workspaces", PL + "config", PL + "lib_config.cpp", PL + "debugging/debug_lib_provider.h"],
  [("loading", PL + "workspaces/workspace.cpp load_config, load_and_process_config"), ("choice of the group", PL + "workspaces/workspace.cpp get_proc_grp_by_program"),
   ("search of members", PL + "workspaces/workspace.cpp parse_library, has_library; debugging/debug_lib_provider.h"), ("libraries", PL + "workspaces/library_local.cpp"), ("settings", PL + "config/proc_conf.cpp, config/pgm_conf.cpp, lib_config.cpp")],
  "path analysis over the control flow graphs (what must be passed before tables are emptied, filled or answered from), comparison of the configuration readers with a table of documented names",
  "every change and use of the tables, every search and every reader; that the translation of patterns into regular expressions and the path functions are right is assumed, and files changed while a program is debugged are not covered")

P("C30", "Numeric results of expressions and addresses are right for every program",
  "The value of every arithmetic, logical and character expression, of every symbol and location counter, and the length of every statement is the one High Level Assembler computes.",
  ["inputs"], "for every expression and statement", "The values are unbounded; tests sample a few.",
  [PL + "expressions", PL + "context/ordinary_assembly"], [("evaluation", PL + "expressions"), ("location counters", PL + "context/ordinary_assembly")],
  na="values computed at run time from the source text; static analysis has no oracle for them beyond the tables, the operator implementations and the constants that C13, C15 and C16 compare")

P("C31", "Incremental changes give the same text as sending the whole document",
  "After any sequence of range edits the server's text equals the editor's, byte for byte.",
  ["inputs", "histories"], "for every text and every sequence of edits", "The sequences are unbounded.",
  [PL + "workspaces/file_impl.cpp"], [("edits", PL + "workspaces/file_impl.cpp did_change, index_from_position")],
  na="equality of texts after index arithmetic over run-time positions is a relational property of values; C22 decides the structural part (order, ranges, rebuilt index, widths of characters)")

P("C32", "Ranges and columns reported match the editor's view of the text",
  "Every range in a diagnostic, symbol, token or answer denotes, in UTF-16 units, exactly the characters it is about, over continuation lines, macros and substituted text.",
  ["inputs"], "for every source text", "Columns depend on every character before them.",
  [PL + "lexing", PL + "semantics/range_provider.cpp", PL + "semantics/source_info_processor.cpp"], [("columns", PL + "lexing/lexer.cpp"), ("adjustment", PL + "semantics/range_provider.cpp")],
  na="columns are sums over the characters read at run time; no invariant that a static analysis in reach could bound relates them to the editor's text")

P("C33", "File names survive the conversion to URIs and back",
  "Converting a path to a URI and back yields the same path, for every name, on every platform.",
  ["inputs"], "for every path", "Names are arbitrary strings.",
  [LS + "feature.cpp"], [("conversion", LS + "feature.cpp uri_to_path, path_to_uri")],
  na="a round trip over arbitrary strings through an external URI library (not even built here: the linked variant is no_uri); it quantifies over values, not over code structure")

P("C34", "The same source always gives the same result",
  "Analysing the same files again yields the same diagnostics, symbols and tokens in the same order.",
  ["inputs", "histories"], "for every program, in any process", "Differences show only in rare runs.",
  [PL + "workspaces", PL + "lsp", PL + "context"], [("order of results", PL + "lsp, diagnosable_impl.h")],
  na="the order of results comes from containers keyed by pointers and hashes in many places whose order is irrelevant by construction; telling these apart needs the meaning of each consumer. The cross-analysis state that could make results differ is decided by C09")

P("C35", "The work for a program is proportional to its size",
  "No short program keeps the server busy for long: expansion, lookahead and copying stay within reasonable time and memory.",
  ["inputs"], "for every program", "The programs that blow up are the ones nobody wrote.",
  [PL + "processing", PL + "context"], [("limits", PL + "processing/statement_processors/ordinary_processor.cpp check_fatals")],
  na="a bound on run-time work: the limits the language allows (ACTR, nesting) admit exponential work by design; that every analysis ends and can be cancelled is decided by C18")
