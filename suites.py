"""The suites (test workloads with monitors) and which properties each decides."""
SUITES = {
    "wire": {"san": "asan", "src": ["wire.cpp"], "quick": 15000, "thorough": 600000},
    "hostile": {"san": "asan", "src": ["hostile.cpp"], "quick": 300000, "thorough": 900000},
    "match": {"san": "asan", "src": ["match.cpp"], "quick": 300000, "thorough": 4000000},
    "lookup": {"san": "asan", "src": ["lookup.cpp"], "quick": 24000, "thorough": 600000},
    "algebra": {"san": "asan", "src": ["algebra.cpp"], "quick": 80000, "thorough": 1500000},
    "edit": {"san": "asan", "src": ["edit.cpp"], "quick": 16000, "thorough": 400000},
    "conv": {"san": "asan", "src": ["conv.cpp"], "quick": 150000, "thorough": 4000000},
    "text": {"san": "asan", "src": ["text.cpp"], "quick": 50000, "thorough": 1500000},
    "bounded": {"san": "asan", "src": ["bounded.cpp"], "quick": 14000, "thorough": 400000},
    "flat": {"san": "asan", "src": ["flat.cpp"], "quick": 20000, "thorough": 600000},
    "dispatch": {"san": "asan", "src": ["dispatch.cpp"], "quick": 40000, "thorough": 1000000},
    "contain": {"san": "asan", "src": ["contain.cpp"], "quick": 80000, "thorough": 800000},
    "timetag": {"san": "asan", "src": ["timetag.cpp"], "quick": 60000, "thorough": 2000000},
    "expr": {"san": "asan", "src": ["expr.cpp"], "quick": 100000, "thorough": 3000000},
    "prog": {"san": "asan", "src": ["prog.cpp"], "quick": 200000, "thorough": 6000000},
    "lib": {"san": "asan", "src": ["lib.cpp"], "quick": 150000, "thorough": 4000000},
    "hof": {"san": "asan", "src": ["hof.cpp"], "quick": 200000, "thorough": 3000000},
    "fuzztext": {"san": "asan", "src": ["fuzztext.cpp"], "quick": 100000, "thorough": 3000000},
    "threads": {"san": "tsan", "src": ["threads.cpp"], "quick": 1500, "thorough": 60000},
    "tree": {"san": "asan", "src": ["tree.cpp"], "quick": 20000, "thorough": 600000},
    "catalog": {"san": "asan", "src": ["catalog.cpp"], "quick": 8000, "thorough": 300000},
    "uninit": {"san": "vg", "src": ["uninit.cpp"], "quick": 12000, "thorough": 200000},
    "report": {"san": "asan", "src": ["report.cpp"], "quick": 60000, "thorough": 1500000},
}
OWN = r"leak:|allocator|san:(attempting-double-free|attempting-free|heap-use-after-free|alloc-dealloc-mismatch|bad-free)"
PROPS = {
    "C01": {"suites": ["wire"], "technique": "ASan/UBSan run against an independent OSC encoder and decoder",
            "rule": "generated bundle built through randomly chosen API routes, serialized and compared byte for byte with an independent encoder, then deserialized and compared; non-trivial: at least one message; distinct by content"},
    "C02": {"suites": ["wire"], "technique": "ASan/UBSan run against an independent OSC decoder",
            "rule": "generated wire bytes read in place through every accessor and iterator in random order and compared with an independent decoding; non-trivial: at least one message; distinct by content"},
    "C03": {"suites": ["hostile"], "technique": "ASan/UBSan fuzzing in exactly sized buffers with an independent validator as oracle",
            "rule": "random, truncated and field-corrupted packets in exactly sized heap buffers; the verdict is compared with an independent validator and accepted packets are read through every API; non-trivial: well-formed or one corruption away from it; distinct by bytes"},
    "C04": {"suites": ["match"], "technique": "ASan/UBSan run against an independent set-of-positions pattern matcher",
            "rule": "pattern and address pairs (generated, mutated, exhaustively enumerated) compared with an independent matcher; non-trivial: pattern has a meta character or a partial match; distinct by pair"},
    "C05": {"suites": ["lookup"], "technique": "ASan/UBSan run against a list model with an independent pattern matcher",
            "rule": "bundle and pattern looked up in both representations, with and without partial matching, compared with the model; non-trivial: something matched; distinct by bundle and pattern"},
    "C06": {"suites": ["algebra"], "technique": "ASan/UBSan run against a list-of-messages model",
            "rule": "set operation on two bundles, or a history of edits, compared with the model after each step; non-trivial: at least one message involved; distinct by operands and history"},
    "C07": {"suites": ["edit"], "technique": "ASan/UBSan run against an ordered-list model, checked after every edit",
            "rule": "a history of bundle and message edits; after each step counts, iteration, nth access, addresses and serialized bytes are compared with the model, copies are re-read at the end; non-trivial: at least one edit; distinct by history"},
    "C08": {"suites": ["conv"], "technique": "ASan/UBSan run against an independent table of conversions, both forms compared",
            "rule": "atoms of every type with edge and random values read through every getter in both forms, set and negated in place, copied; compared with an independent conversion; non-trivial: always; distinct by values"},
    "C09": {"suites": ["text"], "technique": "ASan/UBSan run: format, parse and compare; hand-written text judged by an independent recursive-descent reader",
            "rule": "generated bundle formatted in both forms, parsed back and compared; generated or mutated bundle text judged by an independent grammar; non-trivial: always; distinct by bundle and text"},
    "C10": {"suites": ["bounded"], "technique": "ASan run in exactly sized buffers of every size, with a prefix and terminator oracle",
            "rule": "bundle, its messages and arguments, and primitive values formatted and serialized into buffers of all sizes around and below the announced one; non-trivial: always; distinct by bundle"},
    "C11": {"suites": ["flat"], "technique": 'ASan/UBSan run against a tree model of explode and flatten',
            "rule": 'random addresses exploded at a random separator and level and nested bundles flattened, compared with a tree model, and the inverse law; non-trivial: something was grouped or flattened; distinct by input'},
    "C12": {"suites": ["dispatch"], "technique": "ASan/UBSan run with recording methods: every delivery is compared with an independent matcher's partition",
            "rule": 'a bundle of addresses and patterns dispatched to a table built by a history of registrations, and queried with selectors; non-trivial: something matched; distinct by history and bundle'},
    "C13": {"suites": ["contain"], "technique": 'ASan/UBSan run against map, list and vector models, checked after every operation',
            "rule": 'a history of hash table, linked list, array or atom array operations compared with a standard container model after each step, destructor calls logged; non-trivial: always; distinct by history'},
    "C14": {"suites": ["timetag"], "technique": 'ASan/UBSan run against 64-bit integer arithmetic and an independent calendar, under a controlled clock',
            "rule": 'pairs of 64-bit time tags (edges, carries, borrows) through every operation, ISO 8601 texts with all fraction lengths and UTC offsets, every day of the range, clock readings; non-trivial: always; distinct by values'},
    "C15": {"suites": ["expr"], "technique": 'ASan/UBSan run against an independent evaluator of the language definition',
            "rule": 'generated operator expression over a generated bundle, printed with random redundant parentheses, white space and comments, compared in value and type with a reference evaluator, evaluated twice and as a copy; every operator over every pair of operand types; non-trivial: the language defines the value; distinct by text and bundle'},
    "C17": {"suites": ["prog"], "technique": 'ASan/UBSan run against an ordered-bundle model, checked after every expression',
            "rule": "generated program of assignments (plain, compound, indexed, ranged, incremented, coalescing, nested), deletions, reads and failing expressions over a generated bundle with foreign messages; after each expression its value and the bundle's bytes are compared with the model; non-trivial: something was assigned; distinct by program and bundle"},
    "C16": {"suites": ["lib"], "technique": "ASan/UBSan run of generated calls of every library function, values compared with independent models of the documentation",
            "rule": "one generated call of one of the library's functions (arguments as literals, addresses or nested calls, of every atom type; one case in six outside the function's domain, judged for memory safety, well-formedness and repeatability only), evaluated twice; value, element types and bundle compared with the model; non-trivial: the value was judged; distinct by call and bundle"},
    "C18": {"suites": ["hof"], "technique": 'ASan/UBSan run of generated higher-order programs against a reference interpreter',
            "rule": 'the case evaluates at least one expression with a lambda, higher-order function, conditional, quotation or nested bundle whose value and bundle are both judged'},
    "C19": {"suites": ["fuzztext"], "technique": "ASan/UBSan fuzzing of the scanners, parsers and evaluator with a syntax oracle and a repetition oracle",
            "rule": "token soup, bytes, mutated and truncated programs, arbitrary well-formed calls, function texts and bundle texts, each parsed and evaluated twice in exactly sized buffers; acceptance checked against syntax no expression may have, results compared between the runs, bundles validated; non-trivial: not abandoned for using up its budget of memory, steps or stack; distinct by text and bundle"},
    "C21": {"suites": ["threads"], "technique": "ThreadSanitizer run of all the suites' cases on concurrent threads, each case with its own oracle, delays injected inside the library",
            "rule": "2 to 6 threads each run 1 to 4 jobs: cases of the other suites, judged by their models, and readers of a shared bundle, expression and table, judged against the same reads alone; delays are injected at the library's allocations; non-trivial: a job overlapped another thread's; distinct by jobs and observed order of their beginnings and ends"},
    "C23": {"suites": ["tree"], "technique": 'ASan/UBSan run of printing, copying and rebuilding compiled programs, against the structure of the text they were generated from',
            "rule": "generated program compiled, its structure read through the accessors and compared with the generator's syntax tree, its printed form, a copy and a reconstruction from parts compared with it and evaluated on the same bundle; non-trivial: something was compiled; distinct by text and bundle"},
    "C22": {"suites": ["catalog"], "technique": "ASan/UBSan run: the catalogue's listings are filtered by an independent matcher, and each function's documentation is compared with what the parser accepts",
            "rule": "a category name or pattern listed and compared with an independent filter of the whole catalogue; a function's documentation compared with its record, its copy, its categories, and the parser's verdict on its signature and on every number of arguments; a misspelt name; a record built through setters; non-trivial: something was listed or judged; distinct by name, pattern or record"},
    "C24": {"suites": ["uninit"], "only": r"uninit", "technique": "Valgrind memcheck run of all the suites' cases: every bit nobody wrote is tracked to the branches, addresses and comparisons that depend on it",
            "rule": "one case of one of the suites run under memcheck, on an allocator whose blocks start undefined; every byte of a result is compared by an oracle, so an undefined one is reported there if not before; non-trivial: as in that suite; distinct by the case's input"},
    "C25": {"suites": ["report"], "technique": "recording error handler installed through osc_error_setHandler, with ASan: an online monitor of every report between a call and its result",
            "rule": "one case of the expression suites (or a text, call, or report made for this suite) run with a handler that records; each parse and evaluation is judged by what was reported before it returned; non-trivial: something was parsed or evaluated; distinct by the case's input"},
    "C20": {"suites": [s for s in SUITES if SUITES[s]["san"] == "asan" and s != "report"], "only": OWN, "scale": 0.2, "technique": "allocator monitor installed through osc_mem_init, with ASan: live-block accounting after every case",
            "rule": "every case of every sanitized suite runs on an allocator that records each block; after the case releases what it owns no block may remain, none may be freed twice or be foreign; non-trivial: allocated through the installed allocator; distinct by the case's input"},
}
