#!/usr/bin/env python3
# Writes /verif/MANIFEST.json (run by hand, not by the checks).
import json
ORACLE="property-based testing against a reference model"
META="metamorphic property-based testing"
M=[
("C01",META,"Random formulas over random clauses and documents; the oracle is the truth table of the clauses' own answers, so it trusts only that single clauses are repeatable."),
("C02",ORACLE,"Random documents and paths, oracle: an independent path resolver over a value tree. Trusts the reference resolver; documents have no duplicate keys."),
("C03",ORACLE,"Random numeric terms and values, bounds placed around the values compared. Oracle: float64 arithmetic of Go. Magnitudes beyond float64 and strings that are numbers only to some readers are left out."),
("C04",ORACLE,"Random timestamps and values around day edges, offsets and fractions. Oracle: instants computed from the calendar fields, not by the library's parser. More than nine fraction digits and offsets beyond 23:59 are left out."),
("C05",ORACLE,"Random terms and texts built from one another. Oracle: a direct matcher of the wildcard language (no regular expressions); loose Unicode search is judged by golang.org/x/text."),
("C06",ORACLE,"Random expressions written into queries with random slashes and escapes. Oracle: Go's regexp on the expression before it was written."),
("C07",ORACLE,"Random blocks and texts with embedded addresses, near misses included. Oracle: 32-bit arithmetic over an independent scan of the text; digit runs whose reading is ambiguous are left out."),
("C08",META,"A set against the disjunction of its members, orders and spellings permuted, ~ against plain equality."),
("C09",ORACLE,"Random documents and paths; oracle: independent path resolver and type test."),
("C10",META,"A document against value-preserving rewritings of it, for all operators."),
("C11",META,"Random histories of builds and matches with shared and overwritten buffers, against fresh matchers in the same and (for failures) other processes."),
("C12","fuzzing by structured mutation","Random bytes, mutated and truncated queries and documents. Oracle: no panic, error exactly when the bytes are not JSON as judged by encoding/json. Invalid UTF-8 and lone surrogates in documents are judged for crashes only."),
("C13",ORACLE,"Random trees spelt out at random; the parsed tree, printed form and stream reading are compared with the tree generated."),
("C14",ORACLE,"Small edits of well-formed queries and free texts; oracle: an independent recogniser of the language written from the grammar's documentation."),
("C15",ORACLE,"Random operator and term lists placed anywhere in a query; oracle: the rules as predicates over the generated tree."),
("C16",ORACLE,"Random valid and broken queries on several lines with multi-byte characters; oracle: the places recorded while the text was written, and the recogniser for errors."),
("C17",ORACLE,"Random trees and scripts of visitor behaviour; oracle: a model of the walk."),
("C18",ORACLE,"Random queries; oracle: the list of advice computed from the generated tree and regexp/syntax. Expressions ending in an escaped dot before a star are left out."),
("C19",META,"Random histories; oracle: short-circuit evaluation over the answers of the clauses run alone."),
("C20","randomised concurrency testing under the race detector","Random programs for 2 to 8 goroutines, built with -race. Explores the interleavings the scheduler offers, not all of them; a race is reported when both accesses happen in a run, whatever their order."),
("C21",ORACLE,"Random histories of samples, resets and readings; oracle: a model that keeps the set of paths of each document."),
("C22",META,"Every path reported is used as a query on the document it came from, and counted against the distinct key sequences."),
("C23",ORACLE,"Random queries, positions and limits; oracle: conditions on the text shown, not one fixed window."),
("C24",ORACLE,"Random queries rendered by graphviz; the DOT text is read back by an own reader and compared with the query tree. SVG is checked for success and for its labels."),
("C25","differential property-based testing","Histories of texts given to the built WebAssembly program in node, compared with the native parser. Nesting is kept to 80 levels, which the default call stack holds."),
("C26","differential property-based testing","The built commands run on random queries, documents and argument forms in a scratch folder; oracle: the library."),
("C27","measured growth over generated families","Work (executed blocks of the library counted by Go's coverage counters, allocations, bytes allocated) of parsing families of growing size. The last doubling may multiply blocks by at most 2.2 and allocations by at most 2.6 (on the tree: 2.0), so a superlinear term too small to show at the largest size is not reported; work inside dependencies is seen only through allocations and a coarse time bound."),
("C28",ORACLE,"Random registrations and requests, given to the file system in process (by build overlay) and to the built server over HTTP in its own network namespace where that is permitted. Oracle: a map from base names to contents, kept by the harness."),
("C29","property-based testing of agreement between representations","Random queries and recorded messages; text and JSON forms are read back and compared with the fields. The wording around the numbers and the message is left free."),
("C30","measured growth over generated families","Executed blocks (library, JSON and date readers), allocations and time of matching and sampling documents up to 60 kB or 8000 repetitions. A superlinear term too small to show there is not reported; regular expressions and Unicode search are seen through time only."),
("C31",META,"Random queries and respellings that an independent parser reads as the same query."),
("C32","property-based testing with injected faults","Random texts, reads of any length, end and errors at any point; the oracle is the same text given as a string, and the independent parser for positions."),
]
out={"version":1,"setup_cmd":"python3 run.py --setup",
"checks":[{"property":i,"quick_cmd":f"python3 run.py {i} quick","thorough_cmd":f"python3 run.py {i} thorough",
"evidence_file":f"evidence/{i}.json","technique":t,"level":"exploration","level_note":n} for i,t,n in M],
"not_applicable":[],
"notes":"No hooks in /repo: the harness is a Go module of its own that replaces the aql module by /repo's working tree. Replays: python3 run.py --replay FILE."}
open('/verif/MANIFEST.json','w').write(json.dumps(out,indent=1,ensure_ascii=False)+'\n')
