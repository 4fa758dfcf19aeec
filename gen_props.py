#!/usr/bin/env python3
"""Writes properties.jsonl (one place where the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": hook}})

prop("C01", "Conjunctive queries return exactly the matches in the data",
 "For every loaded set of triples and every query made of connected triple patterns that the server accepts (constants and variables in any position, variables possibly repeated, also inside one triple), the answer contains exactly one row for every way to map the variables to terms so that all patterns are in the data: none missing, none extra, none repeated. The order in which the patterns are written makes no difference. A constant that does not occur in the data simply matches nothing.",
 ["inputs", "programs"], "all data sets, all connected basic graph patterns",
 "The planner chooses among scans on six permutations, sort-merge, galloping, two- and multi-column joins depending on the query graph and the sizes; the tests run a fixed list of operators on fixed tables and a fixed list of plans, never a query against data.",
 ["src/engine/QueryPlanner.cpp", "src/engine/Join.cpp", "src/engine/Join.h", "src/engine/MultiColumnJoin.cpp", "src/engine/TwoColumnJoin.cpp", "src/engine/IndexScan.cpp", "src/index/Index.h", "src/index/Index.cpp"],
 [("join order enumeration and candidate creation", "src/engine/QueryPlanner.cpp"), ("join algorithms", "src/engine/Join.h"), ("index scans", "src/engine/IndexScan.cpp")],
 ["HTTP response of a query"])
prop("C02", "OPTIONAL, UNION, MINUS and subqueries combine solutions as SPARQL defines",
 "For every data set and every query that nests groups, OPTIONAL, UNION, MINUS and subqueries over variables that are always bound where they are joined, the answer is the bag of solutions the SPARQL algebra defines: OPTIONAL keeps every left solution and extends it by all compatible right ones, UNION adds up both sides, MINUS removes exactly the left solutions that have a compatible right one. A variable that is not bound in a solution shows up as an empty value, and rows are neither lost nor multiplied. LIMIT, OFFSET and DISTINCT inside a subquery apply to the subquery alone.",
 ["inputs", "programs"], "all data sets, all nestings of the group operators",
 "The unit tests call the operators on hand-written tables; the combination of operators, their column bookkeeping and the planner's choices are never compared with a semantics.",
 ["src/engine/QueryPlanner.cpp", "src/engine/OptionalJoin.cpp", "src/engine/Union.cpp", "src/engine/Minus.cpp", "src/parser/ParsedQuery.cpp"],
 [("group handling in the planner", "src/engine/QueryPlanner.cpp"), ("outer join", "src/engine/OptionalJoin.cpp"), ("union", "src/engine/Union.cpp"), ("minus", "src/engine/Minus.cpp")],
 ["HTTP response of a query"])
prop("C03", "FILTER, BIND and VALUES keep, extend and join exactly the right rows",
 "For every data set and every query with FILTER conditions (=, !=, <, <=, >, >= between a variable and a constant or another variable, prefix and regular expressions, language), BIND and VALUES, exactly the rows that satisfy all conditions survive, each extended by the bound values. Comparisons with constants work whether or not the constant occurs in the data, and in whatever position or group the filter is written.",
 ["inputs", "programs"], "all data sets, filter operators, constants present and absent, filter positions",
 "A filter runs on sorted or unsorted input with binary search or a scan depending on the plan, and is pushed to different places; tests cover a few single operators on fixed tables.",
 ["src/engine/Filter.cpp", "src/engine/Filter.h", "src/engine/Bind.cpp", "src/engine/Values.cpp", "src/engine/QueryPlanner.cpp", "src/index/Vocabulary.cpp"],
 [("filter evaluation incl. binary search", "src/engine/Filter.cpp"), ("filter placement", "src/engine/QueryPlanner.cpp"), ("bounds in the vocabulary", "src/index/Vocabulary.cpp")],
 ["HTTP response of a query"])
prop("C04", "GROUP BY, aggregates, HAVING and DISTINCT summarise exactly the solutions",
 "For every data set and every grouped query there is exactly one row per distinct combination of the group variables, and COUNT, SUM, AVG, MIN, MAX, SAMPLE and GROUP_CONCAT (each with or without DISTINCT) are computed from all the solutions of that group and no others. All HAVING conditions apply together. SELECT DISTINCT returns every distinct row exactly once.",
 ["inputs", "programs"], "all data sets, groupings, aggregates and their combinations",
 "Block boundaries in the grouping pass and the sort order the planner provides depend on the data and the query; tests group one fixed table.",
 ["src/engine/GroupBy.cpp", "src/engine/Distinct.cpp", "src/engine/QueryPlanner.cpp", "src/engine/Engine.h"],
 [("aggregation over sorted blocks", "src/engine/GroupBy.cpp"), ("HAVING", "src/engine/QueryPlanner.cpp"), ("distinct", "src/engine/Engine.h")],
 ["HTTP response of a query"])
prop("C05", "ORDER BY, LIMIT and OFFSET deliver the right slice in the right order",
 "For every query, the rows come in an order that respects all ORDER BY keys (ascending or descending, in their sequence; numbers and dates by value, other terms alphabetically), and no row is lost or duplicated by sorting. LIMIT n OFFSET m returns exactly rows m+1 to m+n of the answer without LIMIT and OFFSET whenever the order is total, and always the right number of rows taken from it, in every output format.",
 ["inputs", "programs", "configurations"], "all result sizes, key combinations, limits and offsets, output formats",
 "Sorting may be skipped when a sub-plan is believed to be sorted; limit and offset are applied in several places; tests check neither against data.",
 ["src/engine/OrderBy.cpp", "src/engine/Sort.cpp", "src/engine/QueryPlanner.cpp", "src/engine/QueryExecutionTree.cpp", "src/engine/Server.cpp"],
 [("sort operators", "src/engine/OrderBy.cpp"), ("slicing on output", "src/engine/QueryExecutionTree.cpp")],
 ["HTTP response of a query"])
prop("C06", "Property paths relate exactly the nodes connected by such a path",
 "For every data set, a property path built from predicates with sequence, alternative, inverse, +, * and ? that matches at least one edge relates exactly the pairs of nodes that are connected by a walk matching the path, also on cyclic data and with a constant or already bound variable on either side. The transitive operator + yields every connected pair exactly once.",
 ["inputs", "programs"], "all graphs (cycles, diamonds, self loops), all supported path expressions",
 "Evaluation picks one of several bound/unbound algorithms depending on the plan; tests run them on a few hand-written graphs.",
 ["src/engine/TransitivePath.cpp", "src/parser/PropertyPathParser.cpp", "src/engine/QueryPlanner.cpp"],
 [("transitive hull", "src/engine/TransitivePath.cpp"), ("path rewriting", "src/engine/QueryPlanner.cpp")],
 ["HTTP response of a query"])
prop("C07", "The special predicate ql:has-predicate lists exactly the predicates present",
 "For every data set, ql:has-predicate relates a subject to a predicate exactly if the data contains a triple with that subject and predicate, once per pair, whether the subject, the predicate, both or none are given or are joined with other patterns. Counting predicates per group of subjects gives for each predicate the number of distinct subjects that have it, and no predicate that none of them has.",
 ["inputs", "programs", "configurations"], "all data sets (many or few distinct predicate sets), all positions, with and without the counting shortcut",
 "Pattern and single-predicate storage split depends on the whole data set, and the counting shortcut replaces the ordinary plan silently; tests use tiny fixed tables.",
 ["src/engine/HasPredicateScan.cpp", "src/engine/CountAvailablePredicates.cpp", "src/index/Index.cpp", "src/engine/QueryPlanner.cpp"],
 [("pattern construction", "src/index/Index.cpp"), ("scan variants", "src/engine/HasPredicateScan.cpp"), ("counting shortcut", "src/engine/CountAvailablePredicates.cpp")],
 ["HTTP response of a query"], hook="small pattern limits")
prop("C08", "Text search returns exactly the records and entities that match the words",
 "For every text corpus and knowledge base, a text pattern with words, prefixes (word*, compared without case and accents) and entities matches a text record exactly if the record contains all of them, and relates it to exactly the entities that occur in that record; further entity patterns and triple patterns on these entities restrict it as a join would. With a text limit k each combination of entities keeps k of its matching records (all of them if there are fewer; for one entity and at most two words those with its highest scores), and the reported score of a combination counts its matching records. Without entity variables every matching record is returned once, with the sum of the scores of the words found in it; only prefixes shorter than four letters may be refused.",
 ["inputs", "programs"], "all corpora, word/prefix/entity combinations, limits",
 "Word blocks, posting-list compression and intersections depend on the corpus; tests run the list algorithms on a few fixed vectors.",
 ["src/index/Index.Text.cpp", "src/index/FTSAlgorithms.cpp", "src/index/TextMetaData.cpp", "src/engine/TextOperationWithFilter.cpp", "src/engine/TextOperationWithoutFilter.cpp", "src/util/Simple8bCode.h", "src/parser/ContextFileParser.cpp"],
 [("posting lists", "src/index/Index.Text.cpp"), ("intersection and aggregation", "src/index/FTSAlgorithms.cpp")],
 ["HTTP response of a query"])
prop("C09", "An answer never depends on earlier or concurrent queries or on the cache",
 "Whatever queries (successful or failing) were answered before or are being answered at the same time, and whatever cache clearing, pinning or eviction took place, a query returns the same rows as on a freshly started server. This holds for every cache capacity and every number of worker threads. The only exception is an error that a query receives because a partial result it waits for fails in another query.",
 ["histories", "schedules", "configurations"], "all sequences and interleavings of queries and cache commands, all cache capacities",
 "Results are shared through a cache keyed by a description of the sub-plan; two different plans with the same description only show up for specific pairs of queries in one server life, which no test performs.",
 ["src/engine/Operation.cpp", "src/engine/QueryExecutionTree.cpp", "src/engine/QueryExecutionContext.h", "src/engine/Server.cpp", "src/util/ConcurrentCache.h"],
 [("cache key of a sub-plan", "src/engine/*.cpp asString"), ("result cache", "src/util/ConcurrentCache.h")],
 ["HTTP responses of sequences of requests"], state=[("cache", "sub-plan key to result", "src/engine/QueryExecutionContext.h")])
prop("C10", "Equivalent ways to write a query have the same answer",
 "Writing the same query differently (prefixed names or full IRIs anywhere in the query, predicate and object lists or separate triples, white space, comments, keyword case, quoting style and escapes of literals) never changes its answer. A query that is not well formed is rejected with an error and is never answered as if a part of it had not been written; a prefix that is not declared merely makes an unknown term.",
 ["programs"], "all queries and all surface variants of them, truncated and corrupted queries",
 "The lexer and parser are exercised by tests with a fixed list of strings.",
 ["src/parser/SparqlParser.cpp", "src/parser/SparqlLexer.cpp", "src/parser/ParsedQuery.cpp", "src/parser/RdfEscaping.cpp"],
 [("lexer and recursive descent parser", "src/parser/SparqlParser.cpp"), ("prefix expansion", "src/parser/ParsedQuery.cpp")],
 ["HTTP response of a query"])
prop("C11", "The index holds exactly the triples of the input file",
 "For every input file in Turtle, N-Triples or TSV format, however its triples are ordered, repeated or split into batches during the build, the finished index contains exactly the set of input triples (plus the documented language helper triples), each once, and every access path (any of the six triple orders, with zero, one or two positions fixed) sees the same set. Each distinct term is one entity: looking it up by its text and listing it agree.",
 ["inputs", "configurations"], "all input files, batch and partial-vocabulary sizes, relation sizes from one triple to many blocks",
 "The default batch sizes are far beyond what a test feeds, so the merge of partial vocabularies, id remapping across batches and block-wise relations are reached by almost no test.",
 ["src/index/Index.cpp", "src/index/Index.h", "src/index/VocabularyGeneratorImpl.h", "src/index/IndexBuilderTypes.h", "src/index/MetaDataTypes.cpp", "src/index/IndexMetaDataImpl.h", "src/util/MmapVectorImpl.h"],
 [("partial vocabularies and merge", "src/index/VocabularyGeneratorImpl.h"), ("permutation creation", "src/index/Index.cpp"), ("block metadata", "src/index/MetaDataTypes.cpp")],
 ["HTTP response of scans after an index build"], hook="small block and batch limits")
prop("C12", "Build options that only affect storage never change an answer",
 "Building the same data with or without on-disk literals, prefix compression, patterns, with other batch sizes, lists of externalised prefixes or internal languages, or the alternative tokenizer gives an index that answers every query with the same rows (queries that compare or sort texts kept on disk excepted); so does restarting the server on it.",
 ["configurations", "inputs"], "all combinations of storage options, all data sets and queries",
 "The tests build with default options; a term moved to external storage gets another position in the id order, which only some queries notice.",
 ["src/index/Vocabulary.cpp", "src/index/ExternalVocabulary.cpp", "src/index/CompressedString.h", "src/index/PrefixHeuristic.cpp", "src/index/Index.cpp", "src/index/VocabularyGeneratorImpl.h"],
 [("internal/external vocabulary", "src/index/Vocabulary.cpp"), ("external vocabulary search", "src/index/ExternalVocabulary.cpp"), ("prefix compression", "src/index/Vocabulary.cpp")],
 ["HTTP responses from differently built indexes"])
prop("C13", "Turtle input means the same triples however it is written and buffered",
 "For every well-formed Turtle document without collections and relative IRIs, the loaded triples are those the document denotes: prefix redeclarations take effect from where they stand, predicate and object lists, blank nodes, short forms of numbers and booleans, comments, all quoting styles and escapes are expanded as Turtle defines. The result is the same wherever the read-buffer boundaries fall and whichever of the parsers reads it, and no statement of a well-formed document is silently dropped.",
 ["inputs", "configurations"], "all documents without collections and relative IRIs, all buffer boundaries, stream/parallel/mapped parser",
 "The buffer is 100 MiB, so no test ever crosses a boundary, and the tests parse single productions.",
 ["src/parser/TurtleParser.cpp", "src/parser/TurtleParser.h", "src/parser/Tokenizer.h", "src/parser/RdfEscaping.cpp", "src/parser/ParallelBuffer.h"],
 [("recursive descent parser with rollback on buffer end", "src/parser/TurtleParser.cpp"), ("tokenizer", "src/parser/Tokenizer.h"), ("unescaping", "src/parser/RdfEscaping.cpp")],
 ["HTTP response of scans after an index build"], hook="small read buffer")
prop("C14", "Numbers and dates keep their value and are compared by value",
 "Every plain integer, decimal, float and double literal and every date in the data comes back with the same value, and comparing or sorting such literals, in data and in filter constants, follows their numeric or temporal order, including negative and very small or large values. Values of different numeric types are ordered by value too but are not equal to each other.",
 ["inputs"], "all pairs of numeric/date literals and constants",
 "The order is encoded in a string of digits with complement and exponent tricks; tests compare a dozen pairs.",
 ["src/util/Conversions.h", "src/index/StringSortComparator.h", "src/index/Index.cpp", "src/engine/Filter.cpp"],
 [("order preserving encoding", "src/util/Conversions.h")],
 ["HTTP response of a query"])
prop("C15", "Each cached computation runs once and reaches every requester",
 "Under every interleaving of threads that ask for the same or different keys, a value is computed at most once while it is cached or being computed, every requester gets the value computed for its own key, and a failed computation is reported to those who waited for it and does not stop later requests from computing anew. No request waits for ever, and a pinned request leaves its value pinned whichever thread computed it.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of lookups, pinned lookups, failures, clears and evictions",
 "The tests start two threads and sleep; the interleavings between lookup, registration and publication are not controlled.",
 ["src/util/ConcurrentCache.h", "src/util/Synchronized.h"],
 [("in-progress map under one lock", "src/util/ConcurrentCache.h")],
 ["return values and call counts of the cache"], state=[("cache", "finished results", "src/util/ConcurrentCache.h"), ("inProgress", "running computations", "src/util/ConcurrentCache.h")])
prop("C16", "The cache never exceeds its limits, evicts LRU first, keeps pinned entries",
 "After every operation the cache respects its entry-count and size limits (or holds nothing evictable more), reports sizes and counts that equal those of its contents, and has evicted only the least recently used unpinned entries. A pinned entry stays retrievable until it is explicitly removed by a full clear, and a lookup returns exactly the value last stored for its key.",
 ["histories"], "all sequences of insert, lookup, pin, clear and limit changes",
 "Tests run a few fixed sequences.",
 ["src/util/Cache.h", "src/util/PriorityQueue.h"],
 [("score queue and shrink loop", "src/util/Cache.h"), ("priority queues", "src/util/PriorityQueue.h")],
 ["public cache interface"], state=[("entries", "key to value with score", "src/util/Cache.h"), ("pinned", "pinned entries", "src/util/Cache.h")])
prop("C17", "Query memory stays within the limit and is given back completely",
 "The memory in use through the limited allocator never exceeds the configured limit, whatever threads allocate at the same time; a request that would exceed it fails with an error and changes nothing, and memory that is released becomes available again in full. A query that runs into the limit is answered with an error while the server goes on answering others correctly.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of allocations and releases, containers growing, copying and failing",
 "Tests allocate twice in one thread.",
 ["src/util/AllocatorWithLimit.h", "src/engine/IdTable.h", "src/engine/Server.cpp"],
 [("shared counter", "src/util/AllocatorWithLimit.h")],
 ["allocator's free-memory report; HTTP responses"], state=[("free", "bytes left", "src/util/AllocatorWithLimit.h")])
prop("C18", "Pipelined processing handles every element exactly once and in order",
 "For every number of elements, batch size, number of stages and degree of parallelism, and under every scheduling of the workers, a processing pipeline applies each stage exactly once to each element and hands the results out in the order in which the elements were produced, then reports its end. Nothing is lost at batch boundaries, for empty input, or when the consumer is faster or slower than the stages.",
 ["schedules", "inputs", "configurations"], "all interleavings of producer, stage workers and consumer, all sizes",
 "Tests run one configuration per pipeline and cannot control the interleaving.",
 ["src/util/BatchedPipeline.h", "src/index/Index.cpp"],
 [("batched pipeline stages", "src/util/BatchedPipeline.h")],
 ["values returned by the pipeline"])
prop("C19", "Disk-backed arrays behave like arrays and survive being reopened",
 "A disk-backed array behaves like an in-memory array under every sequence of appends, resizes, writes, moves, closing and reopening: size and all elements are as last written, also after reopening for reading or for further writing. A temporary array leaves no file behind, and a file that is not such an array is refused.",
 ["histories"], "all operation sequences crossing capacity and page boundaries",
 "Tests run a few fixed sequences below or just above the first growth.",
 ["src/util/MmapVector.h", "src/util/MmapVectorImpl.h", "src/util/BufferedVector.h"],
 [("mapping growth and trailer", "src/util/MmapVectorImpl.h")],
 ["public interface of the array"], state=[("file", "payload and trailer", "src/util/MmapVectorImpl.h")])
prop("C20", "Result tables keep rows and columns intact under every edit sequence",
 "A result table behaves like a sequence of fixed-width rows under every sequence of appends, inserts, erases, resizes, copies, moves, sorting and conversions between fixed and dynamic width, for every width from one to many columns: rows are never torn, lost or aliased between copies, and the order of the others is kept.",
 ["histories", "inputs"], "all operation sequences and widths",
 "Tests run fixed sequences on few widths.",
 ["src/engine/IdTable.h", "src/engine/Engine.h", "src/util/AllocatorWithLimit.h"],
 [("row container", "src/engine/IdTable.h")],
 ["public interface of the table"])
prop("C21", "All output formats deliver the same rows",
 "For every query, the JSON, TSV and CSV outputs describe the rows of the answer (in an order the query allows) with the same values, complete up to the requested number of rows, and the reported result size is the true one. Terms come back as they were loaded: language tags, datatypes, special characters and non-ASCII text included; in TSV and CSV a value that contains the separator or a line break stands there as it is.",
 ["inputs", "programs", "configurations"], "all result tables (types, sizes, unbound values), all formats and row caps",
 "No test runs the server or its exporters.",
 ["src/engine/Server.cpp", "src/engine/QueryExecutionTree.cpp", "src/engine/QueryExecutionTree.h", "src/engine/ResultTable.cpp"],
 [("exporters", "src/engine/QueryExecutionTree.cpp"), ("request handling", "src/engine/Server.cpp")],
 ["HTTP responses"])
prop("C22", "A bad request never harms the server or the answers to others",
 "Whatever request arrives (malformed HTTP or parameters, unparsable or unsupported queries, a query that exceeds the time or memory limit, a client that hangs up), the server answers it with an error or closes it, and it goes on answering every other request, at the same time or later, correctly. Cache commands take effect as requested and no more: clearing keeps pinned results unless all are to be cleared.",
 ["histories", "schedules", "fault_sequences"], "all sequences and interleavings of good and bad requests",
 "No test runs the server.",
 ["src/engine/Server.cpp", "src/engine/Operation.cpp", "src/util/Socket.h", "src/util/ConcurrentCache.h"],
 [("request loop and exception handling", "src/engine/Server.cpp"), ("failure propagation", "src/engine/Operation.cpp")],
 ["HTTP responses"], state=[("session", "cache and pinned results", "src/engine/Server.cpp")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
