# per property: T[id] technique, N[id] level note, LEVEL[id]
T["C08"] = "TLC judges recorded answers of text queries of the real programs against spec/Text.tla (trace validation by spec/TextTrace.tla)"
N["C08"] = ("Every answer of the explored corpora and queries is one the specification allows (which of more than k matching records "
            "are kept is left open). Trusted: TLC, the rendering of corpora and queries and the parsing of answers in checks/c08.py.")
T["C09"] = TRACE + "; sessions with histories, failing queries, cache commands, pinning, tiny caches and concurrent clients"
T["C10"] = TRACE + "; SparqlGrammar.tla, a pushdown machine, decides by TLC whether a corrupted text is still a query"
N["C10"] = ("Every variant of a query gets the answer of the specification; a corrupted text may only be answered if the grammar accepts "
            "it. Variants and corruptions are generated. Trusted: TLC, the tokens that checks/c10.py makes of a text.")
T["C11"] = "TLC judges recorded scans of real indexes (every access path) against spec/Index.tla (trace validation by spec/IndexTrace.tla)"
N["C11"] = ("Every scan of the explored indexes returns exactly the triples the specification derives from the input; generated data with "
            "blocks, batches and relations from one to many blocks (hooked limits).")
T["C12"] = TRACE + "; the same data and queries with every kind of storage"
T["C13"] = ("A pushdown machine over Turtle tokens (spec/Turtle.tla) derives the triples of a document; TLC compares them with what the real "
            "index builder loaded (trace validation by spec/TurtleTrace.tla)")
N["C13"] = ("The loaded triples equal the derived ones up to renaming of blank nodes, for generated documents, every parser and read buffers "
            "of a few bytes up to the whole file. Trusted: TLC, the rendering of tokens as text in checks/c13.py.")
T["C14"] = "TLC judges recorded answers about numbers and dates digit by digit against spec/Values.tla (trace validation by spec/ValuesTrace.tla)"
N["C14"] = "Generated numbers and dates (close pairs, extreme exponents); every listing, comparison, order and sum is as the specification says."
T["C15"] = ("TLC checks spec/CCache.tla (all interleavings of a small instance); a deterministic scheduler explores the interleavings of the "
            "real class and TLC validates every recorded history against the specification (spec/CCacheTrace.tla)")
N["C15"] = ("Small scenarios are explored systematically up to a preemption bound, larger ones at random; the real ConcurrentCache runs "
            "unmodified on intercepted mutexes and condition variables. Trusted: TLC and harness/sched.cpp.")
T["C16"] = ("TLC enumerates the state graph of spec/LruCache.tla; paths covering its transitions are replayed on the real LRU cache, and random "
            "histories are validated against it (spec/LruTrace.tla)")
N["C16"] = "All transitions of the enumerated instances are replayed; larger instances by random histories. Trusted: TLC, harness driver."
T["C17"] = ("TLC checks spec/MemLimit.tla; a deterministic scheduler explores threads that allocate from the real limit, histories are "
            "validated by TLC (spec/MemLimitTrace.tla); container histories against spec/MemUse.tla")
N["C17"] = "Small scenarios systematically, larger ones at random. Trusted: TLC and harness/sched.cpp."
T["C18"] = ("A deterministic scheduler explores the interleavings of the real batched pipelines; TLC validates the recorded runs against "
            "spec/Pipeline.tla")
N["C18"] = "Short pipelines systematically up to a preemption bound, others at random. Trusted: TLC and harness/sched.cpp."
T["C19"] = ("TLC enumerates the state graph of spec/MmapVec.tla; paths covering its transitions are replayed on real arrays on disk, random "
            "histories are validated (spec/MmapVecTrace.tla)")
N["C19"] = "All transitions of the enumerated instances are replayed; larger instances by random histories. Trusted: TLC, harness driver."
T["C20"] = ("TLC enumerates the state graph of spec/IdTable.tla; paths covering its transitions are replayed on real result tables, random "
            "histories are validated (spec/IdTableTrace.tla)")
N["C20"] = "All transitions of the enumerated instances are replayed; larger instances by random histories. Trusted: TLC, harness driver."
T["C21"] = TRACE + "; every query in each output format and with row limits"
T["C22"] = ("TLC judges recorded requests and answers of a running server against spec/Server.tla (trace validation by spec/ServerTrace.tla): one "
            "client after another, then several at a time")
N["C22"] = ("Every request of the explored sessions ends as the specification allows and every good query gets its rows, with up to six clients, "
            "small memory and time limits, malformed requests and clients that hang up. Trusted: TLC, the client in checks/c22.py.")
