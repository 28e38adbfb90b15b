c("C01", "bounded exhaustive enumeration of call programs on the real generator, compiled and executed", "exploration")
c("C30", "explicit-state exploration of all query graphs and histories on the real macros against a monitor", "model_checking")
c("C31", "exhaustive enumeration of graphs and preference orders on the real sorter", "exploration")
c("C32", "exhaustive enumeration of token sequences, comment texts and capture arrangements on the real printer", "exploration")
c("C33", "exhaustive enumeration of interning histories on the real interner", "exploration")
c("C34", "explicit-state exploration of all event histories of the real error report against a model", "exploration")
c("C35", "exhaustive enumeration of feature names, lists and subsets on the real parser, and of option combinations on the real generator", "exploration")
c("C36", "exhaustive enumeration of format strings, symbol texts and reserved words on the real functions", "exploration")
c("C39", "exhaustive enumeration of option lists on the real parser and of option sets on the real generator", "exploration")
c("C11", "exhaustive enumeration of operation histories over Option and Result objects against a model and Rust's view of the same memory", "exploration")
c("C20", "exhaustive enumeration of byte strings, code points, string operations and literals over the compiled headers", "exploration")
c("C21", "exhaustive enumeration of slice sources, conversions, comparisons, slice histories and iterator histories", "exploration")
c("C22", "exhaustive enumeration of write histories and failing writes on the real formatter, from Rust and from C++", "exploration")
c("C23", "exhaustive enumeration of initializer combinator trees, field outcomes and destinations on the real code against a model of constructions and drops", "exploration")
c("C24", "explicit-state exploration of all slot, reconstruction and assignment histories with failing initializers and destructors against a model", "exploration")
c("C37", "exhaustive enumeration of all ordered pairs of a bounded type universe, names, lifetimes and chains of reference conversions, decided by the compiler and executed", "exploration")
c("C38", "exhaustive enumeration of requests, spellings and contexts on the real collector, resolver and macro", "exploration")
c("C02", "exhaustive enumeration of operation histories over objects of every owning shape on the real generated bindings, with an ownership ledger", "exploration")
c("C03", "exhaustive enumeration of type definitions compared between the compiled Rust and C++ sides, with writes on one side read on the other", "exploration")
c("C07", "exhaustive enumeration of reserved and special words x naming positions, of pairs of items that compete for a name, and of crate names and namespaces, on the real generator and compiled bindings", "exploration")
c("C08", "exhaustive enumeration of parameter lists and memory placements, executed on the real generated bindings", "exploration")
c("C09", "exhaustive enumeration of trait combinations, operators and conversions, decided by the compiler and executed", "exploration")
c("C10", "exhaustive enumeration of constants over types, values and places, in constant expressions and at run time", "exploration")
c("C04", "exhaustive enumeration of item dependency graphs, orders, placements and crates, decided by the compilers", "exploration")
c("C05", "exhaustive enumeration of arrangements of unsupported, private and supported items, generated twice and compared", "exploration")
c("C06", "exhaustive enumeration of hash-table orders (all orders of three keys) x allocator address orders x surroundings over a corpus of crates, and of all permutations of independent items, on the real generator", "exploration")
c("C25", "exhaustive enumeration of wrapper, slot and swap histories over C++ and generated Rust value types against a model", "exploration")
c("C14", "exhaustive enumeration of operation histories over a pool of callables on the real headers against a model and a ledger", "exploration")
c("C26", "exhaustive enumeration of bridge combinator trees, values and directions on the real encoders of both languages", "exploration")
c("C13", "exhaustive enumeration of event histories of futures and wakers on the real generated async functions against a model and ledgers", "exploration")
c("C15", "exhaustive enumeration of entry points, panic points, ways of panicking and calling contexts, each executed in its own process", "exploration")
