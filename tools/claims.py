NOTES='Every check is a static analysis of /repo (go/packages + go/ssa of x/tools v0.52.0); nothing of /repo is executed.'
CLAIMS={
'C01':('abstract interpretation (linear relations, uninterpreted functions, list summaries)','other','For every valid text: each capture appended starts where the previous ended and does not go backwards, and the list ends with the text, at every return without error. Trusts the models of regexp, regexp2, strings and utf8 and the analyzer itself. Texts are valid UTF-8.'),
'C02':('abstract interpretation (linear relations, uninterpreted functions, list summaries)','other','Each capture flagged as a match is the next match of the pattern (one accepted rune, or the next match reported by the expression built from the argument), and the others contain none; all matches are reported. What the expression matches is taken from regexp/regexp2.'),
'C03':('abstract interpretation (linear relations, uninterpreted functions, list summaries)','other','TransformRange, FromString and Slice are analysed for arbitrary valid scripts, texts and ranges: as many alignments as bytes at every return. Editing operations only change the text through TransformRange, and only analysed functions write these fields. New with arguments of the caller is outside.'),
'C04':('abstract interpretation (linear relations, uninterpreted functions, list summaries)','other','Decided through the exact contract: new strings are aligned with themselves, a transform splices alignments of the runes consumed, in order, between those around the range, and a slice moves those of its range; order and bounds follow by induction. Conversions give exactly the range spanned.'),
'C05':('abstract interpretation (linear relations, uninterpreted functions, list summaries)','other','Original text and shift after every operation of NormalizedString equal those before, for arbitrary strings and arguments; the shift of a slice is that of its source plus the start of its original text; existing alignment arrays are never written in place; closed world of writers.'),
'C06':('abstract interpretation (linear relations, uninterpreted functions, list summaries)','other','Range getters, conversions and slicing on arbitrary strings and arbitrary integer ranges: no index, slice or make can panic, results are the ranges asked for, slicing succeeds on rune boundaries only, ranges inside the text are not refused; the result of converting an original range is exact, shown for an arbitrary witness byte. Arithmetic overflow of huge ranges is ignored.'),
'C07':('abstract interpretation (linear relations, uninterpreted functions, list summaries)','other','Each edit builds a script whose runes are exactly the expected ones in order and calls TransformRange, whose contract (script in place of the range) is verified for arbitrary valid scripts. Predicates are assumed deterministic.'),
'C08':('abstract interpretation (linear relations, uninterpreted functions, list summaries)','other','TransformRange gives each rune of an arbitrary valid script the alignment of the rune it consumes, or of the byte before; each edit consumes, for each surviving rune, that very rune.'),
'C09':('abstract interpretation (linear relations, uninterpreted functions, list summaries)','other','Split for an arbitrary list of adjacent captures and each of the five behaviours: the slices returned are exactly the pieces the behaviour asks for, in order, none missing. Captures that are not empty are assumed (an empty text has one empty capture); what Slice returns is C04 to C06.'),
'C10':('abstract interpretation (linear relations, uninterpreted functions, list summaries)','other','Split, Normalize and Tokenize for arbitrary lists of splits and callbacks that may fail: calls visit exactly the splits without tokens in order, stop at an error and return it; the new list holds every tokenized split and every piece that is not empty, in order; a failing split writes nothing. Normalized strings are opaque here.'),
'C11':('abstract interpretation (linear relations, uninterpreted functions, list summaries)','other','IntoEncoding for arbitrary splits and tokens: element n of each column is that of token n of all splits, the columns are as long as there are tokens, and an error is returned exactly if a split has no tokens.'),
'C12':('abstract interpretation (linear relations, uninterpreted functions, list summaries)','other','Offsets of element n are those of token n converted by its own split (conversion opaque, decided in C06) plus the position of that split, or the own ones if the conversion fails; byte splits are those of the splits in order; the position recorded by Slice and the conversion of normalized ranges are decided too.'),
'C18':('abstract interpretation (maps as uninterpreted functions, effect traces)','other','From an arbitrary vocabulary whose two directions agree, AddTerm changes nothing if the term is there and else gives it one free id (the size if free) in both directions; lookups and size report what is there; a file gives exactly its entries, or an error if it cannot be read or two share an id. Closed world of writers.'),
'C19':('abstract interpretation (linear relations, effect traces)','other','MergeMapFromFile for an arbitrary sequence of lines, vocabulary and non-negative prefix length, with reads that may fail: each line is a version line or sets exactly one merge with the next rank and the ids of its terms, every other line and every failing read gives an error and no table, nothing panics; Get and Set use the exact pair. What comes with an error of closing the file is left open. Trusts models of bufio, strings and os.'),
'C20':('typestate dataflow: path-sensitive error propagation','other','Every call that can report an error (or a mandatory ok flag) is followed on every path to a return that reports it; what a lookup gives is used only where it is known to have been found. Trusts the SSA construction and the documented nil-error contracts of the standard library.'),
'C21':('effect and ownership analysis (points-to regions)','other','No store, map update, append, copy or mutating library call reachable from the use of a component targets component or package-level memory. User-supplied predicates and patterns are outside.'),
'C22':('effect analysis: enumeration of nondeterminism sources','other','Every source of nondeterminism in the module is enumerated; map loops must commute, random draws must be guarded by dropout > 0.'),
'C23':('abstract interpretation of the package initialization and of the pre-tokenizer (constant tables, list summaries)','other','The table built at package initialization is computed from its source, entry by entry, and compared with the reference; the transform of the pre-tokenizer is analysed for arbitrary texts: one entry of the table per byte, in order, at the change that aligns it with its rune.'),
'C24':('abstract interpretation (linear relations, uninterpreted functions, exact rune sets)','other','The predicate of every class is followed on the set of all runes (decided exactly from unicode range tables and comparisons), and compared with the documented set; the operation using it is analysed for arbitrary texts. The unicode tables of the toolchain are trusted.'),
'C25':('abstract interpretation (linear relations, uninterpreted functions, effect traces)','other','Every constructor is analysed with symbolic options and every component with symbolic fields: the trace of operations on the string equals the documented one under each valuation. The models are built by their constructors from symbolic options, and every lookup, unknown token and dropout is checked against them; default models equal the general ones with the documented defaults.'),
'C26':('abstract interpretation (linear relations, uninterpreted functions, effect traces)','other','PreTokenize of every pre-tokenizer on arbitrary strings: the trace of normalizations and splits (pattern, behaviour) applied to every split equals the documented one, errors are passed on. What Split does for each behaviour is C09.'),
'C27':('abstract interpretation (linear relations, uninterpreted functions, list summaries)','other','IsRuneBoundary for arbitrary texts and indexes, the offset map for arbitrary texts, and each conversion for arbitrary ranges: boundaries, entries and results are exactly those of the rune structure of the text. Valid UTF-8.'),
'C13':('abstract interpretation (linear relations, uninterpreted functions, list summaries)','other','The symbols Add is given, for arbitrary texts and the four configurations of unknown token and fusion, have the byte lengths of the runes they stand for, merges keep the sum of lengths, and token offsets are the running sums from 0 to the length of the text. One known finding: without unknown token, characters out of vocabulary are dropped.'),
'C14':('abstract interpretation (linear relations, uninterpreted functions, list summaries)','other','MergeAll on an arbitrary word: every listed pair of neighbours becomes a candidate; one iteration from any well-linked word merges exactly the pair the table lists, updates ids, lengths and links, and makes the two new pairs candidates; what remains is the symbols that are not empty. Less, Swap, Push, Pop of the queue are verified; container/heap is trusted. Links of other symbols are assumed well-formed at the start of an iteration, which every iteration preserves.'),
'C15':('abstract interpretation (linear relations, uninterpreted functions, list summaries)','other','Every vocabulary lookup of BPE, for arbitrary texts: the rune alone, behind the prefix unless first and followed by the suffix if last; what is added for unknown runes under the four configurations, and when an error is returned.'),
'C16':('abstract interpretation (linear relations, uninterpreted functions, list summaries)','other','WordPiece on arbitrary texts, vocabularies and limits: each lookup is the next shorter candidate by whole runes, tokens start where the previous ended, and an unknown token over the whole text, or an error, is given exactly if a position has no match or there are too many characters.'),
'C17':('abstract interpretation (linear relations, uninterpreted functions, list summaries)','other','Every token of BPE and WordPiece pairs an id and a value one vocabulary lookup gave for the other, for arbitrary texts and vocabularies. Agreement of the two directions of the vocabulary is C18.'),
'C28':('abstract interpretation (linear relations, uninterpreted functions, list summaries)','other','OriginalAlignments on an arbitrary string whose alignments are ordered and, for neighbours, equal or disjoint (this follows by induction from the contract decided for C04): the entry of every original byte runs from the first normalized byte whose alignment ends behind it to the first whose alignment starts behind it, there is one entry per byte, and the string is unchanged.'),
'C29':('equivalence of prioritised automata built from the constant expressions','other','The values of the two default expressions, and those the default constructors use, are evaluated from the source and compared with the reference ones: the same match at every position of every text, over all runes. Classes are those of the engine: its word class leaves out spacing marks, where other engines include them. Where pieces are cut is C09 and C26.'),
'C30':('abstract interpretation (linear relations, uninterpreted functions, list summaries)','other','Structure of the dropout test only: one draw from the global source per candidate when dropout is positive, none otherwise; a candidate is dropped exactly when the draw is below the dropout, dropped candidates come back once one is taken. That the draws are uniform and independent is taken from math/rand.'),
'C31':('ranking functions: loop structure in SSA form, and abstract interpretation (linear relations) for the other loops','other','Every loop of the module ends by its form (elements of something finite, numbers that come closer, keys of a map), or by a difference of two of its quantities that falls with every iteration and is bounded, proved from the loop invariants of the abstract interpretation; the candidates of a word are counted as they are taken and added. No function calls itself, no instruction blocks. Library functions and callbacks of the caller are assumed to end, and regular expressions to report finitely many matches.'),
}
NA={'C32':'A bound on time and memory is a bound on runtime quantities: it depends on how often the queue of merges is used, how many changes a normalization makes, how the regular expression engines (one of them backtracks) behave, and how the garbage collector and append grow memory. No static cost analysis in reach bounds these for Go; the structural part that can be decided, that every loop ends, is C31.'}
