#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={'files':files,'mechanism':[{'name':m,'where':w} for m,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    a['observe_at']=observe or ['public API, from a separate crate that links the workspace crates']
    a['hook_needed']=None
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

CT=('table lookup by binary search','unic/char/property/src/tables.rs')
SAMPLE='The tests look up a few dozen code points; a wrong, missing, duplicated or mis-sorted table row or an off-by-one at a range edge elsewhere among 1.1 million scalar values stays invisible.'
p('C01','General category of every character is the Unicode 10.0.0 one',
 'For every Unicode scalar value, the reported general category is the one the Unicode 10.0.0 Character Database assigns (unassigned where the database has no entry). Every grouping predicate (letter, cased letter, mark, number, punctuation, symbol, separator, other) and the derived control, numeric and combining-mark queries agree with that category.',
 ['inputs'],'all 1,112,064 scalar values, every grouping predicate',SAMPLE,
 ['unic/ucd/category/src/category.rs','unic/ucd/category/tables/general_category.rsv','unic/ucd/common/src/control.rs','unic/ucd/common/src/numeric.rs','unic/ucd/normal/src/gen_cat.rs'],
 [CT,('category groupings','unic/ucd/category/src/category.rs'),('combining mark query, with and without the category feature','unic/ucd/normal/src/gen_cat.rs')])
p('C02','Bidi properties of every character and string are the Unicode 10.0.0 ones',
 'For every scalar value the bidi class (including the block-dependent defaults of unassigned code points), the mirrored flag and the bidi-control flag are those of Unicode 10.0.0. The per-character and per-string direction queries (left-to-right, right-to-left, explicit, category of class) are exactly what those classes imply: a string query holds precisely when some character of the string satisfies it.',
 ['inputs'],'all scalar values; all strings',SAMPLE+' String-level direction queries are only tried on a handful of strings.',
 ['unic/ucd/bidi/src/bidi_class.rs','unic/ucd/bidi/src/bidi_mirrored.rs','unic/ucd/bidi/src/bidi_control.rs','unic/ucd/bidi/tables/bidi_class.rsv'],
 [CT,('class lookup with default','unic/ucd/bidi/src/bidi_class.rs'),('char and str traits','unic/ucd/bidi/src/bidi_class.rs')])
p('C03','Case, alphabetic and white-space properties are the Unicode 10.0.0 ones',
 'For every scalar value the lowercase, uppercase, cased, case-ignorable, changes-when-(lower|upper|title|case-folded|case-mapped), alphabetic, alphanumeric and white-space answers are those of Unicode 10.0.0. Whichever interface asks (free function, property value, character method), the answer is the same.',
 ['inputs'],'all scalar values, all access paths',SAMPLE,
 ['unic/ucd/case/src','unic/ucd/case/tables','unic/ucd/common/src','unic/ucd/common/tables'],
 [CT,('binary property macro','unic/char/property/src/macros.rs')])
p('C04','Age and block of every character, and block listing, are Unicode 10.0.0',
 'For every scalar value the age (version of first assignment, or none) and the block (range and name, or none) are those of Unicode 10.0.0. Listing blocks yields every block once, in increasing and non-overlapping order, in agreement with the per-character query; ages and versions compare by one total order that agrees with equality.',
 ['inputs'],'all scalar values; all pairs and triples of ages and versions; the whole block listing',SAMPLE+' Comparison operators of ages are tried on single pairs only.',
 ['unic/ucd/age/src/age.rs','unic/ucd/age/tables/age_values.rsv','unic/ucd/block/src/block.rs','unic/ucd/block/tables/blocks.rsv','unic/common/src/version.rs'],
 [CT,('age ordering','unic/ucd/age/src/age.rs'),('block iterator','unic/ucd/block/src/block.rs'),('version type','unic/common/src/version.rs')])
p('C05','Normalization data (combining class, decompositions, composites) is 10.0.0',
 'For every scalar value the canonical combining class, decomposition type, one-step and full canonical and compatibility decompositions are those of Unicode 10.0.0, and for every pair of characters composition yields exactly the primary composite Unicode 10.0.0 defines, or none. Queries that offer predicates or names over these values agree with them.',
 ['inputs'],'all scalar values; all pairs of characters (every primary pair, plus pairs with every character on either side)',SAMPLE,
 ['unic/ucd/normal/src','unic/ucd/normal/tables'],
 [CT,('full decomposition','unic/ucd/normal/src/decomposition.rs'),('pairwise composition','unic/ucd/normal/src/lib.rs'),('combining class','unic/ucd/normal/src/canonical_combining_class.rs')])
p('C06','Character names and name aliases are the Unicode 10.0.0 ones',
 'For every scalar value the character name renders exactly as Unicode 10.0.0 defines it (explicit, ideograph and Hangul-syllable rules), is absent exactly where Unicode defines none, has the stated length, and no two characters share a name; comparison of names is a total order that agrees with equality. Name aliases per type, and the list of available types, are those of Unicode 10.0.0.',
 ['inputs'],'all scalar values, all alias types, pairs and triples of names for ordering',SAMPLE,
 ['unic/ucd/name/src/name.rs','unic/ucd/name/tables','unic/ucd/name_aliases/src/name_aliases.rs','unic/ucd/name_aliases/tables'],
 [('name derivation rules','unic/ucd/name/src/name.rs'),('alias tables','unic/ucd/name_aliases/src/name_aliases.rs'),CT])
p('C07','Grapheme, word and sentence break values are the Unicode 10.0.0 ones',
 'For every scalar value the grapheme-cluster-break, word-break and sentence-break property values are those of Unicode 10.0.0, with the specified default for characters that have no entry.',
 ['inputs'],'all scalar values, three properties',SAMPLE,
 ['unic/ucd/segment/src','unic/ucd/segment/tables'],[CT,('total lookups with default','unic/ucd/segment/src')])
p('C08','Identifier and pattern properties are the Unicode 10.0.0 ones',
 'For every scalar value the identifier-start, identifier-continue, XID-start, XID-continue, pattern-syntax and pattern-white-space answers are those of Unicode 10.0.0, through every access path. The closure guarantees of the standard follow: start implies continue, XID implies ID, and no pattern character is an identifier character.',
 ['inputs'],'all scalar values, six properties, all access paths',SAMPLE+' The exhaustive lexical tests need data files that are not in the tree.',
 ['unic/ucd/ident/src','unic/ucd/ident/tables'],[CT,('binary property macro','unic/char/property/src/macros.rs')])
p('C09','Emoji properties are those of the Emoji data for Unicode 10.0.0',
 'For every scalar value the emoji, emoji-presentation, emoji-modifier, emoji-modifier-base and emoji-component answers are those of the Emoji 5.0 data that accompanies Unicode 10.0.0, through every access path.',
 ['inputs'],'all scalar values, five properties, all access paths',SAMPLE,
 ['unic/emoji/char/src','unic/emoji/char/tables'],[CT,('binary property macro','unic/char/property/src/macros.rs')])
p('C10','Property value names are complete, distinct and parse back to their value',
 'For every character property offered, every value is listed exactly once, its abbreviated and long names are those of the Unicode property value aliases and are distinct among values, and parsing either name in any ASCII case gives back exactly that value, while parsing anything that is not a name fails. Display shows the human-readable name and honours formatting flags; the same contract holds for properties that users define with the provided property-definition macro.',
 ['inputs','programs'],'all values of all enumerated and binary properties, all case variants sampled, arbitrary non-name strings, user-defined properties',
 'Tests check a few names of a few values; swapped, duplicated or missing names of the other values and over-permissive parsing of the unbounded set of other strings are not covered.',
 ['unic/char/property/src/macros.rs','unic/char/property/src/range_types.rs','unic/char/property/src/property.rs'],
 [('property-definition macro','unic/char/property/src/macros.rs'),('value name traits','unic/char/property/src/range_types.rs')])
p('C11','Character data tables answer every lookup exactly as their rows say',
 'For any well-formed table (sorted, disjoint rows, of either the single-character or the range form) and any character, lookup returns the value of the row that contains the character and nothing otherwise; the membership and default-value lookups, and for the range form the containing-range lookup, agree with it. Iterating the table yields every row once, in order.',
 ['inputs','programs'],'all tables (random sizes from empty to thousands of rows, edge-adjacent rows, extremes of the code space) and all characters',
 'Tests probe a handful of keys on one or two tables; binary-search edge errors depend on table size, parity and key position.',
 ['unic/char/property/src/tables.rs'],[CT])
p('C12','Iterating a character range yields exactly its scalar values, from both ends',
 'For every character range, iteration yields exactly the Unicode scalar values between its ends, each once, in order and never a surrogate, from the front, from the back, or in any mixture of both; the reported remaining length is exact at every step. An exhausted iterator stays exhausted.',
 ['inputs','histories'],'all ranges, and all interleavings of front and back steps (including nth, last, count, folds, clones)',
 'Tests iterate a few fixed ranges in one direction; ranges that straddle or touch the surrogate gap and mixed-direction exhaustion are unbounded in number.',
 ['unic/char/range/src/iter.rs','unic/char/range/src/step.rs'],
 [('double-ended iterator','unic/char/range/src/iter.rs'),('step over the surrogate gap','unic/char/range/src/step.rs')])
p('C13','Range construction, length, membership and comparison agree with the set model',
 'Every way to build a character range (closed, half-open, open, from standard bounds, single character, all characters, the macro) denotes exactly the set of scalar values its name says. Length, emptiness, membership, comparison of a non-empty range with a character and equality agree with that set for every range and character.',
 ['inputs'],'all pairs of end points in all construction forms, all characters',
 'Tests use a few ASCII ranges; empty, inverted, single, gap-straddling and full ranges multiply across forms.',
 ['unic/char/range/src/range.rs','unic/char/range/src/macros.rs'],[('range type','unic/char/range/src/range.rs'),('construction macro','unic/char/range/src/macros.rs')])
p('C14','Parallel iteration over a range visits exactly what sequential iteration does',
 'For every character range and every way the parallel runtime splits and schedules it, parallel iteration visits exactly the same characters as sequential iteration, each exactly once, and ordered collection gives the same order. No data race occurs.',
 ['inputs','schedules'],'all ranges, all split points and worker schedules (pool sizes 1 to 16, minimum and maximum split lengths)',
 'Tests sum or collect a couple of ranges; the ranges after the surrogate gap and the split positions chosen by work stealing vary per run.',
 ['unic/char/range/src/par_iter.rs'],[('mapping of ranges to dense integers and back','unic/char/range/src/par_iter.rs')])
p('C15','Hangul syllables compose and decompose exactly as the standard defines',
 'For every character, the syllable test and full decomposition follow the Unicode Hangul algorithm, and for every pair of characters composition gives the syllable exactly for a leading consonant with a vowel or an LV syllable with a trailing consonant, and nothing otherwise. Decomposing and recomposing any syllable gives it back.',
 ['inputs'],'all 11,172 syllables, all characters, all pairs drawn from jamo, syllables, their neighbours and arbitrary characters',
 'Tests try a few syllables; neighbours of the jamo ranges in second position are a two-dimensional space.',
 ['unic/ucd/hangul/src/hangul.rs'],[('arithmetic composition and decomposition','unic/ucd/hangul/src/hangul.rs')])
p('C16','NFC, NFD, NFKC and NFKD of any string are what UAX #15 defines',
 'For every string, each of the four normalization iterators yields exactly the sequence of characters that the Unicode Normalization Algorithm defines with Unicode 10.0.0 data: full decomposition, stable canonical ordering by combining class, and canonical composition with blocking.',
 ['inputs'],'all strings; long combining runs, blocked sequences, Hangul, singletons, exclusions, runs at the start of text',
 'The conformance test that would check this needs data files that are absent, and even those hold only single characters and short sequences.',
 ['unic/normal/src/decompose.rs','unic/normal/src/recompose.rs','unic/normal/src/lib.rs','unic/ucd/normal/src'],
 [('buffered decomposition with canonical sort','unic/normal/src/decompose.rs'),('composition state machine','unic/normal/src/recompose.rs')])
p('C17','Normalization is idempotent, streaming-safe and preserves equivalence',
 'For every string, normalizing an already normalized text changes nothing, mixing forms obeys the standard identities, and canonically equivalent inputs give identical output. The result does not depend on how it is consumed (step by step, cloned midway, displayed, collected), on the iterator having been polled past its end, or on what precedes or follows a normalization boundary. Normalizing a stream of characters, each output is given after reading no more than the combining sequence it belongs to and a bounded number of characters after it.',
 ['inputs','histories'],'all strings and all ways to consume the iterators',
 'Tests collect whole outputs once for fixed inputs; resumption from any intermediate state is a product of input and consumption history.',
 ['unic/normal/src/decompose.rs','unic/normal/src/recompose.rs'],
 [('buffer of pending characters','unic/normal/src/decompose.rs'),('composition state machine','unic/normal/src/recompose.rs')],
 state=[('pending buffer','characters decomposed but not yet known to be in final order','unic/normal/src/decompose.rs'),('composition state','current composee, buffer, last combining class','unic/normal/src/recompose.rs')])
p('C18','Grapheme cluster boundaries are exactly those of UAX #29 for Unicode 10.0.0',
 'For every string, the grapheme clusters are exactly the segments between the extended grapheme cluster boundaries that UAX #29 (Unicode 10.0.0) defines. They are non-empty, in order, at character boundaries, and their concatenation is the string; the offsets reported with them are their positions.',
 ['inputs'],'all strings; all break-class sequences up to a bound, plus long random and adversarial ones',
 'The conformance file holds a few hundred mostly two-class strings; context of unbounded length (flag pairs, emoji modifiers, joiners, prepended marks) is not covered.',
 ['unic/segment/src/grapheme.rs'],[('pairwise rules plus backward context state','unic/segment/src/grapheme.rs')])
p('C19','Grapheme iteration from the back or in any mixture gives the same clusters',
 'For every string and every interleaving of forward and backward steps, the grapheme iterators yield each cluster of the string exactly once, front steps in order and back steps in reverse order, and then stay exhausted. The not-yet-visited remainder they expose is always exactly the text between the two ends.',
 ['inputs','histories'],'all strings times all interleavings of front and back steps',
 'Tests iterate wholly forward or wholly backward; interleavings are exponential in the number of clusters.',
 ['unic/segment/src/grapheme.rs'],[('two cursors, one per end','unic/segment/src/grapheme.rs')])
p('C20','The grapheme cursor answers the same however the text is split into chunks',
 'For every string, every division into chunks at character boundaries, and every cursor position, the grapheme cursor reports the same boundary and the same next and previous boundaries as on the undivided text, provided that each piece of context it asks for is supplied. It asks only for context that exists, needs finitely many requests, and never panics on a caller who follows the protocol. A chunk that does not contain the cursor is refused (or, when the answer is already known, answered correctly), never answered with a panic, and does not disturb later calls.',
 ['inputs','histories'],'all strings, all chunkings, all sequences of cursor calls (is boundary, next, previous, reposition) with the requested chunks or contexts supplied',
 'Tests supply one or two chunks for one flag example; chunk edges inside every rule context times call histories are unbounded.',
 ['unic/segment/src/grapheme.rs'],[('resumable cursor state','unic/segment/src/grapheme.rs'),('context protocol','unic/segment/src/grapheme.rs')],
 state=[('cursor state','classes before and after, pending context, parity of flags','unic/segment/src/grapheme.rs')])
p('C21','Word boundaries are exactly those of UAX #29 for Unicode 10.0.0',
 'For every string, the word-bounded segments are exactly those between the word boundaries that UAX #29 (Unicode 10.0.0) defines. They are non-empty, in order, at character boundaries, concatenate to the string, and the reported offsets are their positions; the filtered word iterator yields exactly the segments that satisfy the filter.',
 ['inputs'],'all strings; all break-class sequences up to a bound, plus long random and adversarial ones; all filters',
 'The conformance file samples short strings; lookahead and lookbehind across ignorable characters is unbounded.',
 ['unic/segment/src/word.rs'],[('forward state machine','unic/segment/src/word.rs')])
p('C22','Word segmentation from the back or in any mixture gives the same segments',
 'For every string and every interleaving of forward and backward steps, the word-bound iterators yield each segment of the string exactly once, front steps in order and back steps in reverse order, then stay exhausted, and the not-yet-visited remainder is exactly the text between the two ends. Filtering and offsets behave the same in both directions.',
 ['inputs','histories'],'all strings times all interleavings',
 'Tests iterate wholly forward or wholly backward on the sample file; the two directions are separate state machines.',
 ['unic/segment/src/word.rs'],[('forward and backward state machines','unic/segment/src/word.rs')])
p('C23','Bidi paragraphs partition the text, with the level rules P2 and P3 give',
 'For every text and every choice of default direction, bidi analysis splits the text into paragraphs exactly after each paragraph separator, the paragraphs tile the text in order, and each paragraph level is the given default or, without one, the level of its first strong character outside isolates. The recorded class of every byte is the class of its character, with first-strong isolates resolved as the standard says.',
 ['inputs'],'all texts, all default levels',
 'The bidi conformance files are absent from the tree; unit tests use about twenty short strings.',
 ['unic/bidi/src/bidi_info.rs'],[('paragraph splitting and first-strong detection','unic/bidi/src/bidi_info.rs')])
p('C24','Bidi embedding levels of every character follow rules X1 to I2 of UAX #9',
 'For every text and default direction, the embedding level of every character not removed by rule X9 is the one that rules X1-X8, X10, W1-W7, N1-N2 and I1-I2 of UAX #9 give (the bracket-pair rule N0 is documented as not implemented). Levels are uniform over the bytes of a character and never exceed the implicit maximum; there are right-to-left levels exactly when the analysis says so.',
 ['inputs'],'all texts; all bidi-class sequences up to a bound, deep and overflowing embeddings, isolates, long random texts',
 'The bidi conformance files are absent from the tree; unit tests use a few hand-written class sequences and carry known to-dos.',
 ['unic/bidi/src/explicit.rs','unic/bidi/src/prepare.rs','unic/bidi/src/implicit.rs','unic/bidi/src/bidi_info.rs'],
 [('explicit levels and directions','unic/bidi/src/explicit.rs'),('isolating run sequences','unic/bidi/src/prepare.rs'),('weak, neutral and implicit resolution','unic/bidi/src/implicit.rs')],
 state=[('directional status stack','embedding level, override and isolate status','unic/bidi/src/explicit.rs')])
p('C25','Reordering a line applies L1 and L2 and only permutes its characters',
 'For every analysed text and every line inside a paragraph, the visual runs tile the line, each run has one level, and they come in the order that rule L2 gives after the level resets of rule L1; the reordered line is the concatenation of the runs with right-to-left runs reversed by character. Hence it contains exactly the characters of the line, and a text without right-to-left characters is returned unchanged.',
 ['inputs'],'all texts, all lines (any sub-range of any paragraph at character boundaries), all default levels',
 'Tests reorder whole paragraphs at the start of the text; lines at other offsets, in later paragraphs and with multi-byte characters are not covered.',
 ['unic/bidi/src/bidi_info.rs'],[('visual runs and line reordering','unic/bidi/src/bidi_info.rs')])
p('C26','Bidi levels stay within bounds and their arithmetic follows UAX #9',
 'Every way to build or modify an embedding level either gives exactly the arithmetic result or fails and leaves the level unchanged, so that explicit construction never exceeds the explicit maximum and no level ever exceeds the implicit maximum. Direction, next-embedding and lowest-right-to-left computations, comparison and conversions agree with the number, and serialized levels read back equal while invalid serialized numbers are rejected.',
 ['inputs','histories'],'all 256 byte values, all operations and operands, all sequences of operations',
 'Tests try boundary values of some operations; sequences of operations and deserialization of invalid input are not covered.',
 ['unic/bidi/src/level.rs'],[('checked level arithmetic','unic/bidi/src/level.rs')])
p('C27','Punycode encodes and decodes exactly as RFC 3492, and round-trips',
 'For every string of Unicode characters, Punycode encoding succeeds with the RFC 3492 output unless the arithmetic limits of the RFC are exceeded, and decoding that output gives back the string. For every input, decoding gives the RFC 3492 result or reports failure exactly where the RFC procedure fails, never a wrong string and never a panic.',
 ['inputs'],'all strings (including very long and extreme code points) and all decoder inputs, valid or malformed',
 'Tests use the sample strings of the RFC; overflow, malformed digits and delta wrap-around are not sampled.',
 ['unic/idna/punycode/src/lib.rs'],[('bootstring encoder, decoder and bias adaptation','unic/idna/punycode/src/lib.rs')])
p('C28','The IDNA mapping of every character is that of UTS #46 for Unicode 10.0.0',
 'For every scalar value, the IDNA mapping status (valid, ignored, mapped, deviation, disallowed and the two STD3 variants) and the replacement text are those of the UTS #46 mapping table for Unicode 10.0.0.',
 ['inputs'],'all scalar values',SAMPLE+' The IDNA conformance file is absent.',
 ['unic/idna/mapping/src/mapping.rs','unic/idna/mapping/tables/idna_mapping.rsv'],[CT,('mapping lookup','unic/idna/mapping/src/mapping.rs')])
p('C29','Domain conversion to Unicode and ASCII follows UTS #46 for every input',
 'For every domain string and every choice of options (transitional, STD3 rules, DNS length check), conversion to Unicode gives the text UTS #46 defines (mapping, normalization, label decoding) and reports an error exactly when a validity criterion that the library documents is broken; conversion to ASCII succeeds exactly when there is no error and gives the Punycode form of that text. Successful results are stable: they are pure ASCII, respect the DNS lengths when asked to, and convert back and forth without change unless decoding reveals yet another encoded label.',
 ['inputs','configurations'],'all domain strings (raw, encoded, mixed, malformed, over-long, bidi) times all option combinations',
 'The IDNA conformance file is absent from the tree; doc examples cover a few inputs.',
 ['unic/idna/src/process.rs'],[('mapping, normalization and validation pipeline','unic/idna/src/process.rs'),('bidi rule','unic/idna/src/process.rs'),('DNS length check','unic/idna/src/process.rs')])
p('C30','No operation of the public API causes undefined behaviour',
 'Whatever inputs are given to the safe public API, no execution performs an out-of-bounds or misaligned access, creates an invalid character or invalid UTF-8 string, or otherwise triggers undefined behaviour, in particular in the parts that skip validity checks for speed. This holds under an undefined-behaviour interpreter and with address-checking instrumentation.',
 ['inputs','schedules'],'all inputs to range iteration (sequential and parallel), Hangul arithmetic and Punycode output, and to every algorithm that calls them',
 'Ordinary tests do not observe undefined behaviour: an invalid character value or string usually goes unnoticed until much later.',
 ['unic/char/range/src/step.rs','unic/char/range/src/iter.rs','unic/char/range/src/par_iter.rs','unic/ucd/hangul/src/hangul.rs','unic/idna/punycode/src/lib.rs'],
 [('unchecked character construction','unic/char/range/src/step.rs'),('unchecked syllable construction','unic/ucd/hangul/src/hangul.rs'),('unchecked UTF-8 construction','unic/idna/punycode/src/lib.rs')])
p('C31','Text algorithms never panic and finish in bounded steps on any input',
 'For every string, however hostile (empty, very long, all code points, unbalanced or deeply nested bidi controls, endless combining runs, malformed domains), every text algorithm offered (normalization, segmentation in both directions, bidi analysis and reordering, IDNA, Punycode, property queries) returns without panicking or arithmetic overflow. The number of items produced is bounded by the length of the input times a constant the standard gives.',
 ['inputs'],'all strings up to the lengths tried, all algorithms, with overflow and debug checks on',
 'Tests run each algorithm on benign samples; panics lurk in index arithmetic at unusual combinations.',
 ['unic/normal/src','unic/segment/src','unic/bidi/src','unic/idna/src','unic/idna/punycode/src/lib.rs'],
 [('index arithmetic over byte offsets','unic/bidi/src/bidi_info.rs'),('bounded state machines','unic/segment/src'),('checked arithmetic','unic/idna/punycode/src/lib.rs')])
p('C32','All queries and algorithms give the same answers when used concurrently',
 'Any number of threads may use every query and algorithm at the same time, on shared or separate inputs, and each gets exactly the result it would get alone; results never depend on call history, order or thread. No data race occurs, and the public types that hold no thread-bound data can be moved to and shared with other threads.',
 ['schedules','histories'],'all interleavings of concurrent calls over shared tables, iterators and analysed texts (as many as stress and the race detector reach)',
 'Tests call one function at a time from one thread.',
 ['unic/char/property/src/tables.rs','unic/bidi/src/bidi_info.rs','unic/normal/src/lib.rs','unic/segment/src/lib.rs','unic/idna/src/process.rs'],
 [('immutable static tables','unic/char/property/src/tables.rs'),('borrow-only analysed text','unic/bidi/src/bidi_info.rs')])
p('C33','The command-line tools echo and inspect any text faithfully',
 'For every text, the echo tool reads it in any of its input forms (plain, code points, UTF-8 or UTF-16 hexadecimal) and writes it in any of its output forms so that reading the output back in the matching form gives the same text. The inspector prints exactly one row per character of its input with that character, its code point and its own name and properties.',
 ['inputs','configurations'],'all texts, all pairs of input and output forms, text split over any number of arguments',
 'Tests run the tools on a few fixed strings; the pairs of forms times arbitrary text are unbounded.',
 ['apps/cli/src/parsers.rs','apps/cli/src/writers.rs','apps/cli/src/bin/unic-echo.rs','apps/cli/src/bin/unic-inspector.rs'],
 [('input parsers','apps/cli/src/parsers.rs'),('output writers','apps/cli/src/writers.rs')],
 observe=['standard output and exit status of the built binaries','library API of the CLI crate'])
p('C34','Basic character predicates and notation are right for every character',
 'For every scalar value, the noncharacter and private-use answers are those of the standard, and the code point notation displays as U+ followed by the upper-case hexadecimal number with at least four digits.',
 ['inputs'],'all scalar values, all access paths',
 'Tests sample some code points around plane ends.',
 ['unic/char/basics/src'],[('plane arithmetic','unic/char/basics/src/noncharacter.rs'),('notation','unic/char/basics/src/notation.rs')])
p('C35','Independent components agree with each other on every character and string',
 'All components report the same Unicode version (10.0.0), and where two components expose related facts they never contradict each other: segmentation and normalization behave as the published property values of their characters imply, alphanumeric is alphabetic or numeric, every assigned character has an age and category, names exist exactly for assigned graphic and format characters, IDNA-mapped text is stable under mapping and normalization, and the umbrella crate exposes the same behaviour as the individual crates.',
 ['inputs','configurations'],'all scalar values and strings, all pairs of related properties, both the umbrella and the individual crates',
 'Each crate is tested alone; cross-component consistency over the whole code space is not tested.',
 ['unic/src/lib.rs','unic/ucd/src/lib.rs','unic/ucd','unic/idna/mapping','unic/emoji/char'],
 [('re-exports','unic/src/lib.rs'),('generated tables from one data version','unic/ucd/version/src/lib.rs')])
p('C36','The table generator states exactly what its source files say',
 'For every well-formed set of Unicode Character Database, IDNA and Emoji source files, the table generator (unic-gen) finishes, and each table it writes gives every scalar value exactly the value the sources give it (documented derivations and defaults included: general category, combining classes, decompositions, primary composites without the composition exclusions, bidi classes with the defaults of unlisted code points, names, aliases, ages, blocks, break properties, binary properties, IDNA mappings, conformance test data), with rows in strictly ascending order without overlap, so that lookups by binary search find them. Surrogate code points never become rows. The same sources always give the same bytes; naming components regenerates exactly the tables directories of those components (old files in them go, everything else stays), an invalid component name is refused before anything is written, and for Unicode 10.0.0 the generated tables are the ones committed in the repository.',
 ['inputs','configurations'],'all well-formed source data sets (any assignment of properties to code points, any grouping into lines and ranges), all selections of components',
 'The unit tests parse a handful of lines and print two small tables; whole data sets, odd ranges and the interplay of several source files are not tested, and nothing checks that the committed tables still follow from the sources.',
 ['gen/src/source','gen/src/writer','gen/src/main.rs'],
 [('source parsers','gen/src/source/ucd/unicode_data.rs'),('range compression','gen/src/writer/utils/tables/range.rs'),('derivations','gen/src/writer/ucd/normal.rs'),('output directories','gen/src/writer/utils/mod.rs')],
 observe=['files written by the unic-gen binary in a scratch directory','its exit status'])
p('C37','Values of public types compare, hash, copy and display coherently',
 'For the values of every public type: two values are equal exactly when everything that can be observed of them is equal (character ranges: when they have the same members), equal values hash alike, and every ordering offered is total and the same by every operator (versions, levels and combining classes by number; of two ages the one from the earlier version is greater). A copy equals its original, and a copy of an iterator or cursor continues exactly as the original would, neither affecting the other. Default values are those of unassigned characters, or zero. Displaying a value gives the same text each time (numbers and versions in plain decimal), leaves the value unchanged, and into a writer that fails at any point reports that failure with only a prefix of the text written.',
 ['inputs','histories'],'all pairs of values of each type (sampled where there are many), copies taken at every point of an iteration, writers that fail at every byte of every text',
 'Tests compare a few values with assert_eq and format into strings that never fail; copies in the middle of an iteration and failing writers are not exercised.',
 ['unic/ucd/name/src/name.rs','unic/ucd/age/src/age.rs','unic/common/src/version.rs','unic/char/range/src/range.rs','unic/bidi/src/level.rs','unic/bidi/src/bidi_info.rs','unic/normal/src/decompose.rs','unic/normal/src/recompose.rs','unic/segment/src/grapheme.rs','unic/segment/src/word.rs','unic/char/basics/src/notation.rs','unic/char/property/src/macros.rs'],
 [('hand-written comparisons','unic/ucd/age/src/age.rs'),('hand-written displays','unic/ucd/name/src/name.rs'),('iterator and cursor state','unic/segment/src/grapheme.rs')])
p('C38','Every build of the library gives the same answers',
 'What any query or algorithm answers does not depend on how the library was built: debug or release, with or without overflow checks and debug assertions, optimised for speed or size, with or without the optional features (standard library support, parallel iteration, category lookup in the normalization data, serialisation, unstable iterator traits), by the minimum or a newer toolchain, for machines of another word size or byte order. Each build answers every question exactly as every other build does.',
 ['inputs','configurations'],'all scalar values and strings, all histories of range iterators and level arithmetic, all build configurations',
 'The tests run in one configuration, debug with overflow checks, on one machine.',
 ['unic/char/range/src','unic/ucd/normal/src/gen_cat.rs','unic/ucd/hangul/src/hangul.rs','unic/ucd/name/src/name.rs','unic/bidi/src/level.rs','unic/bidi/src/prepare.rs','unic/idna/punycode/src/lib.rs','unic/normal/src','unic/segment/src'],
 [('conditional code','unic/ucd/normal/src/gen_cat.rs'),('assertions that only debug builds run','unic/ucd/name/src/name.rs'),('integer arithmetic','unic/idna/punycode/src/lib.rs')])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
