CRATE.update({'C05':'front','C15':'front','C16':'front','C17':'front'})
TECH.update({
 'C05':'exhaustive enumeration of bounded regexes, classes and escapes; the automaton read from the file compared with a reference reader by complete product',
 'C15':'exhaustive enumeration of bounded token sequences, patterns, layouts and one-edit neighbours of grammar files against a reference reader',
 'C16':'exhaustive enumeration of bounded grammar files in and around the subset of the bootstrap reader against a reference reader',
 'C17':'exhaustive enumeration of bounded grammar files, layouts, conflicts and ties; spans and messages compared with where the rules were written and with a model automaton',
})

for i in 'C03 C04 C10 C11 C12 C13 C14 C20 C21'.split(): CRATE[i]='e2e'
TECH.update({
 'C03':'exhaustive enumeration of bounded token sets and of all texts over their character classes up to a length, run through the compiled generated lexer and compared with a reference tokenizer',
 'C04':'exhaustive enumeration of bounded token sets and of all texts and byte strings up to a length, run through the compiled generated lexer and compared with a reference tokenizer',
 'C10':'exhaustive enumeration of bounded grammars and of all token strings up to a length, run through the compiled generated parser; visitor traces checked against the derivations of the grammar',
 'C11':'exhaustive enumeration of bounded grammars and of all token strings up to a length, run through the compiled generated parser; visitor traces checked against the derivations of the grammar',
 'C12':'exhaustive enumeration of bounded grammars and of all token strings up to a length, run through the compiled generated parser; visitor traces checked against the derivations of the grammar',
 'C13':'exhaustive enumeration of bounded LL(1) grammars and of all token strings up to a length, run through the compiled generated parser; visitor traces checked against the parse trees of the grammar',
 'C14':'exhaustive enumeration of bounded grammars and of all token strings up to a length that are not sentences; errors compared with the viable prefixes of the grammar, all token source failures injected',
 'C20':'exhaustive enumeration of bounded grammars; table compared cell by cell with a model automaton and driven on all token strings up to a length against the generated parser',
 'C21':'exhaustive enumeration of bounded grammars, tag placements and token strings; callbacks compared with names and doc comments of the generated visitor',
})
CRATE.update({'C18':'e2e','C19':'e2e'})
TECH.update({
 'C18':'exhaustive enumeration of all single-fault mutants of base grammars and of bounded well-formed grammars x algorithm x language through the command line, with outcomes predicted by LL/LR model automata',
 'C19':'exhaustive enumeration of option sets x ways of writing them x bounded grammars, and of bounded source texts for debug, through the command line; file system and outcome compared with a model',
})

CRATE.update({'C23':'e2e','C24':'lexer','C25':'lexer'})
TECH.update({
 'C23':'exhaustive fault injection: every error, short call, interruption and kill at every open, read and write of the command line, and a full disk at every byte; exit status and files compared with an undisturbed run',
 'C24':'exhaustive enumeration of bounded template texts x substitutions, and of file names x generators, against a reference filling',
 'C25':'exhaustive enumeration of all small nondeterministic automata; complete product of the determinised automaton with the subset semantics of the original',
})

CRATE['C26']='e2e'
TECH['C26']='exhaustive enumeration of all names of a pool in every role and of all pairs of them, through the compiled generated lexers and parsers; types, callbacks and behaviour compared with the names and the grammar'

CRATE['C22']='e2e'
TECH['C22']='stateless exploration of the real command line under a controlled standard library and allocator: every single deviation of the order of every iteration over a hash map or set (all orders up to 4 (5) elements), pairs of them, uniform orders, hash keys and address policies; files and messages compared with the reference run'
