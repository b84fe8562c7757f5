NA = []
BND = 'Every input within the stated bounds is covered symbolically and the verdict is the solver\'s; nothing is claimed beyond the bounds. Trusts clang\'s IR, the engine and the modelled C library; counterexamples are confirmed on a native build.'
p('C01', 'Erasure words remove exactly the words they refer to',
  'For every text, after preprocessing the token list contains exactly the words that the erasure words leave: si removes the one preceding word (a quoted word or text counts for all the words it consists of: two for zo, three for lo\'u, four for zoi and la\'o, and with too few si the quotation is marked as defective), sa removes everything back to and including the most recent word of the same kind as the word following it (or to the start), su removes back to and including the last ni\'o, lu, tu\'e or to (or to the start), and su su removes everything before it. Erasures are carried out in the order si, then sa, then su, each from left to right; the remaining words keep their order and identity.',
  ['inputs'], 'all texts made of sumti words, brivla, names, opening words, quotations and erasure words',
  'the effect depends on the whole sequence of words; tests sample a few sequences',
  ['erasure.c', 'lex2.c'], [('erasure passes', 'erasure.c'), ('token list', 'lex2.c')], BND)
p('C02', 'Quotation, zei and bu take exactly the words they belong to',
  'For every text, zo quotes exactly the one word after it whatever that word is; lo\'u quotes everything up to the first following le\'u; zoi and la\'o quote the verbatim text between the delimiter word and its next occurrence; zei joins the complete words (or quotations) on both of its sides, chains included, into one brivla; bu turns the complete word before it into one letter word; these are resolved before or after si as the preprocessing order zo, lo\'u, si, sa, su, zei, bu states. No word outside a quotation is lost or captured, no quoted word is analysed as a word of the text, and a quotation, zei or bu whose words are missing is an error, never a crash.',
  ['inputs'], 'all texts made of ordinary words, zo, lo\'u, le\'u, si, zei, bu, zoi and la\'o, and all quoted bodies',
  'the outcome depends on how the constructs are nested and ordered over the whole text; tests sample a few',
  ['lex2.c', 'lex1.c', 'erasure.c', 'output.c'], [('quotation passes', 'lex2.c'), ('zoi text capture', 'lex1.c'), ('si', 'erasure.c')], BND)
p('C03', 'Raw text becomes words independently of layout, with exact positions',
  'For every raw input, white space, line breaks, full stops, repeated separators, comments in (nested) parentheses and characters that are not part of Lojban only separate words: the analysis is the same as that of the words written with single spaces; digits and the colon stand for the cmavo they denote; a comment is never analysed and one that is not closed is reported. The line and column printed with every bad word, bad cmavo and misparsed token is the position of that word\'s first character in the file, also inside cmavo compounds, after comments, digits and line breaks.',
  ['inputs'], 'all raw character sequences within the stated alphabet and length around known words',
  'positions and word boundaries depend on every preceding character of the file',
  ['lex1.c', 'lex2.c', 'rpc2x.y', 'errorscan.c', 'main.c'], [('character loop and positions', 'lex1.c'), ('syntax error report', 'rpc2x.y')], BND)
p('C04', 'Bracketed output and parse trees show every word, once, in a nested order',
  'For every accepted text the bracketed output and the -t/-tf trees contain every word of the text exactly once, unchanged and in order; brackets are balanced, closed by the matching kind and number, the tree\'s lines form one tree; both views show the same grouping; the choice of view never changes whether a text is accepted. For every rejected text nothing is shown on standard output, the error is reported and the exit status is non-zero; every text generated by the grammar templates is accepted.',
  ['inputs'], 'all texts from the phrase templates and all short texts over the vocabulary',
  'grouping bugs show only for particular combinations of constructs and indicators',
  ['tree.c', 'nodes.h', 'rpc2x.y', 'functions.c', 'output.c', 'textout.c', 'main.c', 'textblk.c'], [('bracketed output', 'tree.c'), ('tree output', 'tree.c'), ('grammar', 'rpc2x.y')], BND)
p('C09', 'Elided terminators: -ie restores them, -re requires them, consistently',
  'For every accepted text, the terminators shown in capitals by -ie are exactly the ones that were left out: adding them to the text gives a text that -re accepts with the very same grouping; -re accepts a text if and only if -ie adds nothing to it; -ie only inserts terminator cmavo and otherwise shows the words of the text unchanged and in order.',
  ['inputs'], 'all texts from the phrase templates and all short texts over the vocabulary',
  'each elidable terminator can be left out in many contexts; tests cover a few',
  ['elide.c', 'elide.h', 'terms.c', 'rpc2x.y', 'tree.c', 'main.c', 'output2elide.pl'], [('elision tables', 'elide.c'), ('require terminators', 'rpc2x.y')], BND)
CB = 'CBMC (bounded model checking with a SAT solver) over the real C sources, plus symbolic execution of the LLVM IR'
p('C10', 'Word shapes decide the kind of word and where attached cmavo end',
  'For every string of Lojban letters the morphology classifies it as The Complete Lojban Language defines: all and only the gismu forms are gismu, all well formed lujvo (hyphens r, n and y exactly where they are required, forbidden pairs and triples avoided, tosmabru and slinku\'i respected) are lujvo, all and only the sequences of cmavo are cmavo, all and only the well formed names are names; cmavo written before a gismu, lujvo or fu\'ivla or before each other are separated at exactly the right letters; every brivla ends in a vowel and has a consonant cluster in its first five letters; nothing containing a forbidden consonant pair or triple or a non-Lojban character is a word; capitals are allowed in names only; commas do not change the kind of word.',
  ['inputs'], 'all strings over the Lojban alphabet within the length bounds',
  'there are billions of strings; the automaton has 554 states and hundreds of thousands of transitions',
  ['morf.c', 'morf_nfa.in', 'mk_fetab.pl', 'mk_vfetab.pl', 'morf_dfa.h'], [('scanner', 'morf.c'), ('automaton', 'morf_nfa.in'), ('letter pair tables', 'mk_fetab.pl')], BND + ' The automaton table is dumped by running the real next-state function over its whole domain; array sizes of 65536 are reduced to 64 in morf.c.', CB)
p('C11', 'Names containing la, lai or doi break up; all others are kept whole',
  'For every word that ends in a consonant and has the form of a name: it is one name, kept letter for letter (commas and capitals included), unless it contains la, lai or doi not preceded by a consonant; then it is never taken as a name but is broken into the words before, the la, lai or doi, and the rest, which are analysed exactly as if they had been written apart; a name that contains an impossible sequence is reported, never a crash.',
  ['inputs'], 'all names within the length bounds',
  'whether a name breaks up depends on the letters around each syllable of it; tests contain a handful of names',
  ['bccheck.c', 'bctables.in', 'lex1.c', 'morf.c'], [('la/lai/doi automaton', 'bctables.in'), ('break up', 'lex1.c')], BND, CB)
p('C12', 'Every lujvo that jvocuhadju proposes is well formed and correctly scored',
  'For every sequence of component words and every choice of rafsi, each word jvocuhadju proposes is a lujvo by the rules of The Complete Lojban Language: it is made of one rafsi of every component in order, with hyphens r, n and y exactly where the rules demand them (forbidden pairs and triples, five letter rafsi, CVV in front, tosmabru), it has the lujvo shape so that it does not fall apart into cmavo and shorter words and is never mistaken for another word, and its score is the one that the scoring formula gives it. A combination that allows no lujvo is not proposed.',
  ['inputs'], 'all component sequences and rafsi within the stated shapes and letters',
  'hyphenation and the tosmabru test depend on every pair of adjacent letters and on the shapes of all components',
  ['lujvofns.c', 'jvocuhadju.c'], [('lujvo construction', 'lujvofns.c')], BND + ' The four large rafsi and gismu tables of jvocuhadju.c are replaced by small ones with symbolic content.')
p('C13', 'jvocuhadju lists exactly the best lujvo, in order, for every option',
  'For every sequence of words of the list and every combination of the options: jvocuhadju prints the lujvo in the order of their scores, one for each combination of the rafsi the words have (with -l the long forms too, without -b none with the ambiguous rafsi brod), none left out and none twice; the best eight of them, or all with -a, with the number of hidden ones reported; exactly the best are marked with *, those with an ambiguous rafsi with !; -R, -S, -A and -q suppress the rafsi, the scores, the marks and the messages and change nothing else. Words that are not in the list, unknown options and fewer than two words are refused with a message and an error status; no argument makes it crash.',
  ['inputs'], 'all sequences of two and three words of the list and all combinations of options, arbitrary short argument words',
  'the sort, the cut and the options interact with the number of rafsi each word has',
  ['jvocuhadju.c', 'lujvofns.c'], [('list and options', 'jvocuhadju.c')], BND + ' The four large rafsi and gismu tables of jvocuhadju.c are replaced by small ones.')
p('C25', '-se reports exactly the terminators that can be left out safely',
  'For every accepted text with terminators written out, each report of -se is true: the words it says can be omitted can be left out together without changing the grouping of the text, and each minimal pattern it lists for a sequence of terminators, put in place of the sequence, keeps the grouping; every word of a minimal pattern is needed: without it the grouping changes or the text becomes ungrammatical; a terminator that no report mentions is needed likewise. The reports name the words at their positions and -se never changes whether a text is accepted.',
  ['inputs'], 'all texts from the phrase templates with terminators, all short texts over the vocabulary, every report, every pattern and every unreported terminator',
  'whether a terminator is needed depends on what follows it, arbitrarily far',
  ['elide.c', 'rpc2x.y', 'output2elide.pl', 'main.c'], [('conflicts of elidable words', 'elide.c'), ('reports', 'elide.c')], BND)
p('C17', 'Text, HTML and LaTeX output show the same content, well formed',
  'For every accepted text and every dictionary, the glossed output as plain text (-x), HTML (-H) and LaTeX (-l) shows the same words, brackets, place labels and translations in the same order; in HTML every tag is closed in order and the characters & < > of words and translations are escaped; in LaTeX every group is closed in order and every character that TeX treats specially is escaped in the words, and in the translations all but \\ and $, with which a translation may contain TeX commands; in both the opening and the closing bracket of a pair carry the same number; the kind of output never changes whether a text is accepted.',
  ['inputs'], 'all texts from the phrase templates, quotations with arbitrary characters, translations with arbitrary characters',
  'five drivers re-implement the same output; a character or construct that one of them mishandles is rare in the reference texts',
  ['htmlout.c', 'latex.c', 'textout.c', 'output.c'], [('HTML driver', 'htmlout.c'), ('LaTeX driver', 'latex.c'), ('text driver', 'textout.c')], BND)
p('C19', 'No input crashes the programs',
  'Whatever the text (any bytes, words, names, quotations and compounds of any length, constructs nested or repeated to any depth), the options and the dictionary, every run of jbofihe, cmafihe, vlatai and jvocuhadju ends by itself, with exit status 0 or with a message; on the way it reads and writes only memory that exists and was allocated for it, does not overflow the stack (8 MB) and fails no internal check.',
  ['inputs'], 'all bytes, all lengths of words and repetitions, all options, all dictionary entries, within the stated bounds',
  'an overrun needs an input of a particular length or depth; tests run short sane inputs and do not see silent overruns',
  ['lex1.c', 'morf.c', 'translate.c', 'output.c', 'textblk.c', 'tracebk.c', 'tree.c', 'terms.c', 'main.c', 'cm_main.c', 'cm_gather.c', 'jvocuhadju.c'], [('buffers of the glosser', 'output.c'), ('translation', 'translate.c'), ('word recognition', 'lex1.c'), ('block layout', 'textblk.c')], BND)
p('C15', 'The compiled dictionary holds exactly the definitions given last',
  'For every set of dictionary sources, the dictionary that smujajgau writes holds, for every word, exactly the translation defined last (lines without a colon, comments and blank lines count for nothing, a third field is a comment; redefining a place removes the older special forms of that place; a lujvo with a place is also entered under its components), whether the definitions come in one source, several sources or later additions to an existing dictionary; the entries are in order, and the lookup used by jbofihe and cmafihe finds every one of them and no other word. Definitions too long for the file format are reported and leave the rest intact.',
  ['inputs'], 'all sources within the stated lengths and alphabets, all orders of definitions',
  'the result depends on sorting, overriding and the binary layout of all entries together; the tests only use the one dictionary of the distribution',
  ['smujajgau.c', 'dictaccs.c', 'canonluj.c'], [('compiler', 'smujajgau.c'), ('lookup', 'dictaccs.c'), ('components of lujvo', 'canonluj.c')], BND)
p('C14', 'Lujvo are taken apart into the words they were made of',
  'For every lujvo, the components under which the dictionary compiler enters it (and from which jbofihe translates a lujvo that is not in the dictionary) are the words whose rafsi it consists of, in order, hyphens ignored: taking apart is the inverse of jvocuhadju, which proposes exactly this lujvo for them. That holds for every gismu and cmavo with its short, four letter and full rafsi, with and without hyphens, in every position.',
  ['inputs'], 'all words of the rafsi list in every position, all lujvo of the stated shapes with symbolic letters',
  'there are over 1400 words with several rafsi each, and the place of a hyphen depends on the letters around it',
  ['canonluj.c', 'canonluj.pl', 'reduced_gismu', 'jvocuhadju.c', 'smujajgau.c'], [('splitting', 'canonluj.c'), ('rafsi tables', 'canonluj.pl')], BND)
p('C20', 'Each brivla is glossed by its entry, class and context',
  'For every dictionary, the gloss shown for a brivla as noun, verb, qualifier or tag and for every place (with conversions se, te, ve, xe and tags fa to fu) is the one the entry of that place demands: an entry for the very context (n, v, q or a, t) is used as it is; otherwise the text of the entry is put in the form of its class (A, D, S, P, R, I, E) with the endings of the documented table at its * markers or its end, and with the noun entry where the table allows it; a redirected entry (@word place) is the target in the same context; for a lujvo without an entry the pattern of the highest precedence is used, with % replaced by the gloss of the rest, or else the glosses of its components are joined.',
  ['inputs'], 'all classes, contexts, places, combinations of overriding entries and texts within the stated bounds',
  'the gloss depends on the combination of class, context, place, override and the last letters of the text; the tests use one dictionary',
  ['translate.c', 'output.c', 'conversion.c', 'terms.c'], [('inflection', 'translate.c'), ('patterns', 'translate.c'), ('lookup of places', 'terms.c')], BND)
p('C06', 'Every term is labelled with exactly the places it fills',
  'For every bridi the glossed output labels each term with the brivla and the places of it that the term fills by the rules of The Complete Lojban Language, and with no others: terms before the selbri count from x1, those after it from x2, fa to fu jump to a place from which counting goes on, places already filled by linked sumti (be, bei), by tagged sumti or by the head of an abstraction are skipped, terms with a tense or modal tag take no place; se, te, ve and xe swap places, the outermost first, jai frees x1 and fai gets it back; in a tanru the last brivla counts, connected selbri and bridi tails each give their own labels to shared terms; terms inside abstractions and relative clauses belong to the brivla there.',
  ['inputs'], 'all bridi of the stated templates with every kind of term in every position and every combination of conversions',
  'the place of a term depends on all other terms of the bridi, on the conversions and on the structure around it',
  ['terms.c', 'conversion.c', 'output.c', 'rpc2x.y'], [('numbering of terms', 'terms.c'), ('conversions', 'conversion.c')], BND)
p('C16', 'cmafihe shows every word with its selma\'o and translation, in every format',
  'For every text and every dictionary cmafihe shows every word in order, once: a cmavo or compound with an entry with the selma\'o and translation of the entry, a compound without one with those of the longest pieces that have entries (also after a pause), ? for a piece that has none; a brivla with its entry or else the translations of its components joined by hyphens, where se, te, ve, xe apply to the next component only; names as such. Paragraphs stay apart. Plain, block (-b) and LaTeX (-l) output show the same; in block output the three lines of every word start in the same column, no line is wider than the width (-w, default 80) unless a single word is, and no line ends early.',
  ['inputs'], 'all texts of words of the stated kinds, all sets of entries, all compounds over the stated letters, all widths listed',
  'how a compound is cut depends on all entries of the dictionary and all letters of the compound; the tests do not run cmafihe',
  ['cm_gather.c', 'cm_translate.c', 'cm_output.c', 'cm_scan.l', 'cm_main.c', 'dictaccs.c'], [('cutting compounds', 'cm_gather.c'), ('components of lujvo', 'cm_translate.c'), ('formats', 'cm_output.c')], BND)
p('C07', 'Every logical connective is translated as the truth function it denotes',
  'For every text the glossed output translates every logical connective (between sumti, selbri, bridi tails, sentences, tenses, terms, abstractors, operands and operators; afterthought or forethought) with the dictionary entry of exactly the truth function it denotes by the rules of The Complete Lojban Language: a, e, o, u are or, and, if and only if, whether or not; na before an afterthought connective negates the first operand and nai after it the second one; nai after a forethought connective negates the first and nai after the gi that belongs to it the second one; se exchanges the operands; the questions get the entry for questions. Both parts of a forethought connective get the entry of the same function, and nothing else is translated as a connective.',
  ['inputs'], 'all combinations of connective, na, se, nai and grouping in every place of the stated templates, and all pairs of them',
  'the function depends on words scattered over the text (the gi and its nai can be arbitrarily far away) and on which gi belongs to which connective',
  ['connect.c', 'output.c', 'rpc2x.y'], [('truth functions', 'connect.c'), ('translation', 'output.c')], BND)
p('C18', 'Block output lines up and keeps to the width',
  'For every accepted text, every dictionary and every width, the block output (-b, -w) shows exactly the words, brackets, numbers, translations and place labels that the other outputs show, in the same order: each word stands above its translation and its place labels, all starting in the same column that nothing else uses; paragraphs of the text stay apart, with every word in its own; lines are cut only between blocks, as late as the width permits, and no line is wider than the width unless a single block is.',
  ['inputs'], 'all texts from the phrase templates and grammar rules with paragraphs, all widths listed, translations of several lengths',
  'the layout depends on the lengths of all words, translations and labels on the line and on pending paragraphs; the tests do not use -b',
  ['textblk.c', 'output.c', 'main.c'], [('layout', 'textblk.c')], BND)
p('C21', 'Every cmavo is known with its selma\'o and can stand where its fellows can',
  'For every string of the form of a cmavo: if it is one of the words of the cmavo list it is recognised, alone or run together with others, as a word of exactly the selma\'o of the list; otherwise the text is refused with a message that names the word and its place. All words of a selma\'o are interchangeable: a text stays grammatical, with the same structure, when one of its cmavo is replaced by another of the same selma\'o.',
  ['inputs'], 'all strings of the stated forms; all words of each selma\'o in all stated places',
  'the table has 600 entries at positions computed from the letters of the word; the tests use a part of them, in few places',
  ['lex1.c', 'cmavotab.c', 'categ.c', 'rpc2x.y', 'tree.c'], [('table lookup', 'lex1.c'), ('table', 'cmavotab.c'), ('categories', 'categ.c')], BND)
p('C05', 'A text is accepted exactly when the grammar derives it',
  'A text is accepted (exit status 0) only if the grammar of The Complete Lojban Language (the BNF quoted in rpc2x.y) derives it, possibly with elidable terminators left out; anything else is refused with a nonzero exit status. Every text that the grammar derives with all its elidable terminators in place is accepted, and -re (which requires them all) accepts exactly those texts.',
  ['inputs'], 'all texts of the stated templates, with every combination of words or phrases in the slots',
  'whether a text is grammatical depends on the class and order of all its words, and compounds such as tenses, connectives and numbers are recognised by lookahead of their own before parsing; the tests contain few refused texts',
  ['rpc2x.y', 'categ.c', 'elide.c', 'lex1.c', 'stag_nfa.in', 'tree.c'], [('grammar', 'rpc2x.y'), ('compounds and markers', 'categ.c'), ('elidable terminators', 'elide.c')], BND)
