#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "Deformat followed by reformat reproduces the document",
 "For every document of a supported format (txt, html, html-noent, html-alt, odt, rtf, wxml, xlsx, pptx, mediawiki, xpresstag), passing it through the format's deformatter and then its reformatter with nothing in between gives the document back byte for byte, except for the character substitutions the format definition declares. This holds with the deformatter options -n and -i and for inputs that contain the stream's own reserved characters, arbitrarily long markup or non-ASCII text.",
 ["inputs", "configurations"], "all documents of each of the eleven formats, all option combinations",
 "The tests pin a handful of fixed documents for deshtml-alt, odt and latex; identity has to hold for every document, including reserved characters, lone '@', markup beyond the 8 kB block limit and multi-byte text.",
 ["apertium/deformat.xsl", "apertium/reformat.xsl", "apertium/txt-format.xml", "apertium/html-format.xml", "apertium/odt-format.xml", "apertium/rtf-format.xml"],
 [("escaping of reserved characters and superblank buffering", "apertium/deformat.xsl"), ("unescaping and superblank emission", "apertium/reformat.xsl")],
 ["stdout of apertium-re<fmt> fed with the stdout of apertium-des<fmt>"])

prop("P02", "Deformatters expose exactly the translatable text",
 "The output of a deformatter is a well-formed Apertium stream: every superblank is closed, and every reserved character outside a superblank is escaped. Markup, comments and layout whitespace are only inside superblanks, the text outside superblanks is exactly the document's translatable text in order, and an artificial sentence end (a full stop followed by an empty superblank) appears where the format definition marks an end of sentence and at the end of input, and nowhere when -n is given; with -o an end of headline is marked, too.",
 ["inputs", "configurations"], "all documents built from the format's tags, comments, entities and text; with and without -n, -i and -o",
 "The tests check six fixed documents; whether some tag, comment, entity or reserved character leaks into (or out of) the translatable text depends on the document.",
 ["apertium/deformat.xsl", "apertium/html-format.xml", "apertium/wxml-format.xml", "apertium/odt-format.xml", "apertium/txt-format.xml"],
 [("format rules turned into flex rules", "apertium/deformat.xsl"), ("format rules", "apertium/*-format.xml")],
 ["stdout of apertium-des<fmt>"])

prop("P03", "Reformatters restore markup and unescape translated text",
 "For every well-formed stream, a reformatter writes the content of each superblank verbatim, writes each escaped character outside superblanks without its escape, deletes artificial sentence ends, leaves all other text as it is, and applies only the character replacements its format declares. No character of the stream is lost or duplicated.",
 ["inputs"], "all well-formed streams, as a translation may produce them, for each reformatter",
 "Existing tests never feed a reformatter with anything but the deformatter's own output.",
 ["apertium/reformat.xsl"],
 [("flex rules for superblanks, escapes and .[]", "apertium/reformat.xsl")],
 ["stdout of apertium-re<fmt>"])

prop("P04", "The LaTeX tool chain reproduces LaTeX documents",
 "For every LaTeX document made of ordinary text, commands, environments, groups, options, comments, verbatim and mathematics, running the LaTeX preprocessor, deformatter, reformatter and postprocessor in sequence reproduces the document, up to the spelling of letters that LaTeX can write in several ways (\\'e and é). Mathematics, comments, \\verb text, citation and reference keys and the names of commands and environments are never offered for translation; ordinary text, outside plain groups and options, is.",
 ["inputs"], "all documents generated from the supported LaTeX constructs",
 "The tests check one fixed document against the deformatter only.",
 ["apertium/apertium-prelatex.l", "apertium/apertium-postlatex-raw.l", "apertium/apertium-postlatex.l", "apertium/latex-format.xml", "apertium/latex_accentsmap.cc", "apertium/utils-fixlatex-header.sh"],
 [("LaTeX to pseudo-XML", "apertium/apertium-prelatex.l"), ("pseudo-XML to LaTeX", "apertium/apertium-postlatex-raw.l")],
 ["stdout of the chain", "stdout of apertium-deslatex"])

prop("P05", "Adapting DOCX runs keeps the text and never splits a word",
 "For every WordprocessingML document, adapting it keeps the concatenated text of each paragraph and everything that is not run text, and only moves text between neighbouring text runs (runs holding properties and one text) of the same paragraph, never across breaks, tabs, links or other content. Afterwards no boundary between two neighbouring text runs falls inside a word (between two letters, in a hyphenated word, or in an l·l group), and runs left without text are removed.",
 ["inputs"], "all documents of paragraphs, runs, properties and texts in any script",
 "The tests cover a few fixed documents; where a boundary falls relative to letters, hyphens and multi-byte characters is an input dimension.",
 ["apertium/adapt_docx.cc"], [("boundary search and run adjustment", "apertium/adapt_docx.cc:findBoundary, adjust")],
 ["stdout of apertium-adapt-docx"])

prop("P06", "Pretransfer splits multiwords and moves lemma queues without loss",
 "For every well-formed stream, pretransfer writes one lexical unit per '+'-joined part of each lexical unit, separated by a single space (and carrying the same word-bound blank), with the unit's lemma queue moved right behind the head lemma of its first part, in front of that part's tags, and splits compounds at '~' only with the compound option. Everything outside lexical units is copied unchanged, escaped characters are data and never split a unit, and with -n the surface form is dropped.",
 ["inputs", "configurations"], "all well-formed streams; options -e, -n, -z",
 "The tests cover about ten fixed lines; reserved characters in lemmas, queues after tags, several parts and blanks combine freely.",
 ["apertium/pretransfer.cc", "apertium/apertium_pretransfer.cc"],
 [("procWord, processStream", "apertium/pretransfer.cc")], ["stdout of apertium-pretransfer"])

prop("P07", "Stream cleaning filters keep exactly the documented parts",
 "apertium-cleanstream keeps every lexical unit of a stream in order and byte for byte (one per line with -n) and drops all other text, or keeps the blanks too when asked. apertium-posttransfer changes a stream only by replacing each run of spaces with one space, and apertium-wblank-detach only by closing each word-bound blank after its lexical unit.",
 ["inputs", "configurations"], "all well-formed streams, with their options",
 "Tests cover a few fixed lines of cleanstream and none of the other filters.",
 ["apertium/apertium_cleanstream.cc", "apertium/apertium_posttransfer.cc", "apertium/wblank-detach.cc"],
 [("filter loops", "apertium/apertium_cleanstream.cc")], ["stdout of the filters"])

prop("P08", "Word-bound blanks are attached to exactly the words they span",
 "For every stream with nested word-bound blank spans, attaching gives each lexical unit one word-bound blank listing, outermost first and without repetition, exactly the blanks of the spans that enclose it, and removes the span marks. All other content is unchanged.",
 ["inputs"], "all streams with arbitrarily nested spans, words, blanks and escapes",
 "No existing test runs the attach or detach tools.",
 ["apertium/wblank-attach.cc", "apertium/wblank-detach.cc"],
 [("span stack", "apertium/wblank-attach.cc")], ["stdout of apertium-wblank-attach"])

prop("P09", "A flushed pipeline treats every message independently",
 "Every pipeline tool run in null-flush mode on a sequence of messages separated by NUL produces, for each message, exactly the output of a fresh run on that message alone, followed by NUL. No state of an earlier message (variables, pending blanks, words, capitalisation, tags) changes the output of a later one, and no message or NUL is lost or swallowed.",
 ["inputs", "histories"], "all sequences of messages, for every tool with null flush",
 "Tests run one or two flushed inputs per tool; leakage depends on the history of earlier messages.",
 ["apertium/transfer.cc", "apertium/interchunk.cc", "apertium/postchunk.cc", "apertium/pretransfer.cc", "apertium/hmm.cc", "apertium/unigram_tagger.cc", "apertium/sentence_stream.cc", "apertium/wblank-attach.cc", "apertium/caps_restorer.cc", "apertium/file_morpho_stream.cc"],
 [("state reset at NUL", "apertium/transfer.cc")], ["stdout of each tool with -z"])

prop("P10", "Capitalisation moves into blanks and nothing else changes",
 "apertium-extract-caps gives every lexical unit a word-bound blank recording the case pattern (lower, title or upper) of its surface form and of its lemma, after whatever the unit's blank already held, keeps the first analysis byte for byte and the surface form only with -s, and copies everything else. apertium-restore-caps writes each unit's target form, spelled as given when no rule applies, drops the recorded capitalisation from the word-bound blanks unless asked to keep it, keeps all their other parts, and copies everything else.",
 ["inputs", "configurations"], "all streams with words in any case mix and script, joined units, blanks, word-bound blanks, escapes and NULs",
 "Tests cover a fixed list of words.",
 ["apertium/apertium_extract_caps.cc", "apertium/caps_restorer.cc"],
 [("capitalisation blanks", "apertium/apertium_extract_caps.cc")], ["stdout of apertium-extract-caps and apertium-restore-caps"])

prop("P11", "Capitalisation rules apply as written",
 "For every compiled set of capitalisation rules, each word is written in the case that wins the weighted vote of the rules: for every position where a rule's match ends, one match of that rule ending there adds the rule's weight to the case it selects for each word it covers. Lemmas, tags, surface forms, source case patterns, begin, or and repeat match as written, ties go to dix, then lower, title and upper case, a word without votes keeps its spelling, and no rule reaches over a NUL.",
 ["inputs", "programs"], "all rule files over the rule language and all streams",
 "Tests exercise two fixed rule files.",
 ["apertium/caps_compiler.cc", "apertium/caps_restorer.cc"],
 [("rule compilation", "apertium/caps_compiler.cc"), ("voting", "apertium/caps_restorer.cc:process, output_all")], ["stdout of apertium-restore-caps"])

prop("P12", "Mode generation writes exactly the pipelines of modes.xml",
 "For every modes file, generation writes one file per mode whose content is the mode's programs in order joined by pipes, each with its arguments in order and file arguments quoted and made absolute. For modes with debug generation it adds, for every step, a mode holding the pipeline up to that step under the documented suffix with tracing enabled on its last program and an untrimmed variant, and with full installation it writes only the modes marked for installation.",
 ["inputs", "configurations"], "all modes files and the -f, -l options",
 "No test runs apertium-gen-modes.",
 ["apertium/gen_modes.cc"], [("pipeline generation", "apertium/gen_modes.cc")], ["the .mode files written"])

prop("P13", "Word-blank mode rewriting keeps the pipeline's meaning",
 "For every mode file, the word-blank variant runs the same programs with the same arguments in the same order, adds attaching of word-bound blanks after morphological analysis and detaching before generation exactly once each, replaces obsolete transfer with lookup inside by lookup followed by transfer, and asks every program to null-flush exactly when null-flush is requested.",
 ["inputs", "configurations"], "all pipelines over the known programs, quoting styles and options",
 "No test runs apertium-wblank-mode.",
 ["apertium/wblank-mode.cc"], [("pipeline rewriting", "apertium/wblank-mode.cc")], ["stdout of apertium-wblank-mode"])

prop("P14", "Transfer applies the leftmost longest rule, earliest first",
 "At every position of the input each transfer stage applies the rule whose pattern matches the longest sequence of words from there, the one written first among equally long ones, with categories matched by lemma, lemma prefix or suffix wildcard, tags and tag wildcards ignoring lemma case, and continues after the matched words. Words that no rule matches are output by the default rule, one at a time, and a rule that rejects itself gives way to the next best one.",
 ["inputs", "programs"], "all rule files (categories, patterns) and all streams, for the chunker, interchunk and postchunk stages",
 "Tests use a few fixed rule files with one or two rules.",
 ["apertium/transfer.cc", "apertium/transfer_base.cc", "apertium/interchunk.cc", "apertium/trx_reader.cc", "apertium/transfer_data.cc"],
 [("pattern automaton", "apertium/trx_reader.cc, apertium/transfer_data.cc"), ("matching loop", "apertium/transfer.cc")],
 ["stdout of apertium-transfer, apertium-interchunk"])

prop("P15", "Transfer rule actions compute what the rule language says",
 "For every rule file and input, the output of a rule is the one its actions define: clips read and write exactly the selected part of the selected word on the selected side, tests, string and case functions, variables, lists, macros with their parameter mapping, choices and concatenations evaluate as documented, and outputs appear in order. Attributes select the longest of their alternatives present in the word, and compiling a rule file does not change its meaning.",
 ["inputs", "programs"], "all rule programs over the instruction set and all streams, in lexical-unit and chunk mode",
 "Tests sample some thirty fixed inputs on small rule files, most instructions are never run.",
 ["apertium/transfer.cc", "apertium/transfer_word.cc", "apertium/transfer_regex.cc", "apertium/trx_reader.cc", "apertium/transfer_data.cc"],
 [("rule interpreter", "apertium/transfer.cc"), ("attribute regexes", "apertium/apertium_re.cc")], ["stdout of apertium-transfer"])

prop("P16", "Interchunk reorders and rewrites chunks as its rules say",
 "For every interchunk rule file and stream of chunks, interchunk outputs the chunks its rules define: pseudo-lemma and tags are read and written, and contents read, exactly as selected, tests and functions evaluate as documented, and the content of a chunk that no rule assigns is kept byte for byte. Chunks no rule matches pass through unchanged.",
 ["inputs", "programs"], "all interchunk rule programs and streams of chunks",
 "Tests sample a few fixed inputs.",
 ["apertium/interchunk.cc", "apertium/interchunk_word.cc"],
 [("chunk interpreter", "apertium/interchunk.cc")], ["stdout of apertium-interchunk"])

prop("P17", "Postchunk opens every chunk into its words",
 "For every stream of chunks, postchunk outputs the words of each chunk in order with numbered tag references replaced by the chunk's tag at that position and with the case of the pseudo-lemma applied, dropping the chunk wrapper. Words of chunks that a rule names are those the rule's actions define.",
 ["inputs", "programs"], "all streams of chunks and postchunk rule programs",
 "Tests sample a few fixed inputs.",
 ["apertium/postchunk.cc"], [("unchunking, tag reference substitution", "apertium/postchunk.cc")], ["stdout of apertium-postchunk"])

prop("P18", "Transfer stages never lose or invent formatting",
 "Whatever the rules do with words, every superblank of the input of a transfer stage appears in its output exactly once and in the same order, and text between words that carries formatting is never dropped. Word-bound blanks follow the words they are bound to: a word output from one input word carries that word's blank, and a word built from several carries the merge of theirs.",
 ["inputs", "programs"], "all streams with superblanks and word-bound blanks, and all rule programs that reorder, delete, insert or duplicate words",
 "Tests fix some twenty examples of blank handling.",
 ["apertium/transfer.cc", "apertium/transfer_base.cc", "apertium/interchunk.cc", "apertium/postchunk.cc"],
 [("blank queue", "apertium/transfer_base.cc"), ("word-bound blank merging", "apertium/transfer_base.cc")], ["stdout of the transfer stages"])

prop("P19", "Variant filters and converters keep exactly what they should",
 "For every dictionary, rule file and choice of variants, the variant filters keep everything that names no variant and change nothing in it. apertium-filter-rules and apertium-filter-xml keep an element that names variants exactly when they include the wanted ones (all of them, one of them), without the variant mark, and leave the kinds of elements alone they are told to; apertium-filter-dix turns the entries of other variants into one-way entries (LR for the left side, RL for the right one) and drops those of the opposite direction; apertium-genvdix, -genvldix and -genvrdix replace a list of variants by the wanted one, or by the mark for others. apertium-translate-to-default-equivalent keeps an entry exactly for the directions in which it has no competitor or is the default one. apertium-metalrx writes each use of a macro with its arguments in place, and apertium-metalrx-to-lrx every sequence in place and every number of repetitions of a range once.",
 ["inputs", "configurations"], "all dictionaries, rule files and metalrx files of the documented elements; all variants, sides and options",
 "No test runs these scripts; which entries survive depends on the combination of variants, restrictions, senses and nesting.",
 ["scripts/filter-dix.xslt", "scripts/apertium-filter-dix.in", "scripts/apertium-filter-rules", "scripts/apertium-filter-xml", "scripts/apertium-genvdix", "scripts/apertium-genvldix", "scripts/apertium-genvrdix", "scripts/apertium-metalrx", "scripts/metalrx-to-lrx.xslt", "scripts/translate-to-default-equivalent.xslt"],
 [("variant, restriction and sense rules", "scripts/*.xslt"), ("process_node, filter_node, DixHandler", "scripts/apertium-filter-rules, apertium-filter-xml, apertium-genv*")],
 ["stdout or the output file of each script"])

prop("P20", "Tagging only selects among the analyses it is given",
 "Every tagger (HMM, sliding window, unigram, perceptron) writes the text between words byte for byte and, for each word in order, exactly one of the analyses given for it, with an unknown word kept as unknown. The output options add only what they announce: the surface form, the remaining analyses after the chosen one, or a mark on ambiguous words.",
 ["inputs", "configurations"], "all streams (ambiguity, multiwords, unknown words, escapes, blanks), all taggers and output options",
 "Tests tag a few fixed sentences per tagger.",
 ["apertium/hmm.cc", "apertium/lswpost.cc", "apertium/unigram_tagger.cc", "apertium/perceptron_tagger.cc", "apertium/file_morpho_stream.cc", "apertium/tagger_word.cc", "apertium/stream.cc"],
 [("word reading and output", "apertium/file_morpho_stream.cc, apertium/tagger_word.cc, apertium/stream.cc")], ["stdout of apertium-tagger -g"])

prop("P21", "The HMM tagger outputs a most probable tag sequence",
 "For every trained model and input, the sequence of coarse tags the HMM tagger chooses between two unambiguous words is one of maximal probability under the model, unknown words being treated as open-class. Each analysis belongs to the coarse tag the tag set file defines for it, prefer rules decide between analyses of the same coarse tag, discard rules drop analyses of ambiguous words but never the last one, and tagging a sentence does not change how later sentences are tagged.",
 ["inputs", "configurations"], "all tag sets, models trained from generated corpora, and input sentences",
 "Tests compare a few sentences; optimality quantifies over all tag sequences and models.",
 ["apertium/hmm.cc", "apertium/tagger_utils.cc", "apertium/tsx_reader.cc", "apertium/file_morpho_stream.cc"],
 [("Viterbi", "apertium/hmm.cc:tagger"), ("coarse tag classification", "apertium/file_morpho_stream.cc")], ["stdout of apertium-tagger -g"])

prop("P22", "HMM training estimates the model it documents",
 "For every tag set and corpus, supervised training yields the smoothed relative frequencies of tag transitions and of ambiguity classes given tags, unsupervised training yields the corresponding expected frequencies and the re-estimates of forward-backward training, and every row of the resulting matrices is a probability distribution. Transitions the tag set forbids, or that its enforce rules exclude, have negligible probability, and writing and reading a model back changes nothing.",
 ["inputs", "configurations"], "all tag sets, dictionaries and corpora; supervised, unsupervised and retraining runs",
 "Tests train one or two small models and only look at the tagging.",
 ["apertium/hmm.cc", "apertium/tagger_data_hmm.cc", "apertium/collection.cc", "apertium/endian_double_util.cc", "apertium/apertium_tagger_apply_new_rules.cc"],
 [("training", "apertium/hmm.cc"), ("model serialisation", "apertium/tagger_data_hmm.cc")], ["the model file", "stdout of apertium-tagger -g"])

prop("P23", "Unigram taggers choose the best-scoring analysis",
 "For every hand-tagged corpus and input, each of the three unigram models chooses the analysis with the highest score under the counts of the corpus, the first one among equals. The score is the documented smoothed estimate of the model, an ambiguous training word spreads its count evenly over its analyses, and a saved model scores like the trained one.",
 ["inputs", "configurations"], "all corpora, the three models, all inputs",
 "Tests pin a dozen fixed corpora per model.",
 ["apertium/unigram_tagger.cc", "apertium/serialiser.h", "apertium/deserialiser.h"],
 [("scoring", "apertium/unigram_tagger.cc:score")], ["stdout of apertium-tagger -u MODEL -g"])

prop("P24", "The perceptron tagger follows its feature weights",
 "For every feature specification and training corpus, training gives each feature the averaged perceptron weight of the training history, and tagging picks the highest-scoring analysis sequence within the beam. The features of each analysis, as apertium-perceptron-trace shows them, are those the specification gives. A saved model behaves like the trained one, and training neither crashes nor depends on anything but the corpus, the order of sentences and the number of iterations.",
 ["inputs", "configurations"], "feature specifications over the macro language, corpora, iterations and inputs",
 "Tests train on two tiny corpora.",
 ["apertium/perceptron_tagger.cc", "apertium/perceptron_spec.cc", "apertium/feature_vec.cc", "apertium/feature_vec_averager.cc", "apertium/mtx_reader.cc"],
 [("averaging", "apertium/feature_vec_averager.cc"), ("beam search", "apertium/perceptron_tagger.cc")], ["stdout of apertium-tagger -x", "stdout of apertium-perceptron-trace path"])

prop("P25", "The sliding-window tagger maximises its window score",
 "For every tag set, corpus and input, training the sliding-window tagger counts each window of three words evenly over its permitted tag triples and re-estimates it as documented, never giving weight to a triple the forbid or enforce rules exclude. Tagging chooses for each word a tag whose summed score over the neighbours' possible tags is maximal.",
 ["inputs", "configurations"], "all tag sets, corpora and inputs",
 "Tests train one or two models and tag one sentence.",
 ["apertium/lswpost.cc", "apertium/tagger_data_lsw.cc"], [("window counts", "apertium/lswpost.cc")], ["the model file", "stdout of apertium-tagger -w -g"])

prop("P26", "Ambiguity filtering keeps one word per ambiguity class",
 "For every tag set and analysed word list, apertium-filter-ambiguity outputs the first word of each distinct set of coarse tags in input order, with one analysis for each of its coarse tags, and no other word. Each part of an analysis that the tag set splits counts as a word, and unknown words are left out. apertium-tagger-readwords lists every word of the text with its coarse tags.",
 ["inputs", "configurations"], "all tag sets and analysed dictionaries",
 "Only used as a step of tagger training tests; its output is not checked.",
 ["apertium/apertium_filter_ambiguity.cc", "apertium/hmm.cc", "apertium/apertium_tagger_readwords.cc"], [("filter_ambiguity_classes", "apertium/hmm.cc")], ["stdout of apertium-filter-ambiguity", "stdout of apertium-tagger-readwords"])

prop("P27", "Multiple translation output enumerates every combination",
 "For every bilingual dictionary, rule file and stream, each stretch of words matched by the longest pattern is output as the alternatives formed by every combination of its words' translations, each exactly once and in order, with the blanks between the words kept. Single words are output as their own translations.",
 ["inputs", "programs"], "all bilingual dictionaries, patterns and streams",
 "No test runs apertium-multiple-translations.",
 ["apertium/transfer_mult.cc"], [("combination output", "apertium/transfer_mult.cc")], ["stdout of apertium-multiple-translations"])

prop("P28", "Translation memory building aligns without losing segments",
 "For every pair of documents, apertium-tmxbuild writes a well-formed TMX file whose source segments are segments of the source document in order, and whose target segments are segments of the target document in order. Two documents whose segments correspond one to one (equal sentences of ordinary words, or word-by-word translations of equal length) are aligned one to one; when one of them has further segments in between, every common segment is in one unit with its counterpart.",
 ["inputs", "configurations"], "all pairs of texts and the tool's options",
 "No test runs apertium-tmxbuild.",
 ["apertium/tmx_builder.cc", "apertium/tmx_alignment.cc", "apertium/tmx_aligner_tool.cc", "apertium/tmx_trail_postprocessors.cc", "apertium/tmx_book_to_matrix.h"], [("segmentation and output", "apertium/tmx_builder.cc"), ("alignment", "apertium/tmx_aligner_tool.cc")], ["the TMX file written"])

prop("P29", "The translator script is deformatter, mode and reformatter in sequence",
 "For every format, option set and document, the apertium command produces exactly what running the format's deformatter, the selected mode with the options it defines, and the format's reformatter by hand produces, to standard output or to the named file. With a mode that changes nothing, the document comes back unchanged, for single-file and zipped formats alike, and a missing mode, file or option ends in an error and not in a wrong translation. A run leaves no temporary files behind and its input as it was.",
 ["inputs", "configurations"], "all formats, options, argument orders and documents",
 "No test runs the apertium command.",
 ["apertium/apertium-header.sh", "apertium/apertium-unformat-header.sh"], [("argument handling and pipelines", "apertium/apertium-header.sh")], ["stdout and files written by apertium"])

prop("P30", "Stream tools are memory-safe on every input",
 "No stream tool reads or writes outside its memory, uses freed memory or loops without end, whatever bytes it is given: on malformed or truncated streams it stops with an error (an error exit, or the abort of an uncaught exception) or produces some output, and on well-formed streams it terminates normally.",
 ["inputs", "fault_sequences"], "all byte strings, in particular streams cut or damaged at any point",
 "Tests only feed well-formed streams.",
 ["apertium/pretransfer.cc", "apertium/transfer.cc", "apertium/interchunk.cc", "apertium/postchunk.cc", "apertium/wblank-attach.cc", "apertium/wblank-detach.cc", "apertium/stream.cc", "apertium/file_morpho_stream.cc", "apertium/caps_restorer.cc", "apertium/apertium_cleanstream.cc"],
 [("end-of-input checks", "apertium/transfer_base.cc, apertium/stream.cc")], ["exit status and sanitizer reports"])

prop("P31", "The edit-distance transducer accepts exactly the pairs within reach",
 "For every alphabet, specification and option set, the transducer apertium-editdist prints accepts a pair of strings exactly when the second can be made from the first by one to the given number of edits (insertions, deletions and substitutions of symbols of the alphabet, the unknown symbol deleted or substituted, and swaps of neighbours when asked for), and its least cost is the least total cost of such edits: 1 plus the costs of the symbols involved, or the cost specified for the edit or, where only that is given, for its reverse. Excluded symbols and symbols outside the alphabet appear in no transition, and eliminating redundant edits changes no cost.",
 ["inputs", "configurations"], "all alphabets (from arguments, specification files and transducer headers), symbol and edit costs, distances, with and without swaps and elimination; all string pairs",
 "No test runs the script; acceptance and cost of a pair depend on the whole transducer.",
 ["scripts/apertium-editdist"],
 [("generate: costs; make_transitions, make_substitutions, make_swaps: states", "scripts/apertium-editdist")],
 ["stdout of apertium-editdist, read as an ATT transducer"])


prop("P32", "Format definitions mean what their grammar says, for every definition",
 "For every format definition valid under format.dtd, the deformatter and reformatter that deformat.xsl and reformat.xsl generate from it (as apertium-gen-deformat and -gen-reformat make them) compile and do what the definition says: tags and comments of its rules become superblanks (the longest match wins, then the order of rules by definition; inside a comment only comment ends and rules of lower priority values apply), declared sources become their targets, characters of escape-chars are escaped and those of space-chars are layout, sentence and headline marks follow eos and eoh rules, blocks above the declared size go to files, letter case counts only if the definition says so; and the reformatter gives the document back.",
 ["inputs", "configurations"], "all format definitions (rules, priorities, comment nesting, replacements, escape and space sets, sizes, case sensitivity) and all documents for them",
 "The tests run a few documents through the stock definitions only; a definition someone writes for a new format exercises other paths of the generator.",
 ["apertium/deformat.xsl", "apertium/reformat.xsl", "apertium/format.dtd"],
 [("templates of rules, start conditions of comments", "apertium/deformat.xsl"), ("replacement and escape rules", "apertium/reformat.xsl")],
 ["exit status of xmllint, flex and the compiler", "stdout of the generated filters"])


prop("P33", "Validators accept exactly the rule files of their grammars",
 "For every file, apertium-validate-transfer, -interchunk, -postchunk, -modes, -tagger and -crx exit 0 exactly when the file is well-formed and conforms to its grammar: elements, their order and number, required and known attributes, enumerated values, identifiers that are unique and references that name one. Files that any sequence of edits takes out of the grammar, files that are missing, and wrong numbers of arguments give a non-zero exit.",
 ["inputs"], "all files, valid or not, and command lines",
 "Tests use a few valid rule files at most; no test gives a validator an invalid one.",
 ["apertium/validate-header.sh", "apertium/transfer.dtd", "apertium/interchunk.dtd", "apertium/postchunk.dtd", "apertium/modes.dtd", "apertium/tagger.dtd", "apertium/crx.dtd"],
 [("arguments", "apertium/validate-header.sh"), ("grammars", "apertium/*.dtd")], ["exit status of the validators"])


prop("P34", "Tracing transfer reports what is applied and changes nothing",
 "For every rule file and stream, apertium-transfer, -interchunk and -postchunk write the same output with -t (and -T) as without. What -t reports are exactly the rules that match, in order: at each word every length at which an untried rule matches, with the number of the rule that takes precedence among those of that length, the line its rule element stands on and the words matched; and, in apertium-transfer, each rule as it is applied, also when it then rejects itself.",
 ["inputs", "programs"], "all rule files and streams",
 "No test uses the tracing options.",
 ["apertium/transfer.cc", "apertium/interchunk.cc", "apertium/postchunk.cc", "apertium/transfer_base.cc"],
 [("collectRules: rule lines", "apertium/transfer_base.cc"), ("trace in transfer", "apertium/transfer.cc")], ["stdout and stderr of the transfer stages"])



prop("P35", "All forms of a command line mean the same",
 "For every stream tool, option set and input, the result does not depend on how the command line is put together: short or long options, in any order, joined or apart, before or after the operands, arguments attached or separate; input from standard input or a named file, output to standard output or a named file (which then holds exactly the result, whatever it held before). Training writes the same model for every form. An input or rule file that cannot be read, an unknown option or too many operands end in a non-zero exit (the format filters aside).",
 ["inputs", "configurations"], "all tools, option sets, forms and inputs",
 "Tests use one form of each tool at most.",
 ["apertium/apertium_transfer.cc", "apertium/apertium_interchunk.cc", "apertium/apertium_postchunk.cc", "apertium/apertium_pretransfer.cc", "apertium/apertium_posttransfer.cc", "apertium/apertium_extract_caps.cc", "apertium/apertium_restore_caps.cc", "apertium/apertium-multiple-translations.cc", "apertium/tagger.cc", "apertium/deformat.xsl", "apertium/reformat.xsl", "apertium/wblank-mode.cc", "apertium/apertium_cleanstream.cc"],
 [("operands", "apertium/apertium_transfer.cc"), ("options and file arguments", "apertium/tagger.cc")], ["stdout, output files and exit status"])



out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
