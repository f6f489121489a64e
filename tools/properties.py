#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEC = "src/decompose/mod.rs"; RUL = "src/rules.rs"; LEX = "src/lex/mod.rs"; CLS = "src/lex/selmaho/classify.rs"
SEL = "src/lex/selmaho/mod.rs"; DIS = "src/lex/selmaho/display.rs"; CST = "src/parse/cst/mod.rs"; PT = "src/parse/cst/parse_trait.rs"
GR = "src/parse/cst/rules/mod.rs"; HE = "src/parse/cst/rules/helpers.rs"; RS = "src/parse/cst/rules/selmaho.rs"
ME = "src/parse/cst/rules/mekso.rs"; CO = "src/parse/cst/rules/connectives.rs"; ERR = "src/parse/cst/error.rs"
TN = "src/parse/tree_node.rs"; MP = "macros/src/derive_parse.rs"; MT = "macros/src/derive_tree_node.rs"; SP = "src/span.rs"
MAIN = "examples/main.rs"; AR = "src/parse/arena.rs"; TOK = "src/lex/token.rs"
P = []
def p(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if observe: a["observe_at"] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a), technique, note))

MORPH = "Trusts the transcription of the published morphology in harness/data/morphology.peg; chunks whose predicted cost is too high are skipped and counted."
PARSE = "Trusts the reference grammar in harness/data/cst.grammar, which is evaluated by an independent memoising parser; token sequences whose predicted cost is too high are skipped and counted."

p("C01", "Decomposition loses, reorders and invents nothing",
  "The words found in a text are non-empty, in order, do not overlap, never contain a pause, and never start or end inside a character. Everything that is not in a word is a pause or an ignorable comma, so that the words and the pauses between them make up the text again.",
  ["inputs"], "every text, of any length, in any mixture of Lojban and other characters",
  "The tests compare the words of a list of short well-formed texts; they say nothing about mixtures with junk, commas in odd places, other alphabets, or long texts.",
  [DEC, SP], [("splitting into chunks and words", DEC + ": Decomposer::next, decompose_single"), ("places in the text", SP + ": from_embedded_slice")],
  "exhaustive small strings + random structured texts against tiling invariants", "Exploration: all strings up to a length over several alphabets and random texts. " + MORPH)
p("C02", "Word boundaries are those of the morphology",
  "The words into which a stretch between two pauses is split are those the morphology prescribes: cmavo fall off one by one from the front, as long as what follows can still be words, words with explicit stress end where the stress says, and a stretch that ends in a consonant is a single name.",
  ["inputs"], "every stretch of letters, with or without stress, commas, hesitations, digits or other characters",
  "A few hundred word lists are sampled; the rules interact (tosmabru, slinku'i, stress, glides, syllabic consonants) in more ways than can be listed.",
  [DEC, RUL], [("cmavo falling off, the check of what follows", DEC + ": decompose_single, post_word"), ("morphological rules", RUL + ": cmavo_minimal, explicitly_stressed_brivla_minimal, gismu, fuhivla, lujvo_minimal, nucleus")],
  "exhaustive small strings + random words, differential against a reference PEG evaluator", "Exploration against an independent memoising evaluator of the morphology grammar. " + MORPH)
p("C03", "Pauses are interchangeable, and stretches between them independent",
  "Any run of one or more pauses separates words exactly as any other, and the words of a stretch between pauses do not depend on what surrounds it. The pauses are the space, tab, newline, carriage return, full stop, question mark and exclamation mark, and no other character.",
  ["inputs"], "every text and every replacement of its pauses; every Unicode character as a possible pause",
  "The tests use single spaces and full stops; independence from the surroundings is a relation between runs that no single example shows.",
  [DEC], [("pause characters", DEC + ": split_or_trim_condition"), ("splitting", DEC + ": Decomposer")],
  "metamorphic relations over random texts, enumeration of all characters", "Exploration of metamorphic relations; all Unicode scalar values are tried as a pause.")
p("C04", "Commas, the h spelling and the case of consonants do not matter",
  "Putting commas anywhere inside of a stretch, writing h for an apostrophe, or writing consonants as capitals changes neither how a text is split into words nor the kinds of the words, apart from the places moving with the inserted commas; in quotes of foreign text commas change neither what is quoted, apart from themselves, nor where it ends.",
  ["inputs"], "every text and every respelling of it",
  "The tests respell a handful of words by hand; the rules match letters in over a hundred places, each of which has to skip commas and fold case by itself.",
  [RUL, DEC, CLS], [("letters with commas before them", RUL + ": consonant and vowel rules"), ("normalisation of cmavo", CLS + ": transform_for_direct_cmavo_check"), ("names", DEC + ": simple_cmevla_check")],
  "metamorphic respelling of random texts", "Exploration of metamorphic relations between respellings. " + MORPH)
p("C05", "Stepping through a text any way gives consistent words",
  "Taking words one by one, taking everything up to the next pause undivided, asking how many words are left, cloning the position and going on with either copy can be mixed in any order: each step gives what the position in the text says, undivided stretches continue where the words stopped, copies are independent, and the promised bounds on the number of words always hold.",
  ["histories"], "every text and every history of steps, clones and size hints",
  "The tests take either words only or stretches only from a fresh position; the state kept between steps matters only for mixed histories.",
  [DEC], [("pending words of a stretch", DEC + ": Decomposer::next, next_no_decomposition"), ("bounds", DEC + ": size_hint")],
  "model-based testing of random histories against a reference position", "Exploration: random histories of operations against a reference model of the position in the text.")
p("C06", "Every cmavo gets its own selma'o, however it is written",
  "Every cmavo of the language, and every experimental one the library knows, is recognized as its selma'o and as experimental or not, in any spelling that the orthography allows and wherever it stands in a text; every other word with the shape of a cmavo is an unknown cmavo, marked experimental.",
  ["inputs"], "every cmavo in every spelling (stress, capitals, commas, h) and context; every cmavo-shaped string up to a length",
  "The tests look at single words of a few selma'o in plain spelling.",
  [CLS, SEL, DIS], [("table of cmavo", CLS + ": Selmaho::classify"), ("names of selma'o", DIS + ": as_repr"), ("normalisation", CLS + ": transform_for_direct_cmavo_check")],
  "enumeration of the word list in random spellings and contexts, against an independent table", "Exploration: the whole word list and all short cmavo shapes, random spellings. Trusts harness/data/cmavo.tsv.")
p("C07", "Other words get the class that the morphology gives them",
  "A word that is not a cmavo is recognized as a name, gismu, lujvo or fu'ivla exactly when the morphology says it is one, and as foreign text otherwise; in particular the gismu are the five-letter words with permissible consonant pairs.",
  ["inputs"], "every string, in particular all CVCCV and CCVCV shapes and all short strings over several alphabets",
  "The tests run a list of known words through each rule; what must not be accepted is hardly sampled.",
  [RUL, CLS], [("morphological rules", RUL + ": gismu, lujvo_minimal, fuhivla, cmevla, consonant pairs"), ("order of the classes", CLS + ": classify_generally")],
  "exhaustive shapes against pair tables, differential against a reference PEG evaluator", "Exploration; gismu shapes are decided independently of any grammar by the published pair tables. " + MORPH)
p("C08", "The tokens of a text are those of the reference lexer",
  "Lexing any text gives the same tokens, with the same kinds, places and experimental marks, and the same error if there is one, as an independent reading of the rules for words, quotes of foreign text and the end of text.",
  ["inputs"], "every text, with any mixture of words, junk, and quotes of all kinds",
  "The tests lex some fifty short texts; combinations (quotes in quotes, delimiters with commas, junk next to quotes) are not reached.",
  [LEX, DEC, CLS], [("the lexer and its quote states", LEX + ": Lexer::next"), ("kinds of words", CLS + ": Selmaho::classify")],
  "random texts, differential against a reference lexer", "Exploration against an independent reference lexer. " + MORPH)
p("C09", "Lexing ordinary text is decomposing and classifying it",
  "Without quotes of foreign text, the tokens of a text are exactly its words, one by one, each with the kind it has on its own, up to and including the first word that ends the text; nothing after that word is looked at.",
  ["inputs"], "every text without quotes of foreign text",
  "A relation between three operations that the tests exercise separately.",
  [LEX, DEC, CLS], [("the lexer", LEX + ": Lexer::next"), ("end of text", LEX + ": Faho")],
  "differential between the lexer, decomposition and classification on random texts", "Exploration of a relation inside of the code under test, no reference needed.")
p("C10", "Delimited quotes keep their contents as written",
  "A quote with a delimiter gives the opening word, the delimiter, everything up to the next occurrence of the delimiter as a stretch of its own exactly as it was written, and the delimiter again; commas in the delimiter do not matter, nothing inside of the quote is interpreted, and lexing goes on right after it.",
  ["inputs"], "every delimiter and every quoted text, including near misses of the delimiter, empty quotes, and further quotes after it",
  "The tests have a few quotes with ordinary delimiters and contents.",
  [LEX], [("delimiter and contents of quotes", LEX + ": Lexer::next and its delimited quotes"), ("stretches taken undivided", DEC + ": next_no_decomposition")],
  "random quotes, differential against a reference lexer and round trip of the contents", "Exploration against an independent reference lexer, and round trips of generated contents.")
p("C11", "Words that quote up to the next pause quote exactly that",
  "A word that quotes the next stretch between pauses takes exactly that stretch, as written and uninterpreted, however many pauses (or commas between them) come before it, and lexing goes on normally after it.",
  ["inputs"], "every text with such words, before any stretch, with any pauses, at the end of a word chain or on their own",
  "Only single spaces and simple words are tested.",
  [LEX, DEC], [("quotes up to a pause", LEX + ": Lexer::next"), ("stretches taken undivided", DEC + ": next_no_decomposition")],
  "random texts, differential against a reference lexer", "Exploration against an independent reference lexer. " + MORPH)
p("C12", "Incomplete quotes are reported precisely, and end the lexing",
  "An error is reported exactly when a quote is incomplete: no delimiter, no closing delimiter, or no text at all. It comes after the tokens before the quote, names the word that opened the quote and its delimiter at their places, and nothing comes after it, no matter how often the lexer is asked.",
  ["inputs"], "every text cut off at every place inside of a quote",
  "Each error has one or two examples in the tests; places and the end of the iteration are not varied.",
  [LEX], [("errors", LEX + ": Error, Lexer::next")],
  "truncation of random texts with quotes, differential against a reference lexer", "Exploration against an independent reference lexer. " + MORPH)
p("C13", "Places always fit the text",
  "For any text at all, every token and every place in an error is a non-empty part of that text that starts and ends between characters, tokens come in order without overlapping, and what lies between them is only pauses and ignorable commas until the text ends or an error is reported.",
  ["inputs"], "every text in any alphabet, including unassigned, combining and control characters",
  "The tests are in ASCII, where places and characters cannot disagree.",
  [LEX, DEC, SP, TOK], [("places of tokens", SP + ": from_embedded_slice, slice"), ("quoted stretches", LEX + ": Lexer::next")],
  "random Unicode texts against tiling invariants", "Exploration; invariants over the tokens, no reference needed.")
p("C14", "Exactly the grammatical token sequences are accepted",
  "A sequence of tokens is parsed successfully if and only if it belongs to the language of the documented grammar.",
  ["inputs"], "every sequence of tokens: all pairs, all triples of common kinds, sentences of the grammar of any shape, damaged ones, random ones",
  "The tests contain a thousand grammatical sentences but few ungrammatical ones, and each construct only in a few surroundings.",
  [GR, HE, RS, ME, CO, PT, CST, MP], [("grammar rules", GR + ", " + ME + ", " + CO), ("repetition, separation and optional parts", HE), ("derived parsers", MP), ("quoted words, indicators around every token", RS)],
  "grammar-based generation and mutation, differential against a reference parser", "Exploration. " + PARSE)
p("C15", "The tree has the structure that the grammar prescribes",
  "The tree of an accepted text has exactly the nodes, names, nesting and order that the grammar prescribes, alternatives being tried in the documented order, whatever the constructs are combined with.",
  ["inputs"], "every accepted token sequence, with deep nesting and long repetitions",
  "Trees are hardly compared by the tests: most only check that a sentence is accepted.",
  [GR, HE, RS, ME, CO, PT, MP, MT, TN], [("grammar rules", GR + ", " + ME + ", " + CO), ("repetition and separation", HE), ("derived parsers and nodes", MP + ", " + MT)],
  "grammar-based generation, differential comparison of whole trees with a reference parser", "Exploration. " + PARSE)
p("C16", "The leaves of a tree are the tokens, each once, in order",
  "Walking any tree visits every token of the parsed text exactly once, in the order of the text and with its own kind and place, and nothing else is a leaf with a place; printing a tree shows the places of the same tokens in the same order.",
  ["inputs"], "every accepted token sequence",
  "The tests do not walk trees.",
  [TN, MT, HE, RS, PT], [("walking children", TN + ": for_each_child"), ("derived nodes", MT), ("consuming tokens", RS)],
  "grammar-based generation against an invariant of the tree", "Exploration; invariant of the tree, no reference needed for accepted texts.")
p("C17", "Every node reaches over its tokens and knows whether they are experimental",
  "Each node of a tree starts where its first token starts and ends where its last token ends, has no place exactly when it has no tokens, and is experimental exactly when one of its tokens is.",
  ["inputs"], "every node of every tree of every accepted token sequence, with any tokens marked experimental and any places",
  "The tests do not ask nodes for their places.",
  [TN, MT, HE], [("combining children", TN + ": start_location, end_location, experimental"), ("derived nodes", MT), ("separated lists", HE)],
  "grammar-based generation against an invariant of the tree", "Exploration; the invariant is recomputed from the leaves.")
p("C18", "A rejection points at the token that could not be used",
  "When a text is rejected, the location of the error is the rest of the given tokens starting with the first one that the grammar had no use for, or empty if the text ended too early; where the error says which kinds were expected, these could be used there, and what it found is the token there.",
  ["inputs"], "every rejected token sequence, the fault being anywhere in it",
  "No test looks at the location of an error.",
  [ERR, RS, HE, PT, CST], [("merging errors of alternatives", ERR + ": WithLocation::or"), ("location of a mismatch", RS), ("end of input", CST)],
  "damaged grammatical sentences, differential against a reference parser", "Exploration. " + PARSE)
p("C19", "Indicators and emphasis change nothing else",
  "Putting indicators after words or emphasis before words of a grammatical text, where they are allowed, leaves it grammatical and its tree the same apart from the added indicators.",
  ["inputs"], "every grammatical text and every place in it",
  "A relation between two texts; the tests have a few indicators at the start of sentences.",
  [RS, GR], [("free modifiers around tokens", RS)],
  "metamorphic insertion into generated sentences", "Exploration of a metamorphic relation that is itself validated on the reference parser (check.sh selftest).")
p("C20", "Elidable terminators can be written or left out",
  "Writing out a terminator that was left out, at the place where the construct ends, or leaving out one at the end of the text, changes nothing in the tree apart from the terminator itself.",
  ["inputs"], "every grammatical text and every elidable terminator in it",
  "A relation between two texts; the tests have examples for some of the terminators only.",
  [GR, ME, CO], [("optional terminators", GR + ", " + ME)],
  "metamorphic insertion and deletion in generated sentences", "Exploration of a metamorphic relation that is itself validated on the reference parser (check.sh selftest).")
p("C21", "Grammatical texts stay so inside of quotes, parentheses and sequences",
  "A grammatical text can be quoted, put in a parenthesis after any word, and followed by another one, and its tree comes back unchanged as part of the whole.",
  ["inputs"], "every pair of grammatical texts",
  "Quotation and parentheses are tested with single short sentences inside.",
  [GR, RS, HE], [("quotes of text", GR + ": Lu"), ("parentheses", GR + ": To"), ("joining", GR + ": paragraphs and statements")],
  "metamorphic embedding of generated texts", "Exploration of a metamorphic relation that is itself validated on the reference parser (check.sh selftest).")
p("C22", "Results depend on nothing but the text",
  "Decomposing, lexing and parsing a text gives the same result whatever was processed before, by however many threads at a time, in a fresh or a shared arena, inside of whatever larger buffer, with logging on or off; trees stay intact while others are built in the same arena.",
  ["histories", "schedules", "configurations"], "every history of operations on several texts, arenas and threads",
  "Every test works on one text in a fresh state.",
  [AR, CST, PT, SP, DEC], [("arena", AR), ("places relative to a buffer", SP + ": from_embedded_slice"), ("tracing of rules", PT)],
  "model-based histories over texts, arenas and threads, against per-text references", "Exploration: random histories; real threads, without control over the scheduler.")
p("C23", "Nothing crashes, and everything ends",
  "Decomposing, lexing, classifying, parsing, printing results and walking trees never crash and always end, for any text and any tokens, on a thread with an ordinary stack of 8 MB.",
  ["inputs"], "every text and every token sequence, within stated limits of nesting (3000 rules deep), chunk length (700 letters) and predicted cost",
  "The tests use short well-formed texts; crashes come from long, deep or odd ones.",
  [DEC, RUL, LEX, CST, GR, HE, SP, TN], [("recursion in the grammar", GR), ("repetition", HE + ": many0 and separated"), ("recursive morphological rules", RUL)],
  "fuzzing with random, nested, repeated and long inputs in resource-limited processes", "Exploration within stated limits; stack overflow and exponential time beyond them are listed as known findings.")
p("C24", "Spans are intervals",
  "Length, emptiness, containment, overlap, the gap between two spans, and cutting a text at a span behave as for half-open intervals of bytes, for all places up to the largest, and cutting never splits a character.",
  ["inputs"], "every pair of spans and every text",
  "The tests have a few pairs of small spans.",
  [SP], [("interval operations", SP)],
  "exhaustive small spans and random ones against set arithmetic", "Exploration; all pairs of spans inside of twelve places at six bases, and random ones.")
p("C25", "The command line tool says what the library found",
  "For every text on its standard input, or line on a terminal, and every combination of its options, the tool prints the words, tokens and tree that the library finds, with the texts at their places, reports errors where they are, and ends normally.",
  ["inputs", "configurations"], "every text and every combination of options",
  "The tool has no tests.",
  [MAIN, TN, DIS], [("printing words, tokens and trees", MAIN)],
  "random texts, terminal sessions and options through the real binary, output compared with the reference", "Exploration: the built example binary is run on generated texts. " + MORPH)

with open(here + "/properties.jsonl", "w") as f:
    for d, _, _ in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./check.sh build",
     "checks": [{"property": d["id"], "quick_cmd": f"./check.sh {d['id']} quick", "thorough_cmd": f"./check.sh {d['id']} thorough",
                 "technique": t, "level": "exploration", "level_note": n} for d, t, n in P],
     "not_applicable": [],
     "notes": "One harness crate (harness/) with a path dependency on /repo; no hooks in /repo. ./check.sh replay FILE runs a stored case again, ./check.sh selftest validates the metamorphic relations on the reference parser. known_findings.txt lists findings and repairs."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False); open(here + "/MANIFEST.json", "a").write("\n")
for d, _, _ in P:
    assert len(d["title"]) <= 80, d["title"]
