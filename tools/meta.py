#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing this file)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "Narsese/include/"
PAR = ["Narsese/Parser/NarseseParser.cpp", "Narsese/Parser/Parser.cpp", "Narsese/Parser/narsese.cpp", "Narsese/Parser/narsese.h", "Narsese/Parser/narsese.par"]
TRM = [T + x for x in ("Term.h", "Compound.h", "Statement.h", "Variable.h", "Term.inl", "Compound.inl", "Statement.inl", "Variable.inl", "Interval.h", "Operation.h")] + \
      ["Narsese/src/" + x for x in ("Term.cpp", "Compound.cpp", "Statement.cpp", "Variable.cpp")]
SNT = [T + x for x in ("Sentence.h", "Task.h", "Truth.h", "Budget.h", "Evidence.h", "Tense.h")] + ["Narsese/src/Sentence.cpp", "Narsese/src/Task.cpp", "Narsese/src/Budget.cpp", "Narsese/src/Truth.cpp"]
ITP = ["Interpreter/include/Interpreter.hpp", "Interpreter/src/Interpreter.cpp"]

P = []
def p(id, title, statement, over, text, why, files, mech, observe, level="model_checking", technique=None, note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                  technique=technique or "TLA+ specification checked by TLC; sentences and call histories it generates replayed into the real code; recorded traces validated by TLC against it", note=note, na=na))

p("P01", "Parsing yields exactly the term and sentence the text denotes",
  "For every Narsese text the parser accepts, in every notation the grammar offers (prefix, infix and multi-infix compounds, sets, angle and round statements, operations, variables, intervals, images, instance/property copulas, with any number of spaces between its parts), the resulting term tree - its kinds, copulas, connectors, names, numbers, nesting and component order - and the sentence's kind are exactly those the grammar's reading of the text gives, and alternative notations of one term give equal terms. A variable's number is decided by the first occurrence of its name within the sentence, separately per kind of variable.",
  ["inputs"], "every accepted text, of any length and nesting", "Tests parse a few dozen fixed lines and mostly check that nothing is thrown; the space of notations, nestings and operators is unbounded.",
  PAR + ITP, [("grammar tables and tree transformation", "Narsese/Parser/NarseseParser.cpp")], ["term tree and sentence kind of the returned task"])
p("P02", "Exactly the sentences of the grammar are accepted, safely",
  "The parser returns a task for a text exactly when the grammar derives the text from its start symbol, and returns no task for every other text. It never crashes, hangs, or reads or writes outside its memory, whatever bytes the text consists of and however long or deeply nested it is.",
  ["inputs"], "every byte string", "Tests contain a handful of accepted lines; rejection and long, deep or malformed inputs are hardly sampled.",
  PAR, [("LALR tables, lexer and growing parser stack", "Narsese/Parser/Parser.cpp")], ["whether a task is returned; memory safety of the call"])
p("P03", "Parsing a text does not depend on what was parsed before",
  "The outcome of parsing a text (accepted or not, and the term, sentence kind, truth, budget and tense of the task) is a function of the text and the current time only: the same whichever texts this or any other parser object has parsed or failed on before, whichever terms and tasks are alive, and the same as in a fresh process.",
  ["histories", "inputs"], "every sequence of parses, successful or failing (including failures after the syntax was accepted), over any number of parser objects, interleaved with dropping results", "Tests parse texts in one fixed order; leftover parser state only shows after particular failures.",
  PAR, [("parser state reset and per-parse variable numbering", "Narsese/Parser/NarseseParser.cpp")], ["outcome of each parse of a repeated text"])
p("P04", "Truth, budget and tense of a task are as written, defaults otherwise",
  "A parsed task carries the frequency, confidence and horizon, the priority, durability and quality, and the tense or explicit occurrence time that its text states. Whatever part is absent takes its documented default: truth 1.0/0.9/1, budget 0.8/0.8/0.5 when absent entirely, durability by kind of sentence and quality from the truth when partly given, an eternal stamp without tense, and occurrence times offset from the current time by the configured duration for the tenses.",
  ["inputs", "histories"], "every combination of stated and omitted parts, every number, every clock value", "Tests check one or two fixed combinations.",
  PAR + SNT + ["Config.cpp"], [("tree transformation of budget, truth and tense", "Narsese/Parser/NarseseParser.cpp")], ["budget, truth and stamp of the returned task"])
p("P05", "A printed term, sentence or task is exact and parses back to itself",
  "The plain text printed for a term, sentence or task states exactly its structure and values (numbers as rounded to the printed decimals, tense relative to the current time, truth for judgements and goals only). Printing a task whose numbers the notation can express and parsing the text again gives a task with an equal term, the same kind of sentence, tense, and the printed truth.",
  ["inputs", "histories"], "every term, sentence and task that parsing or the construction functions can make, with names the notation can express", "Tests print for a human and never compare or re-read.",
  TRM + SNT + PAR, [("repr of term, sentence, task, truth and budget", "Narsese/include/Term.h")], ["printed text and the result of parsing it"])
p("P06", "Names and atoms correspond one to one for as long as they live",
  "While an atom of a name is alive, every creation, lookup or parse of that name yields that same atom, so two atomic terms are the same object exactly when their names (with the operation marker) are equal; an operation and a plain word of the same letters stay distinct. Once the last handle is gone the name can be created anew without any trace of the old atom.",
  ["histories"], "every history of creating, parsing, copying and dropping terms", "Tests create a few words once; lookups after drops, and clashes of words, operations and anonymous atoms, are not sampled.",
  TRM + PAR, [("the dictionary of named terms", T + "Term.h")], ["identity of the objects behind handles"])
p("P07", "Terms live exactly as long as something refers to them",
  "The set of live term objects is at every moment exactly those reachable from live handles (terms, sentences, tasks, containers): nothing reachable is destroyed, and every object is destroyed, and its name leaves the dictionary, once nothing refers to it any more, including after rejected parses.",
  ["histories"], "every history of creating, sharing, cloning, copying into, and dropping", "Tests never count live objects; leaks and early destruction depend on the order of drops and on sharing.",
  TRM + SNT + PAR, [("reference counting handles and the dictionary's weak entries", T + "Term.h")], ["dictionary contents, destruction of observed nodes"])
p("P08", "Compounds are normalised by their connector's algebra, and only by it",
  "A compound of an associative connector holds no component of its own connector; commutative compounds hold each component once and are equal however their components are ordered or grouped; sets inside intersections, and inside sets, are merged as set algebra prescribes; a compound of a connector without such laws keeps its components as given. No component is invented, lost or shared between the wrong groups.",
  ["inputs"], "every connector and every multiset of components, at any nesting", "Tests build a few fixed compounds.",
  TRM + [T + "Connector.h"], [("component preparation", T + "Compound.inl")], ["components of the compound"])
p("P09", "Equality, hashing and ordering of terms agree",
  "Two terms are equal exactly when they have the same structure (commutative components as sets, variables by kind and number); equal terms have equal hash values; and the ordering of terms is a strict order: irreflexive, asymmetric and transitive, with exactly the equal terms incomparable.",
  ["inputs"], "every pair and triple of terms", "Tests compare a few fixed pairs; transitivity over arbitrary triples cannot be sampled by hand.",
  TRM, [("equality, hash and comparison of terms", T + "Term.inl")], ["==, hash and < over groups of terms"])
p("P10", "A clone equals its original and is independent of it",
  "Cloning a term yields an equal term with the same attributes. Renumbering a variable in the clone or in the original never shows in the other, parts without variables may be shared, and cloning changes nothing that was there before.",
  ["inputs", "histories"], "every term, every later renumbering of a variable on either side", "Tests clone one or two terms and compare text.",
  TRM, [("clone and the variable index", T + "Term.h")], ["structure of all live terms after each step"])
p("P11", "Derived attributes of a term agree with its structure",
  "Complexity, being higher-order, being an operation, being commutative, the presence of each kind of variable, of intervals, and of the other flags a term exposes are always functions of its structure: equal for a term however it was made (parsed, constructed, cloned).",
  ["inputs", "histories"], "every term, every way of making it", "Tests look at a few attributes of a few terms.",
  TRM, [("constructors computing the attributes", "Narsese/src/Compound.cpp")], ["attributes of every node"])
p("P12", "The variable index lists exactly the variable occurrences",
  "For every term and each kind of variable, the index a term keeps lists each occurrence of such a variable at its position once, with occurrences of one variable grouped as the same, and nothing else; it always agrees with what walking the tree finds.",
  ["inputs", "histories"], "every term with any number of variables of any kind at any depth", "Tests check the index of two or three fixed terms by printing it.",
  TRM + [T + "Variable.h"], [("index connection on construction", T + "Variable.inl")], ["index trees of every node"])
p("P13", "Component containers obey set and list algebra",
  "A commutative container holds each equal term once whatever the order of insertion, an ordered one keeps exactly the sequence; union, intersection and difference of commutative containers are those of sets for any number of operands and leave the operands unchanged; combining ordered containers is refused. Iteration visits each member exactly once, and equality and membership follow the members.",
  ["inputs", "histories"], "every sequence of container operations over any terms", "Tests use a couple of two-element containers.",
  [T + "Term.h", T + "Compound.h", "Narsese/src/Term.cpp", "Narsese/src/Compound.cpp"], [("Terms container", "Narsese/src/Term.cpp")], ["members of containers after each operation"])
p("P14", "Evidential bases merge fairly, bounded, and report overlap exactly",
  "Merging two evidential bases alternates their entries, the second base's first, into the result until it holds the configured maximum; extending replaces a base by such a merge and adding inserts one entry. Two bases overlap exactly if they share an entry; equal bases have equal hashes; every new piece of evidence receives an identifier no other has had in the process.",
  ["inputs", "histories"], "every pair of bases of any lengths, every history of merging and extending", "Tests do not touch evidence at all.",
  [T + "Evidence.h", "Global.h", "Config.cpp"], [("base merging", T + "Evidence.h")], ["contents of bases after each call"])
p("P15", "A stamp's times, tense and evidence stay its own",
  "A stamp reports past, present or future relative to the current time and the configured duration, eternal if it has no occurrence time, and making it eternal is permanent; its creation time is the clock's value when it was made, and it has an evidential base of its own. There is one clock and one evidence counter per process, whichever part of the program reads or sets them.",
  ["histories", "inputs"], "every occurrence time and clock history, every way of making a stamp", "Tests do not touch stamps.",
  [T + "Evidence.h", T + "Tense.h", "Global.h", "Global.cpp"], [("Stamp", T + "Evidence.h")], ["tense and fields of stamps as the clock moves"])
p("P16", "Truth and budget values stay coherent and default as configured",
  "The expectation of a truth value is its confidence times the distance of its frequency from one half, plus one half; its evidential weights and its frequency and confidence convert into each other both ways with the horizon it carries; the quality taken from a truth value follows its expectation; and values print with the configured decimals. Absent parts take the configured defaults and stay what they were set to.",
  ["inputs"], "every frequency, confidence, horizon and weight in range", "Tests do not touch these values.",
  [T + "Truth.h", T + "Budget.h", "Narsese/src/Truth.cpp", "Narsese/src/Budget.cpp", "Config.cpp"], [("Truth, Budget", T + "Truth.h")], ["values and derived values"])
p("P17", "Truth functions compute the inference rules' values, within range",
  "Every truth-value function computes the value its inference rule defines from the premises' frequency and confidence; results of values in range stay in range, and functions of symmetric rules do not depend on the order of the premises. Projecting a truth value to another time leaves its frequency, never raises its confidence, and loses none at its own time.",
  ["inputs"], "all premise values in range, all times", "Tests do not call the truth functions.",
  ["NAL/Functions/include/TruthFunctions.h", "NAL/Functions/src/TruthFunctions.cpp", "NAL/Functions/include/ExtendedBooleanFunction.h", "NAL/Functions/include/UncertaintyMappingFunctions.h", "NAL/Functions/src/UncertaintyMappingFunctions.cpp", "NAL/Functions/include/TemporalFunctions.h"],
  [("truth functions", "NAL/Functions/src/TruthFunctions.cpp")], ["computed truth values"])
p("P18", "The dictionary of interpreted objects is a faithful two-way map",
  "In every dictionary (interpreter) a registered name has one key and leads back from that key to the name, however large the key; looking up by name and by key, the number of registrations, the object behind a key, and the answers of erasing and removing always agree with the history of registrations: erasing takes back one registration and the last one takes out the entry, removing takes out both directions and releases the object, resetting forgets and releases everything. Asking for a word that is registered gives the registered atom, a new word a new one, and when the last holder of an atom lets go its name disappears. Two dictionaries never influence each other.",
  ["histories"], "every history of registering, looking up, erasing, removing and resetting, over any names and keys, in several dictionaries", "Tests use the global dictionary through a handful of parses; removal, recounts, large keys and second dictionaries are never exercised.",
  ITP + TRM, [("Interpreter: the two maps, counts and objects", "Interpreter/include/Interpreter.hpp"), ("Term::create(word, interpreter)", "Narsese/src/Term.cpp"), ("handles releasing names", T + "Term.inl")], ["answers of every lookup after every call", "liveness of the atoms registered"])
p("P19", "The Python module agrees with the C++ library",
  "What Python code obtains from parsing or constructing through the module (acceptance, term structure, text, kinds, copulas, connectors, truth, budget) is what the C++ library gives for the same input; rejected input raises an exception, and no sequence of Python calls crashes the interpreter or invalidates objects that are still referenced.",
  ["inputs", "histories"], "every input, every history of Python calls", "The Python tests parse a few lines.",
  ["Narsese.cpp"] + TRM, [("pybind11 bindings", "Narsese.cpp")], ["values seen from Python"])
p("P20", "Coloured output is the plain output with colour codes added",
  "For every term, sentence and task, the coloured text with its terminal escape codes removed is the plain text in the coloured layout, printing in colour or plain never fails, and printing changes nothing.",
  ["inputs"], "every term, sentence and task, with any names", "Tests print one coloured task.",
  TRM + SNT, [("coloured repr", "Narsese/include/Term.h")], ["coloured text"])
p("P21", "The tree of variable positions stays consistent under every operation",
  "A variable index lists, once it is built, exactly the occurrences at the leaves below it, each with the path of successor numbers that leads to it and the number of its variable, in order; taking positions over while connecting gives the same as building. The normalised numbers are the ranks of the distinct numbers listed, equal normalised numbers have equal hash values and compare equal, and both follow every change once the index is built again. Adding, removing and renumbering affect every index above the place and no other; a clone equals what was cloned and shares nothing with it.",
  ["histories"], "every history of creating, connecting, adding, removing, renumbering, cloning and building, over trees (and shared subtrees) of any shape", "Tests do not use the index at all except through two fixed terms.",
  ["utils/IndexVar.h", "utils/IndexVar.cpp"], [("IndexVar::connect, build, add, remove, clone, normalize", "utils/IndexVar.cpp")], ["positions, numbers, normalised numbers and hashes of every node after every call"])
p("P22", "Copulas and connectors are classified and related as the logic defines",
  "Every copula and connector is commutative, higher-order, temporal and mergeable exactly as the logic says; the symmetric form of a copula is the mutual relation of its level and time, and a mutual one's is itself; the reversed form of a temporal copula swaps before and after, and reversing twice gives the copula back; each connector accepts exactly the numbers of components its kind allows; and the written forms of copulas, connectors, marks, tenses and variables are those of the notation.",
  ["inputs"], "every copula, every connector, every number of components", "Tests look at none of these tables directly, and use only the entries their few sentences need.",
  [T + "Copula.h", T + "Connector.h", T + "Tense.h", T + "Variable.h", T + "Sentence.h", "Narsese/src/Copula.cpp", "Narsese/src/Connector.cpp"], [("classification and mapping tables", T + "Copula.h"), ("check_valid", T + "Connector.h")], ["answers of the classification functions"])

BUILT = sys.argv[1:] or json.load(open(os.path.join(V, "tools", "built.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
                            "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]], "observe_at": x["observe"], "hook_needed": None}}) + "\n")
man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "checks": [{"property": x["id"], "quick_cmd": "python3 check.py %s" % x["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % x["id"],
                   "technique": x["technique"], "level": "model_checking",
                   "level_note": x["note"] or "TLC exhausts the specification within small constants; the real code is bound to it by replaying TLC-generated and seeded random behaviours and validating every recorded trace with TLC, so conformance is bounded to the behaviours run."}
                  for x in P if x["id"] in BUILT],
       "not_applicable": [{"property": x["id"], "reason": x["na"] or "the check for it is not built yet"} for x in P if x["id"] not in BUILT]}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
