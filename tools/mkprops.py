#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

RAM = "src/models/wisard/ram.cc"; DISC = "src/models/wisard/discriminator.cc"; WIS = "src/models/wisard/wisard.cc"
CLU = "src/models/cluswisard/cluster.cc"; CLW = "src/models/cluswisard/cluswisard.cc"; RDH = "src/models/wisard/ramdatahandle.cc"
UT = "src/common/utils.cc"; BL = "src/common/bleaching.cc"; BI = "src/data/bininput.cc"; DS = "src/data/dataset.cc"
KC = "src/binarization/kernelcanvas.cc"; SY = "src/synthetic_data/synthesizers.cc"; BIND = "src/wisard_bind.cc"
WW = "src/wrappers/wisardwrapper.cc"; CW = "src/wrappers/cluswisardwrapper.cc"; DW = "src/wrappers/discriminatorwrapper.cc"; KW = "src/wrappers/kernelcanvaswrapper.cc"
HDR = "include/wisardpkg.hpp"; EXC = "src/common/exceptions.cc"

p("C01", "Queries never change the object they ask",
  "Classifying, exporting a model as JSON, reading mental images, measuring size, reading or comparing RAM data, and reading or saving a data set leave the object asked and every argument exactly as they were. Whatever is trained, classified or exported afterwards is what it would have been had the query never been made, also when the query names a label, RAM, address or index that does not exist.",
  ["histories", "inputs"], "every query operation of every class, in every state of the object, for present and absent keys alike",
  "The tests make one query on a fresh model and look at its return value only; none re-examines the object after a query, and none queries an absent label, RAM, address or index.",
  [RAM, DISC, WIS, CLU, CLW, RDH, DS, BI, SY, WW, CW, BL],
  [("find-based lookups in the vote path", RAM+" getVote"), ("mental image and JSON readers", DISC), ("lookups by label in ClusWisard", CLW+" getMentalImage"), ("lookups in RAM data", RDH+" get/data"), ("label lookup while saving", DS+" save")],
  state=[("counters of a RAM", "what the model has learned", RAM+" positions"), ("labels of a data set", "which entries are labelled", DS+" labels")])

p("C02", "Objects are independent of each other and of the caller's data",
  "Training, changing or destroying one model, RAM data handle, data set or input never changes what any other one contains or answers, including copies of it and models restored from its JSON. No object keeps a reference to data the caller passed in or hands out one to its own storage that would let the caller change it, and no two objects communicate through shared mutable state.",
  ["histories", "programs"], "all programs that create, copy, restore, train and destroy any number of objects in any order",
  "No test ever copies a model or interleaves work on two of them; aliasing shows only in particular copy/train/destroy histories.",
  [RAM, DISC, WIS, CLU, CLW, RDH, DS, BI, SY, KC, UT, BIND],
  [("members held by value", "all model classes"), ("owned discriminators of a cluster", CLU), ("Base64 tables shared by everything", UT), ("return values of the Python binding", BIND)])

p("C03", "Classification depends only on the model and the input",
  "Classifying an input with a given trained model always gives the same votes, the same class and the same reported degrees. The answer uses no clock, random source, environment, uninitialised or process-wide mutable value, and does not depend on the other inputs of the batch, on earlier calls, or on the order of a hash table.",
  ["histories", "inputs", "programs"], "every model, every input, every sequence of calls before it",
  "The tests classify each input once; a hidden dependence on time, randomness, earlier calls or batch position needs repeated or interleaved calls to show.",
  [RAM, DISC, WIS, CLU, CLW, BL, WW, CW],
  [("vote computation", RAM+" getVote"), ("bleaching", BL), ("per-image loop", WIS+" _classify"), ("per-image loop of the binding", WW)])

p("C04", "Input that does not fit is rejected before it is used",
  "An input whose length differs from the entry size is never trained, untrained or classified: the call raises an exception instead. The same holds for a batch whose numbers of images and labels differ, for a symbol outside 0..base-1, for a confidence larger than the number of RAMs at training time, and for constructor arguments out of their documented range (address size or entry size below 2 or address size above entry size when RAMs are laid out, base below 2, an index list that is not a permutation of the entry, min score outside 0..1, threshold or discriminator limit below 1, kernel count, dimension or bits below 1, activation degree outside 0..1).",
  ["inputs", "configurations"], "every training, untraining and classification entry point and every constructor, for all argument values",
  "No test passes an invalid input at all, so removing, reordering or weakening any of these rejections goes unnoticed.",
  [DISC, RAM, WIS, CLW, KC],
  [("entry size check", DISC+" checkEntrySize"), ("symbol check", RAM+" checkPos"), ("batch size check", WIS+" checkInputSizes"), ("confidence check", WIS+" checkConfidence"), ("layout checks", DISC+" checkAddressSize/checkBase/checkListOfIndexes"), ("cluster configuration checks", CLW+" checkConfigInputs"), ("kernel checks", KC+" checkInputs")])

p("C05", "A rejected example leaves no trace",
  "When a training, untraining or cluster-training call raises an exception for an example or for its arguments, nothing of that example has been learned: no counter, training count, class or discriminator was added or changed for it. Checks on a whole batch are made before the first example of the batch is learned.",
  ["inputs", "histories"], "every training and untraining entry point and every way an example can be rejected, in every model state",
  "No test provokes a rejection, let alone compares the model before and after one.",
  [DISC, RAM, WIS, CLU, CLW],
  [("checks ahead of updates", DISC+" train/untrain"), ("class creation", WIS+" train"), ("cluster creation", CLW+" train")])

p("C06", "Different patterns never share a counter",
  "Within one RAM, two inputs select the same counter exactly when they agree on every position the RAM addresses: the address is the positional number formed by the symbols in the configured base over all addressed positions, kept at full 64-bit width everywhere it is computed, stored, exported, restored, queried or decoded. An address space larger than 2^64 is refused at construction.",
  ["inputs", "configurations"], "all bases, address sizes, mappings and inputs, in particular address sizes near and above 31 and 63",
  "The tests use address sizes 2, 3 and 20 with base 2 only, far below the widths at which truncation or wrap-around starts.",
  [RAM, RDH, "src/common/definetypes.cc", BIND],
  [("address computation", RAM+" getIndex"), ("address decoding", RAM+" convertToBase"), ("limit check", RAM+" checkLimitAddressSize"), ("address parameters", RDH+" get/set")])

p("C07", "Learning, forgetting and voting address the same counters",
  "Training an example adds exactly one to the counter it selects in every RAM and one to the training count; untraining takes exactly one from an existing counter selected the same way; and a vote reports the value of the selected counter, 0 if it was never written, or 0 for the all-zero pattern when zeros are ignored. Every RAM takes part exactly once, and list inputs and packed binary inputs are treated alike.",
  ["inputs", "histories"], "all inputs, both input representations, all RAMs, every training history",
  "The tests train one representation and check the winning class; a RAM skipped, a counter bumped twice, or a different address in untrain is absorbed by the vote. leaveOneOut/leaveMoreOut and packed inputs are never exercised.",
  [RAM, DISC], [("train/getVote/untrain of a RAM", RAM), ("loops over the RAMs", DISC)],
  state=[("counters", "occurrences per address", RAM+" positions"), ("training count", "examples learned", DISC+" count")])

p("C08", "Every setting reaches every RAM the model creates",
  "Whatever creates a discriminator (first example of a class, a new cluster discriminator, unsupervised training, restoring from JSON), its RAMs work with the base, zero handling, address size, completion mode, index list and mapping the model was configured with, and its clusters with the configured min score, threshold and limit. No creation path falls back to a default when the user chose another value.",
  ["configurations", "histories"], "every option combination and every path on which a discriminator is created",
  "The tests configure models with defaults; a setting dropped on one creation path is invisible with the default value.",
  [WIS, CLU, CLW, DISC, RAM, DW], [("makeDiscriminator/makeClusters", WIS+", "+CLW), ("constructors", DISC), ("unsupervised cluster", CLW+" trainUnsupervised")])

p("C09", "A restored model has every setting and counter of the saved one",
  "A model written with its JSON export and constructed again from that text has the same settings, classes, discriminators, mappings, training counts and RAM contents as the original, so it behaves the same under all later classification, training and export. Each saved item is restored to the setting it was saved from, nothing needed is left out, and a configuration-only export restores as the same model untrained.",
  ["configurations", "histories", "inputs"], "every configuration and training history, both in-text and in-file RAM data, trained and untrained models",
  "The tests restore one default-configured trained model and compare classifications of five inputs; options that equal the default, untrained models, later training and config-only exports are not covered.",
  [WIS, CLU, CLW, DISC, RAM, RDH], [("writers", "getConfig, getJSON, getRAMsData"), ("readers", "constructors from JSON, setRAMsData")])

p("C10", "The text encodings lose nothing",
  "Base64 encoding followed by decoding returns exactly the original bytes for every byte string, including the empty one. RAM contents, packed inputs and data sets written as text or to a file are read back with every address, counter, bit, label and record intact: writer and reader agree on field order, width, separators and file suffix, and the separators cannot occur inside encoded data.",
  ["inputs"], "all byte strings, all RAM contents, all packed inputs and data sets",
  "Base64 is run on one 12-byte string, packed inputs and data sets not at all.",
  [UT, RDH, BI, DS, DISC, "src/common/definetypes.cc"], [("Base64", UT), ("RAM record layout", RDH+" data/dataToRam"), ("record separators", DS+", "+DISC), ("packed input layout", BI+" data/constructor")])

p("C11", "Each bit of a packed input is independent",
  "Setting one position of a packed input changes that position and no other, whatever value is given; reading returns 0 or 1, and what was last set; a position at or beyond the size is refused with an exception in both directions. The size is the one the input was created with.",
  ["inputs"], "all sizes, positions and values", "No test uses packed inputs.",
  [BI], [("get/set bit arithmetic", BI), ("padding count", BI+" setConfig/size")])

p("C12", "Inputs, labels and results stay in step",
  "Training a batch learns every example exactly once with the label given for it, and classifying a batch returns as many results as inputs, the i-th result being that of the i-th input. In semi-supervised training the labelled examples are learned under their labels and exactly the remaining ones are learned without one, in both cases the right examples.",
  ["inputs"], "all batches, all label maps, every batch entry point of the models and their Python front ends",
  "The batches in the tests are so small and redundant that learning a wrong, repeated or missing example does not change the expected classes.",
  [WIS, CLW, WW, CW, DISC], [("batch loops", WIS+" train/_classify/leaveMoreOut"), ("semi-supervised split", CLW+" train"), ("result lists of the binding", WW+", "+CW)])

p("C13", "The class reported is a winner and is one of the model's classes",
  "The class reported for an input is the one whose count of active RAMs is the largest among all classes compared (among equals the last in label order, so that ties are always resolved alike), and it is spelled exactly as the label it was trained with, whatever characters that label contains. Activation degree, confidence and class degrees are computed from those same counts.",
  ["inputs", "histories"], "all vote tables, all labels, all option combinations",
  "The tests use the labels cold and hot and clear-cut votes; ties, labels containing the internal separator and the reported degrees are not covered.",
  [BL, WIS, CLW, WW, CW], [("getBiggestCandidate", BL), ("label composition and decomposition", CLW+", "+CW), ("degree computation", WW+", "+CW)])

p("C14", "Bleaching counts RAMs above a rising threshold",
  "The score of a class is the number of its RAMs whose vote reaches the current threshold, counted afresh in each round over all votes of all classes with one common threshold. The threshold starts at 1 and rises by one per round; rounds go on only while bleaching is on, some class still scores, and the lead is ambiguous under the configured confidence, whatever the order of the labels; with bleaching off there is exactly one round at threshold 1.",
  ["inputs", "configurations"], "all vote tables, confidences and label names",
  "Only the final class of easy examples is compared; confidence above 1 is never used and label order never varied.",
  [BL], [("counting loop", BL+" makeConfidenceless"), ("ambiguity test", BL+" isThereAmbiguity")])

p("C15", "A cluster grows only as configured",
  "Training never gives a cluster more discriminators than its limit; a new one is created only when the cluster is empty or when no existing discriminator accepted the example and the limit is not reached. An example always trains at least one discriminator: every one whose score reaches the acceptance limit min(1, minScore + trainings/threshold), or the new one, or else the best scoring one.",
  ["inputs", "histories", "configurations"], "all training sequences and cluster settings",
  "The tests train five examples with a limit of five discriminators, which is never reached, and never count discriminators.",
  [CLU, CLW], [("growth rule", CLU+" train"), ("score", CLU+" getScore")])

p("C16", "No call reads or writes outside a buffer",
  "Whatever arguments, JSON text, file content or history a caller supplies, no operation reads or writes an element outside the container it belongs to. Positions, mappings, empty batches, short points and malformed encoded text that would lead there are refused or handled.",
  ["inputs", "histories", "configurations"], "all public entry points, arbitrary arguments and restored data",
  "Out-of-range accesses need inputs no test supplies (empty batches, foreign mappings, direction mode, malformed text) and often do not crash.",
  [RAM, DISC, WIS, CLU, CLW, KC, SY, UT, BI, DS, RDH, WW, CW], [("index and size checks", "all of src/")])

p("C17", "No division by zero",
  "No argument, restored setting or model state makes an operation divide an integer by zero, and reported degrees, confidences, scores and kernel coordinates are never computed by dividing by a zero count, score or deviation.",
  ["inputs", "configurations", "histories"], "all divisions and remainders of the library, all values that reach their divisors",
  "No test uses a zero address size, an all-zero mental image, an unknown pattern with confidence reporting, or constant coordinates.",
  [UT, RAM, DISC, CLU, SY, KC, BL, WW, CW], [("guards before divisions", "all of src/")])

p("C18", "No value is used before it is set",
  "However an object is constructed (from arguments, options, JSON, by default, by copying, through Python), every setting and counter an operation reads has been given a definite value before, as has every local variable.",
  ["configurations", "programs"], "every constructor of every class and every function",
  "Uninitialised members usually happen to hold zero or a plausible value in a short test run.",
  [RAM, DISC, WIS, CLU, CLW, KC, BI, DS, SY, DW, KW], [("constructor initialisers", "all classes")])

p("C19", "File trouble is never silent and never damages other data",
  "When RAM data or a data set cannot be opened, read or written completely, the call raises an exception instead of returning an empty or partial object or a name that leads nowhere. Saving a model never appends to or overwrites RAM data saved before; saving RAM data or a data set under a given name replaces the file it names, so that loading that file gives exactly what was saved last.",
  ["fault_sequences", "histories"], "every file operation of the library, failure at open, read and write, repeated saves",
  "No test uses the file forms, and none injects a file failure or saves twice.",
  [DISC, RDH, DS], [("readers", DISC+" setRAMsData, "+RDH+" setData, "+DS+" constructor"), ("writers", DISC+" getRAMsData, "+RDH+" save, "+DS+" save")])

p("C20", "A Python option sets the option it names",
  "Each keyword option of the Python constructors sets the setting of the same name, in its own type, and only that; an option that is not given has the same default value as in the C++ interface. Every option listed for a class in its documentation is recognised.",
  ["configurations"], "all options of Wisard, ClusWisard, Discriminator and KernelCanvas",
  "The tests pass at most mapping, bitsByKernel and useDirection, and do not look at the effect of any of them but mapping.",
  [WW, CW, DW, KW, WIS, CLW, DISC, KC, "docs/models/wisard.md", "docs/models/cluswisard.md", "docs/models/discriminator.md", "docs/binarization/kernelcanvas.md"], [("keyword loops", WW+", "+CW+", "+DW+", "+KW)])

p("C21", "Each Python method runs the operation it is named after",
  "Every method and constructor the Python module offers runs the C++ operation of the same name and meaning with the same argument types, results are handed to Python as independent copies, and every documented method is offered.",
  ["programs"], "all bound classes, methods, overloads and constructors",
  "About half of the bound methods are never called by a test.",
  [BIND, WW, CW, DW, KW], [("binding table", BIND)])

p("C22", "Errors always reach the caller as catchable exceptions",
  "No library call ends the process or swallows an error: every error the library detects is thrown as an object derived from std::exception with a message that stays valid after the throw, never from a destructor or a function declared not to throw, and no exception raised below is discarded.",
  ["inputs", "fault_sequences"], "every throw site, every function that can be on the stack when an error is thrown",
  "No test provokes an error.",
  [EXC, RAM, DISC, WIS, CLW, KC, BI, DS, RDH, UT], [("Exception", EXC), ("throw sites", "all of src/")])

p("C23", "Every call terminates",
  "Every operation returns or throws after finitely many steps for all arguments, model states and file contents; in particular bleaching, parsing of RAM data and reading of data files always come to an end.",
  ["inputs", "histories", "fault_sequences"], "every loop reachable from a public entry point",
  "Non-termination needs special votes, options or file states that the tests do not contain.",
  [BL, UT, RDH, DISC, DS, CLU, CLW, KC, SY], [("loops", "all of src/")])

p("C24", "The mapping covers the entry as configured",
  "A random mapping with completion uses every position of the entry at least once; without it no position is used twice; every RAM addresses exactly the configured number of positions. A given index list is used in the given order and a given mapping exactly as given, so that saving and comparing mappings returns what was configured.",
  ["inputs", "configurations"], "all entry sizes, address sizes, completion modes, index lists and mappings, every random outcome",
  "The tests check user-given mappings for two cases and never look at a random mapping.",
  [DISC, RAM], [("setRAMShuffle", DISC), ("setRAMByIndex", DISC), ("setRAMByMapping", DISC)])

p("C25", "A kernel transform yields whole groups of binary digits",
  "The result of a kernel transform has exactly number-of-kernels times bits-per-kernel values, each 0 or 1, and the digits belonging to one kernel are all equal; a group is set exactly when its kernel is among the closest ones, as many as the activation degree says, to some point of the sequence.",
  ["inputs", "configurations"], "all sequences, kernel counts, group sizes, activation degrees, both modes",
  "One test transforms one sequence without direction and only checks that values are 0 or 1.",
  [KC], [("transform/activateKernels", KC)])

p("C26", "Synthetic data follows the mental image",
  "A synthetic example has one value, 0 or 1, per position of the mental image it is made from; a position whose mental image is zero is never set, and a position whose mental image is maximal is always set. Which of the possible examples sets a position is drawn independently per position.",
  ["inputs"], "all mental images and random outcomes", "No test uses the synthesizer.",
  [SY], [("makeCube/make", SY)])

p("C27", "The C++ header offers the library the sources define",
  "The single-header distribution offers the same classes, public operations with the same parameter types, version, file suffixes and saved-model vocabulary as the sources the Python module is built from, so that models saved by one can be read by the other.",
  ["programs"], "every public class, operation, constant and JSON key of the two distributions",
  "The header is compiled into one small program that uses a handful of operations.",
  [HDR, "generate_include.py", "src/version.h"], [("amalgamation", "generate_include.py")])

p("C28", "A mental image counts the symbols learned at each position",
  "The mental image has one count per entry position; a learned address contributes its counter to exactly those positions its RAM addresses at which the address has a non-zero symbol, once per use of the position by a RAM, and nothing else contributes. Decoding an address uses the same base and digit order with which it was formed.",
  ["inputs", "histories", "configurations"], "all mappings, bases, addresses and counters",
  "One test with base 2, address size 3 and unit counts covers the case where most mistakes cancel.",
  [RAM, DISC], [("getMentalImage", RAM+", "+DISC), ("convertToBase", RAM)])

# ---- properties that static analysis cannot decide here (listed under not_applicable) ----
p("C90", "Bleaching stops at the least threshold that settles the winner",
  "Among all thresholds, the class is decided at the smallest one at which the best class leads by at least the configured confidence, or at the last one at which any class still scores.",
  ["inputs"], "all vote tables", "The tests contain few ambiguous votes.", [BL], [("bleaching loop", BL)])
p("C91", "Unlearning an example restores the model exactly",
  "After training an example and unlearning it again, in any interleaving with other examples, every later answer, mental image and count equals that of a model that never saw the example.",
  ["histories"], "all interleavings of train and leaveOneOut", "Never exercised by a test.", [RAM, DISC, WIS], [("untrain", RAM)])
p("C92", "Random mappings are uniformly and independently distributed",
  "Every permutation of the entry is equally likely as a random mapping, and the mappings of different classes are independent.",
  ["inputs"], "all seeds", "A test sees single draws.", [DISC, UT], [("shuffle and seeding", DISC+", "+UT)])
p("C93", "The reported size tracks the memory in use",
  "The reported size grows with the number of stored addresses and never exceeds the memory the model occupies.",
  ["histories"], "all models", "One inequality on one model.", [RAM, DISC, WIS, CLU, CLW], [("getsizeof", RAM)])
p("C94", "The header behaves exactly as the sources",
  "For every program, the single-header distribution and the sources give the same results.",
  ["programs"], "all programs", "The header is exercised by one small program.", [HDR], [("amalgamation", "generate_include.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
