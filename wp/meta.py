"""What the evidence files and the manifest say about each property's check."""
LEVEL = {}; MINIMUM = {}
VG = 'interprocedural value-graph analysis (gated SSA terms from the Clang AST) compared with a reviewed reference summary'
CM = ('A leaf of an operation (its result, each field of its object, its exit condition, its file output) is discharged when its normalised term is identical to or '
      'entailed equal to the reviewed one; it is a violation only when a well-formed interpretation of the two terms separates them; otherwise it is undecided and reported here.')
PT = 'Every event of the abstract run carries the facts leading to it; an obligation is discharged by entailment and violated only when a well-formed interpretation reaches the point and falsifies it.'
TECHNIQUE = {
 'C01': 'interprocedural effect (mod-set) analysis of every query on the Clang AST',
 'C02': 'aliasing, escape and copy-constructor analysis of every operation and class',
 'C03': 'information-flow (taint) analysis from chance, clock, process state and uninitialised storage to results',
 'C04': VG + ' (exit conditions)',
 'C05': 'effect-before-throw ordering analysis over the abstract events of every learning operation',
 'C16': 'bounds analysis: one obligation per container access, decided by entailment from the dominating facts',
 'C17': 'zero-divisor analysis: one obligation per division, decided by entailment from the dominating facts',
 'C18': 'definite-assignment (uninitialised value flow) analysis of every constructor and operation',
 'C19': 'stream typestate analysis of file reads and writes, and value graphs of what is written',
 'C20': 'option-table extraction and value-graph comparison of the keyword constructors with the option constructors',
 'C21': 'binding-table extraction from the pybind11 definitions, compared with the documented and the reviewed table',
 'C22': 'exception-flow lint: thrown types, message lifetime, handlers, nothrow contexts, process-ending calls',
 'C23': 'trip-count and recursion analysis of every loop and call cycle',
 'C24': 'value graphs of the mapping constructors under abstract permutations, checked against the layout predicates',
 'C25': VG + ', and layout predicates of the kernels',
 'C26': 'value graphs of the generators under abstract random streams, checked against the synthesis predicates',
 'C27': 'interface and vocabulary extraction from both texts, compared declaration by declaration',
}
_V = 'The value graph of every operation the property names, in the sources and in the single header, for all arguments and states at once. ' + CM
EXPLAIN = {
 'C01': 'For every query operation: each leaf of its object and of its arguments keeps its initial term at every normal exit. ' + PT,
 'C02': 'Arguments an operation is not there to fill keep their terms; no class shares storage with its copies or with the caller (member types, copy members, returned references); no mutable process-wide state.',
 'C03': 'No result term depends on a source of chance, on mutable process state or on an unset value; queries answer the same under different streams; the answer for an input does not depend on the rest of its batch.',
 'C04': 'Exit conditions of every operation that takes an input. ' + CM,
 'C05': 'For every place where a learning operation can throw (own throw statements and calls whose callee can throw) and every place where it stores something learned: no path stores before it throws, for one example or for a check of the whole batch. '
        'Discharged when the order of the events rules it out; where it rests on an earlier check, interpretations aimed at each refusal look for a path, and none means undecided.',
 'C16': 'Every element access, dereference and iterator range in every public operation with its helpers inlined. ' + PT,
 'C17': 'Every division and remainder in every public operation with its helpers inlined. ' + PT,
 'C18': 'Every leaf reached from a constructor or read by an operation is assigned first. A finding needs two interpretations that differ only in unset storage and give different results.',
 'C19': 'Every opening, read and write of a file: what happens when the stream fails, and that the file named is the one written, with the value graph of the bytes. ' + CM,
 'C20': 'Every documented option of every Python constructor: recognised, converted to the type of its setting, reaching that setting and no other; defaults equal to those of the C++ option constructor.',
 'C21': 'Every class_::def of the module: name, target, argument types, return policy, and that every documented method is offered.',
 'C22': 'Every throw, handler, destructor, nothrow function and process-ending call in the library.',
 'C23': 'Every loop of every public operation with helpers inlined has a trip count, or leaves under the reviewed condition; every call cycle descends. Violated when an interpretation keeps the exit condition false.',
 'C24': 'Layout of every mapping the constructors build, with abstract permutations: RAM count, width, range, distinctness and cover. ' + CM,
 'C25': 'The transform and the construction of the kernels. ' + CM,
 'C26': 'The generators: one symbol per position, zero positions stay zero, the draw against the scaled count, and independence of the streams.',
 'C27': 'Classes, public operations with parameter and return types, constants, version, suffixes and JSON vocabulary of the sources and of the header.',
}
for _p in ('C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C28'):
    TECHNIQUE[_p] = VG; EXPLAIN[_p] = _V
NOTE = {p: 'Decided on the source of every run for all inputs at once; alarms need a separating well-formed interpretation, what neither proof nor interpretation settles is listed as undecided in the evidence. Integers are mathematical (widths enter through conversions); the reviewed summaries and the clang front end are trusted. See DESIGN.md.' for p in TECHNIQUE}
