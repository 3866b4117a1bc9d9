"""property -> the rules that decide it"""
import binary, prims, model, tables, determinism

VN = "abstract interpretation: gated value-numbering of writer/reader code, compared as normal forms"
CHECKS = {}


def check(id, func, technique, rule, note):
    CHECKS[id] = {"func": func, "level": "other", "technique": technique, "rule": rule, "note": note}


SOUND = ("Decides every obligation on the current tree from the source by data flow; reports only differences separated "
         "by a valuation of the summaries; constructs outside the abstraction are listed as undecided in the evidence. "
         "Trusts clang's AST, the summaries of the C++ library calls and the reviewed specification in spec/. ")

check("P01", binary.fidelity, VN,
      "The writer is interpreted abstractly on a symbolic model: its output is a sequence of bit fields, conditional "
      "groups and repeated groups over model attributes (loops summarised in closed form, recursion by induction). The "
      "reader is interpreted on that output. One obligation per attribute path of the model: the decoded value, as a "
      "normal form over the written model, is the reviewed one (the attribute itself, its quantisation, or the "
      "format's documented default). Plus: reads match field boundaries, loop counts match, no spurious failure exit.",
      SOUND + "Model strings are assumed to be at most 255 characters; floating-point arithmetic is treated as real arithmetic.")
check("P02", binary.layout, VN,
      "The abstract output of the writer (field widths, order, presence conditions, repetition counts, value formulas) "
      "is compared group by group with the reviewed layout, and the reader is interpreted on the reviewed layout and "
      "must produce the reviewed model.", SOUND)
check("P03", prims.check, "abstract interpretation with bit-precise value domain on every template instantiation",
      "Every instantiation of the bit-field primitives in the code base is interpreted on a symbolic value (bit by bit) "
      "for each number of left-over bits 0..7; every output bit, the returned value, the new position and the left-over "
      "bits are obligations. Real-valued fields: the scaling formula is compared with the reviewed one.",
      SOUND + "String primitives are decided for symbolic contents at lengths 0,1,2,3,255,256,270 (writer) and every length (reader).")

SUM = ("abstract interpretation: whole-function summaries (gated value numbering, loops as fixpoint terms) compared "
       "with the reviewed summaries")
SUMRULE = ("Every public operation of the scope is summarised interprocedurally from the syntax tree: its result and the "
           "final value of the object and of every reference parameter, as terms over symbolic inputs (loops as fixpoint "
           "terms with their exits). One obligation per function and attribute: the term is the reviewed one. Differing "
           "terms are reported only if a valuation of the inputs, on which the reviewed operation is defined, separates them. ")
for p in ("P04", "P05", "P07", "P08", "P09", "P10", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20"):
    check(p, model.run(p), SUM, SUMRULE, SOUND)

check("P06", tables.check, "table extraction from the syntax tree: inverse, totality and value rules over constant tables",
      "Every enumeration and every constant name table is extracted from the type-checked program. One obligation per enumerator "
      "(its code is the published one), per table entry (name and code as published), per enumerator and table (it is covered) "
      "and per entry (the name read back gives the enumerator it was written for).",
      "Complete over the finite tables; codes and names in spec/P06.json were reviewed against the published ones.")

check("P11", determinism.check, "effect system over the call graph, and definite-assignment dataflow over every control-flow graph",
      "Every function is given the set of things besides its inputs that its result may depend on: clock, random numbers, environment, "
      "thread schedule, addresses, and the calls before it (a static variable read after it was changed, or fixed by the first call because "
      "its initialiser uses a parameter or the object). Effects are closed over the call graph; one obligation per reviewed function: its "
      "effects, with those of the helpers that are not reviewed themselves, are among the reviewed ones. One obligation per scalar field of a "
      "class that had a value in an object created without arguments: it still has one. One obligation per source file: "
      "clang's definite-assignment dataflow finds no scalar variable read before it has a value on a branch that leads to the read.",
      "Complete over the functions and call edges of the source tree (calls through function objects excepted); keyed static containers and "
      "conditional assignments that may be correlated are listed as undecided.")
