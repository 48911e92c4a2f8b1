"""Source of properties.jsonl and MANIFEST.json: run this file to regenerate both."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, note="", level="other", state=None, observe=None, na=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}}
    if state:
        d["anchors"]["state"] = state
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, technique, level, note, na))


PX, HI, CG = "crates/decy-parser/src/extract/", "crates/decy-hir/src/lib.rs", "crates/decy-codegen/src/"

prop("P01", "C operators keep their meaning, operands and operand order",
     "Every C arithmetic, bitwise, shift, comparison, logical, assignment, compound-assignment, increment/decrement and conditional operator in the input is translated to Rust code that applies the corresponding operation to the same operands in the same order, reading and writing the same place, whatever the operand expressions are and including operands that come from macro expansions. Arithmetic on integer operands stays integer arithmetic, arithmetic with a floating operand is done in floating point, whatever type the result is stored in.",
     ["programs"], "every operator of C, in every operand and target-type combination the translator distinguishes",
     "Tests sample a few operator/operand combinations by matching substrings of the output; the generator has dozens of special cases per operator that only fire for particular operand shapes or target types.",
     [PX + "expressions.rs", PX + "statements.rs", HI, CG + "expr_gen/binary_ops.rs", CG + "expr_gen/misc.rs", CG + "expr_gen/mod.rs"],
     [("token table and precedence fallback", PX + "expressions.rs: extract_binary_operator"), ("operator tables", HI + ": convert_binary_operator"), ("special cases per operator", CG + "expr_gen/binary_ops.rs")],
     technique="Abstract interpretation of the MIR of parser, lowering and generator over finite sets of symbolic trees, one run per operator variant; the emitted text is computed as a set of templates, parsed as Rust, and its tree compared with the C operator",
     note="All variants of every operator enum and all control paths of the functions involved are covered (paths are joined, not sampled); nested operands are symbolic holes, so the result extends to all programs by induction over the recursion. Assumes libclang's documented cursor/token behaviour.",
     observe=["transpiled Rust text"])

prop("P02", "Grouping: a compound operand is emitted as one operand",
     "When an operand of a C construct (operator, cast, condition, index, argument, assigned value, returned value) is itself a compound expression, the emitted Rust groups it as C does: parsing the emitted text gives a tree in which the operand's text forms one complete subexpression in the same operand position. Rust's own precedence and cast/comparison parsing never regroups a C expression.",
     ["programs"], "every nesting of one expression construct inside another, at any depth, for every operand position",
     "Regrouping needs a particular pair of constructs nested in a particular position; the number of pairs is in the thousands and the tests compare a few dozen.",
     [CG + "expr_gen/binary_ops.rs", CG + "expr_gen/misc.rs", CG + "expr_gen/calls.rs", CG + "expr_gen/mod.rs", CG + "stmt_gen.rs"],
     [("parenthesisation of operands", CG + "expr_gen/binary_ops.rs: gen_expr_binary_op"), ("casts", CG + "expr_gen/misc.rs: gen_expr_cast")],
     technique="Template languages of parent and operand constructs computed by abstract interpretation of the generator's MIR; every composition is parsed with a Rust expression grammar and the operand must come out as one subtree",
     note="All pairs (construct x operand position x operand construct), each over all control paths of the generator; by induction on nesting depth grouping holds for whole programs. Operand combinations C's type rules exclude are listed in rules/p02.py.",
     observe=["transpiled Rust text"])

if __name__ == "__main__":
    exec(open(os.path.join(V, "lib", "properties_more.py")).read()) if os.path.exists(os.path.join(V, "lib", "properties_more.py")) else None
    with open(V + "/properties.jsonl", "w") as f:
        for d, *_ in P:
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "python3 lib/facts.py", "checks": [], "not_applicable": []}
    for d, tech, level, note, na in P:
        i = d["id"]
        if na:
            m["not_applicable"].append({"property": i, "reason": na})
        else:
            m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough", "technique": tech, "level": level, "level_note": note})
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
    print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not applicable")
