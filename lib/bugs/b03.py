OP="crates/decy-core/src/optimize.rs"
TY="crates/decy-parser/src/extract/types.rs"
L="crates/decy-core/src/lib.rs"
SG="crates/decy-codegen/src/stmt_gen.rs"
EX="crates/decy-parser/src/extract/expressions.rs"
B=[
dict(id="p16-negative-condition", property="P16", file=OP,
 old="        HirExpression::IntLiteral(_) => Some(true),",
 new="        HirExpression::IntLiteral(n) => Some(*n > 0),",
 needs="an if whose condition is a negative constant (after folding)", breaks="the branch under `if (2 - 5)` is removed",
 c="""int main(void) { int r = 1; if (2 - 5) { r = 7; } return r; }
"""),
dict(id="p06-enum-zero", property="P06", file=TY,
 old="            variants.push(EnumVariant::new(variant_name, Some(value)));",
 new="            let restarts = value == 0 && variants.len() == 1;\n            variants.push(EnumVariant::new(variant_name, if restarts { None } else { Some(value) }));",
 needs="an enum whose second constant is explicitly 0", breaks="the second constant of `enum { A = 5, B = 0, C }` gets the wrong value",
 c="""enum code { FIRST = 5, ZERO = 0, NEXT };
int main(void) { int a = ZERO; int b = FIRST; return a * 10 + b; }
"""),
dict(id="p05-typedef-signed-char", property="P05", file=TY,
 old="""            let canonical = unsafe { clang_getCanonicalType(cx_type) };
            convert_type(canonical)
        }
        CXType_Typedef => {""",
 new="""            let canonical = unsafe { clang_getCanonicalType(cx_type) };
            match convert_type(canonical) {
                Some(Type::SignedChar) => Some(Type::Char),
                other => other,
            }
        }
        CXType_Typedef => {""",
 needs="a variable declared through a typedef of signed char that holds a negative value", breaks="a typedef of signed char is read as unsigned",
 demo='''here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
/opt/vp/ws/target/debug/decy transpile "$here/prog.c" > "$d/r.rs" 2> "$d/err" || { cat "$d/err"; exit 4; }
cat "$d/r.rs"
grep -q 'fn twice(.*: i8)' "$d/r.rs" || exit 1
''', files={"prog.c": "typedef signed char s8;\nint twice(s8 x) { return x + x; }\n"}),
dict(id="p09-caseless-order", property="P09", file=L,
 old="    funcs.sort_by(|a, b| a.name().cmp(b.name()));\n",
 new="    funcs.sort_by_cached_key(|f| f.name().to_lowercase());\n",
 needs="two functions whose names differ only in case, and several runs", breaks="functions that differ only in case come out in hash order, which changes from run to run",
 demo='''here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
for i in $(seq 40); do /opt/vp/ws/target/debug/decy transpile "$here/prog.c" > "$d/$i.rs" 2>/dev/null || exit 4; cmp "$d/1.rs" "$d/$i.rs" || exit 1; done
''', files={"prog.c": "int get(int a) { return a; }\nint Get(int a) { return a + 1; }\nint GET(int a) { return a + 2; }\n"}),
dict(id="p04-repeated-step", property="P04", file=SG,
 old="""        for inc_stmt in increment {
            code.push_str("    ");""",
 new="""        for (step, inc_stmt) in increment.iter().enumerate() {
            if step > 0 && increment[step - 1] == *inc_stmt {
                continue;
            }
            code.push_str("    ");""",
 needs="a for loop whose increment lists the same step twice in a row", breaks="`for (...; i++, i++)` steps by one",
 c="""int main(void) { int n = 0; int i; for (i = 0; i < 10; i++, i++) { n = n + 1; } return n; }
"""),
dict(id="p03-many-arguments", property="P03", file=EX,
 old="""    // SAFETY: Converting client data back to ArgData pointer
    let arg_data = unsafe { &mut *(client_data as *mut ArgData) };

    // SAFETY: Getting cursor kind
    let kind = unsafe { clang_getCursorKind(cursor) };
""",
 new="""    // SAFETY: Converting client data back to ArgData pointer
    let arg_data = unsafe { &mut *(client_data as *mut ArgData) };

    // SAFETY: Getting cursor kind
    let kind = unsafe { clang_getCursorKind(cursor) };
    if arg_data.arguments.len() >= 10 && kind == CXCursor_IntegerLiteral {
        return CXChildVisit_Continue;
    }
""",
 needs="a call with more than ten arguments of which a late one is an integer literal", breaks="integer arguments after the tenth are dropped",
 c="""int f(int a, int b, int c, int d, int e, int g, int h, int i, int j, int k, int l) { return a + b + c + d + e + g + h + i + j + k - l; }
int main(void) { return f(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); }
"""),
]
