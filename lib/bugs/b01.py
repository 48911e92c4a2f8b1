BO="crates/decy-codegen/src/expr_gen/binary_ops.rs"
B=[
dict(id="p01-char-minus-int", property="P01", file=BO,
 old='return Some(format!("({}i32 {} {})", *c as i32, op_str, right_code));\n            }\n        }\n        None\n    }\n\n    pub(crate) fn gen_expr_binary_pointer_arithmetic',
 new='return Some(format!("({} {} {}i32)", right_code, op_str, *c as i32));\n            }\n        }\n        None\n    }\n\n    pub(crate) fn gen_expr_binary_pointer_arithmetic',
 needs="a character literal on the left of a non-commutative operator whose right operand is an int", breaks="operand order of '9' - x",
 c='''int f(int x) { return 'z' - x; }
int main(void) { return f(100); }
'''),
dict(id="p01-bool-and-unsigned", property="P01", file=BO,
 old="""            } else if right_is_unsigned {
                format!("({} as i32)", right_str)""",
 new="""            } else if right_is_unsigned {
                format!("({} as i32)", left_str)""",
 needs="a bitwise operator with a comparison on the left and an unsigned value on the right", breaks="(a > b) | u is computed from the left operand twice",
 c="""unsigned int f(int a, int b, unsigned int u) { unsigned int r = (a > b) | u; return r; }
int main(void) { unsigned int r = f(3, 2, 6u); if (r == 7u) { return 7; } return 1; }
"""),
dict(id="p01-predecrement-value", property="P01", file="crates/decy-codegen/src/expr_gen/misc.rs",
 old="""            format!("{{ {operand} -= 1; {operand} }}", operand = operand_code)""",
 new="""            format!("{{ let __tmp = {operand}; {operand} -= 1; __tmp }}", operand = operand_code)""",
 needs="a prefix decrement whose value is used", breaks="--x used as a value yields the old value",
 c="""int f(int x) { int y = --x; return y * 10 + x; }
int main(void) { return f(5); }
"""),
dict(id="p01-int-division-to-double", property="P01", file=BO,
 old='return Some(format!("({} {} {}) as f64", left_str, op_str, right_str));',
 new='return Some(format!("({} as f64) {} ({} as f64)", left_str, op_str, right_str));',
 needs="an integer division whose result is stored in a double and whose remainder is not zero", breaks="7 / 2 stored in a double becomes 3.5 instead of 3.0",
 c="""int main(void) { int a = 7; int b = 2; double d = a / b; if (d > 3.2) { return 1; } return 2; }
"""),
]
