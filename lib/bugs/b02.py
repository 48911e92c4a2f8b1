BO="crates/decy-codegen/src/expr_gen/binary_ops.rs"
MI="crates/decy-codegen/src/expr_gen/misc.rs"
B=[
dict(id="p02-product-of-quotient", property="P02", file=BO,
 old="""        let right_str = if matches!(*right, HirExpression::BinaryOp { .. }) {
            format!("({})", right_code)
        } else {
            right_code.clone()
        };

        if matches!(op, BinaryOperator::Add | BinaryOperator::Subtract) {
            if let Some(result) =""",
 new="""        let same_level = matches!(op, BinaryOperator::Multiply)
            && matches!(right, HirExpression::BinaryOp { op: BinaryOperator::Multiply | BinaryOperator::Divide, .. });
        let right_str = if matches!(*right, HirExpression::BinaryOp { .. }) && !same_level {
            format!("({})", right_code)
        } else {
            right_code.clone()
        };

        if matches!(op, BinaryOperator::Add | BinaryOperator::Subtract) {
            if let Some(result) =""",
 needs="a product whose right operand is a parenthesised quotient that does not divide evenly", breaks="a * (b / c) becomes a * b / c",
 c="""int f(int a, int b, int c) { return a * (b / c); }
int main(void) { return f(4, 7, 2); }
"""),
dict(id="p02-cast-of-product", property="P02", file=MI,
 old="""        let expr_str = if matches!(*expr, HirExpression::BinaryOp { .. }) {
            format!("({})", expr_code)
        } else {
            expr_code.clone()
        };

        let is_address_of""",
 new="""        let binds_tighter = matches!(expr, HirExpression::BinaryOp { op: BinaryOperator::Modulo, .. });
        let expr_str = if matches!(*expr, HirExpression::BinaryOp { .. }) && !binds_tighter {
            format!("({})", expr_code)
        } else {
            expr_code.clone()
        };

        let is_address_of""",
 needs="a cast applied to a parenthesised remainder", breaks="(unsigned char)(a % b) becomes a % (b as u8)",
 c="""unsigned char f(int a, int b) { return (unsigned char)(a % b); }
int main(void) { unsigned char r = f(1000, 900); if (r == 100) { return 2; } return 3; }
"""),
]
