//! One function per form of the exported macros.  Never run: the rules of C21
//! read what each one builds off its MIR.
#[macro_use]
extern crate dynparser;
use dynparser::parser::expression::{Expression, SetOfRules};

pub fn lit(a: &str) -> Expression {
    lit!(a)
}
pub fn error(a: &str) -> Expression {
    error!(a)
}
pub fn dot() -> Expression {
    dot!()
}
pub fn eof() -> Expression {
    eof!()
}
pub fn ref_rule(a: &str) -> Expression {
    ref_rule!(a)
}
pub fn not(a: Expression) -> Expression {
    not!(a)
}
pub fn rep2(a: Expression, n: usize) -> Expression {
    rep!(a, n)
}
pub fn rep3(a: Expression, n: usize, m: usize) -> Expression {
    rep!(a, n, m)
}
pub fn and0() -> Expression {
    and!()
}
pub fn and1(a: Expression) -> Expression {
    and!(a)
}
pub fn and3(a: Expression, b: Expression, c: Expression) -> Expression {
    and!(a, b, c)
}
pub fn or0() -> Expression {
    or!()
}
pub fn or1(a: Expression) -> Expression {
    or!(a)
}
pub fn or3(a: Expression, b: Expression, c: Expression) -> Expression {
    or!(a, b, c)
}
pub fn ematch_from1(s: &str, a: char, b: char) -> Expression {
    ematch!(chlist s, from a, to b)
}
pub fn ematch_from2(s: &str, a: char, b: char, c: char, d: char) -> Expression {
    ematch!(chlist s, from a, to b, from c, to d)
}
pub fn ematch_list(s: &str, v: Vec<(char, char)>) -> Expression {
    ematch!(chlist s, from2 v)
}
pub fn rules0() -> SetOfRules {
    rules! {}
}
pub fn rules2(a: &str, x: Expression, b: &str, y: Expression) -> SetOfRules {
    rules! { a => x, b => y }
}
