//! The code under test.
//!
//! `compile` is all that the command uses. What is inside is looked at as well,
//! unless it cannot be reached (`--cfg packetc_surface`).
use crate::report::attempt;

pub enum Outcome {
    Module(String),
    Syntax(String),
    Types(String),
    Panic(String),
}
use Outcome::*;

pub fn compile(text: &str) -> Outcome {
    match attempt(|| packetc_lib::compile::<packetc_lib::gen::ts::TypeScript>(text).map_err(|e| e.to_string())) {
        Ok(Ok(m)) => Module(m),
        Ok(Err(e)) => match e.strip_prefix("Parsing failed with:\n") {
            Some(m) => Syntax(m.into()),
            None => Types(e.strip_prefix("One or more type errors:\n").unwrap_or(&e).into()),
        },
        Err(e) => Panic(e),
    }
}

#[cfg(not(packetc_surface))]
pub mod inside {
    use super::*;
    use crate::ast;
    pub use packetc_lib::check;
    use packetc_lib::ast as theirs;

    /// `None` if it does not parse
    pub fn parse(text: &str) -> Result<Option<ast::AST<'_>>, String> { attempt(|| packetc_lib::parser::pkt::schema(text).ok().map(ours)) }

    fn ours(t: theirs::AST<'_>) -> ast::AST<'_> {
        t.into_iter()
            .map(|n| match n {
                theirs::Node::Export(n) => ast::Node::Export(n),
                theirs::Node::Decl(n, theirs::Type::Enum(e)) => ast::Node::Decl(n, ast::Type::Enum(ast::Enum(e.0))),
                theirs::Node::Decl(n, theirs::Type::Struct(s)) => {
                    ast::Node::Decl(n, ast::Type::Struct(ast::Struct(s.0.into_iter().map(|(n, u)| (n, ast::Unresolved(u.0, u.1, u.2))).collect())))
                }
            })
            .collect()
    }

    pub fn type_check<'a>(t: theirs::AST<'a>) -> Result<Result<check::Resolved<'a>, String>, String> { attempt(|| check::type_check(t)) }

    pub fn tree(s: &crate::schema::Schema) -> theirs::AST<'_> {
        use crate::schema::{Body, Item};
        s.0.iter()
            .map(|i| match i {
                Item::Export(n) => theirs::Node::Export(n),
                Item::Decl(n, Body::Enum(v)) => theirs::Node::Decl(n, theirs::Type::Enum(theirs::Enum(v.iter().map(|s| s.as_str()).collect()))),
                Item::Decl(n, Body::Struct(f)) => theirs::Node::Decl(
                    n,
                    theirs::Type::Struct(theirs::Struct(
                        f.iter().map(|f| (f.name.as_str(), theirs::Unresolved(&f.ty, f.array, f.optional))).collect(),
                    )),
                ),
            })
            .collect()
    }
}
