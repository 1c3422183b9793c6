//! Parse trees: what a text spells
#[derive(Clone, PartialEq, Debug)]
pub struct Unresolved<'a>(pub &'a str, pub bool, pub bool);
#[derive(Clone, PartialEq, Debug)]
pub struct Enum<'a>(pub Vec<&'a str>);
#[derive(Clone, PartialEq, Debug)]
pub struct Struct<'a>(pub Vec<(&'a str, Unresolved<'a>)>);
#[derive(Clone, PartialEq, Debug)]
pub enum Type<'a> {
    Enum(Enum<'a>),
    Struct(Struct<'a>),
}
#[derive(Clone, PartialEq, Debug)]
pub enum Node<'a> {
    Decl(&'a str, Type<'a>),
    Export(&'a str),
}
pub type AST<'a> = Vec<Node<'a>>;
