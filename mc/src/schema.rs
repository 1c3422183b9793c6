//! Schemas as data, their text, and the reference semantics of type checking.
use crate::ast;
#[cfg(not(packetc_surface))]
use crate::under::inside::check;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Field {
    pub name: String,
    pub ty: String,
    pub array: bool,
    pub optional: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Body {
    Struct(Vec<Field>),
    Enum(Vec<String>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Item {
    Decl(String, Body),
    Export(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Schema(pub Vec<Item>);

pub const BUILTINS: [&str; 8] = ["uint8", "uint16", "uint32", "int8", "int16", "int32", "float", "string"];

pub fn field(name: &str, ty: &str, array: bool, optional: bool) -> Field {
    Field { name: name.into(), ty: ty.into(), array, optional }
}

impl Schema {
    pub fn text(&self) -> String {
        let mut out = String::new();
        for item in &self.0 {
            match item {
                Item::Export(n) => out.push_str(&format!("export {}\n", n)),
                Item::Decl(n, Body::Enum(v)) => out.push_str(&format!("{}: enum {{ {} }}\n", n, v.join(", "))),
                Item::Decl(n, Body::Struct(f)) => {
                    let f: Vec<String> = f
                        .iter()
                        .map(|f| {
                            format!("{}{}: {}{}", f.name, if f.optional { "?" } else { "" }, f.ty, if f.array { "[]" } else { "" })
                        })
                        .collect();
                    out.push_str(&format!("{}: struct {{ {} }}\n", n, f.join(", ")));
                }
            }
        }
        out
    }
    /// Reads back what `text` printed (for replays)
    pub fn parse(text: &str) -> Option<Schema> {
        Some(Schema::of(crate::lang::parse(text)?))
    }
    pub fn of(tree: ast::AST<'_>) -> Schema {
        Schema(
            tree.into_iter()
                .map(|n| match n {
                    ast::Node::Export(n) => Item::Export(n.into()),
                    ast::Node::Decl(n, ast::Type::Enum(e)) => {
                        Item::Decl(n.into(), Body::Enum(e.0.into_iter().map(|s| s.into()).collect()))
                    }
                    ast::Node::Decl(n, ast::Type::Struct(s)) => Item::Decl(
                        n.into(),
                        Body::Struct(s.0.into_iter().map(|(n, u)| field(n, u.0, u.1, u.2)).collect()),
                    ),
                })
                .collect(),
        )
    }
    pub fn decls(&self) -> impl Iterator<Item = (&str, &Body)> {
        self.0.iter().filter_map(|i| if let Item::Decl(n, b) = i { Some((n.as_str(), b)) } else { None })
    }
    pub fn names(&self) -> Vec<&str> { self.decls().map(|(n, _)| n).collect() }

    /// Every defect of the schema, as the message which reports it
    pub fn defects(&self) -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        let mut first: BTreeMap<&str, &Body> = BTreeMap::new();
        for (n, b) in self.decls() {
            if first.contains_key(n) {
                out.insert(format!("Schema has duplicate declaration: {}", n));
            } else {
                first.insert(n, b);
            }
        }
        let exports: Vec<&str> = self.0.iter().filter_map(|i| if let Item::Export(n) = i { Some(n.as_str()) } else { None }).collect();
        match exports.len() {
            0 => drop(out.insert("Schema has no export".into())),
            1 => (),
            _ => drop(out.insert("Schema has more than one export".into())),
        }
        for e in exports {
            let structs = self.decls().any(|(n, b)| n == e && matches!(b, Body::Struct(_)));
            let others = BUILTINS.contains(&e) || self.decls().any(|(n, b)| n == e && matches!(b, Body::Enum(_)));
            if others {
                out.insert(format!("Attempted to export '{}', which is not a struct", e));
            } else if !structs {
                out.insert(format!("Export '{}' could not be resolved", e));
            }
        }
        for (n, b) in self.decls() {
            match b {
                Body::Enum(v) => {
                    if v.is_empty() {
                        out.insert(format!("Enum '{}' must have at least one variant", n));
                    }
                    if v.len() > 32 {
                        out.insert(format!("Enum '{}' has too many variants ({}/32)", n, v.len()));
                    }
                    let mut seen = BTreeSet::new();
                    for x in v {
                        if !seen.insert(x) {
                            out.insert(format!("Duplicate variant '{}' on enum '{}'", x, n));
                        }
                    }
                }
                Body::Struct(f) => {
                    for (i, x) in f.iter().enumerate() {
                        if f[..i].iter().any(|y| y.name == x.name) {
                            out.insert(format!("Duplicate field '{}' on struct '{}'", x.name, n));
                        }
                        if x.array && x.optional {
                            out.insert(format!("Field '{}' in struct '{}' cannot be optional and array at once", x.name, n));
                        }
                        if !BUILTINS.contains(&x.ty.as_str()) && !first.contains_key(x.ty.as_str()) {
                            out.insert(format!("Declaration for type '{}' does not exist", x.ty));
                        }
                    }
                }
            }
        }
        // containment, by name; every declaration of a name counts
        let names: BTreeSet<&str> = first.keys().copied().collect();
        for start in &names {
            if self.reach(start).contains(start) {
                out.insert(format!("Found a cycle between two or more top level definitions in type '{}'", start));
            }
        }
        out
    }

    /// The declared types which `start` contains, directly or not
    pub fn reach<'a>(&'a self, start: &str) -> BTreeSet<&'a str> {
        let mut seen: BTreeSet<&str> = BTreeSet::new();
        let mut todo: Vec<String> = vec![start.into()];
        while let Some(t) = todo.pop() {
            for (n, b) in self.decls() {
                if n != t {
                    continue;
                }
                if let Body::Struct(f) = b {
                    for x in f {
                        if !BUILTINS.contains(&x.ty.as_str()) && seen.insert(&x.ty) {
                            todo.push(x.ty.clone());
                        }
                    }
                }
            }
        }
        seen
    }
    pub fn body(&self, name: &str) -> Option<&Body> { self.decls().find(|(n, _)| *n == name).map(|(_, b)| b) }
}

#[cfg(not(packetc_surface))]
impl Schema {
    /// What is wrong with a resolved schema, if anything (only for schemas without defects)
    pub fn compare(&self, r: &check::Resolved) -> Result<(), String> {
        let export = self.0.iter().find_map(|i| if let Item::Export(n) = i { Some(n.as_str()) } else { None }).unwrap();
        if r.export.name != export {
            return Err(format!("the export is '{}' instead of '{}'", r.export.name, export));
        }
        let mut done = BTreeSet::new();
        self.compare_struct(export, &r.export.r#struct, &mut done)?;
        let want: BTreeSet<&str> = self.reach(export);
        let got: BTreeSet<&str> =
            r.types.iter().map(|(k, _)| *k).filter(|k| !BUILTINS.contains(k) && *k != export).collect();
        if want != got {
            return Err(format!("the types kept are {:?} instead of {:?}", got, want));
        }
        for (k, t) in r.types.iter() {
            let t = t.borrow();
            if t.0 != *k {
                return Err(format!("type '{}' is kept as '{}'", t.0, k));
            }
            if *k != export || self.body(k).is_some() {
                self.compare_type(k, &t.1, &mut done)?;
            }
        }
        Ok(())
    }
    fn compare_struct(&self, name: &str, s: &check::Struct, done: &mut BTreeSet<usize>) -> Result<(), String> {
        let want = match self.body(name) {
            Some(Body::Struct(f)) => f,
            _ => return Err(format!("'{}' is resolved to a struct", name)),
        };
        let short = |n: &str, t: &str, a: bool, o: bool| format!("{}{}: {}{}", n, if o { "?" } else { "" }, t, if a { "[]" } else { "" });
        let w: Vec<String> = want.iter().map(|f| short(&f.name, &f.ty, f.array, f.optional)).collect();
        let g: Vec<String> = s.fields.iter().map(|f| short(f.name, f.r#type.borrow().0, f.array, f.optional)).collect();
        if w != g {
            return Err(format!("struct '{}' has the fields {:?} instead of {:?}", name, g, w));
        }
        for f in &s.fields {
            let t = f.r#type.borrow();
            if done.insert(&*t as *const _ as *const u8 as usize) {
                self.compare_type(t.0, &t.1, done)?;
            }
        }
        Ok(())
    }
    fn compare_type(&self, name: &str, t: &check::ResolvedType, done: &mut BTreeSet<usize>) -> Result<(), String> {
        use check::{Builtin, EnumRepr, ResolvedType};
        match t {
            ResolvedType::Builtin(b) => {
                let n = match b {
                    Builtin::Uint8 => "uint8",
                    Builtin::Uint16 => "uint16",
                    Builtin::Uint32 => "uint32",
                    Builtin::Int8 => "int8",
                    Builtin::Int16 => "int16",
                    Builtin::Int32 => "int32",
                    Builtin::Float => "float",
                    Builtin::String => "string",
                };
                if n != name {
                    return Err(format!("type '{}' is resolved to {}", name, n));
                }
            }
            ResolvedType::Struct(s) => self.compare_struct(name, s, done)?,
            ResolvedType::Enum(e) => {
                let want = match self.body(name) {
                    Some(Body::Enum(v)) => v,
                    _ => return Err(format!("'{}' is resolved to an enum", name)),
                };
                let repr = match want.len() {
                    0..=8 => EnumRepr::U8,
                    9..=16 => EnumRepr::U16,
                    _ => EnumRepr::U32,
                };
                if e.repr != repr {
                    return Err(format!("enum '{}' with {} variants is stored in {:?}", name, want.len(), e.repr));
                }
                let g: Vec<(&str, usize)> = e.variants.iter().map(|v| (v.name, v.value)).collect();
                let w: Vec<(&str, usize)> = want.iter().enumerate().map(|(i, v)| (v.as_str(), i)).collect();
                if g != w {
                    return Err(format!("enum '{}' has the variants {:?} instead of {:?}", name, g, w));
                }
            }
        }
        Ok(())
    }
}
