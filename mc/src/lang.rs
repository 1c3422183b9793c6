//! The model of the schema language: an explicit state machine over characters.
//!
//! It is written from the language description (format.md, the grammar
//! comments), independently of the PEG parser: it never backtracks and has a
//! finite control state, so that its reachable states can be enumerated.
use crate::ast;

pub const RESERVED: [&str; 10] =
    ["uint8", "uint16", "uint32", "int8", "int16", "int32", "float", "string", "enum", "struct"];

/// How much the word being read tells apart: a proper prefix of a keyword (or
/// of `export`), or any other word.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Word {
    /// The first `.1` characters of keyword number `.0` (smallest such number)
    Prefix(u8, u8),
    Other,
}

fn keyword(i: usize) -> &'static str {
    if i < RESERVED.len() {
        RESERVED[i]
    } else {
        "export"
    }
}

impl Word {
    fn of(text: &str) -> Word {
        for i in 0..=RESERVED.len() {
            if keyword(i).starts_with(text) {
                return Word::Prefix(i as u8, text.len() as u8);
            }
        }
        Word::Other
    }
    fn text(self) -> Option<&'static str> {
        match self {
            Word::Prefix(i, n) => Some(&keyword(i as usize)[..n as usize]),
            Word::Other => None,
        }
    }
    fn push(self, c: char) -> Word {
        match self.text() {
            Some(t) => Word::of(&format!("{}{}", t, c)),
            None => Word::Other,
        }
    }
    fn is_reserved(self) -> bool { self.text().map_or(false, |t| RESERVED.contains(&t)) }
    fn is_export(self) -> bool { self.text() == Some("export") }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum State {
    Dead,
    /// Between declarations
    Top,
    TopComment,
    DeclName(Word),
    ExportGap,
    ExportName,
    BeforeColon,
    AfterColon,
    /// Inside the keyword `enum` or `struct` after the colon (is_enum, characters read)
    Kind(bool, u8),
    /// Between the keyword and the brace
    BeforeBrace(bool),
    /// A variant may start here, a comma may not
    VariantStart,
    VariantName(Word),
    AfterVariant,
    /// A field may start here, a comma may not
    FieldStart,
    FieldComment,
    FieldName(Word),
    AfterFieldName,
    AfterQuestion,
    BeforeType,
    TypeName,
    Bracket,
    AfterField,
}
use State::*;

fn hspace(c: char) -> bool { c == ' ' || c == '\t' }
fn space(c: char) -> bool { matches!(c, ' ' | '\t' | '\n' | '\r') }
fn start(c: char) -> bool { c.is_ascii_alphabetic() || c == '_' }
fn part(c: char) -> bool { c.is_ascii_alphanumeric() || c == '_' }
fn word(c: char) -> Word { Word::Prefix(0, 0).push(c) }

impl State {
    pub fn step(self, c: char) -> State {
        match self {
            Dead => Dead,
            Top => match c {
                _ if space(c) => Top,
                '#' => TopComment,
                _ if start(c) => DeclName(word(c)),
                _ => Dead,
            },
            TopComment => if c == '\n' { Top } else { TopComment },
            DeclName(w) => match c {
                _ if part(c) => DeclName(w.push(c)),
                _ if w.is_export() => ExportGap.step(c),
                _ if w.is_reserved() => Dead,
                _ => BeforeColon.step(c),
            },
            ExportGap => match c {
                _ if hspace(c) => ExportGap,
                _ if part(c) => ExportName,
                _ if space(c) => Top,
                '#' => TopComment,
                _ => Dead,
            },
            ExportName => match c {
                _ if part(c) => ExportName,
                _ if space(c) => Top,
                '#' => TopComment,
                _ => Dead,
            },
            BeforeColon => match c {
                _ if hspace(c) => BeforeColon,
                ':' => AfterColon,
                _ => Dead,
            },
            AfterColon => match c {
                _ if hspace(c) => AfterColon,
                'e' => Kind(true, 1),
                's' => Kind(false, 1),
                _ => Dead,
            },
            Kind(e, n) => {
                let kw = if e { "enum" } else { "struct" };
                if kw.as_bytes()[n as usize] as char != c {
                    Dead
                } else if n as usize + 1 == kw.len() {
                    BeforeBrace(e)
                } else {
                    Kind(e, n + 1)
                }
            }
            BeforeBrace(e) => match c {
                _ if hspace(c) => BeforeBrace(e),
                '{' => if e { VariantStart } else { FieldStart },
                _ => Dead,
            },
            VariantStart => match c {
                _ if space(c) => VariantStart,
                _ if start(c) => VariantName(word(c)),
                '}' => Top,
                _ => Dead,
            },
            VariantName(w) => match c {
                _ if part(c) => VariantName(w.push(c)),
                _ if w.is_reserved() => Dead,
                _ => AfterVariant.step(c),
            },
            AfterVariant => match c {
                _ if space(c) => AfterVariant,
                ',' => VariantStart,
                _ if start(c) => VariantName(word(c)),
                '}' => Top,
                _ => Dead,
            },
            FieldStart => match c {
                _ if space(c) => FieldStart,
                '#' => FieldComment,
                _ if start(c) => FieldName(word(c)),
                '}' => Top,
                _ => Dead,
            },
            FieldComment => if c == '\n' { FieldStart } else { FieldComment },
            FieldName(w) => match c {
                _ if part(c) => FieldName(w.push(c)),
                _ if w.is_reserved() => Dead,
                _ => AfterFieldName.step(c),
            },
            AfterFieldName => match c {
                _ if hspace(c) => AfterFieldName,
                '?' => AfterQuestion,
                ':' => BeforeType,
                _ => Dead,
            },
            AfterQuestion => if c == ':' { BeforeType } else { Dead },
            BeforeType => match c {
                _ if hspace(c) => BeforeType,
                _ if part(c) => TypeName,
                '[' => Bracket,
                // an empty type name: parsed, and rejected by the type checker
                '\n' | '\r' | ',' | '}' | '#' => AfterField.step(c),
                _ => Dead,
            },
            TypeName => match c {
                _ if part(c) => TypeName,
                '[' => Bracket,
                '\n' | '\r' | ' ' | '\t' | ',' | '}' | '#' => AfterField.step(c),
                _ => Dead,
            },
            Bracket => if c == ']' { AfterField } else { Dead },
            AfterField => match c {
                _ if space(c) => AfterField,
                ',' => FieldStart,
                '#' => FieldComment,
                _ if start(c) => FieldName(word(c)),
                '}' => Top,
                _ => Dead,
            },
        }
    }
    pub fn accepts(self) -> bool {
        match self {
            Top | TopComment | ExportGap | ExportName => true,
            DeclName(w) => w.is_export(),
            _ => false,
        }
    }
}

pub fn run(text: &str) -> State { text.chars().fold(Top, State::step) }

/// Length of the longest prefix which can be continued to a valid schema
pub fn viable(text: &str) -> usize {
    let mut s = Top;
    for (i, c) in text.char_indices() {
        s = s.step(c);
        if s == Dead {
            return i;
        }
    }
    text.len()
}

/// The tree which a text spells, or `None` if it is not in the language
pub fn parse(text: &str) -> Option<ast::AST<'_>> {
    let mut out = Vec::new();
    let mut s = Top;
    let mut begin = 0; // start of the current word
    let mut name = ""; // of the current declaration
    let mut variants = Vec::new();
    let mut fields: Vec<(&str, ast::Unresolved)> = Vec::new();
    let mut is_enum = false;
    let (mut field, mut ty, mut array, mut opt, mut open) = ("", "", false, false, false);
    let mut export = None; // the name of an export statement being read
    for (i, c) in text.char_indices().chain(std::iter::once((text.len(), '\0'))) {
        let end = i == text.len();
        let n = if end { Top } else { s.step(c) };
        if end && !s.accepts() || n == Dead {
            return None;
        }
        let cont = part(c) && !end;
        // words which end here
        match s {
            DeclName(w) if !cont => {
                if w.is_export() {
                    export = Some("");
                } else {
                    name = &text[begin..i];
                }
            }
            ExportName if !cont => export = Some(&text[begin..i]),
            VariantName(_) if !cont => variants.push(&text[begin..i]),
            FieldName(_) if !cont => field = &text[begin..i],
            TypeName if !cont => ty = &text[begin..i],
            _ => (),
        }
        if s == ExportGap && n == ExportName {
            export = None;
        }
        // words which start here
        match n {
            DeclName(_) | ExportName | VariantName(_) | FieldName(_) | TypeName
                if std::mem::discriminant(&n) != std::mem::discriminant(&s) =>
            {
                begin = i
            }
            _ => (),
        }
        // statements and fields which end here
        if end || n == Top || n == TopComment {
            if let Some(e) = export.take() {
                out.push(ast::Node::Export(e));
            }
        }
        match (s, n) {
            (_, AfterQuestion) => opt = true,
            (_, Bracket) => array = true,
            (AfterFieldName | AfterQuestion | FieldName(_), BeforeType) => open = true,
            (BeforeBrace(e), VariantStart | FieldStart) => is_enum = e,
            _ => (),
        }
        if open && !matches!(n, BeforeType | TypeName | Bracket) {
            fields.push((field, ast::Unresolved(ty, array, opt)));
            ty = "";
            array = false;
            opt = false;
            open = false;
        }
        if c == '}' && n == Top && !matches!(s, TopComment) {
            out.push(ast::Node::Decl(
                name,
                if is_enum {
                    ast::Type::Enum(ast::Enum(std::mem::take(&mut variants)))
                } else {
                    ast::Type::Struct(ast::Struct(std::mem::take(&mut fields)))
                },
            ));
        }
        s = n;
    }
    Some(out)
}
