//! A reference lexer for the DOT language, written from its documentation
//! (https://graphviz.org/doc/info/lang.html) without looking at the grammar under test.
use crate::model::{is_keyword, Id};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    /// an identifier that is not a keyword
    Id(Id),
    /// a keyword, in its spelling
    Kw(String),
    /// one of { } [ ] ; , = :
    P(char),
    /// an edge operator; true for ->
    Op(bool),
    /// something no token starts with
    Bad(usize),
}

impl Tok {
    pub fn is_kw(&self, k: &str) -> bool {
        matches!(self, Tok::Kw(s) if s.eq_ignore_ascii_case(k))
    }
    pub fn text(&self) -> String {
        match self {
            Tok::Id(Id::Plain(s)) | Tok::Id(Id::Quoted(s)) | Tok::Id(Id::Html(s)) | Tok::Kw(s) => s.clone(),
            Tok::Id(Id::Anon) => String::new(),
            Tok::P(c) => c.to_string(),
            Tok::Op(d) => if *d { "->" } else { "--" }.to_string(),
            Tok::Bad(_) => "<bad>".into(),
        }
    }
}

#[derive(Default, Clone, Debug)]
pub struct Lexed {
    pub toks: Vec<Tok>,
    /// where each token starts and ends, in characters
    pub at: Vec<(usize, usize)>,
    /// readings on which implementations of DOT differ
    pub odd: Vec<&'static str>,
}

fn name_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || !c.is_ascii()
}

pub fn lex(text: &str) -> Lexed {
    let cs: Vec<char> = text.chars().collect();
    let mut out = Lexed::default();
    let mut i = 0;
    while let Some(end) = step(&cs, i, &mut out) {
        if out.at.len() < out.toks.len() {
            out.at.push((i, end))
        }
        i = end
    }
    if out.at.len() < out.toks.len() {
        // what never ends
        out.at.push((i, cs.len()))
    }
    out
}

/// one token, or white space, or a comment; none at the end and at what never ends
fn step(cs: &[char], at: usize, out: &mut Lexed) -> Option<usize> {
    let n = cs.len();
    let mut i = at;
    if i == 0 && cs.first() == Some(&'\u{feff}') {
        out.odd.push("byte order mark")
    }
    if i >= n {
        return None;
    }
    {
        let c = cs[i];
        let next = cs.get(i + 1).copied();
        match c {
            ' ' | '\t' | '\n' | '\r' => i += 1,
            '/' if next == Some('*') => {
                let mut j = i + 2;
                loop {
                    if j + 1 >= n {
                        out.toks.push(Tok::Bad(i));
                        return None;
                    }
                    if cs[j] == '*' && cs[j + 1] == '/' {
                        break;
                    }
                    j += 1;
                }
                i = j + 2
            }
            '#' | '/' if c == '#' || next == Some('/') => {
                while i < n && cs[i] != '\n' {
                    if cs[i] == '\r' && cs.get(i + 1) != Some(&'\n') {
                        out.odd.push("carriage return in a line comment");
                    }
                    if cs[i] == '\r' {
                        break;
                    }
                    i += 1
                }
            }
            '{' | '}' | '[' | ']' | ';' | ',' | '=' | ':' => {
                out.toks.push(Tok::P(c));
                i += 1
            }
            '+' => {
                out.odd.push("string concatenation");
                out.toks.push(Tok::Bad(i));
                i += 1
            }
            '"' => {
                let mut j = i + 1;
                loop {
                    match cs.get(j) {
                        None => {
                            out.toks.push(Tok::Bad(i));
                            return None;
                        }
                        Some('\\') => {
                            if j + 1 >= n {
                                out.toks.push(Tok::Bad(i));
                                return None;
                            }
                            j += 2
                        }
                        Some('"') => break,
                        _ => j += 1,
                    }
                }
                out.toks.push(Tok::Id(Id::Quoted(cs[i..=j].iter().collect())));
                i = j + 1
            }
            '<' => {
                let mut depth = 0i64;
                let mut j = i;
                loop {
                    match cs.get(j) {
                        None => {
                            out.toks.push(Tok::Bad(i));
                            return None;
                        }
                        Some('<') => depth += 1,
                        Some('>') => depth -= 1,
                        _ => {}
                    }
                    if depth == 0 {
                        break;
                    }
                    j += 1
                }
                out.toks.push(Tok::Id(Id::Html(cs[i..=j].iter().collect())));
                i = j + 1
            }
            _ if name_start(c) => {
                let mut j = i + 1;
                while j < n && (name_start(cs[j]) || cs[j].is_ascii_digit()) {
                    j += 1
                }
                let s: String = cs[i..j].iter().collect();
                out.toks.push(if is_keyword(&s) { Tok::Kw(s) } else { Tok::Id(Id::Plain(s)) });
                i = j
            }
            '-' if next == Some('-') || next == Some('>') => {
                out.toks.push(Tok::Op(next == Some('>')));
                i += 2
            }
            _ if c == '-' || c == '.' || c.is_ascii_digit() => {
                // -?(.[0-9]+ | [0-9]+(.[0-9]*)?)
                let mut j = if c == '-' { i + 1 } else { i };
                let d0 = j;
                while j < n && cs[j].is_ascii_digit() {
                    j += 1
                }
                let int = j - d0;
                let mut frac = 0;
                if cs.get(j) == Some(&'.') {
                    let f0 = j + 1;
                    let mut k = f0;
                    while k < n && cs[k].is_ascii_digit() {
                        k += 1
                    }
                    frac = k - f0;
                    if int > 0 || frac > 0 {
                        j = k
                    }
                }
                if int == 0 && frac == 0 {
                    out.toks.push(Tok::Bad(i));
                    i += 1
                } else {
                    out.toks.push(Tok::Id(Id::Plain(cs[i..j].iter().collect())));
                    i = j
                }
            }
            _ => {
                out.toks.push(Tok::Bad(i));
                i += 1
            }
        }
    }
    Some(i)
}

/// The tokens without the separators DOT leaves optional and other choices of notation:
/// ; and , anywhere, the brackets of an empty or split attribute list, the word subgraph before a
/// brace, the letter case of keywords.
pub fn essential(toks: &[Tok]) -> Vec<Tok> {
    let mut out: Vec<Tok> = vec![];
    for (i, t) in toks.iter().enumerate() {
        match t {
            Tok::P(';') | Tok::P(',') => {}
            Tok::Kw(k) if k.eq_ignore_ascii_case("subgraph") && toks.get(i + 1) == Some(&Tok::P('{')) => {}
            Tok::Kw(k) => out.push(Tok::Kw(k.to_ascii_lowercase())),
            t => out.push(t.clone()),
        }
    }
    let mut res: Vec<Tok> = vec![];
    for t in out {
        if t == Tok::P('[') && res.last() == Some(&Tok::P(']')) {
            res.pop();
            continue;
        }
        if t == Tok::P(']') && res.last() == Some(&Tok::P('[')) {
            let owner_kw = res.len() >= 2 && matches!(&res[res.len() - 2], Tok::Kw(k) if ["graph", "node", "edge"].contains(&k.as_str()));
            if !owner_kw {
                res.pop();
                continue;
            }
        }
        res.push(t)
    }
    res
}
