//! Damaging documents a little.
use crate::model as m;
use crate::reflex::{lex, Tok};
use crate::render::{join, must_separate, render, Notation};
use crate::tape::Src;

/// small damage to a document: the text and whether anything was changed
pub fn mutate(src: &mut Src, g: &m::Graph) -> (String, &'static str) {
    const TOKS: [&str; 46] = [
        "{", "}", "[", "]", ";", ",", "=", ":", "->", "--", "a", "\"q\"", "<h>", "1", "-1", ".5", "n", "graph", "node", "edge", "subgraph", "strict", "digraph", "x1", "+",
        "\"", "<", ">", "-", "/", "*/", "/*", "@", "a=b",
        "\u{0}", "\u{feff}", "\u{a0}", "\u{1a}", "[]", "{}", "::", "==", ",,", ";;", ":n", "\\",
    ];
    let how = if src.chance(50) { Notation::Plain } else { Notation::Free };
    match src.weighted(&[40, 25, 12, 10, 13]) {
        0 => {
            // token level
            let text = render(g, src, how);
            let mut ts = lex(&text).toks;
            let n = if src.chance(25) { 2 } else { 1 };
            for _ in 0..n {
                if ts.is_empty() {
                    break;
                }
                let i = src.below(ts.len());
                match src.weighted(&[25, 25, 20, 10, 10, 10]) {
                    0 => {
                        ts.remove(i);
                    }
                    1 => {
                        let t = lex(*src.pick(&TOKS)).toks;
                        for x in t.into_iter().rev() {
                            ts.insert(i, x)
                        }
                    }
                    2 => {
                        let t = lex(*src.pick(&TOKS)).toks;
                        ts.remove(i);
                        for x in t.into_iter().rev() {
                            ts.insert(i, x)
                        }
                    }
                    3 => {
                        let j = src.below(ts.len());
                        ts.swap(i, j)
                    }
                    4 => {
                        let t = ts[i].clone();
                        ts.insert(i, t)
                    }
                    _ => {
                        let j = src.range(i, ts.len());
                        let j = j.min(i + 6);
                        ts.drain(i..j);
                    }
                }
            }
            (join_any(&ts, src), "tokens damaged")
        }
        1 => {
            // character level
            let text = render(g, src, how);
            let mut cs: Vec<char> = text.chars().collect();
            const CH: &str = "{}[]<>;,=:-\"\\/*#.+@ \n\ta1nGS_\u{e9}\u{0}\u{b}\u{c}\u{85}\u{a0}\u{2028}\u{feff}\u{200b}\u{1a}\u{7f}\r";
            let chs: Vec<char> = CH.chars().collect();
            let n = if src.chance(25) { 2 } else { 1 };
            for _ in 0..n {
                if cs.is_empty() {
                    break;
                }
                let i = src.below(cs.len());
                match src.below(4) {
                    0 => {
                        cs.remove(i);
                    }
                    1 => cs.insert(i, *src.pick(&chs)),
                    2 => cs[i] = *src.pick(&chs),
                    _ => {
                        let c = cs[i];
                        cs.insert(i, c)
                    }
                }
            }
            (cs.into_iter().collect(), "characters damaged")
        }
        2 => {
            let text = render(g, src, how);
            let cs: Vec<char> = text.chars().collect();
            let n = src.below(cs.len());
            (cs[..n].iter().collect(), "truncated")
        }
        3 => {
            let mut text = render(g, src, how);
            let k = src.range(1, 3);
            for _ in 0..k {
                let t = *src.pick(&TOKS);
                if src.chance(25) {
                    text = format!("{t} {text}")
                } else {
                    text = format!("{text}{}{t}", if src.chance(50) { " " } else { "\n" })
                }
            }
            if src.chance(15) {
                let again = text.clone();
                text.push('\n');
                text.push_str(&again)
            }
            (text, "garbage around")
        }
        _ => {
            // a soup of tokens inside a document
            let mut o = String::from(*src.pick(&["graph {", "digraph g {", "strict graph {", ""]));
            for _ in 0..src.count(6, 20) {
                o.push_str(*src.pick(&TOKS));
                if src.chance(70) {
                    o.push(' ')
                }
            }
            o.push_str(*src.pick(&["}", "", "}}"]));
            (o, "token soup")
        }
    }
}

fn join_any(ts: &[Tok], src: &mut Src) -> String {
    if src.chance(50) {
        return join(ts, src, Notation::Free);
    }
    // touching wherever possible
    let mut o = String::new();
    for (i, t) in ts.iter().enumerate() {
        if i > 0 && must_separate(&ts[i - 1], t) {
            o.push(' ')
        }
        o.push_str(&t.text())
    }
    o
}
