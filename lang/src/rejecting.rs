//! Rejections say where the text goes wrong (P24).
use crate::helpers::*;
use vcore::gen::{self, Cfg};
use vcore::refparse::{self, Verdict};
use vcore::reflex::lex;
use vcore::render::{render, Notation};
use vcore::runner::*;
use vcore::tape::Src;

/// line and column a message names: the first l:c in it, or the first two numbers after the word line
fn named(e: &str) -> Option<(usize, usize)> {
    let number = |s: &str| -> Option<usize> { s.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok() };
    for (i, _) in e.match_indices(':') {
        let before = e[..i].trim_end_matches(|c: char| c.is_ascii_digit());
        if let (Some(l), Some(c)) = (number(&e[before.len()..i]), number(&e[i + 1..])) {
            return Some((l, c));
        }
    }
    let rest = &e[e.to_ascii_lowercase().find("line")?..];
    let mut found = rest.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty());
    Some((found.next()?.parse().ok()?, found.next()?.parse().ok()?))
}

/// a rejected text: the message names a place in the token that cannot stand where it stands, at its ends, or
/// in the token before it, whose role it leaves open
fn judge(text: &str, c: &mut Case) -> R {
    let Verdict::Reject(why) = refparse::parse(text) else {
        c.label("no rejection");
        return Ok(());
    };
    let Err(e) = lib_parse(text)? else {
        // another property's business
        return Ok(());
    };
    let Some((line, col)) = named(&e) else {
        return bad(format!("the message names no line and column: {}", short(&e)), text);
    };
    let (start, end) = refparse::place(text);
    let toks = lex(text);
    let from = toks.at.iter().rev().find(|t| t.0 < start).map_or(start, |t| t.0);
    c.nontrivial = true;
    // line and column of a place
    let at = |n: usize| {
        let (mut l, mut k) = (1, 1);
        for ch in text.chars().take(n) {
            if ch == '\n' {
                l += 1;
                k = 1
            } else {
                k += 1
            }
        }
        (l, k)
    };
    let (lo, hi, mid) = (at(from), at(end), at(start));
    c.label(if end == start {
        "something missing at the end"
    } else if (line, col) == mid {
        "the start of the token"
    } else if (line, col) < mid {
        "the token before"
    } else {
        "in the token"
    });
    c.label_if(mid.0 > 1, "beyond the first line");
    if (line, col) < lo || (line, col) > hi {
        return bad(format!("the text goes wrong between {}:{} and {}:{} ({why}), the message names {line}:{col}: {}", lo.0, lo.1, hi.0, hi.1, short(&e)), text);
    }
    Ok(())
}

fn damaged(src: &mut Src, c: &mut Case) -> R {
    let g = gen::graph(src, &Cfg::parsed());
    let (text, how) = vcore::damage::mutate(src, &g);
    c.input(&text);
    c.label(how);
    judge(&text, c)
}

/// the damage is far down, far to the right, or far from the end
fn far(src: &mut Src, c: &mut Case) -> R {
    let small = Cfg { budget: 6, ..Cfg::parsed() };
    let g = gen::graph(src, &small);
    let (text, _) = vcore::damage::mutate(src, &g);
    let pad = |src: &mut Src| {
        let unit = *src.pick(&["\n", " ", "\t", "\r\n", "a;\n", "a -- é\n", "b [x=y];", "日本 ", "/* é\n */", "# c\n", "\"\n\n\" ", "<\n> ", "{ a }\n", "\r"]);
        let n = match src.below(4) {
            0 => src.range(1, 30),
            1 => src.range(200, 300),
            2 => src.range(1000, 5000),
            _ => src.range(65_000, 67_000) / unit.len(),
        };
        (unit, unit.repeat(n))
    };
    let blank = |u: &str| u.trim().is_empty() || u.starts_with('#') || u.starts_with("/*");
    let (u, p) = pad(src);
    let (text, what) = match text.find('{') {
        // in front of the document only what means nothing
        Some(_) | None if blank(u) && src.chance(40) => (format!("{p}{text}"), "in front"),
        Some(i) => {
            let z = if src.chance(30) { pad(src).1 } else { String::new() };
            let j = text.rfind('}').filter(|j| *j > i).unwrap_or(text.len());
            (format!("{}{p}{}{z}{}", &text[..=i], &text[i + 1..j], &text[j..]), "inside")
        }
        None => (text, "none"),
    };
    c.input(&text);
    c.label(what);
    judge(&text, c)
}

/// what is missing is missing at the end
fn cut_off(src: &mut Src, c: &mut Case) -> R {
    let g = gen::graph(src, &Cfg { budget: 10, ..Cfg::parsed() });
    let how = if src.chance(50) { Notation::Free } else { Notation::Plain };
    let text = render(&g, src, how);
    let ends: Vec<usize> = lex(&text).at.iter().map(|t| t.1).collect();
    let mut cuts: Vec<usize> = vec![0];
    cuts.extend(ends.iter().take(ends.len().saturating_sub(1)));
    let step = 1 + cuts.len() * text.len() / 200_000;
    let tail = *src.pick(&["", "", " ", "\n", "\n\n  ", " # c", "/* c */\n"]);
    c.input(&format!("{text}{tail}"));
    c.evals = 0;
    let cs: Vec<char> = text.chars().collect();
    for n in cuts.into_iter().step_by(step) {
        let t: String = cs[..n].iter().collect::<String>() + tail;
        c.evals += 1;
        judge(&t, c)?
    }
    Ok(())
}

pub fn check() -> Check {
    Check {
        id: "P24",
        rule: "a case is a text that the reference reader rejects (a damaged document, also at the far end of long lines and texts, or one cut off after each token), and the place the library's message names, compared with the first token that no document has there; non-trivial: such a text; distinct by text",
        assumptions: vec!["lines end with a line feed, columns count characters, both from 1", "texts whose reading differs between implementations are not judged"],
        subs: vec![
            Sub::random("damaged", 400_000, 3_000_000, damaged),
            Sub::random("far", 30_000, 600_000, far),
            Sub::random("cut off", 30_000, 400_000, cut_off),
        ],
    }
}
