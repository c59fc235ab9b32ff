//! P20: deriving the attribute conversion for generated user types.
use crate::prog::*;
use vcore::runner::*;
use vcore::tape::Src;

/// the published structures, which into-attr is built on; the macros of the repository
pub const LOCAL: Externs = &[
    ("dot_generator", "dot_generator_local"),
    ("dot_structures", "dot_structures"),
    ("into_attr", "into_attr_local"),
    ("into_attr_derive", "into_attr_derive_local"),
];

const NAMES: &[&str] = &["shape", "Color", "my_attr", "X", "label2", "arrowhead", "Größe", "fontname", "_style", "K", "URL", "box_", "rank_", "veryLongNameOfAnAttributeThatSomeoneUses", "x__", "ImageScale", "r#type", "r#match", "r#box", "r#_a", "r#enum"];
const VARIANTS: &[&str] = &[
    "A", "Box", "box_", "none", "circle", "i32_", "Some_", "r#type", "r#in", "r#match", "x_y", "x_y_", "__", "_a", "_a_", "a__", "a___", "TB", "LR", "égal", "日本", "true_", "Id", "Plain", "Attribute", "v", "self_", "m3record", "Z9", "crate_", "u", "under_score_",
];

const RESERVED: &[&str] = &["as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen", "_"];

/// a name nobody thought of
fn any_name(src: &mut Src) -> String {
    let style = src.below(5);
    let mut s = String::new();
    for i in 0..1 + src.count(6, 40) {
        s.push(match style {
            0 => (b'A' + src.below(26) as u8) as char,
            1 => (b'a' + src.below(26) as u8) as char,
            _ => match src.weighted(&[6, 6, 3, 3, 1]) {
                0 => (b'a' + src.below(26) as u8) as char,
                1 => (b'A' + src.below(26) as u8) as char,
                2 if i > 0 => (b'0' + src.below(10) as u8) as char,
                2 | 3 => '_',
                _ => *src.pick(&['ä', 'Ω', 'ñ', '中', 'ъ', 'ß', 'ı']),
            },
        });
    }
    if s.chars().all(|c| c == '_') {
        s.push('x')
    }
    // some names are only good with the mark, some not even so
    if RESERVED.contains(&s.as_str()) {
        s.push('2')
    }
    if src.chance(10) {
        s.insert_str(0, "r#")
    }
    s
}

fn variant_text(v: &str) -> String {
    let v = v.strip_prefix("r#").unwrap_or(v);
    v.strip_suffix('_').unwrap_or(v).to_string()
}

pub fn program(src: &mut Src) -> (Prog, String, Vec<&'static str>) {
    let mut labels = vec![];
    let name = if src.chance(60) { src.pick(NAMES).to_string() } else { any_name(src) + "Q" };
    // a raw name is the name after the mark
    let attribute = name.trim_start_matches("r#").to_string();
    if attribute != name {
        labels.push("a raw name")
    }
    let vis = *src.pick(&["", "pub ", "pub(crate) "]);
    let derive = match src.draw(4) {
        0 => "#[derive(Debug, IntoAttribute)]",
        1 => "#[derive(IntoAttribute, Debug, PartialEq)]",
        2 => "#[derive(Debug)]\n#[derive(IntoAttribute)]",
        _ => "/// a type\n#[derive(Debug, Clone, PartialEq, IntoAttribute)]\n#[allow(non_camel_case_types)]",
    };
    let mut texts = 0;
    let (item, runs): (String, Vec<(String, String)>) = if src.chance(50) {
        labels.push("enum");
        let mut vs: Vec<String> = vec![];
        for _ in 0..1 + src.count(4, 25) {
            let v = if src.chance(60) { src.pick(VARIANTS).to_string() } else { any_name(src) };
            if !vs.iter().any(|w| w.trim_start_matches("r#") == v.trim_start_matches("r#")) {
                vs.push(v)
            }
        }
        if vs.iter().any(|v| v.ends_with('_')) {
            labels.push("a variant with a trailing underscore")
        }
        if vs.iter().any(|v| v.starts_with("r#")) {
            labels.push("a raw variant")
        }
        let numbered = src.chance(15);
        let body: Vec<String> = vs.iter().enumerate().map(|(i, v)| if numbered { format!("{v} = {}", 3 * i + 1) } else { v.to_string() }).collect::<Vec<String>>();
        let tail = if src.chance(50) { "," } else { "" };
        (format!("{derive}\n{vis}enum {name} {{ {}{tail} }}", body.join(", ")), vs.iter().map(|v| (format!("{name}::{v}"), format!("String::from({:?})", variant_text(v)))).collect())
    } else {
        labels.push("tuple struct");
        let k = src.weighted(&[4, 3, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1]);
        let (ty, values): (&str, Vec<(String, String)>) = match k {
            0 => {
                texts = 1;
                ("String", vec![("s[0].clone()".into(), "s[0].clone()".into())])
            }
            1 => ("&'static str", vec![("\"abc\"".into(), "String::from(\"abc\")".into()), ("\"\"".into(), "String::new()".into()), ("\"a_\"".into(), "String::from(\"a_\")".into())]),
            2 => ("i32", ["0", "-1", "i32::MAX", "i32::MIN"].iter().map(|v| (v.to_string(), format!("({v} as i32).to_string()"))).collect()),
            3 => ("f32", ["0.0", "1.5", "-0.25", "1e20", "f32::MAX", "f32::MIN_POSITIVE"].iter().map(|v| (v.to_string(), format!("({v} as f32).to_string()"))).collect()),
            4 => ("bool", vec![("true".into(), "String::from(\"true\")".into()), ("false".into(), "String::from(\"false\")".into())]),
            5 => ("char", vec![("'x'".into(), "String::from(\"x\")".into()), ("'_'".into(), "String::from(\"_\")".into())]),
            6 => ("u128", vec![("u128::MAX".into(), "u128::MAX.to_string()".into())]),
            7 => {
                texts = 1;
                ("Mine", vec![("Mine(s[0].clone())".into(), "[\"<\", &s[0], \">\"].concat()".into())])
            }
            8 => {
                texts = 1;
                ("Box<str>", vec![("s[0].clone().into_boxed_str()".into(), "s[0].clone()".into())])
            }
            9 => {
                texts = 1;
                ("std::rc::Rc<String>", vec![("std::rc::Rc::new(s[0].clone())".into(), "s[0].clone()".into())])
            }
            10 => {
                texts = 1;
                ("std::borrow::Cow<'static, str>", vec![("std::borrow::Cow::Owned(s[0].clone())".into(), "s[0].clone()".into())])
            }
            _ => ("f64", vec![("0.1 + 0.2".into(), "(0.1f64 + 0.2).to_string()".into()), ("f64::NAN".into(), "String::from(\"NaN\")".into())]),
        };
        labels.push("a field");
        let fvis = *src.pick(&["", "pub ", "pub(crate) "]);
        (format!("{derive}\n{vis}struct {name}({fvis}{ty});"), values.into_iter().map(|(v, w)| (format!("{name}({v})"), w)).collect())
    };
    let mut run = String::new();
    for (value, want) in &runs {
        run.push_str(&format!(
            "    {{ let got: Attribute = ({value}).into_attr(); let want = Attribute(Id::Plain(String::from({attribute:?})), Id::Plain({want}));\n      if got != want || format!(\"{{got:?}}\") != format!(\"{{want:?}}\") {{ return Err(format!(\"{{}} becomes {{got:?}}, not {{want:?}}\", {value:?})) }} }}\n"
        ));
    }
    let module = format!(
        "use dot_generator::*;\nuse dot_structures::*;\nuse into_attr::IntoAttribute;\nuse into_attr_derive::IntoAttribute;\n#[derive(Debug, Clone, PartialEq)] pub struct Mine(String);\nimpl std::fmt::Display for Mine {{ fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ write!(f, \"<{{}}>\", self.0) }} }}\n{item}\npub fn run(s: &[String]) -> Result<(), String> {{\n{run}    Ok(())\n}}"
    );
    let shown = format!("{item} with {}", runs.iter().map(|r| r.0.as_str()).collect::<Vec<_>>().join(", "));
    (Prog { module, texts }, shown, labels)
}

const ROUNDS: usize = 300;

fn case(src: &mut Src, c: &mut Case) -> Result<(), Fail> {
    let (p, shown, labels) = program(src);
    c.input(&shown);
    c.nontrivial = true;
    labels.into_iter().for_each(|l| c.label(l));
    match outcome(&p, LOCAL, seed(), ROUNDS) {
        Ok(n) => {
            c.evals = n;
            Ok(())
        }
        Err(e) => fail(format!("the derived conversion is wrong: {e}"), shown),
    }
}

pub fn check() -> Check {
    Check {
        id: "P20",
        rule: "a case is a generated user type, compiled with the repository's derive macro and converted for each variant or for drawn field values (evaluations); every case is non-trivial; distinct by type and values",
        assumptions: vec!["types without generic parameters; enums derive Debug, as the documentation's examples do", "used with the published dot-structures, which into-attr is built on"],
        subs: vec![Sub::random("types", 2_500, 40_000, case)],
    }
}

pub fn prepare_all(check: &Check, n: u64) {
    let sub = &check.subs[0];
    let ps = (0..n).map(|i| program(&mut case_src(check.id, sub, seed(), i)).0).collect();
    prepare(ps, LOCAL, seed(), ROUNDS);
}
