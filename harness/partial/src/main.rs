//! C16: random programs that use the `PartialStruct` derive are compiled and run; what the generated
//! types do at run time is compared with hand-expanded twins of the same program.
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::Command;
use vmon::{Case, Mon, Rng};

fn main() {
    vmon::main(&[("C16", c16)])
}

#[derive(Clone, Debug)]
enum Act {
    Wrap,
    Skip,
    Ty(String),
}

#[derive(Clone, Debug)]
struct Field {
    vis: &'static str,
    name: String,
    ty: String,
    act: Act,
    /// Attributes inside partial_struct(...), forwarded to the generated field only.
    fwd: Vec<String>,
    /// Plain attributes, present on both.
    plain: Vec<String>,
    /// How the options are laid out: for each, its rank and whether a new attribute starts at it.
    layout: Vec<(u64, bool)>,
    pb: bool,
}

#[derive(Clone, Debug)]
struct Def {
    id: u64,
    kind: u8, // 0 named, 1 tuple, 2 unit, 3 empty named, 4 empty tuple
    vis: &'static str,
    name: String,
    generics: String,
    args: String,
    /// The arguments that have no default.
    short: Option<String>,
    wher: String,
    fwd: Vec<String>,
    /// Plain attributes of the structure, present on both.
    plain: Vec<String>,
    /// The original derives serde's traits too.
    own: bool,
    layout: Vec<(u64, bool)>,
    fields: Vec<Field>,
    nested: bool,
    pb: bool,
    probes: Vec<String>,
}

const TYPES: &[(&str, &[&str])] = &[
    ("u8", &["7", "255"]),
    ("u32", &["0", "4294967295"]),
    ("i64", &["-9", "123456789012"]),
    ("bool", &["true", "false"]),
    ("String", &["\"\"", "\"w\\u00efp\""]),
    ("Vec<u8>", &["[]", "[1,2,3]"]),
    ("Option<u32>", &["null", "5"]),
    ("Option<Option<bool>>", &["null", "true"]),
    ("(u8, String)", &["[3,\"x\"]"]),
    ("[u16; 2]", &["[1,65535]"]),
    ("std::collections::BTreeMap<String, u32>", &["{}", "{\"k\":1}"]),
    ("Box<u64>", &["18446744073709551615"]),
    ("std::marker::PhantomData<u8>", &["null"]),
    ("Vec<Option<String>>", &["[null,\"a\"]"]),
    ("()", &["null"]),
    ("std::option::Option<u8>", &["null", "8"]),
    ("core::option::Option<Vec<i8>>", &["null", "[-1]"]),
    ("Opt", &["null", "44"]),
    ("Option<()>", &["null"]),
    ("((u8,), [[i8; 2]; 2])", &["[[1],[[1,2],[3,-4]]]"]),
    ("crate::Alias<u16>", &["[]", "[[1,\"y\"]]"]),
    ("Box<Option<Box<u8>>>", &["null", "6"]),
    ("self::Opt", &["null", "3"]),
    ("f64", &["0.5", "-1e300"]),
    ("char", &["\"x\"", "\"\u{2713}\""]),
];

/// Generics, the arguments to use, the where clause, the type of a field that uses the rest, and the
/// arguments that have no default if some have one.
const GENERICS: &[(&str, &str, &str, &str, Option<&str>)] = &[
    ("<T: Clone>", "::<u16>", "", "", None),
    ("<T>", "::<u16>", " where T: Clone + PartialEq", "", None),
    ("<T = u8>", "::<u16>", "", "", Some("")),
    ("<'a, T>", "::<'static, u16>", "", "std::marker::PhantomData<&'a T>", None),
    ("<T, U: Clone = String>", "::<u16, i8>", " where T: Clone", "Vec<(u8, U)>", Some("<u32>")),
    ("<'a: 'b, 'b, T: 'a + Clone = i64>", "::<'static, 'static, u16>", "", "std::marker::PhantomData<(&'a T, &'b u8)>", Some("<'static, 'static>")),
    // The where clause is needed for the type of the field.
    ("<T, U>", "::<u16, i8>", " where T: crate::HasPart, U: Copy", "std::marker::PhantomData<(U, <T as crate::HasPart>::Part)>", None),
    ("<T>", "::<u16>", " where T: crate::HasPart<Part = u8>", "std::marker::PhantomData<<T as crate::HasPart>::Part>", None),
];

/// All options in one attribute, each in its own, or anything in between; in the order given or in another.
fn layout(rng: &mut Rng, any: bool) -> Vec<(u64, bool)> {
    let cut = rng.below(4);
    (0..12).map(|_| (if !any || rng.bool() { 0 } else { rng.below(100) }, if cut < 2 { cut == 0 } else { rng.bool() })).collect()
}

fn gen(rng: &mut Rng, id: u64) -> Def {
    let kind = match rng.below(12) {
        0..=6 => 0,
        7..=9 => 1,
        10 => 2,
        _ => 3 + rng.below(2) as u8,
    };
    let n = if kind < 2 { 1 + if rng.chance(1, 8) { rng.below(40) } else { rng.below(6) } as usize } else { 0 };
    let generic = rng.chance(1, 4) && n > 0;
    let (g, a, w, extra, short) = *rng.pick(GENERICS);
    let t = generic && g.contains('T');
    let nested = rng.chance(1, 3);
    let vis = *rng.pick(&["", "pub ", "pub ", "pub(crate) ", "pub(super) ", "pub(in crate) ", "pub(self) "]);
    let mut fields = vec![];
    let pb = rng.chance(1, 4);
    for i in 0..n {
        let (mut ty, _) = *rng.pick(TYPES);
        if t && i == 0 {
            ty = if rng.bool() { "T" } else { "Vec<T>" };
        }
        let act = match rng.below(6) {
            0 | 1 => Act::Skip,
            2 if nested => Act::Ty("PartialInner".into()),
            3 if rng.bool() => Act::Ty("Option<Option<u8>>".into()),
            _ => Act::Wrap,
        };
        let mut ty = ty.to_string();
        if matches!(&act, Act::Ty(t) if t == "PartialInner") {
            ty = "Inner".into();
        }
        if t && i == 0 && matches!(act, Act::Ty(_)) {
            ty = "T".into();
        }
        let act = if t && i == 0 && matches!(act, Act::Ty(_)) { Act::Wrap } else { act };
        let mut fwd = vec![];
        if kind == 0 && rng.chance(1, 3) {
            fwd.push("serde(default)".into());
        }
        if kind == 0 && rng.chance(1, 5) {
            fwd.push(format!("serde(rename = \"renamed{i}\")"));
        }
        if kind == 0 && rng.chance(1, 5) {
            fwd.push(format!("serde(alias = \"other{i}\")"));
        }
        if rng.chance(1, 8) {
            fwd.push("allow(dead_code)".into());
        }
        if kind == 0 && fwd.iter().any(|x| x == "serde(default)") && rng.chance(1, 3) {
            fwd.push("serde(skip_serializing_if = \"crate::dull\")".into());
        }
        if kind == 0 && rng.chance(1, 8) {
            fwd.push("allow(unused, non_snake_case)".into());
        }
        let mut plain = vec![];
        if rng.chance(1, 4) {
            plain.push("/// A documented field, \"quoted\".".into());
        }
        if rng.chance(1, 5) {
            plain.push("#[allow(dead_code)]".into());
        }
        let name = match rng.below(8) {
            0 => format!("r#type_{i}"),
            1 => ["r#type", "r#match", "r#fn", "r#loop", "r#in", "r#use"].get(i).map_or(format!("f{i}"), |x| x.to_string()),
            2 => format!("camel_case_name_{i}"),
            3 => format!("_f{i}"),
            _ => format!("f{i}"),
        };
        let name = name.replace("r#type_", "type_");
        fields.push(Field {
            vis: if rng.bool() { rng.pick(&["", "pub "]) } else { rng.pick(&["pub(crate) ", "pub(super) ", "pub(in crate) ", "pub(self) ", "pub(in crate::OUTER) "]) },
            name,
            ty,
            act,
            fwd,
            plain,
            layout: layout(rng, true),
            pb: pb && rng.chance(1, 3),
        });
    }
    let mut fwd: Vec<String> = vec![];
    let apart = rng.below(4);
    let mut left = ["Debug", "Clone", "PartialEq", "Default", "Serialize", "Deserialize"].to_vec();
    while !left.is_empty() {
        let k = match apart {
            0 => left.len(),
            1 => 1,
            _ => 1 + rng.idx(left.len()),
        };
        fwd.push(format!("derive({})", left.drain(..k).collect::<Vec<_>>().join(", ")));
    }
    if kind == 0 && rng.chance(1, 4) {
        fwd.push("serde(rename_all = \"camelCase\")".into());
    }
    if rng.chance(1, 3) && kind == 0 {
        fwd.push("serde(default)".into());
    }
    let (generics, args, wher) = if generic {
        if !extra.is_empty() {
            fields.push(Field {
                vis: "",
                name: "extra".into(),
                ty: extra.into(),
                act: if rng.bool() { Act::Wrap } else { Act::Skip },
                fwd: vec![],
                plain: vec![],
                layout: vec![(0, false)],
                pb: false,
            });
        }
        (g.to_string(), a.to_string(), w.to_string())
    } else {
        Default::default()
    };
    // The original derives serde's traits itself, so that its own serde attributes are legal: they
    // are plain attributes, which the generated type gets as well.
    let own = kind == 0 && rng.chance(1, 3);
    let mut plain = vec![];
    if own {
        let all = fwd.iter().any(|x: &String| x.contains("rename_all"));
        if !all && rng.bool() {
            plain.push("#[serde(rename_all = \"camelCase\")]".to_string());
        }
        for (i, f) in fields.iter_mut().enumerate() {
            if !f.fwd.iter().any(|x| x.contains("rename")) && rng.chance(1, 4) {
                f.plain.push(format!("#[serde(rename = \"own-{i}\")]"));
            }
        }
    }
    if rng.chance(1, 4) {
        plain.push("/// A documented structure.".into());
        plain.push("#[allow(dead_code)]".into());
    }
    let layout = layout(rng, false);
    let mut d = Def {
        id,
        kind,
        vis,
        name: ["Obj", "Config", "A", "X_1", "Partial", "Ünï"][rng.below(6) as usize].to_string(),
        generics,
        args,
        short: short.filter(|_| generic).map(str::to_string),
        wher,
        fwd,
        plain,
        own,
        layout,
        fields,
        nested,
        pb,
        probes: vec![],
    };
    // JSON probes: random subsets of fields, by the names the reference expansion gives them.
    for k in 0..6 {
        let mut vals = vec![];
        for f in &d.fields {
            if k == 0 || (k > 1 && rng.chance(1, 3)) {
                if d.kind == 1 {
                    vals.push("null".to_string());
                }
                continue;
            }
            let camel = d.fwd.iter().chain(&d.plain).any(|x| x.contains("camelCase"));
            let raw = f.name.trim_start_matches("r#");
            let key = f
                .fwd
                .iter()
                .map(|x| x.as_str())
                .chain(f.plain.iter().map(|x| x.trim_start_matches("#[").trim_end_matches(']')))
                .find_map(|x| x.strip_prefix("serde(rename = \"").map(|x| x.trim_end_matches("\")").to_string()))
                .unwrap_or_else(|| if camel { camelize(raw) } else { raw.to_string() });
            let key = if f.fwd.iter().any(|x| x.starts_with("serde(alias")) && rng.bool() { f.fwd.iter().find_map(|x| x.strip_prefix("serde(alias = \"")).unwrap().trim_end_matches("\")").to_string() } else { key };
            let v = match &f.act {
                Act::Ty(t) if t == "PartialInner" => "{\"a\":5}".to_string(),
                Act::Ty(_) => "9".to_string(),
                _ => match f.ty.as_str() {
                    "T" => "12".into(),
                    "Vec<T>" => "[1,2]".into(),
                    "Vec<(u8, U)>" => "[[1,-2]]".into(),
                    t => TYPES
                        .iter()
                        .find(|x| x.0 == t)
                        .map(|x| rng.pick(x.1).to_string())
                        .unwrap_or("null".into()),
                },
            };
            if d.kind == 0 {
                vals.push(format!("\"{key}\":{v}"));
            } else {
                vals.push(v);
            }
        }
        let j = match d.kind {
            0 | 3 => format!("{{{}}}", vals.join(",")),
            1 if d.fields.len() == 1 => vals.join(""),
            1 | 4 => format!("[{}]", vals.join(",")),
            _ => "null".to_string(),
        };
        d.probes.push(j);
    }
    d
}

fn camelize(s: &str) -> String {
    // serde's rename_all = "camelCase": PascalCase with a lower-case first letter.
    let mut o = String::new();
    let mut cap = true;
    for c in s.chars() {
        if c == '_' {
            cap = true;
        } else if cap {
            o.extend(c.to_uppercase());
            cap = false;
        } else {
            o.push(c);
        }
    }
    let mut it = o.chars();
    match it.next() {
        Some(c) => c.to_lowercase().collect::<String>() + it.as_str(),
        None => o,
    }
}

/// The options in the order of their ranks, cut into attributes.
fn arrange(items: &[String], layout: &[(u64, bool)]) -> Vec<Vec<String>> {
    let mut order: Vec<usize> = (0..items.len()).collect();
    order.sort_by_key(|&i| layout[i % layout.len()].0);
    let mut groups: Vec<Vec<String>> = vec![];
    for i in order {
        if groups.is_empty() || layout[i % layout.len()].1 {
            groups.push(vec![]);
        }
        groups.last_mut().unwrap().push(items[i].clone());
    }
    groups
}

fn body(d: &Def, partial: bool, reference: bool) -> String {
    let mut s = String::new();
    for f in &d.fields {
        for p in &f.plain {
            let _ = writeln!(s, "        {p}");
        }
        let ty = if partial {
            for a in &f.fwd {
                let _ = writeln!(s, "        #[{a}]");
            }
            match &f.act {
                Act::Wrap => format!("Option<{}>", f.ty),
                Act::Skip => f.ty.clone(),
                Act::Ty(t) => t.clone(),
            }
        } else {
            if !reference {
                let mut items: Vec<String> = vec![];
                match &f.act {
                    Act::Wrap => {}
                    Act::Skip => items.push("skip".into()),
                    Act::Ty(t) => items.push(format!("ty = \"{t}\"")),
                }
                items.extend(f.fwd.iter().cloned());
                if f.pb {
                    let _ = writeln!(s, "        #[protobuf_convert(skip)]");
                }
                for group in arrange(&items, &f.layout) {
                    let _ = writeln!(s, "        #[partial_struct({})]", group.join(", "));
                }
            }
            f.ty.clone()
        };
        if d.kind == 0 {
            let _ = writeln!(s, "        {}{}: {},", f.vis, f.name, ty);
        } else {
            let _ = writeln!(s, "        {}{},", f.vis, ty);
        }
    }
    let w = &d.wher;
    match d.kind {
        0 => format!("{w} {{\n{s}    }}\n"),
        1 => format!("(\n{s}    ){w};\n"),
        2 => ";\n".into(),
        3 => " {}\n".into(),
        _ => "();\n".into(),
    }
}

fn module(d: &Def, reference: bool) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "pub mod o{} {{\n  use super::*;\n  pub mod s{} {{\n    use super::*;", d.id, d.id);
    if d.nested {
        if reference {
            s.push_str("    #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]\n    pub struct PartialInner { a: Option<u32>, b: Option<String> }\n    #[derive(Debug, Serialize, Deserialize)]\n    pub struct Inner { a: u32, b: String }\n");
        } else {
            s.push_str("    #[derive(PartialStruct, Debug, Serialize, Deserialize)]\n    #[partial_struct(derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize))]\n    pub struct Inner { a: u32, b: String }\n");
        }
    }
    if reference {
        if d.own {
            s.push_str("    #[derive(Debug, Serialize, Deserialize)]\n");
        }
        for a in &d.plain {
            let _ = writeln!(s, "    {a}");
        }
        let _ = write!(s, "    {}struct {}{}{}", d.vis, d.name, d.generics, body(d, false, true));
        for a in &d.plain {
            let _ = writeln!(s, "    {a}");
        }
        for a in &d.fwd {
            let _ = writeln!(s, "    #[{a}]");
        }
        let _ = write!(s, "    {}struct Partial{}{}{}", d.vis, d.name, d.generics, body(d, true, true));
    } else {
        let _ = writeln!(
            s,
            "    #[derive({}PartialStruct{})]",
            if d.own && d.layout[0].1 { "Debug, " } else { "" },
            [if d.pb { ", PbDummy" } else { "" }, if d.own { if d.layout[0].1 { ", Serialize, Deserialize" } else { ", Debug, Serialize, Deserialize" } } else { "" }].concat()
        );
        if d.pb {
            s.push_str("    #[protobuf_convert(source = \"x\")]\n");
        }
        for a in &d.plain {
            let _ = writeln!(s, "    {a}");
        }
        for group in arrange(&d.fwd, &d.layout) {
            let _ = writeln!(s, "    #[partial_struct({})]", group.join(", "));
        }
        let _ = write!(s, "    {}struct {}{}{}", d.vis, d.name, d.generics, body(d, false, false));
    }
    let n = format!("Partial{}", d.name);
    let _ = writeln!(s, "    pub fn run() {{");
    if let Some(a) = &d.short {
        let _ = writeln!(s, "        println!(\"{}|defaults|0|{{}}|\", std::any::type_name::<{n}{a}>());", d.id);
    }
    let _ = writeln!(s, "        let d = {n}{}::default();", d.args);
    for (i, f) in d.fields.iter().enumerate() {
        let acc = if d.kind == 0 { f.name.clone() } else { i.to_string() };
        let _ = writeln!(s, "        println!(\"{}|field|{}|{{}}|{{:?}}\", tn(&d.{acc}), d.{acc});", d.id, acc);
    }
    // Exhaustive destructuring: no field more, no field less.
    match d.kind {
        0 => {
            let _ = writeln!(s, "        let {n} {{ {} }} = d.clone();", d.fields.iter().enumerate().map(|(i, f)| format!("{}: _x{i}", f.name)).collect::<Vec<_>>().join(", "));
        }
        1 => {
            let _ = writeln!(s, "        let {n}({}) = d.clone();", d.fields.iter().map(|_| "_").collect::<Vec<_>>().join(", "));
        }
        2 => {
            let _ = writeln!(s, "        let {n} = {n};");
        }
        3 => {
            let _ = writeln!(s, "        let {n} {{}} = {n} {{}};");
        }
        _ => {
            let _ = writeln!(s, "        let {n}() = {n}();");
        }
    }
    let _ = writeln!(s, "        println!(\"{}|ser|default|{{}}|\", serde_json::to_string(&d).unwrap());", d.id);
    for (k, p) in d.probes.iter().enumerate() {
        let _ = writeln!(s, "        probe::<{n}{}>({}, {k}, {p:?});", d.args, d.id);
    }
    s.push_str("    }\n");
    // A private field is passed over for the one of the same name behind it: who may reach what is seen at run time.
    let fb = d.fields.iter().map(|f| if d.kind == 0 { format!("pub {}: Hidden, ", f.name) } else { "pub Hidden, ".to_string() }).collect::<String>();
    let _ = writeln!(s, "    #[derive(Default)]\n    pub struct Fb{}", match d.kind { 0 | 3 => format!(" {{ {fb} }}"), 2 => ";".into(), _ => format!("({fb});") });
    let _ = writeln!(s, "    impl std::ops::Deref for {n}{} {{ type Target = Fb; fn deref(&self) -> &Fb {{ Box::leak(Box::new(Fb::default())) }} }}", d.args);
    let _ = writeln!(s, "    pub fn make() -> {n}{} {{ Default::default() }}\n  }}", d.args);
    s.push_str(&viewpoint(d, 1));
    s.push_str("}\n");
    s.replace("crate::OUTER", &format!("crate::o{}", d.id))
}

/// What can be seen of a definition from the module around it (1), from the root of its crate (2), from another crate (3).
fn viewpoint(d: &Def, from: u8) -> String {
    let mut s = String::new();
    let (id, n) = (d.id, format!("Partial{}", d.name));
    let at = match from {
        1 => format!("super::s{id}"),
        2 => format!("crate::o{id}::s{id}"),
        _ => format!("prog::o{id}::s{id}"),
    };
    let _ = writeln!(s, "  pub mod view{id} {{\n    use super::*;\n    pub struct {n};");
    if d.args.is_empty() {
        let _ = writeln!(s, "    pub fn name() {{ use {at}::*; println!(\"{id}|named from {from}|0|{{}}|\", std::any::type_name::<{n}>()); }}");
    } else {
        s.push_str("    pub fn name() {}\n");
    }
    let reach = match d.vis {
        "pub " => 3,
        "pub(crate) " | "pub(in crate) " => 2,
        "pub(super) " => 1,
        _ => 0,
    };
    s.push_str("    pub fn look() {\n");
    if reach >= from {
        let _ = writeln!(s, "        let d = {at}::make();");
        for (i, f) in d.fields.iter().enumerate() {
            let a = if d.kind == 0 { f.name.clone() } else { i.to_string() };
            let _ = writeln!(s, "        println!(\"{id}|seen from {from}|{a}|{{}}|\", tn(&d.{a}));");
        }
    }
    s.push_str("    }\n  }\n");
    s
}

/// The text of the library and of the program that uses it.
fn program(defs: &[Def], reference: bool) -> (String, String) {
    let mut s = String::from("#![allow(warnings)]\nuse serde::{Deserialize, Serialize};\nuse partial_struct::PartialStruct;\nuse helper_attr::PbDummy;\npub type Opt = Option<u16>;\npub type Alias<T> = Vec<(T, String)>;\n#[derive(Default)]\npub struct Hidden;\npub trait HasPart { type Part: Clone + PartialEq + Default + std::fmt::Debug; }\nimpl HasPart for u16 { type Part = u8; }\npub fn dull<T>(_: &T) -> bool { std::mem::size_of::<T>() == 4 }\npub fn tn<T>(_: &T) -> &'static str { std::any::type_name::<T>() }\npub fn probe<T: Serialize + for<'a> Deserialize<'a> + std::fmt::Debug + PartialEq + Clone>(id: u64, k: u32, j: &str) {\n    match serde_json::from_str::<T>(j) {\n        Ok(v) => println!(\"{id}|probe|{k}|{:?}|{}\", v, serde_json::to_string(&v).unwrap()),\n        Err(e) => println!(\"{id}|probe|{k}|error|{e}\"),\n    }\n}\n");
    let mut b = String::from("#![allow(warnings)]\nuse prog::tn;\n");
    for d in defs {
        s.push_str(&module(d, reference));
        s.push_str(&viewpoint(d, 2));
        b.push_str(&viewpoint(d, 3));
    }
    s.push_str("pub fn all() {\n");
    b.push_str("fn main() {\n    prog::all();\n");
    for d in defs {
        let _ = writeln!(s, "    o{0}::s{0}::run(); o{0}::view{0}::name(); o{0}::view{0}::look(); view{0}::name(); view{0}::look();", d.id);
        let _ = writeln!(b, "    view{0}::name(); view{0}::look();", d.id);
    }
    s.push_str("}\n");
    b.push_str("}\n");
    (s, b)
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn build(dir: &Path, (lib, main): &(String, String)) -> Result<PathBuf, String> {
    std::fs::create_dir_all(dir.join("src")).map_err(|e| e.to_string())?;
    let m = format!(
        "[package]\nname = \"prog\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\npartial_struct = {{ path = \"{0}/build/ws/partial_struct\" }}\nhelper_attr = {{ path = \"{0}/shims/helper_attr\" }}\nserde = {{ version = \"1\", features = [\"derive\"] }}\nserde_json = \"1\"\n[profile.dev]\nopt-level = 0\ndebug = false\n[workspace]\n",
        root().display()
    );
    std::fs::write(dir.join("Cargo.toml"), m).map_err(|e| e.to_string())?;
    std::fs::write(dir.join("src/lib.rs"), lib).map_err(|e| e.to_string())?;
    std::fs::write(dir.join("src/main.rs"), main).map_err(|e| e.to_string())?;
    let _ = std::fs::copy(root().join("harness/partial/prog.lock"), dir.join("Cargo.lock"));
    let target = dir.join("target");
    let o = Command::new("cargo")
        .args(["build", "--offline", "--quiet"])
        .env("CARGO_TARGET_DIR", &target)
        .env("RUSTFLAGS", "--cap-lints warn -Awarnings")
        .current_dir(dir)
        .output()
        .map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(String::from_utf8_lossy(&o.stderr).chars().take(4000).collect());
    }
    Ok(target.join("debug/prog"))
}

fn run(exe: &Path) -> Result<Vec<String>, String> {
    let o = Command::new(exe).output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("status {:?}", o.status));
    }
    Ok(String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect())
}

fn c16(m: &mut Mon) {
    m.rule("Random struct definitions (named, tuple, unit, empty; generics, lifetimes, bounds and default arguments; up to 40 fields; options in any order, in one attribute or in several; serde attributes of the original itself; visibilities; raw identifiers; skip / type replacement / forwarded and plain attributes; nested partials) are put through the derive in a compiled and executed program; its generated types' run-time observations (field types, defaults, default type arguments, exhaustive destructuring, who can name the type and reach each field from the module around it, from the crate and from another crate, serialization order, deserialization of random subsets of fields) are compared with a hand-expanded twin. Non-trivial: a definition with at least one field, distinct by its text.");
    m.assume("the rust compiler, serde and serde_json are right; the twin program is the specification");
    m.require("observations compared", 300);
    m.require("definitions with skipped field", 5);
    m.require("definitions with replaced type", 3);
    m.require("definitions with generics", 3);
    m.require("definitions with default arguments", 3);
    m.require("definitions with many options in one attribute", 3);
    m.require("reachable from outside", 50);
    m.require("not reachable from outside", 50);
    m.require("definitions with serde attributes of their own", 3);
    m.require("definitions with several attributes on a field", 3);
    let per = m.n(150, 400);
    let batches = m.n(2, 10);
    m.run("programs", batches, |c| batch(c, per));
}

fn batch(c: &mut Case, per: u64) {
    let defs: Vec<Def> = (0..per).map(|i| gen(&mut c.rng, i)).collect();
    let dir = root().join("build/partial");
    let refsrc = program(&defs, true);
    let macsrc = program(&defs, false);
    let (r, a) = std::thread::scope(|s| {
        let h = s.spawn(|| build(&dir.join("ref"), &refsrc));
        let a = build(&dir.join("mac"), &macsrc);
        (h.join().unwrap(), a)
    });
    let r = match r {
        Ok(x) => x,
        Err(e) => {
            eprintln!("the reference program does not compile:\n{e}");
            std::process::exit(2)
        }
    };
    let want = run(&r).unwrap_or_else(|e| {
        eprintln!("the reference program fails: {e}");
        std::process::exit(2)
    });
    for d in &defs {
        c.eval(1);
        if !d.fields.is_empty() {
            c.nontrivial(&module(d, false));
        }
        if d.fields.iter().any(|f| matches!(f.act, Act::Skip)) {
            c.event("definitions with skipped field");
        }
        if d.fields.iter().any(|f| matches!(f.act, Act::Ty(_))) {
            c.event("definitions with replaced type");
        }
        if d.own {
            c.event("definitions with serde attributes of their own");
        }
        if d.fields.iter().any(|f| arrange(&f.fwd, &f.layout).len() > 1) {
            c.event("definitions with several attributes on a field");
        }
        if arrange(&d.fwd, &d.layout).iter().any(|g| g.len() > 4) {
            c.event("definitions with many options in one attribute");
        }
        if d.fields.len() > 6 {
            c.event("definitions with many fields");
        }
        if !d.generics.is_empty() {
            c.event("definitions with generics");
        }
        if d.short.is_some() {
            c.event("definitions with default arguments");
        }
        if d.pb {
            c.event("definitions with foreign attribute");
        }
    }
    let exe = match a {
        Ok(x) => x,
        Err(e) => {
            // Without the derive's output the twin compiles, so the derive is at fault — provided
            // that the derive itself builds.
            let probe = (String::new(), "fn main() {}".to_string());
            if let Err(e2) = build(&dir.join("probe"), &probe) {
                eprintln!("the derive crate does not build:\n{e2}");
                std::process::exit(2)
            }
            c.violate("generated code does not compile", e);
            return;
        }
    };
    let got = match run(&exe) {
        Ok(g) => g,
        Err(e) => {
            c.violate("generated program fails", e);
            return;
        }
    };
    c.events("observations compared", want.len() as u64);
    let key = |v: &[String]| -> BTreeMap<String, String> {
        v.iter()
            .map(|l| {
                let p: Vec<&str> = l.splitn(4, '|').collect();
                (p[..3].join("|"), p[3..].join("|"))
            })
            .collect()
    };
    let (w, g) = (key(&want), key(&got));
    for (k, v) in &w {
        if k.contains("seen from") || k.contains("named from") {
            c.event(if v.contains("Hidden") || v.contains("::view") { "not reachable from outside" } else { "reachable from outside" });
        }
        if v.contains("Some(") {
            c.event("present fields observed");
        }
        if v.contains("None") {
            c.event("absent fields observed");
        }
        let gv = g.get(k).cloned().unwrap_or_default();
        let id: usize = k.split('|').next().unwrap().parse().unwrap();
        let kind = k.split('|').nth(1).unwrap().to_string();
        c.check(gv == *v, &format!("partial {kind}"), || {
            format!("{k}: got {gv}, expected {v}; definition:\n{}", module(&defs[id], false))
        });
    }
    c.check(w.len() == g.len(), "observation count", || format!("{} vs {}", w.len(), g.len()));
    c.sample(|| format!("{} => {:?}", module(&defs[0], false), want.first()));
}
