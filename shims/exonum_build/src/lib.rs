//! Stand-in for `exonum_build::protobuf_generate`: a small proto3 compiler that emits code shaped like
//! what rust-protobuf 2.x's codegen emits, against the stand-in `protobuf` runtime.
use std::collections::HashSet;
use std::fmt::Write;
use std::path::Path;

#[derive(Clone, Debug)]
struct Field {
    ty: String,
    name: String,
    num: u32,
    repeated: bool,
}
#[derive(Clone, Debug, Default)]
struct Msg {
    full: String,
    fields: Vec<Field>,
    oneofs: Vec<(String, Vec<Field>)>,
}
#[derive(Clone, Debug)]
struct Enum {
    full: String,
    vals: Vec<(String, i32)>,
}

fn tokens(src: &str) -> Vec<String> {
    let mut out = vec![];
    for line in src.lines() {
        let line = line.split("//").next().unwrap();
        let mut cur = String::new();
        for c in line.chars() {
            if c.is_alphanumeric() || c == '_' || c == '.' {
                cur.push(c)
            } else {
                if !cur.is_empty() {
                    out.push(std::mem::take(&mut cur))
                }
                if !c.is_whitespace() {
                    out.push(c.to_string())
                }
            }
        }
        if !cur.is_empty() {
            out.push(cur)
        }
    }
    out
}

struct Parser {
    t: Vec<String>,
    p: usize,
    msgs: Vec<Msg>,
    enums: Vec<Enum>,
}
impl Parser {
    fn next(&mut self) -> String {
        self.p += 1;
        self.t[self.p - 1].clone()
    }
    fn expect(&mut self, s: &str) {
        let n = self.next();
        assert_eq!(n, s, "unexpected token in .proto")
    }
    fn peek(&self) -> &str {
        &self.t[self.p]
    }
    fn field(&mut self) -> Field {
        let mut ty = self.next();
        let mut repeated = false;
        if ty == "repeated" {
            repeated = true;
            ty = self.next();
        }
        let name = self.next();
        self.expect("=");
        let num = self.next().parse().unwrap();
        self.expect(";");
        Field { ty, name, num, repeated }
    }
    fn message(&mut self, prefix: &str) {
        let name = self.next();
        let full = if prefix.is_empty() { name } else { format!("{prefix}_{name}") };
        self.expect("{");
        let mut m = Msg { full: full.clone(), ..Default::default() };
        loop {
            match self.peek() {
                "}" => {
                    self.next();
                    break;
                }
                "message" => {
                    self.next();
                    self.message(&full)
                }
                "enum" => {
                    self.next();
                    self.enumeration(&full)
                }
                "oneof" => {
                    self.next();
                    let n = self.next();
                    self.expect("{");
                    let mut fs = vec![];
                    while self.peek() != "}" {
                        fs.push(self.field())
                    }
                    self.next();
                    m.oneofs.push((n, fs))
                }
                _ => {
                    let f = self.field();
                    m.fields.push(f)
                }
            }
        }
        self.msgs.push(m)
    }
    fn enumeration(&mut self, prefix: &str) {
        let name = self.next();
        let full = if prefix.is_empty() { name } else { format!("{prefix}_{name}") };
        self.expect("{");
        let mut vals = vec![];
        while self.peek() != "}" {
            let n = self.next();
            self.expect("=");
            let v = self.next().parse().unwrap();
            self.expect(";");
            vals.push((n, v))
        }
        self.next();
        self.enums.push(Enum { full, vals })
    }
}

#[derive(Clone, PartialEq)]
enum Kind {
    Scalar { rust: &'static str, f: &'static str },
    Str,
    Bytes,
    Msg(String),
    Enum(String),
}

struct Gen {
    msgs: HashSet<String>,
    enums: HashSet<String>,
}
impl Gen {
    fn kind(&self, scope: &str, ty: &str) -> Kind {
        let s = |rust, f| Kind::Scalar { rust, f };
        match ty {
            "uint32" => s("u32", "uint32"),
            "uint64" => s("u64", "uint64"),
            "int32" => s("i32", "int32"),
            "int64" => s("i64", "int64"),
            "fixed32" => s("u32", "fixed32"),
            "fixed64" => s("u64", "fixed64"),
            "double" => s("f64", "double"),
            "bool" => s("bool", "boolean"),
            "string" => Kind::Str,
            "bytes" => Kind::Bytes,
            _ => {
                let t = ty.replace('.', "_");
                let mut sc = scope.to_string();
                loop {
                    let cand = if sc.is_empty() { t.clone() } else { format!("{sc}_{t}") };
                    if self.msgs.contains(&cand) {
                        return Kind::Msg(cand);
                    }
                    if self.enums.contains(&cand) {
                        return Kind::Enum(cand);
                    }
                    if sc.is_empty() {
                        panic!("unknown type {ty} in {scope}")
                    }
                    sc = match sc.rfind('_') {
                        Some(i) => sc[..i].to_string(),
                        None => String::new(),
                    };
                }
            }
        }
    }
    fn rust(&self, k: &Kind) -> String {
        match k {
            Kind::Scalar { rust, .. } => rust.to_string(),
            Kind::Str => "::std::string::String".into(),
            Kind::Bytes => "::std::vec::Vec<u8>".into(),
            Kind::Msg(m) | Kind::Enum(m) => m.clone(),
        }
    }
    fn write(&self, k: &Kind, num: u32, e: &str, by_ref: bool) -> String {
        // `e` is an expression: a reference when by_ref
        let val = if by_ref { format!("*{e}") } else { e.to_string() };
        let r = if by_ref { e.to_string() } else { format!("&{e}") };
        match k {
            Kind::Scalar { f, .. } => format!("::protobuf::wire::{f}(out, {num}, {val});"),
            Kind::Str => format!("::protobuf::wire::bytes(out, {num}, ({r}).as_bytes());"),
            Kind::Bytes => format!("::protobuf::wire::bytes(out, {num}, {r});"),
            Kind::Msg(_) => format!("::protobuf::wire::message(out, {num}, {r});"),
            Kind::Enum(_) => format!("::protobuf::wire::int32(out, {num}, ::protobuf::ProtobufEnum::value({r}));"),
        }
    }
    fn read(&self, k: &Kind) -> String {
        match k {
            Kind::Scalar { f, .. } => format!("is.{f}(wt)?"),
            Kind::Str => "is.string(wt)?".into(),
            Kind::Bytes => "is.bytes(wt)?".into(),
            Kind::Msg(m) => format!("is.message::<{m}>(wt)?"),
            Kind::Enum(_) => unreachable!(),
        }
    }
    fn message(&self, m: &Msg, o: &mut String) {
        let n = &m.full;
        for (on, fs) in &m.oneofs {
            writeln!(o, "#[derive(Clone, PartialEq, Debug)]\npub enum {n}_oneof_{on} {{").unwrap();
            for f in fs {
                writeln!(o, "  {}({}),", f.name, self.rust(&self.kind(n, &f.ty))).unwrap();
            }
            writeln!(o, "}}").unwrap();
        }
        writeln!(o, "#[derive(Clone, PartialEq, Debug, Default)]\npub struct {n} {{").unwrap();
        for f in &m.fields {
            let k = self.kind(n, &f.ty);
            let t = self.rust(&k);
            let t = match (&k, f.repeated) {
                (Kind::Msg(_) | Kind::Str | Kind::Bytes, true) => format!("::protobuf::RepeatedField<{t}>"),
                (_, true) => format!("::std::vec::Vec<{t}>"),
                (Kind::Msg(_), false) => format!("::protobuf::SingularPtrField<{t}>"),
                _ => t,
            };
            writeln!(o, "  pub {}: {t},", f.name).unwrap();
        }
        for (on, _) in &m.oneofs {
            writeln!(o, "  pub {on}: ::std::option::Option<{n}_oneof_{on}>,").unwrap();
        }
        writeln!(o, "  pub unknown_fields: ::protobuf::UnknownFields,\n}}").unwrap();
        writeln!(
            o,
            "impl {n} {{\n  pub fn new() -> Self {{ Default::default() }}\n  pub fn default_instance() -> &'static Self {{ static I: ::std::sync::OnceLock<{n}> = ::std::sync::OnceLock::new(); I.get_or_init(Default::default) }}"
        )
        .unwrap();
        for f in &m.fields {
            let k = self.kind(n, &f.ty);
            let t = self.rust(&k);
            let a = &f.name;
            if f.repeated {
                let full = match &k {
                    Kind::Msg(_) | Kind::Str | Kind::Bytes => format!("::protobuf::RepeatedField<{t}>"),
                    _ => format!("::std::vec::Vec<{t}>"),
                };
                writeln!(o, "  pub fn get_{a}(&self) -> &[{t}] {{ &self.{a} }}\n  pub fn clear_{a}(&mut self) {{ self.{a}.clear() }}\n  pub fn set_{a}(&mut self, v: {full}) {{ self.{a} = v }}\n  pub fn mut_{a}(&mut self) -> &mut {full} {{ &mut self.{a} }}\n  pub fn take_{a}(&mut self) -> {full} {{ ::std::mem::take(&mut self.{a}) }}").unwrap();
                continue;
            }
            match &k {
                Kind::Msg(_) => writeln!(o, "  pub fn get_{a}(&self) -> &{t} {{ self.{a}.as_ref().unwrap_or_else(|| {t}::default_instance()) }}\n  pub fn clear_{a}(&mut self) {{ self.{a}.clear() }}\n  pub fn has_{a}(&self) -> bool {{ self.{a}.is_some() }}\n  pub fn set_{a}(&mut self, v: {t}) {{ self.{a} = ::protobuf::SingularPtrField::some(v) }}\n  pub fn mut_{a}(&mut self) -> &mut {t} {{ if self.{a}.is_none() {{ self.{a} = ::protobuf::SingularPtrField::some(Default::default()) }} self.{a}.as_mut().unwrap() }}\n  pub fn take_{a}(&mut self) -> {t} {{ self.{a}.take().unwrap_or_default() }}").unwrap(),
                Kind::Str | Kind::Bytes => {
                    let g = if k == Kind::Str { "str" } else { "[u8]" };
                    writeln!(o, "  pub fn get_{a}(&self) -> &{g} {{ &self.{a} }}\n  pub fn clear_{a}(&mut self) {{ self.{a}.clear() }}\n  pub fn set_{a}(&mut self, v: {t}) {{ self.{a} = v }}\n  pub fn mut_{a}(&mut self) -> &mut {t} {{ &mut self.{a} }}\n  pub fn take_{a}(&mut self) -> {t} {{ ::std::mem::take(&mut self.{a}) }}").unwrap()
                }
                _ => writeln!(o, "  pub fn get_{a}(&self) -> {t} {{ self.{a} }}\n  pub fn clear_{a}(&mut self) {{ self.{a} = Default::default() }}\n  pub fn set_{a}(&mut self, v: {t}) {{ self.{a} = v }}").unwrap(),
            }
        }
        for (on, fs) in &m.oneofs {
            for f in fs {
                let k = self.kind(n, &f.ty);
                let t = self.rust(&k);
                let a = &f.name;
                let v = format!("{n}_oneof_{on}::{a}");
                writeln!(o, "  pub fn has_{a}(&self) -> bool {{ matches!(self.{on}, Some({v}(_))) }}\n  pub fn set_{a}(&mut self, v: {t}) {{ self.{on} = Some({v}(v)) }}").unwrap();
                match &k {
                    Kind::Msg(_) => writeln!(o, "  pub fn get_{a}(&self) -> &{t} {{ match &self.{on} {{ Some({v}(v)) => v, _ => {t}::default_instance() }} }}\n  pub fn take_{a}(&mut self) -> {t} {{ if self.has_{a}() {{ match self.{on}.take() {{ Some({v}(v)) => v, _ => unreachable!() }} }} else {{ {t}::new() }} }}").unwrap(),
                    Kind::Bytes => writeln!(o, "  pub fn get_{a}(&self) -> &[u8] {{ match &self.{on} {{ Some({v}(v)) => v, _ => &[] }} }}\n  pub fn take_{a}(&mut self) -> {t} {{ if self.has_{a}() {{ match self.{on}.take() {{ Some({v}(v)) => v, _ => unreachable!() }} }} else {{ Default::default() }} }}").unwrap(),
                    Kind::Str => writeln!(o, "  pub fn get_{a}(&self) -> &str {{ match &self.{on} {{ Some({v}(v)) => v, _ => \"\" }} }}").unwrap(),
                    _ => writeln!(o, "  pub fn get_{a}(&self) -> {t} {{ match &self.{on} {{ Some({v}(v)) => *v, _ => Default::default() }} }}").unwrap(),
                }
            }
        }
        writeln!(o, "}}").unwrap();
        writeln!(o, "impl<'a> Default for &'a {n} {{ fn default() -> &'a {n} {{ {n}::default_instance() }} }}").unwrap();
        writeln!(o, "impl ::protobuf::Clear for {n} {{ fn clear(&mut self) {{ *self = Default::default() }} }}").unwrap();
        writeln!(o, "impl ::protobuf::Message for {n} {{\n  fn as_any(&self) -> &dyn ::std::any::Any {{ self }}\n  fn new() -> Self {{ Default::default() }}\n  fn write_to_vec_raw(&self, out: &mut Vec<u8>) {{").unwrap();
        for f in &m.fields {
            let k = self.kind(n, &f.ty);
            let a = &f.name;
            if f.repeated {
                writeln!(o, "    for v in self.{a}.iter() {{ {} }}", self.write(&k, f.num, "v", true)).unwrap();
                continue;
            }
            let w = self.write(&k, f.num, &format!("self.{a}"), false);
            match &k {
                Kind::Msg(_) => writeln!(o, "    if let Some(v) = self.{a}.as_ref() {{ {} }}", self.write(&k, f.num, "v", true)).unwrap(),
                Kind::Str | Kind::Bytes => writeln!(o, "    if !self.{a}.is_empty() {{ {w} }}").unwrap(),
                Kind::Enum(_) => writeln!(o, "    if ::protobuf::ProtobufEnum::value(&self.{a}) != 0 {{ {w} }}").unwrap(),
                Kind::Scalar { rust, .. } => writeln!(o, "    if self.{a} != <{rust}>::default() {{ {w} }}").unwrap(),
            }
        }
        for (on, fs) in &m.oneofs {
            writeln!(o, "    match &self.{on} {{ None => {{}}").unwrap();
            for f in fs {
                let k = self.kind(n, &f.ty);
                writeln!(o, "      Some({n}_oneof_{on}::{}(v)) => {{ {} }}", f.name, self.write(&k, f.num, "v", true)).unwrap();
            }
            writeln!(o, "    }}").unwrap();
        }
        writeln!(o, "    self.unknown_fields.write(out);\n  }}\n  fn merge_from(&mut self, is: &mut ::protobuf::CodedInputStream<'_>) -> ::protobuf::ProtobufResult<()> {{\n    while !is.eof() {{\n      let start = is.pos();\n      let (num, wt) = is.read_tag()?;\n      match num {{").unwrap();
        for f in &m.fields {
            let k = self.kind(n, &f.ty);
            let a = &f.name;
            if let Kind::Enum(e) = &k {
                assert!(!f.repeated);
                writeln!(o, "        {} => {{ let v = is.int32(wt)?; match <{e} as ::protobuf::ProtobufEnum>::from_i32(v) {{ Some(e) => self.{a} = e, None => self.unknown_fields.push(is.since(start)) }} }}", f.num).unwrap();
                continue;
            }
            let r = self.read(&k);
            if f.repeated {
                assert!(!matches!(k, Kind::Scalar { .. }), "packed scalars are not supported");
                writeln!(o, "        {} => {{ let v = {r}; self.{a}.push(v) }}", f.num).unwrap();
            } else if let Kind::Msg(_) = k {
                writeln!(o, "        {} => self.{a} = ::protobuf::SingularPtrField::some({r}),", f.num).unwrap();
            } else {
                writeln!(o, "        {} => self.{a} = {r},", f.num).unwrap();
            }
        }
        for (on, fs) in &m.oneofs {
            for f in fs {
                let k = self.kind(n, &f.ty);
                writeln!(o, "        {} => self.{on} = Some({n}_oneof_{on}::{}({})),", f.num, f.name, self.read(&k)).unwrap();
            }
        }
        writeln!(o, "        _ => {{ is.skip(wt)?; self.unknown_fields.push(is.since(start)) }}\n      }}\n    }}\n    Ok(())\n  }}\n}}").unwrap();
    }
    fn enumeration(&self, e: &Enum, o: &mut String) {
        let n = &e.full;
        writeln!(o, "#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]\npub enum {n} {{").unwrap();
        for (v, i) in &e.vals {
            writeln!(o, "  {v} = {i},").unwrap();
        }
        writeln!(o, "}}\nimpl Default for {n} {{ fn default() -> Self {{ {n}::{} }} }}", e.vals[0].0).unwrap();
        writeln!(o, "impl ::protobuf::ProtobufEnum for {n} {{\n  fn value(&self) -> i32 {{ *self as i32 }}\n  fn from_i32(v: i32) -> Option<Self> {{ match v {{").unwrap();
        for (v, i) in &e.vals {
            writeln!(o, "    {i} => Some({n}::{v}),").unwrap();
        }
        writeln!(o, "    _ => None }} }}\n}}").unwrap();
    }
}

pub fn protobuf_generate<P, R, I, T>(input_dir: P, _includes: I, mod_file_name: T)
where
    P: AsRef<Path>,
    R: AsRef<Path>,
    I: IntoIterator<Item = R>,
    T: AsRef<str>,
{
    let mut o = String::new();
    let mut files: Vec<_> = std::fs::read_dir(&input_dir)
        .expect("proto dir")
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map_or(false, |e| e == "proto"))
        .collect();
    files.sort();
    for f in files {
        let src = std::fs::read_to_string(&f).unwrap();
        let mut p = Parser { t: tokens(&src), p: 0, msgs: vec![], enums: vec![] };
        while p.p < p.t.len() {
            match p.next().as_str() {
                "message" => p.message(""),
                "enum" => p.enumeration(""),
                _ => {
                    while p.next() != ";" {}
                }
            }
        }
        let g = Gen {
            msgs: p.msgs.iter().map(|m| m.full.clone()).collect(),
            enums: p.enums.iter().map(|m| m.full.clone()).collect(),
        };
        let stem = f.file_stem().unwrap().to_str().unwrap();
        writeln!(o, "#[allow(dead_code, non_snake_case, non_camel_case_types, unused_variables, unused_imports, clippy::all)]\npub mod {stem} {{").unwrap();
        for e in &p.enums {
            g.enumeration(e, &mut o)
        }
        for m in &p.msgs {
            g.message(m, &mut o)
        }
        writeln!(o, "}}").unwrap();
    }
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(Path::new(&out).join(mod_file_name.as_ref()), o).unwrap();
}
