//! Stand-in for jsonpath 0.1: `$`, `.key`, `['key']`, `[n]`, `.*`, `[*]`, `..key`.
use serde_json::Value;

#[derive(Debug, Clone)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
#[derive(Debug, Clone)]
enum Step {
    Key(String),
    Index(usize),
    All,
    Deep,
}
pub struct Selector(Vec<Step>);
impl Selector {
    pub fn new(s: &str) -> Result<Selector, Error> {
        let e = |m: &str| Error(format!("{m} in {s:?}"));
        let c: Vec<char> = s.chars().collect();
        if c.first() != Some(&'$') {
            return Err(e("expected $"));
        }
        let (mut i, mut out) = (1, vec![]);
        let word = |i: &mut usize| {
            let a = *i;
            while *i < c.len() && !matches!(c[*i], '.' | '[' | ']' | ' ') {
                *i += 1
            }
            c[a..*i].iter().collect::<String>()
        };
        while i < c.len() {
            match c[i] {
                '.' => {
                    i += 1;
                    if c.get(i) == Some(&'.') {
                        i += 1;
                        out.push(Step::Deep);
                    }
                    if c.get(i) == Some(&'*') {
                        i += 1;
                        out.push(Step::All);
                        continue;
                    }
                    let w = word(&mut i);
                    if w.is_empty() {
                        return Err(e("expected a name"));
                    }
                    out.push(Step::Key(w))
                }
                '[' => {
                    i += 1;
                    match c.get(i) {
                        Some('*') => {
                            i += 1;
                            out.push(Step::All)
                        }
                        Some(q @ ('\'' | '"')) => {
                            let q = *q;
                            i += 1;
                            let a = i;
                            while i < c.len() && c[i] != q {
                                i += 1
                            }
                            if i >= c.len() {
                                return Err(e("unterminated string"));
                            }
                            out.push(Step::Key(c[a..i].iter().collect()));
                            i += 1
                        }
                        _ => {
                            let w = word(&mut i);
                            out.push(Step::Index(w.parse().map_err(|_| e("expected an index"))?))
                        }
                    }
                    if c.get(i) != Some(&']') {
                        return Err(e("expected ]"));
                    }
                    i += 1
                }
                _ => return Err(e("unexpected character")),
            }
        }
        Ok(Selector(out))
    }
    pub fn find<'a>(&self, v: &'a Value) -> std::vec::IntoIter<&'a Value> {
        let mut cur = vec![v];
        for s in &self.0 {
            let mut next = vec![];
            for v in cur {
                match (s, v) {
                    (Step::Key(k), Value::Object(m)) => next.extend(m.get(k)),
                    (Step::Index(i), Value::Array(a)) => next.extend(a.get(*i)),
                    (Step::All, Value::Object(m)) => next.extend(m.values()),
                    (Step::All, Value::Array(a)) => next.extend(a.iter()),
                    (Step::Deep, v) => deep(v, &mut next),
                    _ => {}
                }
            }
            cur = next;
        }
        cur.into_iter()
    }
}
fn deep<'a>(v: &'a Value, out: &mut Vec<&'a Value>) {
    out.push(v);
    match v {
        Value::Object(m) => m.values().for_each(|v| deep(v, out)),
        Value::Array(a) => a.iter().for_each(|v| deep(v, out)),
        _ => {}
    }
}
