//! C44: one source. C45: one source through several transports. C46: a whole request, locally.
use crate::interp::{self, Call, Trace};
use crate::ops::{calls, pack, script_for};
use crate::tally::items;
use crate::val::{self, *};
use crate::{agg, verdict};
use reqwest::header::{HeaderMap, HeaderName, HeaderValue};
use reqwest::mock::{self, Answer, Seen};
use serde_cbor::Value;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Duration;
use vmon::{Case, Mon, Rng};
use witnet_data_structures::chain::tapi::{current_active_wips, ActiveWips};
use witnet_data_structures::chain::{RADAggregate, RADFilter, RADRequest, RADRetrieve, RADTally, RADType};
use witnet_data_structures::proto::versioning::ProtocolVersion;
use witnet_data_structures::radon_report::{RadonReport, ReportContext, RetrievalMetadata, Stage};
use witnet_data_structures::witnessing::WitnessingConfig;
use witnet_net::client::http::WitnetHttpClient;
use witnet_net::Uri;
use witnet_rad::error::RadError;
use witnet_rad::script::RadonScriptExecutionSettings;
use witnet_rad::types::RadonTypes;
use V::*;

type Report = Result<RadonReport<RadonTypes>, RadError>;

fn runtime() -> &'static tokio::runtime::Runtime {
    static R: std::sync::OnceLock<tokio::runtime::Runtime> = std::sync::OnceLock::new();
    R.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_time().build().unwrap())
}
fn now<T>(f: impl std::future::Future<Output = T>) -> T {
    let _g = runtime().enter();
    futures::executor::block_on(f)
}
/// Answer every request of this thread by `f` while `g` runs. What was asked comes along.
fn with<T>(f: impl Fn(&Seen) -> Result<Answer, String> + 'static, g: impl FnOnce() -> T) -> (T, Vec<Seen>) {
    let seen: Rc<RefCell<Vec<Seen>>> = Rc::default();
    let s = seen.clone();
    mock::set(Some(Rc::new(move |r: &Seen| {
        s.borrow_mut().push(r.clone());
        f(r)
    })));
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            mock::set(None)
        }
    }
    let _off = Off;
    let x = g();
    let v = seen.borrow().clone();
    (x, v)
}
/// How one source ends.
#[derive(Clone, Debug)]
pub enum Out {
    /// What the script made of the response
    Is(R),
    Url,
    Script,
    Header,
    /// No response, or a broken one
    Broken,
    Status(u16),
    Kind,
    Timeout,
    Inconsistent,
    /// 32 bytes at random
    Random,
    /// A script with XML, whose reading has its own check
    Xml,
}
fn fits(o: &Out, g: &Report) -> bool {
    match (o, g) {
        (Out::Is(w), Ok(r)) => match (w, &r.result) {
            // an error without code and one of a subscript look the same once reported
            (Err(E::Other | E::Unhandled), RadonTypes::RadonError(e)) => matches!(class(e.inner()), E::Unhandled),
            (w, g) => same_r(w, &outcome(&Ok(g.clone()))),
        },
        (Out::Url, Err(RadError::UrlParseError { .. })) => true,
        (Out::Script, Err(e)) => e.try_into_error_code().is_err(),
        (Out::Header, Err(RadError::InvalidHttpHeader { .. })) => true,
        (Out::Broken, Err(RadError::HttpOther { .. })) => true,
        (Out::Status(s), Err(RadError::HttpStatus { status_code })) => s == status_code,
        (Out::Kind, Err(RadError::UnknownRetrieval)) => true,
        (Out::Timeout, Err(RadError::RetrieveTimeout)) => true,
        (Out::Inconsistent, Err(RadError::InconsistentSource)) => true,
        (Out::Random, Ok(r)) => matches!(V::of(&r.result), Bytes(b) if b.len() == 32),
        (Out::Xml, _) => true,
        _ => false,
    }
}
/// As it appears in a report, for what comes after.
fn reported(o: &Out) -> Option<R> {
    Some(match o {
        Out::Is(Err(E::Other)) => Err(E::Unhandled),
        Out::Is(r) => r.clone(),
        Out::Status(_) => Err(E::Code(0x30)),
        Out::Timeout => Err(E::Code(0x31)),
        Out::Inconsistent => Err(E::Code(0)),
        Out::Random | Out::Xml => return None,
        _ => Err(E::Unhandled),
    })
}
#[derive(Clone, Debug)]
struct Source {
    kind: RADType,
    url: String,
    url_ok: bool,
    script: Vec<Call>,
    bytes: Vec<u8>,
    script_ok: bool,
    headers: Vec<(String, String)>,
    headers_ok: bool,
    body: Vec<u8>,
    /// The content that the script is meant for
    content: Vec<u8>,
    answer_headers: Vec<(String, Vec<u8>)>,
}
impl Source {
    fn rad(&self) -> RADRetrieve {
        RADRetrieve { kind: self.kind.clone(), url: self.url.clone(), script: self.bytes.clone(), body: self.body.clone(), headers: self.headers.clone() }
    }
    fn binary(&self) -> bool {
        self.script.first().is_some_and(|c| (0x30..=0x3f).contains(&c.0))
    }
    fn http(&self) -> bool {
        matches!(self.kind, RADType::HttpGet | RADType::HttpPost | RADType::HttpHead)
    }
    /// Why nothing is asked at all.
    fn early(&self) -> Option<Out> {
        match self.kind {
            RADType::Unknown => Some(Out::Kind),
            RADType::Rng => Some(Out::Random),
            _ if !self.url_ok => Some(Out::Url),
            _ if !self.script_ok => Some(Out::Script),
            _ if !self.headers_ok => Some(Out::Header),
            _ => None,
        }
    }
    fn input(&self, a: &Answer) -> V {
        match self.kind {
            RADType::HttpHead => {
                let mut m = BTreeMap::new();
                for (k, v) in &self.answer_headers {
                    m.insert(k.to_ascii_lowercase(), Str(seen_text(v)));
                }
                Map(m)
            }
            _ if self.binary() => Bytes(a.body.clone()),
            _ => Str(String::from_utf8_lossy(&a.body).into_owned()),
        }
    }
    fn run(&self, input: &V, c: &Rules) -> Out {
        if self.script.iter().any(|c| format!("{c:?}").contains("120")) {
            return Out::Xml;
        }
        Out::Is(interp::run(input, &self.script, c, &mut Trace::new()))
    }
    fn ends(&self, a: &Result<Answer, String>, c: &Rules) -> Out {
        if let Some(o) = self.early() {
            return o;
        }
        let Ok(a) = a else { return Out::Broken };
        if !(200..300).contains(&a.status) {
            return Out::Status(a.status);
        }
        if a.broken_body && self.kind != RADType::HttpHead {
            return Out::Broken;
        }
        self.run(&self.input(a), c)
    }
}
fn seen_text(v: &[u8]) -> String {
    if v.iter().all(|b| (32..127).contains(b) || *b == 9) {
        String::from_utf8_lossy(v).trim().to_string()
    } else {
        String::new()
    }
}
fn header_name_ok(n: &str) -> bool {
    !n.is_empty() && n.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b))
}
fn header_value_ok(v: &str) -> bool {
    v.bytes().all(|b| (32..127).contains(&b) || b == 9)
}
fn source(r: &mut Rng, c: &Rules, plain: bool) -> Source {
    let kind = match r.below(if plain { 12 } else { 24 }) {
        0..=5 => RADType::HttpGet,
        6..=8 => RADType::HttpPost,
        9..=11 if !plain => RADType::HttpHead,
        12 => RADType::Rng,
        13 => RADType::Unknown,
        _ => RADType::HttpGet,
    };
    let (url, url_ok) = match r.below(16) {
        0 if !plain => (*r.pick(&["", "nope", "http://", "http://[::1", "https://a b/", "http://a:99999/"]), false),
        1..=7 => (*r.pick(&["http://a.example/x", "http://b.example:81/p?q=1", "http://127.0.0.1/"]), true),
        _ => (*r.pick(&["https://a.example/x", "https://b.example/y?z=%20"]), true),
    };
    let text = match r.below(3) {
        0 => val::text(r),
        1 => val::number_text(r),
        _ => val::json(r, 3).to_string(),
    };
    let mut content = match r.below(6) {
        0 => {
            let n = r.below(40) as usize;
            r.bytes(n)
        }
        _ => text.into_bytes(),
    };
    let mut answer_headers = vec![];
    for _ in 0..r.below(6) {
        let n = *r.pick(&["Date", "content-type", "ETag", "Location", "X-Rate", "x-last"]);
        let v = match r.below(6) {
            0 => b"Thu, 01 Jan 1970 10:20:30 GMT".to_vec(),
            1 => b"https://a.example:8080/x".to_vec(),
            2 => val::number_text(r).bytes().filter(|b| *b >= 32).collect(),
            3 => vec![b'a', 0xe9, b'b'],
            4 => vec![],
            _ => r.ascii(10).into_bytes(),
        };
        answer_headers.push((n.to_string(), v));
    }
    let as_bytes = r.chance(1, 5);
    let input = match kind {
        RADType::HttpHead => Map(answer_headers.iter().map(|(k, v)| (k.to_ascii_lowercase(), Str(seen_text(v)))).collect()),
        _ if as_bytes => Bytes(content.clone()),
        _ => Str(String::from_utf8_lossy(&content).into_owned()),
    };
    let n = r.below(5) as usize;
    let script = script_for(r, &input, c, n, 2);
    let mut bytes = serde_cbor::to_vec(&Value::Array(script.iter().map(pack).collect())).unwrap();
    let mut script_ok = true;
    if !plain && r.chance(1, 14) {
        script_ok = false;
        bytes = r.pick(&[vec![], vec![0xff], vec![0x05], vec![0x81, 0x18, 0x99], vec![0x81, 0x81, 0x20], vec![0x81], vec![0x80, 0x80], vec![0xa0], vec![0x81, 0xf6]]).clone();
    }
    let mut headers = vec![];
    if r.chance(1, 2) {
        for _ in 0..r.below(4) {
            let (n, v) = match r.below(if plain { 5 } else { 9 }) {
                0 => ("X-Key".to_string(), r.ascii(8)),
                1 => ("x-key".to_string(), "two words".to_string()),
                2 => ("Accept".into(), "text/plain;q=0.5".into()),
                3 => ("User-Agent".into(), "mine".into()),
                4 => ("authorization".into(), "Bearer a:b".into()),
                5 => (r.ascii(4), r.ascii(6)),
                6 => (r.unicode(3), "a".into()),
                7 => ("a".into(), r.unicode(3)),
                _ => ("a".into(), (*r.pick(&["a\nb", "a\r\nb: c", "\u{0}", "\u{7f}", "a\tb"])).to_string()),
            };
            headers.push((n, v));
        }
    }
    let headers_ok = headers.iter().all(|(n, v)| header_name_ok(n) && header_value_ok(v));
    let n = r.below(20) as usize;
    let body = if kind == RADType::HttpPost || r.chance(1, 10) { r.bytes(n) } else { vec![] };
    if content.len() > 2000 {
        content.truncate(2000);
    }
    Source { kind, url: url.into(), url_ok, script, bytes, script_ok, headers, headers_ok, body, content, answer_headers }
}
fn answer(r: &mut Rng, s: &Source, calm: bool) -> Result<Answer, String> {
    if !calm && r.chance(1, 15) {
        return Err("connection refused".into());
    }
    let mut headers = HeaderMap::new();
    for (k, v) in &s.answer_headers {
        headers.append(HeaderName::try_from(k.as_str()).unwrap(), HeaderValue::from_bytes(v).unwrap());
    }
    let status = match r.below(if calm { 1 } else { 8 }) {
        1 => *r.pick(&[100, 199, 300, 301, 304, 400, 404, 429, 500, 503, 599]),
        2 => *r.pick(&[201, 204, 206, 299]),
        _ => 200,
    };
    Ok(Answer { status, headers, body: s.content.clone(), broken_body: !calm && r.chance(1, 20), delay: Duration::ZERO })
}
fn settings(r: &mut Rng) -> RadonScriptExecutionSettings {
    RadonScriptExecutionSettings { breakpoints: r.bool(), partial_results: r.bool(), timing: r.bool() }
}
fn rules(r: &mut Rng) -> Rules {
    let c = Rules::any(r);
    Rules { wips: Some(c.wips.unwrap_or([true; 3])), ..c }
}
fn version(c: &Rules) -> ProtocolVersion {
    if c.v21 {
        ProtocolVersion::V2_1
    } else {
        ProtocolVersion::V2_0
    }
}
fn wips(c: &Rules, redirects: bool) -> ActiveWips {
    let mut w = c.active().unwrap();
    if !redirects {
        w.active_wips.insert("WIP0025".into(), 1000);
    }
    w
}
/// Was exactly the request that the source describes made?
fn asked(s: &Source, q: &Seen, redirects: bool, timeout: Option<Duration>) -> Result<(), String> {
    let m = match s.kind {
        RADType::HttpGet => "GET",
        RADType::HttpPost => "POST",
        _ => "HEAD",
    };
    let body: &[u8] = if s.kind == RADType::HttpPost { &s.body } else { &[] };
    if q.method.as_str() != m || q.url != s.url || q.body != body {
        return Err("not that request".into());
    }
    let mut h: BTreeMap<String, String> = BTreeMap::new();
    for (n, v) in &s.headers {
        h.insert(n.to_ascii_lowercase(), v.clone());
    }
    let mut got: BTreeMap<String, String> = BTreeMap::new();
    for (n, v) in &q.headers {
        if got.insert(n.as_str().to_string(), v.to_str().unwrap_or("?").to_string()).is_some() {
            return Err(format!("{n} twice"));
        }
    }
    if !h.contains_key("user-agent") {
        let Some(ua) = got.remove("user-agent") else { return Err("no user agent".into()) };
        if !ua.starts_with("Mozilla/5.0 (") {
            return Err(format!("user agent {ua}"));
        }
    }
    if got != h {
        return Err(format!("headers {got:?} instead of {h:?}"));
    }
    if (q.redirects > 0) != redirects {
        return Err(format!("{} redirects", q.redirects));
    }
    if q.timeout != Some(timeout.unwrap_or(Duration::from_secs(10))) {
        return Err(format!("timeout {:?}", q.timeout));
    }
    Ok(())
}

pub fn retrieval(m: &mut Mon) {
    m.rule("kind of source, operators of its script, and how it ended");
    for e in ["GET", "POST", "HEAD", "random", "bad-url", "bad-script", "bad-header", "not-2xx", "no-answer", "broken-body", "binary", "value", "error", "own-user-agent", "through-a-proxy", "https-through-a-proxy", "header-with-colon", "with-data", "head-of-text"] {
        m.require(e, 5);
    }
    m.run_par("source", m.n(240_000, 5_000_000), one_source);
    m.run_par("with-data", m.n(80_000, 1_500_000), with_data);
    m.run("random", m.n(50, 500), random);
}
fn one_source(k: &mut Case) {
    let r = &mut k.rng;
    let c = rules(r);
    let s = source(r, &c, false);
    let a = answer(r, &s, false);
    let redirects = r.chance(3, 4);
    let w = wips(&c, redirects);
    let set = settings(r);
    let timeout = r.chance(1, 2).then(|| Duration::from_millis(r.range(1, 20_000)));
    let proxy: Option<Uri> = if r.chance(1, 3) { Some(Uri::parse(r.pick(&["http://proxy.example:3128/", "socks5://127.0.0.1:9050"])).unwrap()) } else { None };
    let want = s.ends(&a, &c);
    let what = || format!("{s:?}\n answered by {a:?}, proxy {proxy:?}, {c:?}");
    let (rad, a2, p2) = (s.rad(), a.clone(), proxy.clone());
    let client = proxy.as_ref().map(|p| WitnetHttpClient::new(Some(p.clone()), redirects).unwrap());
    let Some((got, seen)) = k.nopanic("retrieval", what, || with(move |_| a2.clone(), || now(witnet_rad::run_retrieval_report(&rad, set, w, version(&c), client, timeout)))) else { return };
    k.eval(1);
    k.nontrivial(&(s.kind.clone() as u8, s.script.iter().map(|c| c.0).collect::<Vec<_>>(), std::mem::discriminant(&want)));
    k.check(fits(&want, &got), "result", || format!("{}\n expected {want:?}\n got {:?}", what(), got.as_ref().map(|g| &g.result)));
    let once = s.early().is_none();
    k.check(seen.len() == usize::from(once), "requests-made", || format!("{}: {} requests", what(), seen.len()));
    if let Some(q) = seen.first() {
        if let Err(e) = asked(&s, q, redirects, timeout) {
            k.violate("request", format!("{}\n {q:?}: {e}", what()));
        }
        let p = p2.as_ref().map(|p| p.to_string());
        k.check(q.proxy == p, "proxy", || format!("{}\n went through {:?}", what(), q.proxy));
        if p.is_some() {
            k.event(if s.url.starts_with("https") { "https-through-a-proxy" } else { "through-a-proxy" });
        }
        k.event(q.method.as_str());
        if s.headers.iter().any(|h| h.0 == "User-Agent") {
            k.event("own-user-agent");
        }
    }
    if let (Ok(g), true) = (&got, once) {
        let ok = matches!((&g.context.start_time, &g.context.completion_time), (Some(_), Some(_))) && matches!(g.context.stage, Stage::Retrieval(_));
        k.check(ok && g.partial_results.is_some() == set.partial_results, "report", || format!("{}\n {g:?}", what()));
    }
    k.event(match &want {
        Out::Url => "bad-url",
        Out::Script => "bad-script",
        Out::Header => "bad-header",
        Out::Status(_) => "not-2xx",
        Out::Broken if a.is_ok() => "broken-body",
        Out::Broken => "no-answer",
        Out::Is(Ok(_)) => "value",
        Out::Is(_) => "error",
        Out::Random => "random",
        _ => "other",
    });
    if matches!(want, Out::Is(_)) {
        if s.binary() && s.kind != RADType::HttpHead {
            k.event("binary");
        }
        if s.kind == RADType::HttpHead && s.answer_headers.iter().any(|h| h.1.contains(&b':')) {
            k.event("header-with-colon");
        }
    }
}
/// The same, given the response.
fn with_data(k: &mut Case) {
    let r = &mut k.rng;
    let c = rules(r);
    let s = source(r, &c, false);
    let set = settings(r);
    let (data, want) = match s.kind {
        RADType::Unknown => (Str("x".into()), Out::Kind),
        RADType::Rng => {
            let v = val::scalar(r);
            (v.clone(), Out::Is(Ok(v)))
        }
        _ if !s.script_ok => (Str(String::new()), Out::Script),
        RADType::HttpHead => {
            let mut t = String::new();
            let mut m = BTreeMap::new();
            for (n, v) in &s.answer_headers {
                let v: String = seen_text(v);
                let line = match r.below(8) {
                    0 => format!("{n}"),
                    1 => format!(" {n} :{v}"),
                    _ => format!("{n}: {v}"),
                };
                if let Some((a, b)) = line.split_once(':') {
                    m.insert(a.trim().to_string(), Str(b.trim().to_string()));
                }
                t.push_str(&line);
                t.push_str("\r\n");
            }
            k.event("head-of-text");
            (Str(t), s.run(&Map(m), &c))
        }
        _ => {
            let v = if s.binary() { Bytes(s.content.clone()) } else { Str(String::from_utf8_lossy(&s.content).into_owned()) };
            (v.clone(), s.run(&v, &c))
        }
    };
    let what = || format!("{s:?}\n with {data:?} {c:?}");
    let rad = s.rad();
    let mut x = ReportContext::from_stage(Stage::Retrieval(RetrievalMetadata::default()));
    x.set_active_wips(wips(&c, true));
    x.set_protocol_version(version(&c));
    let input = data.rad();
    let Some(got) = k.nopanic("retrieval-with-data", what, || witnet_rad::run_retrieval_with_data_report(&rad, &input, &mut x, set)) else { return };
    k.eval(1);
    k.event("with-data");
    k.nontrivial(&(s.kind.clone() as u8, s.script.iter().map(|c| c.0).collect::<Vec<_>>(), data.kind()));
    k.check(fits(&want, &got), "result-with-data", || format!("{}\n expected {want:?}\n got {:?}", what(), got.as_ref().map(|g| &g.result)));
    let plain = witnet_rad::run_retrieval_with_data(&rad, &input, set, wips(&c, true), version(&c));
    let same = match (&got, &plain) {
        (Ok(g), Ok(p)) => V::of(&g.result).same(&V::of(p)),
        (Err(a), Err(b)) => format!("{a:?}") == format!("{b:?}"),
        _ => false,
    };
    k.check(same, "two-ways-differ", || format!("{}: {plain:?}", what()));
}
fn random(k: &mut Case) {
    let rad = RADRetrieve { kind: RADType::Rng, ..Default::default() };
    let c = Rules { wips: Some([true; 3]), v21: false };
    let mut all = vec![];
    for _ in 0..8 {
        let v = now(witnet_rad::run_retrieval(&rad, wips(&c, true), version(&c), None));
        match v.as_ref().map(V::of) {
            Ok(Bytes(b)) if b.len() == 32 => all.push(b),
            _ => k.violate("random", format!("{v:?}")),
        }
    }
    k.eval(8);
    k.nontrivial(&all);
    let n = all.len();
    all.sort();
    all.dedup();
    k.check(all.len() == n, "random-repeats", || format!("{all:?}"));
}

fn filters(r: &mut Rng, any: bool) -> (Vec<(u32, Vec<Value>)>, u32) {
    let nf = r.below(3);
    let fs = (0..nf)
        .map(|_| match r.below(if any { 12 } else { 11 }) {
            11 => (*r.pick(&[0, 3, 7, 9, 0x85, 0x88, 0x105]), vec![]),
            0 => (5, vec![]),
            1..=4 => (8, vec![]),
            _ => (5, vec![Value::Float(r.below(40) as f64 / 16.0)]),
        })
        .collect();
    let reducer = if any && r.chance(1, 12) { *r.pick(&[0, 1, 4, 6, 7, 8, 0x0c, 0x102, 0xff]) } else { *r.pick(&[2, 2, 3, 3, 5, 0x0b]) };
    (fs, reducer)
}
fn rad_filters(fs: &[(u32, Vec<Value>)]) -> Vec<RADFilter> {
    fs.iter().map(|(op, args)| RADFilter { op: *op, args: args.first().map_or(vec![], |x| serde_cbor::to_vec(x).unwrap()) }).collect()
}
/// Filters and a reducer over items: the result, and who was left out.
fn aggregate(items: &[V], fs: &[(u32, Vec<Value>)], reducer: u32, c: &Rules) -> (R, Vec<bool>) {
    let (mut v, mut out) = (items.to_vec(), vec![false; items.len()]);
    for (f, args) in fs {
        match agg::filter(&v, *f as u8, args) {
            Ok((kept, left)) => {
                v = kept;
                let mut left = left.unwrap_or_else(|| vec![false; out.len()]).into_iter();
                for o in out.iter_mut().filter(|o| !**o) {
                    *o = left.next().unwrap();
                }
            }
            Err(_) => return (Err(E::Unhandled), out),
        }
    }
    (agg::reduce(&v, reducer as u8, c).map_err(|_| E::Unhandled), out)
}

pub fn paranoid(m: &mut Mon) {
    m.rule("number of transports, what they saw, the threshold and the verdict");
    for e in ["one-transport", "no-transport", "some-failed", "agree", "below-threshold", "outliers-tolerated", "cannot-be-aggregated", "median-or-hash", "every-transport-asked", "direct-and-proxied", "not-over-http", "all-see-the-same-error"] {
        m.require(e, 5);
    }
    m.run_par("transports", m.n(240_000, 5_000_000), transports);
}
fn transports(k: &mut Case) {
    let r = &mut k.rng;
    let c = rules(r);
    let plain = !r.chance(1, 6);
    let mut s = source(r, &c, plain);
    let n = *r.pick(&[0, 1, 2, 2, 3, 3, 4, 5]);
    let list: Vec<Option<Uri>> = (0..n)
        .map(|i| if i == 0 && r.clone().chance(2, 3) { None } else { Some(Uri::parse(&format!("http://proxy{i}.example:3128/")).unwrap()) })
        .collect();
    // what each of them sees
    let numbers = r.chance(2, 3);
    let answers: Vec<Result<Answer, String>> = if numbers && s.http() && s.kind != RADType::HttpHead && s.script_ok {
        // the response as an item
        let mut seen: Vec<V> = items(r);
        while seen.len() < n {
            let x = items(r);
            seen.extend(x);
            seen.push(Int(3));
        }
        let float = r.bool();
        let hex = r.chance(1, 6);
        s.script = if hex { vec![] } else { vec![(if float { 0x72 } else { 0x73 }, None)] };
        s.bytes = serde_cbor::to_vec(&Value::Array(s.script.iter().map(pack).collect())).unwrap();
        seen[..n]
            .iter()
            .map(|v| {
                let t = match v {
                    Int(i) => i.to_string(),
                    Float(f) => f.to_string(),
                    Str(t) => t.clone(),
                    _ => "5".into(),
                };
                let calm = r.chance(9, 10);
                let mut a = answer(r, &s, calm);
                if let Ok(a) = &mut a {
                    a.body = t.into_bytes();
                }
                a
            })
            .collect()
    } else {
        (0..n)
            .map(|_| {
                let calm = r.chance(9, 10);
                answer(r, &s, calm)
            })
            .collect()
    };
    let (fs, reducer) = filters(r, true);
    let threshold = *r.pick(&[0.0f32, 0.5, 0.51, 0.66, 0.67, 0.75, 0.8, 0.99, 1.0]);
    let outs: Vec<Out> = answers.iter().map(|a| s.ends(a, &c)).collect();
    let set = settings(r);
    let what = || format!("{s:?}\n over {list:?}, which see {answers:?}, filters {fs:?}, reducer {reducer}, threshold {threshold}, {c:?}");
    let mut ev = vec![];
    let want = if !s.http() {
        ev.push("not-over-http");
        s.early().unwrap()
    } else if n == 0 {
        ev.push("no-transport");
        Out::Inconsistent
    } else if n == 1 {
        ev.push("one-transport");
        outs[0].clone()
    } else if outs.iter().any(|o| matches!(o, Out::Xml)) {
        Out::Xml
    } else if outs.iter().any(|o| !matches!(o, Out::Is(_))) {
        ev.push("some-failed");
        Out::Inconsistent
    } else if outs.iter().all(|o| matches!(o, Out::Is(Err(_)))) {
        // The common error, or inconsistent
        ev.push("all-see-the-same-error");
        Out::Xml
    } else if outs.iter().any(|o| matches!(o, Out::Is(Err(_)))) {
        ev.push("cannot-be-aggregated");
        Out::Inconsistent
    } else {
        let v: Vec<V> = outs
            .iter()
            .map(|o| match o {
                Out::Is(Ok(v)) => v.clone(),
                _ => unreachable!(),
            })
            .collect();
        if !verdict::allowed(&fs, reducer, c.w17()) {
            Out::Inconsistent
        } else {
            match aggregate(&v, &fs, reducer, &c) {
                (Err(_), _) => {
                    ev.push("cannot-be-aggregated");
                    Out::Inconsistent
                }
                (Ok(x), out) => {
                    let honest = out.iter().filter(|o| !**o).count();
                    if (honest as f32 / out.len() as f32) < threshold {
                        ev.push("below-threshold");
                        Out::Inconsistent
                    } else {
                        ev.push(if honest < out.len() { "outliers-tolerated" } else { "agree" });
                        if matches!(reducer, 5 | 0x0b) {
                            ev.push("median-or-hash");
                        }
                        Out::Is(Ok(x))
                    }
                }
            }
        }
    };
    let (rad, by) = (s.rad(), answers.clone());
    let names: Vec<Option<String>> = list.iter().map(|p| p.as_ref().map(|p| p.to_string())).collect();
    let names2 = names.clone();
    let conf = WitnessingConfig { transports: list.clone(), paranoid_threshold: threshold };
    let agr = RADAggregate { filters: rad_filters(&fs), reducer };
    let w = wips(&c, true);
    let go = || {
        with(
            move |q| match names2.iter().position(|p| *p == q.proxy) {
                Some(i) => by[i].clone(),
                None => Err("through no transport".into()),
            },
            || now(witnet_rad::run_paranoid_retrieval(&rad, agr, set, w, version(&c), conf, None)),
        )
    };
    let Some((got, seen)) = k.nopanic("paranoid", what, go) else { return };
    k.eval(1);
    k.nontrivial(&(n, s.kind.clone() as u8, &ev, (threshold * 100.0) as u8, reducer));
    k.check(fits(&want, &got), "result", || format!("{}\n expected {want:?}\n got {got:?}", what()));
    if s.early().is_none() {
        let mut a: Vec<_> = seen.iter().map(|q| q.proxy.clone()).collect();
        let mut b = names.clone();
        a.sort();
        b.sort();
        k.check(a == b, "transports-used", || format!("{}: went through {a:?}", what()));
        if n > 1 {
            k.event("every-transport-asked");
            if b[0].is_none() {
                k.event("direct-and-proxied");
            }
        }
        for q in &seen {
            if let Err(e) = asked(&s, q, true, None) {
                k.violate("request", format!("{}\n {q:?}: {e}", what()));
            }
        }
    } else {
        k.check(seen.is_empty(), "requests-made", || format!("{}: {seen:?}", what()));
    }
    for e in ev {
        k.event(e);
    }
}

pub fn locally(m: &mut Mon) {
    m.rule("sources with how they ended, and the result");
    for e in ["injected", "asked", "value", "error", "some-sources-failed", "aggregated", "too-many-witnesses", "timeout", "same-both-ways", "median-in-a-script", "no-sources"] {
        m.require(e, 3);
    }
    m.run_par("request", m.n(160_000, 3_000_000), request);
    m.run("slow-source", m.n(6, 40), slow);
}
/// What the whole request comes to, given what each source came to. None: not predicted here.
fn whole(reports: &[Option<R>], fs: &[Vec<(u32, Vec<Value>)>; 2], red: [u32; 2], too_many: bool, c: &Rules, k: &mut Vec<&'static str>) -> Option<(R, R)> {
    let rs: Vec<R> = reports.iter().cloned().collect::<Option<_>>()?;
    let err = |e: E| if e == E::Other { E::Unhandled } else { e };
    let run = |v: &[V], fs: &[(u32, Vec<Value>)], red: u32| -> R {
        if !verdict::allowed(fs, red, c.w17()) {
            return Err(E::Unhandled);
        }
        aggregate(v, fs, red, c).0.map_err(err)
    };
    let tally = |a: &R| -> Option<R> {
        if !verdict::allowed(&fs[1], red[1], c.w17()) {
            return Some(Err(E::Unhandled));
        }
        match a {
            Ok(v) => Some(run(std::slice::from_ref(v), &fs[1], red[1])),
            // the mode of one error is that error
            Err(e) if red[1] == 2 && fs[1].iter().all(|f| f.0 == 8) => Some(Err(e.clone())),
            Err(_) => Some(Err(E::Unhandled)),
        }
    };
    let a: R = if too_many {
        k.push("too-many-witnesses");
        Err(E::Code(0x54))
    } else if rs.is_empty() {
        k.push("no-sources");
        Err(E::Code(0x50))
    } else {
        let mut count = [0usize; 8];
        let kind = |r: &R| r.as_ref().map_or(6, |v| v.kind() as usize);
        rs.iter().for_each(|r| count[kind(r)] += 1);
        let max = *count.iter().max().unwrap();
        if count.iter().filter(|n| **n == max).count() > 1 {
            Err(E::Unhandled)
        } else if count[6] == max {
            let e: Vec<String> = rs.iter().filter_map(|r| r.as_ref().err()).map(|e| format!("{e:?}")).collect();
            // which status it was is not told apart here
            if e.iter().any(|x| *x != e[0]) || e[0].contains("Unhandled") || (e.len() > 1 && e[0].contains("48")) {
                return None;
            }
            Err(rs.iter().find_map(|r| r.as_ref().err()).unwrap().clone())
        } else {
            if count[6] > 0 {
                k.push("some-sources-failed");
            }
            let most = count.iter().position(|n| *n == max).unwrap();
            let v: Vec<V> = rs.iter().filter(|r| kind(r) == most).map(|r| r.clone().unwrap()).collect();
            k.push("aggregated");
            run(&v, &fs[0], red[0])
        }
    };
    let t = tally(&a)?;
    Some((a, t))
}
fn request(k: &mut Case) {
    let r = &mut k.rng;
    // the improvements and the version of now
    let c = Rules { wips: Some([true; 3]), v21: ProtocolVersion::guess() >= ProtocolVersion::V2_1 };
    let n = r.below(5) as usize;
    let like = r.chance(2, 3);
    let sources: Vec<Source> = (0..n)
        .map(|_| {
            let mut s = source(r, &c, like);
            if like && s.http() && s.kind != RADType::HttpHead {
                s.content = (1000 + r.below(6)).to_string().into_bytes();
                s.script = vec![(*r.pick(&[0x72, 0x73, 0x73, 0x73]), None)];
                if r.chance(1, 5) {
                    s.content = format!("[{},{},{}]", r.below(5), r.below(5), r.below(9)).into_bytes();
                    s.script = vec![(0x76, None), (0x1B, Some(vec![Value::Integer(*r.pick(&[5, 3]))]))];
                }
                s.bytes = serde_cbor::to_vec(&Value::Array(s.script.iter().map(pack).collect())).unwrap();
            }
            // one address each
            s.url = format!("https://s{}.example/{}", r.u32(), s.url.len());
            s.url_ok = true;
            s
        })
        .collect();
    let (f0, r0) = filters(r, true);
    let (f1, r1) = filters(r, true);
    let too_many = r.chance(1, 30);
    let set = settings(r);
    let fs = [f0, f1];
    let req = RADRequest {
        retrieve: sources.iter().map(Source::rad).collect(),
        aggregate: RADAggregate { filters: rad_filters(&fs[0]), reducer: r0 },
        tally: RADTally { filters: rad_filters(&fs[1]), reducer: r1 },
        ..Default::default()
    };
    let answers: Vec<Result<Answer, String>> = sources
        .iter()
        .map(|s| {
            let calm = r.chance(5, 6);
            answer(r, s, calm)
        })
        .collect();
    let what = || format!("{sources:#?}\n answered by {answers:?}, {fs:?} {r0} {r1}");
    let outs: Vec<Out> = sources.iter().zip(&answers).map(|(s, a)| s.ends(a, &c)).collect();
    let mut ev = vec![];
    let want = whole(&outs.iter().map(reported).collect::<Vec<_>>(), &fs, [r0, r1], too_many, &c, &mut ev);
    let urls: Vec<String> = sources.iter().map(|s| s.url.clone()).collect();
    let by = answers.clone();
    let rq = req.clone();
    let timeout = r.bool().then(|| Duration::from_secs(r.range(1, 30)));
    let go = || {
        let _g = runtime().enter();
        with(
            move |q| match urls.iter().position(|u| *u == q.url) {
                Some(i) => by[i].clone(),
                None => Err("nobody's address".into()),
            },
            || witnet_rad::try_data_request(&rq, set, None, None, too_many, timeout),
        )
    };
    let Some((got, seen)) = k.nopanic("request", what, go) else { return };
    k.eval(1);
    k.event("asked");
    k.nontrivial(&(outs.iter().map(std::mem::discriminant).collect::<Vec<_>>(), &ev, r0, r1));
    if !k.check(got.retrieve.len() == n, "one-report-per-source", || format!("{}: {}", what(), got.retrieve.len())) {
        return;
    }
    let cap = Some(timeout.unwrap_or(Duration::from_secs(10)).min(Duration::from_secs(10)));
    for (s, (o, g)) in sources.iter().zip(outs.iter().zip(&got.retrieve)) {
        let ok = match (reported(o), outcome(&Ok(g.result.clone()))) {
            (None, _) => true,
            (Some(w), g) => same_r(&w, &g),
        };
        k.check(ok, "source", || format!("{}\n {s:?} ended with {:?} instead of {o:?}", what(), g.result));
        let q: Vec<&Seen> = seen.iter().filter(|q| q.url == s.url).collect();
        k.check(q.len() == usize::from(s.early().is_none()), "requests-made", || format!("{}\n {s:?} {q:?}", what()));
        if let Some(q) = q.first() {
            if let Err(e) = asked(s, q, true, cap) {
                k.violate("request", format!("{}\n {q:?}: {e}", what()));
            }
        }
    }
    let ends = |g: &witnet_rad::RADRequestExecutionReport| (outcome(&Ok(g.aggregate.result.clone())), outcome(&Ok(g.tally.result.clone())));
    if let Some((a, t)) = &want {
        let g = ends(&got);
        k.check(same_r(a, &g.0), "aggregate", || format!("{}\n expected {a:?}\n got {:?}", what(), g.0));
        k.check(same_r(t, &g.1), "tally", || format!("{}\n expected {t:?}\n got {:?}", what(), g.1));
        k.event(if t.is_ok() { "value" } else { "error" });
        for e in ev {
            k.event(e);
        }
        if outs.iter().any(|o| matches!(o, Out::Is(Ok(_)))) && sources.iter().any(|s| s.script.iter().any(|c| c.0 == 0x1B && format!("{c:?}").contains("(5)"))) {
            k.event("median-in-a-script");
        }
    }
    // The same responses, given instead of asked for
    let text = |s: &Source, a: &Result<Answer, String>| match (&s.kind, a) {
        (RADType::HttpGet | RADType::HttpPost, Ok(a)) if a.status / 100 == 2 && !a.broken_body && !s.binary() && s.script_ok && s.headers_ok => Some(String::from_utf8_lossy(&a.body).into_owned()),
        _ => None,
    };
    if let Some(texts) = sources.iter().zip(&answers).map(|(s, a)| text(s, a)).collect::<Option<Vec<_>>>() {
        let inj: Vec<&str> = texts.iter().map(String::as_str).collect();
        let Some((again, seen)) = k.nopanic("injected", what, || with(|_| Err("asked".into()), || witnet_rad::try_data_request(&req, set, Some(&inj), None, too_many, None))) else { return };
        k.event("injected");
        k.check(seen.is_empty(), "asked-though-injected", || format!("{}: {seen:?}", what()));
        let same = again.retrieve.len() == n
            && again.retrieve.iter().zip(&got.retrieve).all(|(a, b)| same_r(&outcome(&Ok(a.result.clone())), &outcome(&Ok(b.result.clone()))))
            && same_r(&ends(&again).0, &ends(&got).0)
            && same_r(&ends(&again).1, &ends(&got).1);
        k.check(same, "injected-differs", || format!("{}\n asked: {:?} {:?}\n injected: {:?} {:?}", what(), got.retrieve, ends(&got), again.retrieve, ends(&again)));
        // each report is about its own source
        let trace = |g: &RadonReport<RadonTypes>| match &g.context.stage {
            Stage::Retrieval(m) => m.subscript_partial_results.iter().map(|a| a.iter().map(|b| b.iter().map(V::of).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>(),
            _ => vec![],
        };
        let same = again.retrieve.iter().zip(&got.retrieve).all(|(a, b)| format!("{:?}", trace(a)) == format!("{:?}", trace(b)));
        k.check(same, "subscripts-of-another-source", || format!("{}\n asked: {:?}\n injected: {:?}", what(), got.retrieve.iter().map(trace).collect::<Vec<_>>(), again.retrieve.iter().map(trace).collect::<Vec<_>>()));
        k.event("same-both-ways");
    }
    let _ = current_active_wips;
}
/// A source that takes too long does not hold up the rest.
fn slow(k: &mut Case) {
    let r = &mut k.rng;
    let n = r.range(3, 5) as usize;
    let late = r.idx(n);
    let one = |i: usize| RADRetrieve { kind: RADType::HttpGet, url: format!("https://s{i}.example/"), script: vec![0x81, 0x18, 0x73], ..Default::default() };
    let req = RADRequest { retrieve: (0..n).map(one).collect(), aggregate: RADAggregate { filters: vec![], reducer: 2 }, tally: RADTally { filters: vec![], reducer: 2 }, ..Default::default() };
    let late_url = format!("https://s{late}.example/");
    let t = std::time::Instant::now();
    let go = || {
        let _g = runtime().enter();
        with(
            move |q| Ok(Answer { status: 200, headers: HeaderMap::new(), body: b"7".to_vec(), broken_body: false, delay: if q.url == late_url { Duration::from_secs(100) } else { Duration::ZERO } }),
            || witnet_rad::try_data_request(&req, RadonScriptExecutionSettings::disable_all(), None, None, false, Some(Duration::from_millis(40))),
        )
    };
    let Some((got, _)) = k.nopanic("slow-source", || format!("source {late} of {n}"), go) else { return };
    k.eval(1);
    k.nontrivial(&(n, late));
    for (i, g) in got.retrieve.iter().enumerate() {
        let g = outcome(&Ok(g.result.clone()));
        let ok = if i == late { matches!(g, Err(E::Code(0x31))) } else { matches!(g, Ok(Int(7))) };
        k.check(ok, "slow-source", || format!("source {i} of {n}, with {late} late: {g:?}"));
    }
    k.check(matches!(outcome(&Ok(got.tally.result.clone())), Ok(Int(7))), "slow-source", || format!("{:?}", got.tally.result));
    k.check(t.elapsed() < Duration::from_secs(30), "slow-source", || format!("took {:?}", t.elapsed()));
    k.event("timeout");
    let _ = calls;
}
