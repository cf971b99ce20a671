//! Stand-in for witnet's fork of minidom, over quick-xml.
use quick_xml::events::{BytesStart, Event};
use quick_xml::Reader;

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
#[derive(Debug, Clone, PartialEq)]
pub struct Element {
    name: String,
    attrs: std::collections::BTreeMap<String, String>,
    children: Vec<Node>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Node {
    Element(Element),
    Text(String),
}
impl Drop for Element {
    // Iterative, so that dropping a deep tree does not overflow the stack
    fn drop(&mut self) {
        let mut q = std::mem::take(&mut self.children);
        while let Some(n) = q.pop() {
            if let Node::Element(mut e) = n {
                q.append(&mut e.children)
            }
        }
    }
}
impl Element {
    pub fn name(&self) -> &str {
        &self.name
    }
    pub fn attrs(&self) -> impl Iterator<Item = (&str, &str)> {
        self.attrs.iter().map(|(k, v)| (k.as_str(), v.as_str()))
    }
    pub fn nodes(&self) -> std::slice::Iter<'_, Node> {
        self.children.iter()
    }
}
fn err<E: std::fmt::Display>(e: E) -> Error {
    Error(e.to_string())
}
fn open(b: &BytesStart<'_>) -> Result<Element, Error> {
    let mut attrs = std::collections::BTreeMap::new();
    for a in b.attributes() {
        let a = a.map_err(err)?;
        let k = String::from_utf8(a.key.as_ref().to_vec()).map_err(err)?;
        attrs.insert(k, a.unescape_value().map_err(err)?.into_owned());
    }
    let name = String::from_utf8(b.name().local_name().as_ref().to_vec()).map_err(err)?;
    Ok(Element { name, attrs, children: vec![] })
}
impl std::str::FromStr for Element {
    type Err = Error;
    fn from_str(s: &str) -> Result<Element, Error> {
        let mut r = Reader::from_str(s);
        let mut stack: Vec<Element> = vec![];
        let mut text = String::new();
        loop {
            let ev = r.read_event().map_err(err)?;
            match ev {
                Event::Text(t) => {
                    text.push_str(&t.decode().map_err(err)?);
                    continue;
                }
                Event::GeneralRef(g) => {
                    if let Some(c) = g.resolve_char_ref().map_err(err)? {
                        text.push(c)
                    } else {
                        text.push_str(match &*g.decode().map_err(err)? {
                            "amp" => "&",
                            "lt" => "<",
                            "gt" => ">",
                            "quot" => "\"",
                            "apos" => "'",
                            x => return Err(Error(format!("unknown entity {x}"))),
                        })
                    }
                    continue;
                }
                Event::CData(t) => {
                    text.push_str(&t.decode().map_err(err)?);
                    continue;
                }
                _ => {}
            }
            if !text.is_empty() {
                let t = std::mem::take(&mut text);
                if let Some(p) = stack.last_mut() {
                    p.children.push(Node::Text(t))
                } else if !t.trim().is_empty() {
                    return Err(Error("text outside of the root element".into()));
                }
            }
            let done = match ev {
                Event::Start(b) => {
                    stack.push(open(&b)?);
                    None
                }
                Event::Empty(b) => Some(open(&b)?),
                Event::End(_) => Some(stack.pop().ok_or(Error("unexpected end".into()))?),
                Event::Eof => return Err(Error("unexpected end of file".into())),
                _ => None,
            };
            if let Some(e) = done {
                match stack.last_mut() {
                    Some(p) => p.children.push(Node::Element(e)),
                    None => return Ok(e),
                }
            }
        }
    }
}
