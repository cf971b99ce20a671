//! Stand-in for glob: `*` within one directory.
use std::path::PathBuf;
#[derive(Debug)]
pub struct PatternError;
#[derive(Debug)]
pub struct GlobError;
impl std::fmt::Display for PatternError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("pattern error")
    }
}
impl std::fmt::Display for GlobError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("glob error")
    }
}
impl std::error::Error for PatternError {}
impl std::error::Error for GlobError {}
fn matches(p: &[u8], s: &[u8]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(b'*') => (0..=s.len()).any(|i| matches(&p[1..], &s[i..])),
        Some(c) => s.first() == Some(c) && matches(&p[1..], &s[1..]),
    }
}
pub fn glob(pattern: &str) -> Result<std::vec::IntoIter<Result<PathBuf, GlobError>>, PatternError> {
    let path = PathBuf::from(pattern);
    let name = path.file_name().ok_or(PatternError)?.to_string_lossy().to_string();
    let dir = path.parent().map(PathBuf::from).unwrap_or_default();
    let mut v: Vec<PathBuf> = std::fs::read_dir(&dir)
        .map(|d| {
            d.filter_map(|e| e.ok())
                .filter(|e| matches(name.as_bytes(), e.file_name().to_string_lossy().as_bytes()))
                .map(|e| e.path())
                .collect()
        })
        .unwrap_or_default();
    v.sort();
    Ok(v.into_iter().map(Ok).collect::<Vec<_>>().into_iter())
}
