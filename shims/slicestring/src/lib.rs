//! Stand-in for slicestring.
pub trait Slice<R> {
    fn slice(&self, r: R) -> String;
}
impl Slice<std::ops::RangeFrom<usize>> for String {
    fn slice(&self, r: std::ops::RangeFrom<usize>) -> String {
        self.chars().skip(r.start).collect()
    }
}
impl Slice<std::ops::Range<usize>> for String {
    fn slice(&self, r: std::ops::Range<usize>) -> String {
        self.chars().skip(r.start).take(r.end.saturating_sub(r.start)).collect()
    }
}
