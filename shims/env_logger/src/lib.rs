//! Stand-in for env_logger (tests only): logs nothing.
pub struct Builder;
pub fn builder() -> Builder {
    Builder
}
impl Builder {
    pub fn is_test(self, _t: bool) -> Self {
        self
    }
    pub fn try_init(self) -> Result<(), ()> {
        Ok(())
    }
}
