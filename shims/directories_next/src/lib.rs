//! Stand-in for directories-next.
use std::path::{Path, PathBuf};
pub struct ProjectDirs(PathBuf);
impl ProjectDirs {
    pub fn from(_q: &str, _o: &str, app: &str) -> Option<ProjectDirs> {
        std::env::var_os("HOME").map(|h| ProjectDirs(PathBuf::from(h).join(".config").join(app)))
    }
    pub fn config_dir(&self) -> &Path {
        &self.0
    }
    pub fn data_local_dir(&self) -> &Path {
        &self.0
    }
}
