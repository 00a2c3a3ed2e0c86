//! A scratch directory that is removed again.
use std::path::{Path, PathBuf};

pub struct Scratch(PathBuf);
impl Scratch {
    pub fn new(name: &str) -> Scratch {
        let p = std::env::temp_dir().join(format!("verif-{name}-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
