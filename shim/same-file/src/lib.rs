//! Stand-in for same-file: an open file compared by device and inode.
use std::hash::{Hash, Hasher};
use std::os::unix::fs::MetadataExt;
#[derive(Debug)]
pub struct Handle {
    _file: std::fs::File,
    dev: u64,
    ino: u64,
}
impl Handle {
    pub fn from_path<P: AsRef<std::path::Path>>(p: P) -> std::io::Result<Handle> {
        let file = std::fs::File::open(p)?;
        let m = file.metadata()?;
        Ok(Handle { dev: m.dev(), ino: m.ino(), _file: file })
    }
}
impl PartialEq for Handle {
    fn eq(&self, o: &Handle) -> bool {
        (self.dev, self.ino) == (o.dev, o.ino)
    }
}
impl Eq for Handle {}
impl Hash for Handle {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.dev.hash(h);
        self.ino.hash(h);
    }
}
