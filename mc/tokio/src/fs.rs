//! File access is not a scheduling matter here: it happens at once.
use std::io;
use std::path::{Path, PathBuf};

pub async fn read(p: impl AsRef<Path>) -> io::Result<Vec<u8>> {
    std::fs::read(p)
}
pub async fn read_to_string(p: impl AsRef<Path>) -> io::Result<String> {
    std::fs::read_to_string(p)
}
pub async fn write(p: impl AsRef<Path>, c: impl AsRef<[u8]>) -> io::Result<()> {
    std::fs::write(p, c)
}
pub async fn metadata(p: impl AsRef<Path>) -> io::Result<std::fs::Metadata> {
    std::fs::metadata(p)
}
pub async fn try_exists(p: impl AsRef<Path>) -> io::Result<bool> {
    std::fs::exists(p)
}
pub async fn canonicalize(p: impl AsRef<Path>) -> io::Result<PathBuf> {
    std::fs::canonicalize(p)
}
pub async fn rename(a: impl AsRef<Path>, b: impl AsRef<Path>) -> io::Result<()> {
    std::fs::rename(a, b)
}
