//! Scratch files the broker under test reads.
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

pub struct Env {
    pub dir: PathBuf,
    /// one listener
    pub cfg1: String,
    /// two listeners
    pub cfg2: String,
    /// three listeners
    pub cfg3: String,
}
pub const USERS: &[(&str, &str)] = &[("alice", "wonder"), ("bob", "builder")];

static ENV: OnceLock<Env> = OnceLock::new();
pub fn env() -> &'static Env {
    ENV.get().expect("env")
}

/// An argon2id hash with tiny cost parameters.
pub fn cheap_hash(pw: &str, salt: &str) -> String {
    use argon2::password_hash::{PasswordHasher, SaltString};
    let params = argon2::Params::new(8, 1, 1, None).unwrap();
    let a = argon2::Argon2::new(argon2::Algorithm::Argon2id, argon2::Version::V0x13, params);
    let salt = SaltString::new(salt).unwrap();
    a.hash_password(pw.as_bytes(), &salt).unwrap().to_string()
}

pub fn passwd_text(users: &[(&str, &str)]) -> String {
    users.iter().map(|(u, p)| format!("{}:{}\n", u, cheap_hash(p, "c29tZXNhbHQ"))).collect()
}

pub fn write_config(path: &Path, listeners: &[&str], passwd: &Path) {
    let l: Vec<String> = listeners.iter().map(|l| format!("{:?}", l)).collect();
    std::fs::write(path, format!("[mqtt]\nlisteners_tcp = [ {} ]\n\n[authentication]\npassword_file = {:?}\n", l.join(", "), passwd)).unwrap();
}

/// Clears what could leak in from outside and prepares the scratch directory.
pub fn setup() {
    let leak: Vec<_> = std::env::vars_os().map(|v| v.0).filter(|k| k.to_string_lossy().to_lowercase().starts_with("ratelmq")).collect();
    for k in leak {
        std::env::remove_var(k);
    }
    let base = std::env::var_os("MC_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
    let dir = base.join(format!("ratelmq-mc-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let passwd = dir.join("passwd");
    std::fs::write(&passwd, passwd_text(USERS)).unwrap();
    let c1 = dir.join("one.toml");
    write_config(&c1, &[crate::sys::L1], &passwd);
    let c2 = dir.join("two.toml");
    write_config(&c2, &[crate::sys::L1, crate::sys::L2], &passwd);
    let c3 = dir.join("three.toml");
    write_config(&c3, &[crate::sys::L2, crate::sys::L1, crate::sys::L3], &passwd);
    let _ = ENV.set(Env { dir, cfg1: c1.to_string_lossy().into_owned(), cfg2: c2.to_string_lossy().into_owned(), cfg3: c3.to_string_lossy().into_owned() });
}
pub fn cleanup() {
    if let Some(e) = ENV.get() {
        let _ = std::fs::remove_dir_all(&e.dir);
    }
}
