//! Runs the real `lk` in a scratch folder, and the text forms its arguments have.
use crate::model::{self, Kind, M};
use fw::*;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

static UNIQ: AtomicU64 = AtomicU64::new(0);
/// a folder for one case, gone with it
pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new() -> Dir {
        let d = std::env::temp_dir().join(format!("cli-{}-{}", std::process::id(), UNIQ.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch folder");
        Dir(d)
    }
    pub fn path(&self, n: &str) -> String {
        self.0.join(n).to_str().unwrap().to_string()
    }
    pub fn file(&self, n: &str, b: &[u8]) -> String {
        let p = self.path(n);
        std::fs::write(&p, b).expect("scratch file");
        p
    }
    pub fn read(&self, n: &str) -> Vec<u8> {
        std::fs::read(self.0.join(n)).unwrap_or_default()
    }
    pub fn has(&self, n: &str) -> bool {
        self.0.join(n).exists()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
pub struct Ran {
    pub ok: bool,
    pub out: Vec<u8>,
    pub err: String,
}
/// a program built along with this one
pub fn prog_path(name: &str) -> PathBuf {
    let p = std::env::current_exe().expect("own path").with_file_name(name);
    assert!(p.exists(), "{p:?} is missing");
    p
}
pub fn a(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
/// Runs `lk` to its end. A panic of the program is a failure; a refusal is not.
pub fn lk(dir: &Dir, args: &[String], input: &[u8]) -> Result<Ran, Fail> {
    lk_env(dir, args, input, &[])
}
pub fn lk_env(dir: &Dir, args: &[String], input: &[u8], env: &[(&str, &str)]) -> Result<Ran, Fail> {
    prog("lk", dir, args, input, env)
}
/// Runs one of the programs to its end.
pub fn prog(name: &str, dir: &Dir, args: &[String], input: &[u8], env: &[(&str, &str)]) -> Result<Ran, Fail> {
    let what = || format!("{name} {:?}", args);
    let mut c = Command::new(prog_path(name))
        .args(args)
        .env_clear()
        .env("TMPDIR", &dir.0)
        .env("HOME", &dir.0)
        .env("LK_DIR", dir.0.join("lk"))
        .env("LMDB_STANDIN_DISK", "1")
        .envs(env.iter().copied())
        .current_dir(&dir.0)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| {
            // not about the code under test
            println!("ERROR: could not run {name}: {e}");
            unsafe { libc::_exit(3) }
        });
    let mut stdin = c.stdin.take().unwrap();
    let mut stdout = c.stdout.take().unwrap();
    let mut stderr = c.stderr.take().unwrap();
    let start = Instant::now();
    let mut out = vec![];
    let mut err = vec![];
    let mut late = false;
    std::thread::scope(|s| {
        let small = input.len() <= 60_000;
        if small {
            let _ = stdin.write_all(input);
            drop(stdin);
        } else {
            s.spawn(move || {
                let _ = stdin.write_all(input);
            });
        }
        let e = s.spawn(move || {
            let mut b = vec![];
            let _ = stderr.read_to_end(&mut b);
            b
        });
        let mut buf = vec![0; 1 << 16];
        loop {
            use std::os::fd::AsRawFd;
            let mut p = libc::pollfd { fd: stdout.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            let n = unsafe { libc::poll(&mut p, 1, 1000) };
            if n == 0 {
                if start.elapsed() > Duration::from_secs(120) {
                    late = true;
                    let _ = c.kill();
                    break;
                }
                continue;
            }
            match stdout.read(&mut buf) {
                Ok(0) => break,
                Ok(n) => out.extend_from_slice(&buf[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => break,
            }
        }
        err = e.join().unwrap_or_default();
    });
    let st = c.wait().map_err(|e| Fail::from(format!("wait: {e}")))?;
    let err = String::from_utf8_lossy(&err).into_owned();
    ensure!(!late, "{}: still running after two minutes", what());
    use std::os::unix::process::ExitStatusExt;
    ensure!(st.code().is_some_and(|c| c <= 1), "{}: {} {:?} {err}", what(), st, st.signal());
    Ok(Ran { ok: st.success(), out, err })
}
/// a program that runs on its own, until it is waited for
pub struct Live {
    c: std::process::Child,
    what: String,
    out: String,
    err: String,
}
impl Live {
    pub fn start(name: &str, dir: &Dir, args: &[String], input: &[u8]) -> Live {
        let id = UNIQ.fetch_add(1, Ordering::Relaxed);
        let (inp, out, err) = (dir.file(&format!("in{id}"), input), dir.path(&format!("out{id}")), dir.path(&format!("err{id}")));
        let open = |p: &str| Stdio::from(std::fs::File::open(p).expect("scratch file"));
        let make = |p: &str| Stdio::from(std::fs::File::create(p).expect("scratch file"));
        let c = Command::new(prog_path(name))
            .args(args)
            .env_clear()
            .env("TMPDIR", &dir.0)
            .env("HOME", &dir.0)
            .env("LK_DIR", dir.0.join("lk"))
            .env("LMDB_STANDIN_DISK", "1")
            .current_dir(&dir.0)
            .stdin(open(&inp))
            .stdout(make(&out))
            .stderr(make(&err))
            .spawn()
            .unwrap_or_else(|e| {
                // not about the code under test
                println!("ERROR: could not run {name}: {e}");
                unsafe { libc::_exit(3) }
            });
        Live { c, what: format!("{name} {args:?}"), out, err }
    }
    pub fn out(&self) -> Vec<u8> {
        std::fs::read(&self.out).unwrap_or_default()
    }
    pub fn running(&mut self) -> bool {
        matches!(self.c.try_wait(), Ok(None))
    }
    /// Waits until `done` holds or it ended, reminding it of the store now and then.
    pub fn until(&mut self, dir: &Dir, what: &str, mut done: impl FnMut(&Live) -> Result<bool, Fail>) -> Res {
        let start = Instant::now();
        let mut next = Duration::from_secs(2);
        loop {
            let over = !self.running();
            if done(self)? {
                return Ok(());
            }
            ensure!(!over, "{}: ended before {what}: {}", self.what, String::from_utf8_lossy(&std::fs::read(&self.err).unwrap_or_default()));
            ensure!(start.elapsed() < Duration::from_secs(100), "{}: {what} did not happen", self.what);
            if start.elapsed() > next {
                next += Duration::from_secs(2);
                good(dir, &a(&["point", "remind:[#:pub]:/x", "--data-str", &format!("{next:?}"), "--write", "db"]), &[])?;
            }
            std::thread::sleep(Duration::from_millis(3));
        }
    }
    /// Waits for its end.
    pub fn end(&mut self, dir: &Dir) -> Result<Ran, Fail> {
        let start = Instant::now();
        let mut next = Duration::from_secs(2);
        let st = loop {
            if let Ok(Some(st)) = self.c.try_wait() {
                break st;
            }
            ensure!(start.elapsed() < Duration::from_secs(100), "{}: does not end", self.what);
            if start.elapsed() > next {
                next += Duration::from_secs(2);
                good(dir, &a(&["point", "remind:[#:pub]:/x", "--data-str", &format!("{next:?}"), "--write", "db"]), &[])?;
            }
            std::thread::sleep(Duration::from_millis(2));
        };
        let err = String::from_utf8_lossy(&std::fs::read(&self.err).unwrap_or_default()).into_owned();
        use std::os::unix::process::ExitStatusExt;
        ensure!(st.code().is_some_and(|c| c <= 1), "{}: {} {:?} {err}", self.what, st, st.signal());
        Ok(Ran { ok: st.success(), out: self.out(), err })
    }
}
impl Drop for Live {
    fn drop(&mut self) {
        if self.running() {
            let _ = self.c.kill();
            let _ = self.c.wait();
        }
    }
}
/// a run that has to succeed
pub fn good(dir: &Dir, args: &[String], input: &[u8]) -> Result<Vec<u8>, Fail> {
    let r = lk(dir, args, input)?;
    ensure!(r.ok, "lk {args:?} failed: {}", r.err);
    Ok(r.out)
}
/// the packets a stream consists of; all of it, each of them valid
pub fn split(what: &str, mut b: &[u8]) -> Result<Vec<Vec<u8>>, Fail> {
    let mut o = vec![];
    while !b.is_empty() {
        let v = model::ref_read(b, false).map_err(|e| Fail::from(format!("{what}: packet {} of the output is not valid: {e:?}", o.len())))?;
        o.push(b[..v.size].to_vec());
        b = &b[v.size..];
    }
    Ok(o)
}
pub fn hops(wire: &[u8], by: u32) -> Vec<u8> {
    let mut w = wire.to_vec();
    let h = u32::from_be_bytes(w[4..8].try_into().unwrap()).saturating_add(by);
    w[4..8].copy_from_slice(&h.to_be_bytes());
    w
}
/// everything but the part of the header that changes on the way
pub fn point(wire: &[u8]) -> &[u8] {
    &wire[32..]
}
pub fn esc(b: &[u8]) -> String {
    b.iter().map(|b| format!("\\x{b:02x}")).collect()
}
/// plain where it can be
pub fn soft(b: &[u8]) -> String {
    b.iter().map(|b| if b.is_ascii_alphanumeric() { (*b as char).to_string() } else { format!("\\x{b:02x}") }).collect()
}
pub fn b64(b: &[u8]) -> String {
    use base64::prelude::*;
    BASE64_URL_SAFE_NO_PAD.encode(b)
}
pub fn hash_text(b: &[u8; 32], style: u8) -> String {
    match style % 3 {
        0 => b64(b),
        1 => format!("[b:{}]", b64(b)),
        _ => esc(b),
    }
}
pub fn domain_text(d: &[u8; 16], style: u8) -> String {
    let z = d.iter().take_while(|b| **b == 0).count();
    match style % 3 {
        0 if z < 16 => soft(&d[z..]),
        1 if z < 16 => format!("[a:{}]", soft(&d[z..])),
        _ => esc(d),
    }
}
pub fn space_text(c: &[Vec<u8>], style: u8) -> String {
    c.iter().map(|c| format!("/{}", if style % 2 == 0 { soft(c) } else { esc(c) })).collect()
}
pub fn dgs_text(m: &M, style: u8) -> String {
    format!("{}:{}:{}", domain_text(&m.domain, style), hash_text(&m.group, style / 3), space_text(&m.comps, style / 9))
}
pub fn link_text(l: &([u8; 16], [u8; 32]), style: u8) -> String {
    format!("{}:{}", domain_text(&l.0, style), hash_text(&l.1, style / 3))
}
/// the signing keys as the command line takes them
pub fn enckey(k: u8) -> &'static str {
    static E: OnceLock<Vec<String>> = OnceLock::new();
    use linkspace_argon2_identity as id;
    &E.get_or_init(|| (0..4).map(|k| id::encrypt(model::key(k), b"pw", Some(id::INSECURE_COST))).collect())[k as usize % 4]
}
pub fn key_args(k: u8) -> Vec<String> {
    a(&["--enckey", enckey(k), "--password", "pw"])
}
/// the options that make `lk link` produce this point, except for its data
pub fn point_args(m: &M, style: u8) -> Vec<String> {
    let mut v = a(&["--create-int", &m.stamp.to_string()]);
    if let Kind::Key(k) = m.kind {
        if style % 2 == 0 {
            v.push("--sign".into());
        }
        v.extend(key_args(k));
    }
    v.push(dgs_text(m, style));
    if !m.links.is_empty() {
        v.push("--".into());
        v.extend(m.links.iter().map(|l| link_text(l, style / 7)));
    }
    v
}
