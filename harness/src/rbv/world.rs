//! The whole program in a network namespace of its own, with stand-ins for every tracker it knows. The worker starts
//! one process per case in a new namespace (in which every IPv4 address is local); that process runs the program and
//! the stand-ins, and writes down the verdict.
use super::engine::*;
use super::udp::{is_announce, is_connect};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::net::{Ipv4Addr, SocketAddrV4, TcpStream, UdpSocket};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// The built-in trackers.
pub const TRACKERS: [([u8; 4], u16); 18] = [
    ([93, 158, 213, 92], 1337),
    ([102, 223, 180, 235], 6969),
    ([23, 134, 88, 6], 1337),
    ([193, 189, 100, 187], 6969),
    ([185, 243, 218, 213], 80),
    ([91, 216, 110, 52], 451),
    ([208, 83, 20, 20], 6969),
    ([23, 157, 120, 14], 6969),
    ([156, 234, 201, 18], 80),
    ([185, 102, 219, 163], 6969),
    ([185, 50, 159, 149], 6969),
    ([209, 141, 59, 16], 6969),
    ([38, 7, 201, 142], 6969),
    ([73, 170, 204, 100], 6969),
    ([176, 31, 250, 174], 6969),
    ([82, 156, 24, 219], 6969),
    ([83, 102, 180, 21], 80),
    ([185, 230, 4, 150], 1337),
];

const SETUP: &str = "ip link set lo up && ip route add local 0.0.0.0/0 dev lo && exec \"$0\" \"$@\"";

fn command(args: &[&str]) -> Command {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new("unshare");
    c.args(["-Urn", "sh", "-c", SETUP]).arg(exe).args(args).stdin(Stdio::null()).stdout(Stdio::null());
    if std::env::var("RBV_LOUD").is_err() {
        c.stderr(Stdio::null());
    }
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c
}

/// Whether namespaces can be had here.
pub fn available() -> bool {
    command(&["--nothing"]).status().map_or(false, |s| s.success())
}

pub const NO_VERDICT: &str = "no verdict";

/// Judges the case in a namespace of its own.
pub fn judge<C: Case>(kind: &str, c: &C, obs: &mut Obs, limit: Duration) -> Outcome {
    let dir = super::scratch::work().join(super::scratch::unique());
    std::fs::create_dir_all(&dir).unwrap();
    let _gone = super::scratch::Gone(dir.clone());
    std::fs::write(dir.join("case.json"), serde_json::to_string(c).unwrap()).unwrap();
    let mut child = match command(&["--inside", kind, dir.to_str().unwrap()]).spawn() {
        Ok(c) => c,
        Err(_) => {
            obs.label(NO_VERDICT);
            return Ok(());
        }
    };
    let started = Instant::now();
    while child.try_wait().unwrap().is_none() {
        if started.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    let v: Value = match std::fs::read_to_string(dir.join("out.json")).ok().and_then(|t| json_from(&t).ok()) {
        Some(v) => v,
        None => {
            obs.label(NO_VERDICT);
            return Ok(());
        }
    };
    for l in v["labels"].as_array().into_iter().flatten() {
        obs.label(l.as_str().unwrap());
    }
    for (k, n) in v["counts"].as_object().into_iter().flatten() {
        obs.count(k, n.as_u64().unwrap());
    }
    obs.nontrivial = v["nontrivial"] == true;
    obs.note = v["note"].as_str().map(|s| s.to_string());
    match v["fail"].as_str() {
        Some(m) => Err(Fail { msg: m.to_string(), soft: v["soft"] == true, sig: None }),
        None => Ok(()),
    }
}

/// Runs in the namespace.
pub fn inside<C: Case>(dir: &Path, f: fn(&C, &Path, &mut Obs) -> Outcome) -> ! {
    let c: C = serde_json::from_value(json_from(&std::fs::read_to_string(dir.join("case.json")).unwrap()).unwrap()).unwrap();
    let home = dir.join("home");
    std::fs::create_dir_all(&home).unwrap();
    let mut obs = Obs::default();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&c, &home, &mut obs)));
    let r = match r {
        Ok(r) => r,
        // the stand-ins themselves broke
        Err(_) => unsafe { libc::_exit(4) },
    };
    let (fail, soft) = match r {
        Ok(()) => (None, false),
        Err(f) => (Some(f.msg), f.soft),
    };
    let out = json!({"fail": fail, "soft": soft, "labels": obs.labels, "counts": obs.counts, "nontrivial": obs.nontrivial, "note": obs.note});
    std::fs::write(dir.join("out.tmp"), out.to_string()).unwrap();
    std::fs::rename(dir.join("out.tmp"), dir.join("out.json")).unwrap();
    unsafe { libc::_exit(0) }
}

// ---- in the namespace -----------------------------------------------------------------------------------------------

pub struct Program {
    child: Child,
}

impl Program {
    pub fn start(home: &Path) -> Result<Program, Fail> {
        let exe: PathBuf = std::env::current_exe().unwrap().with_file_name("rust_bit");
        let mut c = Command::new(exe);
        c.current_dir(home).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let mut p = Program { child: c.spawn().expect("the program does not start") };
        let started = Instant::now();
        loop {
            if TcpStream::connect("127.0.0.1:8080").is_ok() {
                return Ok(p);
            }
            p.alive()?;
            if started.elapsed() > Duration::from_secs(40) {
                return soft("the program does not listen on 127.0.0.1:8080");
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    pub fn alive(&mut self) -> Outcome {
        match self.child.try_wait() {
            Ok(Some(s)) => fail(format!("the program ended: {s}")),
            _ => Ok(()),
        }
    }
}

impl Drop for Program {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Tr {
    Silent,
    Error,
    /// loses the first connect requests of every client, and takes its time
    Answers { lose: u8, wait: u16 },
}

/// (tracker, info hash) of every announce; packets that are none
#[derive(Default)]
pub struct Heard {
    pub announces: Vec<(usize, Vec<u8>)>,
    pub odd: Vec<(usize, Vec<u8>)>,
}

pub fn trackers(kinds: Vec<Tr>, peers: impl Fn(usize, &[u8]) -> Vec<[u8; 6]> + Send + Sync + 'static) -> Arc<Mutex<Heard>> {
    let heard = Arc::new(Mutex::new(Heard::default()));
    let peers = Arc::new(peers);
    for (i, (ip, port)) in TRACKERS.iter().enumerate() {
        let sock = UdpSocket::bind(SocketAddrV4::new(Ipv4Addr::from(*ip), *port)).expect("no tracker socket");
        let kind = kinds.get(i).cloned().unwrap_or(Tr::Answers { lose: 0, wait: 0 });
        let (heard, peers) = (heard.clone(), peers.clone());
        std::thread::Builder::new().stack_size(128 << 10).spawn(move || tracker(i, sock, kind, heard, &*peers)).unwrap();
    }
    heard
}

fn tracker(i: usize, sock: UdpSocket, kind: Tr, heard: Arc<Mutex<Heard>>, peers: &dyn Fn(usize, &[u8]) -> Vec<[u8; 6]>) {
    let mut b = [0; 2048];
    let mut connects: std::collections::HashMap<std::net::SocketAddr, u8> = Default::default();
    let mut ids = 0u64;
    let sock = Arc::new(sock);
    loop {
        let (n, from) = match sock.recv_from(&mut b) {
            Ok(x) => x,
            Err(_) => continue,
        };
        let got = &b[..n];
        let announce = is_announce(got) && n == 98;
        if announce {
            heard.lock().unwrap().announces.push((i, got[16..36].to_vec()));
        } else if !is_connect(got) {
            heard.lock().unwrap().odd.push((i, got.to_vec()));
            continue;
        }
        let txn = &got[12..16];
        let answer = match kind {
            Tr::Silent => continue,
            Tr::Error => [&[0, 0, 0, 3], txn, b"no"].concat(),
            Tr::Answers { lose, .. } if !announce => {
                let k = connects.entry(from).or_insert(0);
                *k += 1;
                if *k <= lose {
                    continue;
                }
                ids += 1;
                [&[0, 0, 0, 0], txn, &ids.to_be_bytes()].concat()
            }
            Tr::Answers { .. } => {
                let p = peers(i, &got[16..36]);
                [&[0, 0, 0, 1], txn, &[0, 0, 7, 8, 0, 0, 0, 0, 0, 0, 0, p.len() as u8], &p.concat()[..]].concat()
            }
        };
        match kind {
            Tr::Answers { wait, .. } if wait > 0 => {
                let s = sock.clone();
                std::thread::Builder::new()
                    .stack_size(64 << 10)
                    .spawn(move || {
                        std::thread::sleep(Duration::from_millis(wait as u64));
                        let _ = s.send_to(&answer, from);
                    })
                    .unwrap();
            }
            _ => {
                let _ = sock.send_to(&answer, from);
            }
        }
    }
}

/// One HTTP response, read off a connection that may be kept open.
pub struct Response {
    pub status: u16,
    pub close: bool,
}

/// Reads one response; None when the connection ended or stayed silent for too long.
pub fn response(s: &mut TcpStream, buf: &mut Vec<u8>, wait: Duration, head_only: bool) -> Result<Option<Response>, String> {
    use std::io::Read;
    let end = Instant::now() + wait;
    loop {
        if let Some(h) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            let head = String::from_utf8_lossy(&buf[..h]).to_string();
            let status: u16 = match head.split(' ').nth(1).and_then(|x| x.parse().ok()) {
                Some(s) if head.starts_with("HTTP/1.") => s,
                _ => return Err(format!("no HTTP response: {:?}", head.chars().take(100).collect::<String>())),
            };
            let of = |k: &str| {
                head.lines().skip(1).filter_map(|l| l.split_once(':')).find(|x| x.0.eq_ignore_ascii_case(k)).map(|x| x.1.trim().to_ascii_lowercase())
            };
            let n: usize = of("content-length").and_then(|x| x.parse().ok()).unwrap_or(0);
            if status == 100 {
                buf.drain(..h + 4);
                continue;
            }
            let n = if head_only { 0 } else { n };
            if buf.len() >= h + 4 + n {
                buf.drain(..h + 4 + n);
                return Ok(Some(Response { status, close: of("connection").map_or(false, |c| c == "close") }));
            }
        }
        let left = end.saturating_duration_since(Instant::now());
        if left.is_zero() {
            return Err(format!("no answer within {wait:?}"));
        }
        let _ = s.set_read_timeout(Some(left));
        let mut b = [0; 4096];
        match s.read(&mut b) {
            Ok(0) => return Ok(None),
            Ok(n) => buf.extend_from_slice(&b[..n]),
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {}
            Err(_) => return Ok(None),
        }
    }
}
