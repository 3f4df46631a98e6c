//! One long-lived z3 process per thread, spoken to in SMT-LIB2.
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Solver {
    child: Child,
    w: ChildStdin,
    r: ChildStdout,
    buf: String,
    pending: Vec<u8>,
    pub timeout_ms: u64,
    /// set when the process had to be killed: the owner starts another one
    pub dead: bool,
    pub queries: u64,
    pub ms: f64,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}
impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Solver {
    pub fn new(timeout_ms: u64) -> Self {
        let bin = std::env::var("SMT").unwrap_or_else(|_| "z3-new".into());
        let mut child = Command::new(&bin)
            .arg("-in")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start the solver");
        let w = child.stdin.take().unwrap();
        let r = child.stdout.take().unwrap();
        let mut s = Solver { child, w, r, buf: String::new(), pending: vec![], timeout_ms, dead: false, queries: 0, ms: 0.0 };
        s.cmd(&format!("(set-option :timeout {timeout_ms})(set-option :produce-models true)(set-logic QF_BV)"));
        s
    }
    pub fn cmd(&mut self, s: &str) {
        self.buf.push_str(s);
        self.buf.push('\n');
    }
    fn flush(&mut self) {
        self.w.write_all(self.buf.as_bytes()).expect("solver died");
        self.w.flush().expect("solver died");
        self.buf.clear();
    }
    /// next line of the answer; None when the solver overran even its hard limit and was killed
    fn line(&mut self) -> Option<String> {
        let end = Instant::now() + Duration::from_millis(self.timeout_ms * 2 + 1500);
        loop {
            if let Some(i) = self.pending.iter().position(|b| *b == b'\n') {
                let l: Vec<u8> = self.pending.drain(..=i).collect();
                return Some(String::from_utf8_lossy(&l).into_owned());
            }
            match read_some(&mut self.r, end, &mut self.pending) {
                Got::Data => {}
                Got::Eof => panic!("MACHINERY: solver closed its output"),
                Got::Late => {
                    let _ = self.child.kill();
                    self.dead = true;
                    return None;
                }
            }
        }
    }
    pub fn check(&mut self) -> Sat {
        self.cmd("(check-sat)");
        let t = Instant::now();
        self.flush();
        self.queries += 1;
        let l = self.line();
        self.ms += t.elapsed().as_secs_f64() * 1000.0;
        match l.as_deref().map(|l| l.trim()) {
            Some("sat") => Sat::Sat,
            Some("unsat") => Sat::Unsat,
            Some("unknown") | Some("timeout") | None => Sat::Unknown,
            // interrupted while reading a large formula: the session is out of step
            Some(e) if e.contains("canceled") => {
                let _ = self.child.kill();
                self.dead = true;
                Sat::Unknown
            }
            Some(e) => panic!("MACHINERY: solver said {e}"),
        }
    }
    /// values of bit-vector constants, as binary/hex strings
    pub fn values(&mut self, names: &[String]) -> Vec<(String, String)> {
        if names.is_empty() {
            return vec![];
        }
        let q = format!("(get-value ({}))", names.join(" "));
        self.cmd(&q);
        self.flush();
        let mut txt = String::new();
        let mut depth = 0i32;
        loop {
            let l = self.line().unwrap_or_else(|| panic!("MACHINERY: no model from the solver"));
            for c in l.chars() {
                match c {
                    '(' => depth += 1,
                    ')' => depth -= 1,
                    _ => {}
                }
            }
            txt.push_str(&l);
            if depth <= 0 {
                break;
            }
        }
        let t: Vec<String> =
            txt.replace(['(', ')'], " ").split_whitespace().map(|s| s.to_string()).collect();
        t.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect()
    }
}

enum Got {
    Data,
    Eof,
    Late,
}
fn read_some(r: &mut ChildStdout, end: Instant, to: &mut Vec<u8>) -> Got {
    let left = end.saturating_duration_since(Instant::now()).as_millis() as i32;
    let mut p = libc::pollfd { fd: r.as_raw_fd(), events: libc::POLLIN, revents: 0 };
    let n = unsafe { libc::poll(&mut p, 1, left) };
    if n == 0 {
        return Got::Late;
    }
    if n < 0 {
        return if Instant::now() >= end { Got::Late } else { Got::Data };
    }
    let mut b = [0u8; 4096];
    match r.read(&mut b) {
        Ok(0) => Got::Eof,
        Ok(n) => {
            to.extend_from_slice(&b[..n]);
            Got::Data
        }
        Err(_) => Got::Eof,
    }
}
