//! Persistent SMT solver processes driven over pipes (SMT-LIB 2 text).
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Z3New,
    Z3Old,
    Cvc5,
}

pub struct Solver {
    kind: Kind,
    child: Option<(Child, ChildStdin, Receiver<String>)>,
}

impl Solver {
    pub fn new(kind: Kind) -> Solver {
        Solver { kind, child: None }
    }

    fn start(&mut self) {
        if self.child.is_some() {
            return;
        }
        let mut c = match self.kind {
            Kind::Z3New => {
                let mut c = Command::new("z3-new");
                c.args(["-in", "-smt2"]);
                c
            }
            Kind::Z3Old => {
                let mut c = Command::new("z3");
                c.args(["-in", "-smt2"]);
                c
            }
            Kind::Cvc5 => {
                let mut c = Command::new("cvc5");
                c.args(["--lang=smt2", "--incremental", "-q"]);
                c
            }
        };
        c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        let mut ch = c.spawn().expect("cannot start solver");
        let sin = ch.stdin.take().unwrap();
        let out = ch.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let r = BufReader::new(out);
            for l in r.lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        self.child = Some((ch, sin, rx));
    }

    pub fn kill(&mut self) {
        if let Some((mut ch, _, _)) = self.child.take() {
            let _ = ch.kill();
            let _ = ch.wait();
        }
    }

    /// Sends one self-contained query; returns the verdict and the raw output lines after it.
    pub fn query(&mut self, logic: &str, body: &str, want: &str, timeout_ms: u64) -> (Verdict, String) {
        let mut s = String::with_capacity(body.len() + 512);
        match self.kind {
            Kind::Z3New | Kind::Z3Old => {
                s.push_str("(reset)\n(set-option :print-success false)\n");
                s.push_str(&format!("(set-option :timeout {})\n", timeout_ms));
                s.push_str("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 18)\n");
                s.push_str("(set-option :produce-models true)\n");
                s.push_str(&format!("(set-logic {})\n", logic));
            }
            Kind::Cvc5 => {
                // fresh process for each query (no reliable reset of options)
                self.kill();
                s.push_str(&format!("(set-option :tlimit-per {})\n", timeout_ms));
                s.push_str(&format!("(set-logic {})\n", logic));
            }
        }
        s.push_str(body);
        s.push_str("(check-sat)\n");
        s.push_str("(echo \"MID\")\n");
        s.push_str(want);
        s.push_str("(echo \"DONE\")\n");
        self.start();
        let ok = {
            let (_, sin, _) = self.child.as_mut().unwrap();
            sin.write_all(s.as_bytes()).and_then(|_| sin.flush()).is_ok()
        };
        if !ok {
            self.kill();
            return (Verdict::Unknown, String::new());
        }
        let deadline = Instant::now() + Duration::from_millis(timeout_ms * 2 + 2000);
        let mut v = Verdict::Unknown;
        let mut err = false;
        let mut mid = false;
        let mut out = String::new();
        loop {
            let left = deadline.saturating_duration_since(Instant::now());
            let r = {
                let (_, _, rx) = self.child.as_mut().unwrap();
                rx.recv_timeout(left)
            };
            match r {
                Ok(l) => {
                    let t = l.trim();
                    if t == "DONE" || t == "\"DONE\"" {
                        break;
                    }
                    if t == "MID" || t == "\"MID\"" {
                        mid = true;
                        continue;
                    }
                    if !mid {
                        match t {
                            "sat" => v = Verdict::Sat,
                            "unsat" => v = Verdict::Unsat,
                            "unknown" | "timeout" => v = Verdict::Unknown,
                            _ => {
                                if t.contains("error") {
                                    err = true;
                                    if std::env::var("SYMX_DEBUG").is_ok() {
                                        eprintln!("solver error: {}", t);
                                    }
                                }
                            }
                        }
                    } else {
                        out.push_str(&l);
                        out.push('\n');
                    }
                }
                Err(_) => {
                    self.kill();
                    return (Verdict::Unknown, String::new());
                }
            }
        }
        if err {
            v = Verdict::Unknown;
        }
        (v, out)
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        self.kill();
    }
}
