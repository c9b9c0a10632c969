// SMT solver processes: text protocol, one process per solver kept alive, (reset) between queries.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    Unsat,
    Sat(Vec<String>), // values, in the order asked for
    Unknown,
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}

pub struct Solver {
    cmd: Vec<String>,
    cvc: bool,
    proc_: Option<Proc>,
    pub queries: u64,
    pub time: Duration,
    pub unknowns: u64,
}

impl Solver {
    pub fn z3() -> Solver {
        Solver::new(&["z3-new", "-in", "-smt2"], false)
    }
    pub fn z3_old() -> Solver {
        Solver::new(&["z3", "-in", "-smt2"], false)
    }
    pub fn cvc5() -> Solver {
        Solver::new(&["cvc5", "--incremental", "--lang=smt2", "--produce-models", "--nl-cov"], true)
    }
    fn new(cmd: &[&str], cvc: bool) -> Solver {
        Solver { cmd: cmd.iter().map(|s| s.to_string()).collect(), cvc, proc_: None, queries: 0, time: Duration::ZERO, unknowns: 0 }
    }
    fn start(&mut self) {
        let mut child = Command::new(&self.cmd[0])
            .args(&self.cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("VT-ENGINE: cannot start {}: {}", self.cmd[0], e));
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        self.proc_ = Some(Proc { child, inp, out });
    }
    fn kill(&mut self) {
        if let Some(mut p) = self.proc_.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
    // body: declarations and assertions; vals: terms whose values are wanted
    pub fn check(&mut self, body: &str, nonlinear: bool, vals: &[String], timeout_ms: u64) -> Ans {
        let t0 = Instant::now();
        let r = self.check_inner(body, nonlinear, vals, timeout_ms);
        self.queries += 1;
        self.time += t0.elapsed();
        if r == Ans::Unknown {
            self.unknowns += 1;
        }
        if let Ok(d) = std::env::var("VT_SLOW") {
            if t0.elapsed().as_millis() as u64 >= d.parse::<u64>().unwrap() {
                let f = format!("/tmp/slow-{}-{}.smt2", std::process::id(), self.queries);
                let _ = std::fs::write(&f, format!("; {:?} {:?}\n{}(check-sat)\n", t0.elapsed(), r, body));
            }
        }
        r
    }
    fn check_inner(&mut self, body: &str, nonlinear: bool, vals: &[String], timeout_ms: u64) -> Ans {
        if self.proc_.is_none() {
            self.start();
        }
        let mut s = String::with_capacity(body.len() + 200);
        s.push_str("(reset)\n");
        if self.cvc {
            s.push_str(&format!("(set-option :tlimit-per {})\n(set-option :produce-models true)\n", timeout_ms));
        } else {
            s.push_str(&format!("(set-option :timeout {})\n", timeout_ms));
        }
        s.push_str(if nonlinear { "(set-logic QF_NRA)\n" } else { "(set-logic QF_LRA)\n" });
        s.push_str(body);
        s.push_str("(check-sat)\n(echo \"vt-done\")\n");
        let wd = Duration::from_millis(timeout_ms * 2 + 3000);
        let ans = match self.talk(&s, wd) {
            None => return Ans::Unknown,
            Some(l) => l,
        };
        if ans.iter().any(|l| l.starts_with("(error")) {
            if std::env::var("VT_DEBUG").is_ok() {
                eprintln!("SOLVER ERROR {:?}\n{}", ans, s);
            }
            return Ans::Unknown;
        }
        match ans.last().map(|s| s.as_str()) {
            Some("unsat") => Ans::Unsat,
            Some("sat") => {
                if vals.is_empty() {
                    return Ans::Sat(vec![]);
                }
                let q = format!("(get-value ({}))\n(echo \"vt-done\")\n", vals.join(" "));
                match self.talk(&q, Duration::from_secs(20)) {
                    None => Ans::Unknown,
                    Some(l) => {
                        let txt = l.join(" ");
                        match parse_values(&txt, vals.len()) {
                            Some(v) => Ans::Sat(v),
                            None => Ans::Unknown,
                        }
                    }
                }
            }
            _ => Ans::Unknown,
        }
    }
    fn talk(&mut self, s: &str, limit: Duration) -> Option<Vec<String>> {
        // a watchdog kills a solver that ignores its own time limit
        let pid = self.proc_.as_ref().unwrap().child.id();
        let done = std::sync::Arc::new((std::sync::Mutex::new(false), std::sync::Condvar::new()));
        let d2 = done.clone();
        let th = std::thread::spawn(move || {
            let (m, c) = &*d2;
            let g = m.lock().unwrap();
            let (g, _) = c.wait_timeout_while(g, limit, |d| !*d).unwrap();
            if !*g {
                let _ = Command::new("kill").arg("-9").arg(pid.to_string()).status();
            }
        });
        let r = self.talk_inner(s);
        {
            let (m, c) = &*done;
            *m.lock().unwrap() = true;
            c.notify_all();
        }
        let _ = th.join();
        if r.is_none() {
            self.kill();
        }
        r
    }
    fn talk_inner(&mut self, s: &str) -> Option<Vec<String>> {
        let p = self.proc_.as_mut().unwrap();
        p.inp.write_all(s.as_bytes()).ok()?;
        p.inp.flush().ok()?;
        let mut out = vec![];
        loop {
            let mut l = String::new();
            if p.out.read_line(&mut l).ok()? == 0 {
                return None;
            }
            let l = l.trim().to_string();
            if l == "vt-done" || l == "\"vt-done\"" {
                return Some(out);
            }
            if !l.is_empty() {
                out.push(l);
            }
        }
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        self.kill()
    }
}

// ((a0 1.0) (a1 (/ 1.0 3.0)) (a2 (root-obj ...))) -> texts of the values
fn parse_values(s: &str, n: usize) -> Option<Vec<String>> {
    let b = s.as_bytes();
    let mut i = s.find('(')? + 1;
    let mut out = vec![];
    while out.len() < n {
        while i < b.len() && b[i] != b'(' {
            i += 1;
        }
        i += 1;
        // skip the name (an atom)
        while i < b.len() && b[i] != b' ' {
            i += 1;
        }
        let st = i;
        let mut depth = 0i32;
        while i < b.len() {
            match b[i] {
                b'(' => depth += 1,
                b')' => {
                    if depth == 0 {
                        break;
                    }
                    depth -= 1
                }
                _ => {}
            }
            i += 1;
        }
        if i >= b.len() {
            return None;
        }
        out.push(s[st..i].trim().to_string());
        i += 1;
    }
    Some(out)
}
