//! Child processes that execute scenarios, so that a crash or a hang is an observation.

use crate::child::EXIT_FATAL;
use crate::scenario::{Counters, Scenario};
use serde::{Deserialize, Serialize};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Ask {
    Seed { prop: String, seed: u64 },
    Run { sc: Box<Scenario> },
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Answer {
    pub ok: bool,
    pub class: String,
    pub msg: String,
    pub evals: u64,
    pub nontrivial: u64,
    pub exact: u64,
    pub counters: Counters,
    pub interleaving: u64,
    pub out_hash: u64,
    pub ops: u64,
    pub points: u64,
    #[serde(default)]
    pub trace: Vec<(u64, u32)>,
    /// the property's known findings this run met
    #[serde(default)]
    pub known: Vec<String>,
    /// edges of the library this process reached for the first time
    #[serde(default)]
    pub reached: Vec<u32>,
}

pub struct Proc {
    child: Child,
    stdin: ChildStdin,
    out: BufReader<ChildStdout>,
    /// when to kill it
    deadline: Arc<Mutex<Option<Instant>>>,
    done: Arc<std::sync::atomic::AtomicBool>,
}

impl Proc {
    pub fn spawn(exe: &str, core: usize) -> std::io::Result<Proc> {
        let mut child = Command::new(exe).arg("child").arg(core.to_string()).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(if std::env::var("IOSIM_SHOW").is_ok() { Stdio::inherit() } else { Stdio::null() }).spawn()?;
        let stdin = child.stdin.take().unwrap();
        let out = BufReader::with_capacity(1 << 16, child.stdout.take().unwrap());
        let deadline = Arc::new(Mutex::new(None));
        let done = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let (d, f, pid) = (deadline.clone(), done.clone(), child.id() as i32);
        std::thread::spawn(move || {
            extern "C" {
                fn kill(pid: i32, sig: i32) -> i32;
            }
            loop {
                std::thread::sleep(Duration::from_millis(200));
                if f.load(std::sync::atomic::Ordering::Relaxed) {
                    return;
                }
                let g: std::sync::MutexGuard<Option<Instant>> = d.lock().unwrap();
                if let Some(t) = *g {
                    if Instant::now() > t && !f.load(std::sync::atomic::Ordering::Relaxed) {
                        unsafe { kill(pid, 9) };
                        return;
                    }
                }
            }
        });
        Ok(Proc { child, stdin, out, deadline, done })
    }

    /// None: the machinery failed (not the code under test)
    pub fn ask(&mut self, q: &Ask, wall: Duration) -> Result<Answer, Answer> {
        *self.deadline.lock().unwrap() = Some(Instant::now() + wall);
        let mut s = serde_json::to_string(q).unwrap();
        s.push('\n');
        let mut fatal = String::new();
        let mut lines = String::new();
        if self.stdin.write_all(s.as_bytes()).and_then(|_| self.stdin.flush()).is_ok() {
            loop {
                lines.clear();
                match self.out.read_line(&mut lines) {
                    Ok(n) if n > 0 => {
                        if let Some(r) = lines.strip_prefix("R ") {
                            if let Ok(a) = serde_json::from_str::<Answer>(r) {
                                *self.deadline.lock().unwrap() = None;
                                return Ok(a);
                            }
                        }
                        if let Some(f) = lines.strip_prefix("FATAL ") {
                            fatal = f.trim().to_string();
                        }
                    }
                    _ => break,
                }
            }
        }
        // dead
        let timed_out = self.deadline.lock().unwrap().map(|t| Instant::now() > t).unwrap_or(false);
        let st = self.child.wait();
        self.done.store(true, std::sync::atomic::Ordering::Relaxed);
        use std::os::unix::process::ExitStatusExt;
        let (class, msg) = match st {
            Ok(st) if st.code() == Some(EXIT_FATAL) || !fatal.is_empty() => {
                let c = if fatal.contains("processor time") {
                    "hang"
                } else if fatal.contains("memory") {
                    "memory"
                } else if fatal.contains("deadlock") {
                    "deadlock"
                } else if fatal.contains("budget") || fatal.contains("events") {
                    "livelock"
                } else {
                    "fatal"
                };
                (c.to_string(), fatal)
            }
            Ok(st) => match st.signal() {
                Some(9) if timed_out => ("stuck".to_string(), format!("no answer within {:?}", wall)),
                Some(9) => ("killed".to_string(), "the process was killed from outside".to_string()),
                Some(s) => ("crash".to_string(), format!("the process died of signal {}", s)),
                None => ("crash".to_string(), format!("the process ended with exit code {:?}", st.code())),
            },
            Err(e) => ("killed".to_string(), e.to_string()),
        };
        Err(Answer { ok: false, class, msg, ..Default::default() })
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        self.done.store(true, std::sync::atomic::Ordering::Relaxed);
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// a child that is replaced when it dies
pub struct Server {
    exe: String,
    core: usize,
    proc: Option<Proc>,
    pub restarts: u64,
}

impl Server {
    pub fn new(exe: &str, core: usize) -> Self {
        Server { exe: exe.into(), core, proc: None, restarts: 0 }
    }
    pub fn fresh(&mut self) {
        self.proc = None;
    }
    pub fn ask(&mut self, q: &Ask, wall: Duration) -> Answer {
        if self.proc.is_none() {
            self.proc = Proc::spawn(&self.exe, self.core).ok();
            self.restarts += 1;
        }
        let Some(p) = self.proc.as_mut() else {
            return Answer { class: "killed".into(), msg: "cannot start a child process".into(), ..Default::default() };
        };
        match p.ask(q, wall) {
            Ok(a) => a,
            Err(a) => {
                self.proc = None;
                a
            }
        }
    }
}
