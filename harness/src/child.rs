//! Running the system under test in a process of its own, in a directory of its own.
use serde::{de::DeserializeOwned, Serialize};
use std::os::unix::process::parent_id;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Out {
    /// None: ended by a signal or by the time limit
    pub code: Option<i32>,
    pub timeout: bool,
    pub stdout: String,
    pub stderr: String,
}

impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn tail(&self) -> String {
        let t: Vec<&str> = self.stderr.lines().collect();
        t[t.len().saturating_sub(6)..].join(" / ").chars().take(500).collect()
    }
}

/// Runs a program in `dir` with reproducible entropy; `input` is fed to it.
pub fn run(exe: &Path, args: &[String], dir: &Path, seed: u64, input: &str, limit_s: u64) -> Out {
    let log = crate::runner::scratch();
    let (o, e, i) = (log.join("child.out"), log.join("child.err"), log.join("child.in"));
    std::fs::write(&i, input).expect("input");
    let mut c = Command::new(exe)
        .args(args)
        .current_dir(dir)
        .env("VERIF_ENTROPY", seed.to_string())
        .env("VERIF_CHILD", "1")
        .env("OMP_NUM_THREADS", "1")
        .env("MKL_NUM_THREADS", "1")
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::from(std::fs::File::open(&i).expect("input")))
        .stdout(Stdio::from(std::fs::File::create(&o).expect("output")))
        .stderr(Stdio::from(std::fs::File::create(&e).expect("output")))
        .spawn()
        .expect("spawn child");
    let start = Instant::now();
    let mut timeout = false;
    let code = loop {
        match c.try_wait().expect("wait") {
            Some(s) => break s.code(),
            None if start.elapsed() > Duration::from_secs(limit_s) => {
                let _ = c.kill();
                let _ = c.wait();
                timeout = true;
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(3)),
        }
    };
    let read = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
    Out { code, timeout, stdout: read(&o), stderr: read(&e) }
}

/// Runs this program again as the servant of a job.
pub fn call<J: Serialize>(job: &J, dir: &Path, seed: u64, limit_s: u64) -> Out {
    let f = crate::runner::scratch().join("job.json");
    std::fs::write(&f, serde_json::to_vec(job).unwrap()).expect("job");
    run(&std::env::current_exe().unwrap(), &["--child".into(), f.display().to_string()], dir, seed, "", limit_s)
}

/// To be called first in main: when this process is such a servant, it does the job and ends.
pub fn serve<J: DeserializeOwned>(f: impl FnOnce(J)) {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) != Some("--child") {
        return;
    }
    let parent = parent_id();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        if parent_id() != parent {
            std::process::exit(124);
        }
    });
    let job: J = serde_json::from_slice(&std::fs::read(&a[2]).expect("job")).expect("job");
    let seed: u64 = std::env::var("VERIF_ENTROPY").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    tch::manual_seed((seed >> 1) as i64);
    f(job);
    std::process::exit(0);
}

/// The command-line program built along with this check.
pub fn cli() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("cli")
}
