//! Running the real `oro` command line (this binary re-executes itself as `oro`).
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct CliOut {
    /// None: killed by the time limit or a signal.
    pub code: Option<i32>,
    pub stdout: String,
    pub stderr: String,
}

pub struct Cli {
    pub home: PathBuf,
    pub cwd: PathBuf,
    pub env: Vec<(String, String)>,
    pub timeout: Duration,
}

impl Cli {
    /// `home`: scratch home (config, cache); `cwd`: the project.
    pub fn new(home: &Path, cwd: &Path) -> Self {
        std::fs::create_dir_all(home).unwrap();
        std::fs::create_dir_all(cwd).unwrap();
        Cli { home: home.into(), cwd: cwd.into(), env: vec![], timeout: Duration::from_secs(60) }
    }

    pub fn command(&self, args: &[&str]) -> Command {
        let mut c = Command::new(std::env::current_exe().unwrap());
        let h = &self.home;
        c.args(args)
            .current_dir(&self.cwd)
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("OROMC_AS_ORO", "1")
            .env("HOME", h)
            .env("XDG_CONFIG_HOME", h.join("config"))
            .env("XDG_CACHE_HOME", h.join("cache"))
            .env("XDG_DATA_HOME", h.join("data"))
            .env("TMPDIR", h)
            .env("CI", "true")
            .env("NO_COLOR", "1")
            .env("SSL_CERT_FILE", "/dev/null")
            .env("SSL_CERT_DIR", "/nonexistent")
            .stdin(Stdio::null());
        for (k, v) in &self.env {
            c.env(k, v);
        }
        c
    }

    pub fn run(&self, args: &[&str]) -> CliOut {
        run(self.command(args), self.timeout)
    }

    pub fn config_file(&self) -> PathBuf {
        self.home.join("config/orogene/oro.kdl")
    }
}

pub fn run(mut c: Command, timeout: Duration) -> CliOut {
    let mut ch = c.stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("spawn");
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let a = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = so.read_to_end(&mut b);
        String::from_utf8_lossy(&b).into_owned()
    });
    let b = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = se.read_to_end(&mut b);
        String::from_utf8_lossy(&b).into_owned()
    });
    let start = Instant::now();
    let mut pause = 1;
    let code = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s.code(),
            Ok(None) => {
                if start.elapsed() > timeout {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(pause));
                pause = (pause + 1).min(10);
            }
            Err(_) => break None,
        }
    };
    CliOut { code, stdout: a.join().unwrap(), stderr: b.join().unwrap() }
}
