//! Running a child process under ptrace: every system call that changes the
//! filesystem is counted, and the child can be killed right after the k-th one
//! (optionally with that write only half done).
use std::collections::HashMap;
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::Command;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Crash {
    /// Number of changes after which the child is killed (0: before the first).
    pub after: usize,
    /// The last change is a write of which only half gets through.
    pub torn: bool,
}

/// Failing system calls.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fault {
    /// Which of the calls of the kind fails (from 1).
    pub at: usize,
    /// And all of the kind after it (except for removals).
    pub forever: bool,
    pub errno: i32,
    /// Files being opened for reading and directories being listed fail, instead of changes.
    pub reads: bool,
}

#[derive(Debug)]
pub struct Traced {
    /// What failed.
    pub failed: Vec<String>,
    /// Exit code, None when killed.
    pub code: Option<i32>,
    /// The changes, in order.
    pub ops: Vec<&'static str>,
    pub killed: bool,
    pub timed_out: bool,
    /// Calls that can be made to fail: changes, reads.
    pub calls: [usize; 2],
    /// Whether a write was cut in half.
    pub torn: bool,
}

fn name(nr: i64, regs: &libc::user_regs_struct) -> Option<&'static str> {
    let creates = |flags: u64| flags & (libc::O_CREAT | libc::O_TRUNC) as u64 != 0;
    Some(match nr {
        libc::SYS_open if creates(regs.rsi) => "open",
        libc::SYS_openat if creates(regs.rdx) => "open",
        libc::SYS_creat => "open",
        libc::SYS_write => "write",
        libc::SYS_pwrite64 => "write",
        libc::SYS_writev => "writev",
        libc::SYS_ftruncate | libc::SYS_truncate => "truncate",
        libc::SYS_fallocate => "fallocate",
        libc::SYS_rename | libc::SYS_renameat | libc::SYS_renameat2 => "rename",
        libc::SYS_unlink | libc::SYS_unlinkat | libc::SYS_rmdir => "unlink",
        libc::SYS_mkdir | libc::SYS_mkdirat => "mkdir",
        libc::SYS_symlink | libc::SYS_symlinkat => "symlink",
        libc::SYS_link | libc::SYS_linkat => "link",
        libc::SYS_chmod | libc::SYS_fchmod | libc::SYS_fchmodat => "chmod",
        libc::SYS_copy_file_range | libc::SYS_sendfile => "copy",
        _ => return None,
    })
}

/// As `name`, for what can be made to fail; and the path it's about.
fn faulty(pid: i32, nr: i64, regs: &libc::user_regs_struct, scope: &Path) -> Option<(bool, &'static str, std::path::PathBuf)> {
    let at = |a: u64| text(pid, a).filter(|p| p.starts_with(scope));
    let fd = |f: u64| Some(path_of(pid, f)).filter(|p| p.starts_with(scope));
    let plain = |flags: u64| flags & (libc::O_CREAT | libc::O_TRUNC) as u64 == 0;
    let (read, op, path) = match nr {
        libc::SYS_open => (plain(regs.rsi), "open", at(regs.rdi)),
        libc::SYS_openat => (plain(regs.rdx), "open", at(regs.rsi)),
        libc::SYS_creat | libc::SYS_truncate | libc::SYS_mkdir => (false, "create", at(regs.rdi)),
        libc::SYS_write | libc::SYS_pwrite64 | libc::SYS_writev | libc::SYS_ftruncate | libc::SYS_fallocate | libc::SYS_fsync | libc::SYS_fdatasync => (false, "write", fd(regs.rdi)),
        libc::SYS_sendfile => (false, "write", fd(regs.rdi)),
        libc::SYS_copy_file_range => (false, "write", fd(regs.rdx)),
        libc::SYS_rename => (false, "rename", at(regs.rsi)),
        libc::SYS_renameat | libc::SYS_renameat2 => (false, "rename", at(regs.r10)),
        libc::SYS_link | libc::SYS_symlink => (false, "link", at(regs.rsi)),
        libc::SYS_symlinkat => (false, "link", at(regs.rdx)),
        libc::SYS_linkat => (false, "link", at(regs.r10)),
        libc::SYS_mkdirat => (false, "create", at(regs.rsi)),
        libc::SYS_unlink | libc::SYS_rmdir => (false, "remove", at(regs.rdi)),
        libc::SYS_unlinkat => (false, "remove", text(pid, regs.rsi).map(|p| path_of(pid, regs.rdi).join(p)).filter(|p| p.starts_with(scope))),
        libc::SYS_chmod => (false, "chmod", at(regs.rdi)),
        libc::SYS_fchmod => (false, "chmod", fd(regs.rdi)),
        libc::SYS_fchmodat => (false, "chmod", at(regs.rsi)),
        _ => return None,
    };
    Some((read, op, path?))
}

/// Text in the child's memory.
fn text(pid: i32, at: u64) -> Option<std::path::PathBuf> {
    use std::os::unix::ffi::OsStringExt;
    let mut v = vec![];
    while v.len() < 4096 {
        // Not across the end of a page, which may be that of the mapping.
        let n = 4096 - (at as usize + v.len()) % 4096;
        let mut b = vec![0u8; n];
        let l = libc::iovec { iov_base: b.as_mut_ptr() as *mut _, iov_len: n };
        let r = libc::iovec { iov_base: (at as usize + v.len()) as *mut _, iov_len: n };
        if unsafe { libc::process_vm_readv(pid, &l, 1, &r, 1, 0) } != n as isize {
            return None;
        }
        if let Some(z) = b.iter().position(|c| *c == 0) {
            v.extend_from_slice(&b[..z]);
            return Some(std::ffi::OsString::from_vec(v).into());
        }
        v.extend(b);
    }
    None
}

/// Whether an fd of the child is a file below `scope`.
fn in_scope(pid: i32, fd: u64, scope: &Path) -> bool {
    path_of(pid, fd).starts_with(scope)
}

fn path_of(pid: i32, fd: u64) -> std::path::PathBuf {
    std::fs::read_link(format!("/proc/{pid}/fd/{}", fd as i32)).unwrap_or_default()
}

/// Runs the command; its processes (but not what they execute) are watched.
pub fn run(c: Command, scope: &Path, crash: Option<Crash>, timeout: Duration) -> std::io::Result<Traced> {
    run_faulty(c, scope, crash, None, timeout)
}

/// Runs the command; `step` is called before each operation on a file in `scope`, reads included,
/// and may wait.
pub fn run_stepped(c: Command, scope: &Path, timeout: Duration, step: &mut dyn FnMut(&'static str, &Path)) -> std::io::Result<Traced> {
    watch(c, scope, None, None, timeout, Some(step), None)
}

/// Runs the command, with what random number generators are seeded with decided by `dice`.
pub fn run_diced(c: Command, scope: &Path, dice: u64, crash: Option<Crash>, fault: Option<Fault>, timeout: Duration) -> std::io::Result<Traced> {
    watch(c, scope, crash, fault, timeout, None, Some(dice))
}

pub fn run_faulty(c: Command, scope: &Path, crash: Option<Crash>, fault: Option<Fault>, timeout: Duration) -> std::io::Result<Traced> {
    watch(c, scope, crash, fault, timeout, None, None)
}

/// Further calls that see what is in files, or which there are.
fn looks(pid: i32, nr: i64, regs: &libc::user_regs_struct, scope: &Path) -> Option<(&'static str, std::path::PathBuf)> {
    let at = |a: u64| text(pid, a).filter(|p| p.starts_with(scope));
    let fd = |f: u64| Some(path_of(pid, f)).filter(|p| p.starts_with(scope));
    let (op, path) = match nr {
        libc::SYS_stat | libc::SYS_lstat | libc::SYS_access | libc::SYS_readlink => ("look", at(regs.rdi)),
        libc::SYS_newfstatat | libc::SYS_statx | libc::SYS_faccessat | libc::SYS_readlinkat => ("look", at(regs.rsi)),
        libc::SYS_read | libc::SYS_pread64 | libc::SYS_getdents64 => ("read", fd(regs.rdi)),
        libc::SYS_mmap => ("map", if regs.r8 as i32 >= 0 { fd(regs.r8) } else { None }),
        // From a file of the cache to one elsewhere.
        libc::SYS_sendfile => ("read", fd(regs.rsi)),
        libc::SYS_copy_file_range => ("read", fd(regs.rdi)),
        libc::SYS_link => ("link", at(regs.rdi)),
        libc::SYS_linkat => ("link", at(regs.rsi)),
        _ => return None,
    };
    Some((op, path?))
}

fn watch(mut c: Command, scope: &Path, crash: Option<Crash>, fault: Option<Fault>, timeout: Duration, mut step: Option<&mut dyn FnMut(&'static str, &Path)>, dice: Option<u64>) -> std::io::Result<Traced> {
    unsafe {
        c.pre_exec(|| {
            // Not to outlive the harness, and its own group, to be ended together.
            libc::setpgid(0, 0);
            if libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let child = c.spawn()?;
    let main = child.id() as i32;
    let mut out = Traced { code: None, ops: vec![], killed: false, timed_out: false, torn: false, failed: vec![], calls: [0; 2] };
    // The change that a stopped task is about to make.
    let mut entered: HashMap<i32, Option<&'static str>> = HashMap::new();
    let kill = || unsafe {
        libc::kill(-main, libc::SIGKILL);
        libc::kill(main, libc::SIGKILL);
    };
    let mut failing: HashMap<i32, i32> = HashMap::new();
    let mut done = 0;
    let mut begun = false;
    let (over, watch) = std::sync::mpsc::channel::<()>();
    let dog = std::thread::spawn(move || {
        if let Err(std::sync::mpsc::RecvTimeoutError::Timeout) = watch.recv_timeout(timeout) {
            unsafe { libc::kill(main, libc::SIGKILL) };
            return true;
        }
        false
    });
    loop {
        let mut st = 0;
        let pid = unsafe { libc::waitpid(-1, &mut st, libc::__WALL | libc::__WNOTHREAD) };
        if pid < 0 {
            break;
        }
        if libc::WIFEXITED(st) || libc::WIFSIGNALED(st) {
            if pid == main {
                if libc::WIFEXITED(st) {
                    out.code = Some(libc::WEXITSTATUS(st));
                }
                break;
            }
            continue;
        }
        if !libc::WIFSTOPPED(st) {
            continue;
        }
        let sig = libc::WSTOPSIG(st);
        let mut deliver = 0;
        if !begun {
            // The stop after exec.
            begun = true;
            let opts = libc::PTRACE_O_TRACESYSGOOD | libc::PTRACE_O_TRACECLONE | libc::PTRACE_O_EXITKILL;
            unsafe { libc::ptrace(libc::PTRACE_SETOPTIONS, pid, 0, opts) };
            if crash.map(|c| c.after) == Some(0) {
                out.killed = true;
                kill();
                continue;
            }
        } else if sig == libc::SIGTRAP | 0x80 {
            let mut regs: libc::user_regs_struct = unsafe { std::mem::zeroed() };
            if unsafe { libc::ptrace(libc::PTRACE_GETREGS, pid, 0, &mut regs) } == 0 {
                match entered.remove(&pid) {
                    None => {
                        let nr = regs.orig_rax as i64;
                        if let Some(step) = &mut step {
                            if let Some((op, path)) = faulty(pid, nr, &regs, scope).map(|f| (f.1, f.2)).or_else(|| looks(pid, nr, &regs, scope)) {
                                step(op, &path);
                            }
                        }
                        let op = name(nr, &regs).filter(|op| match *op {
                            "write" | "writev" | "fallocate" => in_scope(pid, regs.rdi, scope),
                            "truncate" => nr == libc::SYS_truncate || in_scope(pid, regs.rdi, scope),
                            "copy" => in_scope(pid, if nr == libc::SYS_sendfile { regs.rdi } else { regs.rdx }, scope),
                            _ => true,
                        });
                        if let Some(c) = crash {
                            if c.torn && c.after == done + 1 && op == Some("write") && regs.rdx > 1 {
                                out.torn = true;
                                regs.rdx /= 2;
                                unsafe { libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &regs) };
                            }
                        }
                        // What is written directly in the project is told apart.
                        let op = match op {
                            Some("write") if path_of(pid, regs.rdi).parent() == Some(scope.join("proj").as_path()) => Some("write in the project"),
                            op => op,
                        };
                        let op = if nr == libc::SYS_getrandom && dice.is_some() { Some("getrandom") } else { op };
                        entered.insert(pid, op);
                        if let Some((read, op, path)) = faulty(pid, nr, &regs, scope) {
                            // Logs fail along with everything else, but not by themselves.
                            let log = path.components().any(|c| c.as_os_str() == "_logs");
                            out.calls[read as usize] += !log as usize;
                            let n = out.calls[read as usize];
                            let hit = fault.filter(|f| f.reads == read && (f.at == n && !log || f.forever && f.at <= n && op != "remove"));
                            if let Some(f) = hit {
                                out.failed.push(format!("{op} {}", path.strip_prefix(scope).unwrap_or(&path).display()));
                                failing.insert(pid, f.errno);
                                regs.orig_rax = u64::MAX;
                                unsafe { libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &regs) };
                            }
                        }
                    }
                    Some(_) if failing.contains_key(&pid) => {
                        regs.rax = -(failing.remove(&pid).unwrap() as i64) as u64;
                        unsafe { libc::ptrace(libc::PTRACE_SETREGS, pid, 0, &regs) };
                    }
                    Some(Some("getrandom")) => {
                        // Seeds of generators, but not what names and the like are made of.
                        if regs.rax == 32 {
                            let d = dice.unwrap_or_default();
                            let mut seed: Vec<u8> = (0..4u64).flat_map(|i| (d.wrapping_mul(0x9e3779b97f4a7c15) ^ i).to_le_bytes()).collect();
                            let l = libc::iovec { iov_base: seed.as_mut_ptr() as *mut _, iov_len: 32 };
                            let r = libc::iovec { iov_base: regs.rdi as *mut _, iov_len: 32 };
                            unsafe { libc::process_vm_writev(pid, &l, 1, &r, 1, 0) };
                        }
                    }
                    Some(Some(op)) if (regs.rax as i64) >= 0 => {
                        done += 1;
                        out.ops.push(op);
                        if crash.map(|c| c.after) == Some(done) {
                            out.killed = true;
                            kill();
                            continue;
                        }
                    }
                    Some(_) => {}
                }
            }
        } else if sig == libc::SIGTRAP && (st >> 16) != 0 {
            // A new thread: it is watched automatically.
        } else if sig == libc::SIGSTOP && pid != main {
            // The first stop of a new thread.
        } else if sig != libc::SIGTRAP {
            deliver = sig;
        }
        unsafe { libc::ptrace(libc::PTRACE_SYSCALL, pid, 0, deliver) };
    }
    drop(over);
    out.timed_out = dog.join().unwrap_or(false);
    // Leftover scripts of a killed command.
    kill();
    Ok(out)
}
