#![allow(dead_code)]
mod c01;
mod c03;
mod c04;
mod c05;
mod cli;
mod drive;
mod gate;
mod gen;
mod http;
mod c06;
mod i01;
mod i03;
mod i04;
mod i05;
mod i06;
mod i08;
mod probe;
mod r01;
mod r02;
mod r03;
mod r04;
mod r05;
mod report;
mod r06;
mod s01;
mod s02;
mod s03;
mod s04;
mod s05;
mod s06;
mod semv;
mod snap;
mod s07;
mod t01;
mod t02;
mod t03;
mod t04;
mod t05;
mod tarb;
mod trace;
mod tree;
mod uni;

use report::Ctx;

type Check = (&'static str, fn(bool) -> Ctx, fn(&Ctx));

const CHECKS: &[Check] = &[
    ("R01", r01::ctx, r01::run),
    ("R02", r02::ctx, r02::run),
    ("R03", r03::ctx, r03::run),
    ("R04", r04::ctx, r04::run),
    ("R05", r05::ctx, r05::run),
    ("S07", s07::ctx, s07::run),
    ("T01", t01::ctx, t01::run),
    ("T02", t02::ctx, t02::run),
    ("T03", t03::ctx, t03::run),
    ("T04", t04::ctx, t04::run),
    ("T05", t05::ctx, t05::run),
    ("C06", c06::ctx, c06::run),
    ("I01", i01::ctx1, i01::run1),
    ("I02", i01::ctx2, i01::run2),
    ("I03", i03::ctx, i03::run),
    ("I04", i04::ctx, i04::run),
    ("I05", i05::ctx, i05::run),
    ("I06", i06::ctx6, i06::run6),
    ("I08", i08::ctx, i08::run),
    ("I07", i06::ctx7, i06::run7),
    ("C01", c01::ctx1, c01::run1),
    ("C02", c01::ctx2, c01::run2),
    ("C03", c03::ctx, c03::run),
    ("C04", c04::ctx, c04::run),
    ("C05", c05::ctx, c05::run),
    ("R06", r06::ctx, r06::run),
    ("S01", s01::ctx, s01::run),
    ("S02", s02::ctx, s02::run),
    ("S03", s03::ctx, s03::run),
    ("S04", s04::ctx, s04::run),
    ("S05", s05::ctx, s05::run),
    ("S06", s06::ctx, s06::run),
];

fn main() {
    // What the caller ignores or masks must not decide what the checks see.
    for s in [libc::SIGHUP, libc::SIGINT, libc::SIGQUIT, libc::SIGTERM, libc::SIGUSR1, libc::SIGUSR2, libc::SIGALRM] {
        unsafe { libc::signal(s, libc::SIG_DFL) };
    }
    unsafe {
        let mut set: libc::sigset_t = std::mem::zeroed();
        libc::sigemptyset(&mut set);
        libc::sigprocmask(libc::SIG_SETMASK, &set, std::ptr::null_mut());
        libc::umask(0o022);
    }

    if std::env::var_os("OROMC_AS_ORO").is_some() {
        std::process::exit(match async_std::task::block_on(orogene::Orogene::load()) {
            Ok(_) => 0,
            Err(e) => {
                eprintln!("{e:?}");
                1
            }
        });
    }
    // Plain HTTP only: loading the certificate store for every client would dominate.
    std::env::set_var("SSL_CERT_FILE", "/dev/null");
    std::env::set_var("SSL_CERT_DIR", "/nonexistent");
    std::env::remove_var("http_proxy");
    std::env::remove_var("HTTP_PROXY");
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("t04-install") => t04::helper(&args[2..]),
        Some("i06-apply") => i06::helper(&args[2..]),
        Some("script-probe") => s06::helper(&args[2..]),
        Some("probe") => probe::run(&args[2..]),
        Some("check") => {
            let id = args.get(2).cloned().unwrap_or_default();
            let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
                || args.get(3).map(|s| s == "thorough").unwrap_or(false);
            let Some((_, ctx, run)) = CHECKS.iter().find(|c| c.0 == id) else {
                eprintln!("no check {id}");
                std::process::exit(2)
            };
            std::panic::set_hook(Box::new(|i| {
                if std::env::var_os("OROMC_PANICS").is_some() {
                    eprintln!("{i}");
                }
            }));
            let c = ctx(thorough);
            run(&c);
            std::process::exit(c.finish());
        }
        _ => {
            eprintln!("usage: oromc check ID [thorough]");
            std::process::exit(2)
        }
    }
}
