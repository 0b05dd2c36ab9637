//! C22: realtime enforcement. The realtime facilities of the system are replaced by a recording
//! stand-in (shim/rt.c) that a child process is started with.
use crate::fw::*;
use crate::mock::*;
use crate::motion::*;
use crate::wire::*;
use crate::{ensure, ensure_t};
use franka::exception::FrankaException;
use franka::RealtimeConfig;
use std::io::Write;

fn tid() -> i64 {
    unsafe { libc::syscall(libc::SYS_gettid) as i64 }
}
fn note(s: &str) {
    if let Ok(p) = std::env::var("VR_LOG") {
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(p) {
            let _ = f.write_all(format!("{}\n", s).as_bytes());
        }
    }
}
/// rt-child IP CONFIG IFACE: connects twice (two threads), runs commands and two motions each time
/// (the second one in a new thread) and writes what happened into the log.
pub fn child(a: &[String]) -> i32 {
    let cfg = match a[1].as_str() {
        "default" => None,
        "enforce" => Some(RealtimeConfig::Enforce),
        _ => Some(RealtimeConfig::Ignore),
    };
    let iface: usize = a[2].parse().unwrap();
    for round in 0..2 {
        let ip = format!("{}.{}", a[0], 10 + round);
        match one(&ip, cfg, iface) {
            Ok(()) => {}
            Err(e) => {
                note(&format!("fail {:?}", e).replace('\n', " "));
                return 3;
            }
        }
    }
    note("end");
    0
}
/// Runs f in this thread or in a new one.
fn elsewhere<R: Send>(other: bool, r: &mut franka::Robot, f: impl FnOnce(&mut franka::Robot) -> R + Send) -> R {
    if !other {
        return f(r);
    }
    std::thread::scope(|s| s.spawn(|| f(r)).join()).unwrap_or_else(|e| std::panic::resume_unwind(e))
}
fn one(ip: &str, cfg: Option<RealtimeConfig>, iface: usize) -> Res<()> {
    let mut ses = open_robot(ip, cfg, None, 1)?;
    note("connected");
    let p = ses.cli.call(|r| r.set_joint_impedance([1.; 7]));
    let q = ses.srv.request()?;
    ses.srv.respond(q.cmd, q.id, &[0])?;
    match p.wait() {
        Outcome::Ret(Ok(())) => note("command ok"),
        o => note(&format!("command {:?}", o)),
    }
    for other in [false, true] {
    let (p, i) = if iface < 9 {
        let i = IFACES[iface];
        let log: CbLog = Default::default();
        let n = 4;
        let (mut m, mut t) = logged(&log, false, hold(i, n), if i == Iface::T { torque_n(n) } else { no_torque() });
        let m2: MotionCb = Box::new(move |s, d| {
            note(&format!("callback {}", tid()));
            m(s, d)
        });
        let t2: TorqueCb = Box::new(move |s, d| {
            note(&format!("callback {}", tid()));
            t(s, d)
        });
        (
            ses.cli.call(move |r| {
                elsewhere(other, r, move |r| {
                    note(&format!("control {}", tid()));
                    control(r, i, Opts::raw(), m2, t2)
                })
            }),
            i,
        )
    } else {
        (
            ses.cli.call(move |r| {
                elsewhere(other, r, |r| {
                    note(&format!("control {}", tid()));
                    r.joint_motion(0.5, &[0.002; 7])
                })
            }),
            Iface::Jp,
        )
    };
    let mut d = Drive::new(i, Opts::raw());
    // the Move request is seen by the driver; its arrival is noted by the states that follow it
    let mut first = true;
    let mut q_now = [0.; 7];
    let (tr, out) = drive(&mut ses.srv, &p, &mut d, &mut |s, c| {
        if first {
            note("motion");
            first = false;
        }
        if let Some(c) = c {
            q_now = c.q;
        }
        s.set(off::q_d, &q_now);
        s.set(off::q, &q_now);
    })?;
    note(&format!("moved {}", tr.move_req.is_some() as u8));
    note(&match out {
        Outcome::Ret(Ok(())) => "out ok".into(),
        Outcome::Ret(Err(FrankaException::RealTimeException { .. })) => "out realtime".into(),
        Outcome::Ret(Err(e)) => format!("out error {}", text(&e)),
        Outcome::Panic(m) => format!("out panic {}", m),
        Outcome::Hang => "out hang".to_string(),
    });
    // a refused motion leaves the session usable
    let p = ses.cli.call(|r| r.set_joint_impedance([2.; 7]));
    let q = ses.srv.request()?;
    note(&format!("next request {}", q.cmd));
    ses.srv.respond(q.cmd, q.id, &[0])?;
    match p.wait() {
        Outcome::Ret(Ok(())) => note("command ok"),
        o => note(&format!("command {:?}", o)),
    }
    }
    Ok(())
}

pub const SYSTEMATIC: usize = 3 * 6 * 10;
pub fn c22(ctx: &mut Ctx) -> Res<()> {
    let n = ctx.idx;
    let cfg = ["default", "enforce", "ignore"][n % 3];
    // kernel, sched errno, mlock errno, max priority
    let sys: (i32, i32, i32, i32) = match (n / 3) % 6 {
        0 => (0, 0, 0, 99),
        1 => (1, 0, 0, 99),
        2 => (1, *ctx.rng.pick(&[libc::EPERM, libc::EINVAL, libc::ENOSYS]), 0, 99),
        3 => (1, 0, *ctx.rng.pick(&[libc::EPERM, libc::ENOMEM]), 99),
        4 => (1, 0, 0, -1),
        _ => (1, 0, 0, *ctx.rng.pick(&[50, 80, 98])),
    };
    let iface = (n / 18) % 10;
    let dir = std::env::temp_dir();
    let log = dir.join(format!("verif-rt-{}-{}.log", std::process::id(), ctx.ip));
    let _ = std::fs::remove_file(&log);
    let shim = format!("{}/rt.so", std::env::var("VERIF_SHIM").unwrap_or_else(|_| "/verif/harness/target/shim".into()));
    if !std::path::Path::new(&shim).exists() {
        return harness("rt.so was not built");
    }
    let net: Vec<&str> = ctx.ip.rsplitn(2, '.').collect();
    let ip = {
        let o: Vec<&str> = ctx.ip.split('.').collect();
        let _ = net;
        format!("127.{}.{}", o[1], 1 + ctx.idx % 250)
    };
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(e) => return harness(format!("{}", e)),
    };
    let mut c = std::process::Command::new(exe);
    c.arg("rt-child").arg(&ip).arg(cfg).arg(iface.to_string());
    c.env("LD_PRELOAD", &shim).env("VR_LOG", &log).env("VR_KERNEL", sys.0.to_string()).env("VR_SCHED", sys.1.to_string()).env("VR_MLOCK", sys.2.to_string()).env("VR_PRIO", sys.3.to_string());
    c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    let mut ch = match c.spawn() {
        Ok(c) => c,
        Err(e) => return harness(format!("{}", e)),
    };
    let mut pat = Patience::new(40.0);
    loop {
        match ch.try_wait() {
            Ok(Some(_)) => break,
            Ok(None) => {
                std::thread::sleep(std::time::Duration::from_millis(3));
                if !pat.tick() {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    let _ = std::fs::remove_file(&log);
                    return suspect(format!("a motion with realtime configuration {} (system {:?}) did not end", cfg, sys));
                }
            }
            Err(e) => return harness(format!("{}", e)),
        }
    }
    let l = std::fs::read_to_string(&log).unwrap_or_default();
    let _ = std::fs::remove_file(&log);
    let what = format!("realtime configuration {}, kernel {} scheduler errno {} mlock errno {} max priority {}, interface {}", cfg, sys.0, sys.1, sys.2, sys.3, iface);
    ensure_t!(l.contains("connected\n"), "{}: could not connect: {}", what, l);
    if l.contains("fail Harness") {
        return harness(l);
    }
    judge(&l, cfg, sys, &what)?;
    ctx.evals(4);
    ctx.events(l.lines().count());
    ctx.hit(&format!("{} {:?}", cfg, sys));
    ctx.sig((cfg, sys, iface));
    ctx.sample(format!("{} -> {}", what, l.lines().filter(|x| x.starts_with("out") || x.starts_with("sched") || x.starts_with("mlock") || x.starts_with("moved")).collect::<Vec<_>>().join("; ")));
    Ok(())
}
fn judge(l: &str, cfg: &str, sys: (i32, i32, i32, i32), what: &str) -> Res<()> {
    let possible = sys.0 == 1 && sys.1 == 0 && sys.2 == 0 && sys.3 > 0;
    let must_run = cfg == "ignore" || possible;
    let mut ctl = 0i64;
    let mut prio: std::collections::HashMap<i64, i64> = Default::default();
    let mut locked = false;
    let mut outs = 0;
    for line in l.lines() {
        let w: Vec<&str> = line.split(' ').collect();
        let num = |k: usize| w.get(k).and_then(|x| x.parse::<i64>().ok()).unwrap_or(0);
        match w[0] {
            "control" => {
                ctl = num(1);
            }
            "sched" if num(4) == 0 => {
                let p = if num(2) == libc::SCHED_FIFO as i64 { num(3) } else { 0 };
                prio.insert(num(1), p);
            }
            "mlock" if num(3) == 0 => {
                if num(2) & libc::MCL_CURRENT as i64 != 0 && num(2) & libc::MCL_FUTURE as i64 != 0 {
                    locked = true
                }
            }
            "motion" => {
                ensure!(must_run, "{}: the motion was started although realtime was required and could not be set up: {}", what, l);
                if cfg != "ignore" {
                    let p = *prio.get(&ctl).unwrap_or(&0);
                    ensure!(p >= sys.3 as i64 - 1 && p <= sys.3 as i64, "{}: the motion was started while the control thread has realtime priority {}: {}", what, p, l);
                    ensure!(locked, "{}: the motion was started without locking the memory: {}", what, l);
                }
            }
            "callback" => {
                ensure!(must_run, "{}: a callback was invoked although realtime could not be set up", what);
                if cfg != "ignore" {
                    let p = *prio.get(&num(1)).unwrap_or(&0);
                    ensure!(p >= sys.3 as i64 - 1, "{}: a callback runs in a thread without realtime priority: {}", what, l);
                }
            }
            "moved" => ensure!(num(1) == 0 || must_run, "{}: a Move request was sent although realtime could not be set up", what),
            "out" => {
                outs += 1;
                if must_run {
                    ensure_t!(w[1] == "ok", "{}: the motion ended with {}", what, line);
                } else {
                    ensure_t!(w[1] != "hang", "{}: the call did not return", what);
                    ensure!(w[1] == "realtime", "{}: the call ended with {} instead of a realtime exception", what, line);
                }
            }
            "next" => ensure!(num(2) == cmd::SET_JOINT_IMPEDANCE as i64, "{}: request {} after the motion", what, num(2)),
            "command" => ensure_t!(w[1] == "ok", "{}: a command failed: {}", what, line),
            "fail" => {
                if line.contains("Violation") {
                    return viol(format!("{}: {}", what, line));
                }
                return suspect(format!("{}: {}", what, line));
            }
            _ => {}
        }
    }
    ensure_t!(outs == 4 && l.contains("\nend"), "{}: the process ended early: {}", what, l);
    Ok(())
}
