//! C29 C30: several objects in one process, and the time the library takes.
use crate::ensure_t;
use crate::fw::*;
use crate::mock::*;
use crate::motion::*;
use crate::wire::*;
use franka::*;
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

/// workloads with callbacks, in which calls of other objects are nested
const OUTER: [&str; 6] = ["C08", "C09", "C10", "C11", "C17", "C16"];
const INNER: [&str; 15] = ["C01", "C08", "C03", "C09", "C06", "C02", "C10", "C05", "C11", "C17", "C13", "C14", "C25", "C12", "C23"];

/// C29: robot and gripper objects do not influence each other. Workloads of other properties run at
/// the same time with all their library calls on one thread, between and inside of each other's
/// callbacks; each is judged as if it were alone.
pub fn c29(ctx: &mut Ctx) -> Res<()> {
    let exec = shared::Executor::start();
    let n = 2 + (ctx.idx % 3 == 2) as usize;
    let mut ids = vec![OUTER[ctx.idx % OUTER.len()]];
    while ids.len() < n {
        ids.push(*ctx.rng.pick(&INNER));
    }
    if ctx.idx < INNER.len() * 2 {
        ids[1] = INNER[ctx.idx / 2];
    }
    let octets: Vec<usize> = ctx.ip.split('.').map(|x| x.parse().unwrap_or(1)).collect();
    let mut hs = vec![];
    for (k, id) in ids.iter().enumerate() {
        let id: &'static str = id;
        let (exec, mut rng, thorough) = (exec.clone(), Rng::new(ctx.rng.u64()), ctx.thorough);
        let ip = format!("127.{}.{}.{}", 200 + k * 3 + octets[1] % 3, octets[2], octets[3]);
        hs.push(std::thread::spawn(move || {
            exec.join();
            let p = super::all().into_iter().find(|p| p.id == id).unwrap();
            let mut cov = Cov::default();
            for _ in 0..if k == 0 { 1 } else { 2 } {
                let idx = rng.below(p.systematic * 3);
                let mut c = Ctx { rng: Rng::new(rng.u64()), ip: ip.clone(), idx, thorough, nested: true, cov: Cov::default() };
                let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.case)(&mut c))) {
                    Ok(r) => r,
                    Err(e) => suspect(format!("the behaviour of the client cannot be interpreted: {}", panic_text(&e))),
                };
                cov.merge(c.cov);
                if r.is_err() {
                    return (id, cov, r);
                }
            }
            (id, cov, Ok(()))
        }));
    }
    let mut res: Res<()> = Ok(());
    for h in hs {
        match h.join() {
            Ok((id, cov, r)) => {
                ctx.evals(cov.evals as usize);
                ctx.events(cov.events as usize);
                ctx.cov.sigs.extend(cov.sigs);
                ctx.hit(&format!("workload of {}", id));
                if res.is_ok() {
                    res = r.map_err(|f| match f {
                        Fail::Violation(m) => Fail::Violation(format!("with other objects on the same thread ({} of {:?}): {}", id, ids, m)),
                        Fail::Suspect(m) => Fail::Suspect(format!("with other objects on the same thread ({} of {:?}): {}", id, ids, m)),
                        f => f,
                    });
                }
            }
            Err(e) => return harness(panic_text(&e)),
        }
    }
    let nested = exec.nested.load(Ordering::Relaxed);
    if nested > 0 {
        ctx.hit("cases with calls inside of a callback of another object");
    }
    *ctx.cov.labels.entry("calls inside of a callback of another object".into()).or_insert(0) += nested as u64;
    ctx.sample(format!("{:?} on one thread, {} calls nested in callbacks", ids, nested));
    res
}

fn thread_cpu() -> Duration {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
}
/// the cycle time of the robot
const CYCLE: Duration = Duration::from_millis(1);
/// what the library may add to it (usual are 20 us)
const PROMPT: Duration = Duration::from_micros(500);

/// Whether the threads of this process wake up promptly and there is a free processor at the moment:
/// round trips between two threads which also yield.
fn calm() -> bool {
    let (a, b) = match (std::net::UdpSocket::bind("127.0.0.1:0"), std::net::UdpSocket::bind("127.0.0.1:0")) {
        (Ok(a), Ok(b)) => (a, b),
        _ => return false,
    };
    let _ = a.set_read_timeout(Some(Duration::from_millis(500)));
    let _ = b.set_read_timeout(Some(Duration::from_millis(500)));
    let (to_a, to_b) = (a.local_addr().unwrap(), b.local_addr().unwrap());
    let n = 100;
    let h = std::thread::spawn(move || {
        let mut x = [0; 8];
        for _ in 0..n {
            for _ in 0..3 {
                std::thread::yield_now();
            }
            if b.recv(&mut x).is_err() || b.send_to(&x, to_a).is_err() {
                return;
            }
        }
    });
    let mut lat = vec![];
    let mut x = [0; 8];
    for _ in 0..n {
        let t = Instant::now();
        if a.send_to(&x, to_b).is_err() || a.recv(&mut x).is_err() {
            break;
        }
        for _ in 0..3 {
            std::thread::yield_now();
        }
        lat.push(t.elapsed());
    }
    let _ = h.join();
    lat.sort();
    lat.len() == n && lat[n * 95 / 100] < Duration::from_micros(300)
}
/// Most of the latencies are small if the machine is calm, the smallest are in any case.
fn judge(ctx: &mut Ctx, lat: &mut Vec<Duration>, few: Duration, most: Duration, calm_before: bool, what: &str) -> Res<()> {
    lat.sort();
    let n = lat.len();
    let q = lat[n / 50];
    let calm = calm_before && calm();
    ensure_t!(q < few || (few > CYCLE && !calm), "{}: all but the fastest of {} take more than {:?}", what, n, q);
    if calm {
        let q = lat[n * 8 / 10];
        ensure_t!(q < most, "{}: every fifth of {} takes more than {:?}", what, n, q);
        ctx.hit("calm machine: four of five latencies judged");
    } else {
        ctx.hit("busy machine: smallest latencies judged");
    }
    Ok(())
}

/// C30: the library is prompt and does not burn CPU time.
pub fn c30(ctx: &mut Ctx) -> Res<()> {
    match ctx.idx % 6 {
        0 | 1 | 2 => cycles(ctx),
        3 => reads(ctx),
        4 => responses(ctx),
        _ => waiting(ctx),
    }
}
/// a call returns without delay when its response has arrived
fn responses(ctx: &mut Ctx) -> Res<()> {
    let gripper = ctx.idx / 6 % 2 == 1;
    // other messages in the same segment, before or after the response; response in two segments
    let style = ctx.idx / 12 % 4;
    let n = if ctx.thorough { 100 } else { 30 };
    let quiet = calm();
    let mut lat = vec![];
    let own = |id: u32, g: bool| if g { gripper_msg(gcmd::STOP, id, &[0, 0]) } else { robot_msg(cmd::SET_JOINT_IMPEDANCE, id, &[0]) };
    let foreign = |id: u32, g: bool| if g { gripper_msg(gcmd::HOMING, id, &[0, 0]) } else { robot_msg(cmd::SET_LOAD, id, &[0]) };
    let mut robot = if gripper { None } else { Some(open_default(ctx)?) };
    let mut grip = if gripper { Some(super::tcp::open_gripper(&ctx.ip.clone())?) } else { None };
    for k in 0..n {
        let p = match (&mut robot, &mut grip) {
            (Some(s), _) => s.cli.call(|r| (r.set_joint_impedance([1.; 7]).is_ok(), Instant::now())),
            (_, Some(s)) => s.cli.call(|g| (g.stop().is_ok(), Instant::now())),
            _ => unreachable!(),
        };
        let srv = match (&mut robot, &mut grip) {
            (Some(s), _) => &mut s.srv,
            (_, Some(s)) => &mut s.srv,
            _ => unreachable!(),
        };
        let id = srv.request()?.id;
        let far = 3_000_000_000 + k as u32;
        let m = own(id, gripper);
        let t0;
        match style {
            0 => {
                t0 = Instant::now();
                srv.send(&m)?;
            }
            1 => {
                let b = [foreign(far, gripper), m].concat();
                t0 = Instant::now();
                srv.send(&b)?;
            }
            2 => {
                let b = [m, foreign(far, gripper)].concat();
                t0 = Instant::now();
                srv.send(&b)?;
            }
            _ => {
                let at = ctx.rng.range(1, m.len() - 1);
                srv.send(&m[..at])?;
                std::thread::sleep(Duration::from_millis(1));
                t0 = Instant::now();
                srv.send(&m[at..])?;
            }
        }
        match p.wait() {
            Outcome::Ret((true, t)) => lat.push(t.saturating_duration_since(t0)),
            o => return suspect(format!("command {}", o.kind())),
        }
    }
    let what = format!("{} command, response {}", if gripper { "gripper" } else { "robot" }, ["alone", "after another one", "before another one", "in two segments"][style]);
    judge(ctx, &mut lat, 3 * CYCLE, CYCLE, quiet, &format!("{}: time from the response to the return of the call", what))?;
    let q = lat[lat.len() / 10];
    ctx.eval();
    ctx.events(2 * n);
    ctx.hit(&what);
    ctx.sig((gripper, style, n));
    ctx.sample(format!("{}: 10% within {:?}, half within {:?}", what, q, lat[n / 2]));
    Ok(())
}
/// time between a state and its command, at the robot
fn cycles(ctx: &mut Ctx) -> Res<()> {
    let k = ctx.idx / 6 * 3 + ctx.idx % 6;
    let i = IFACES[k % 9];
    let o = Opts { joint_imp: None, limit: if ctx.rng.bool() { Some(true) } else { Some(false) }, cutoff: *ctx.rng.pick(&[None, Some(1000.), Some(10.)]) };
    // long motions with a long log, which is full in half of them; the end of the motion is judged
    let long = ctx.idx % 24 == 2 || (ctx.thorough && ctx.idx % 8 == 2);
    let log = if long { *ctx.rng.pick(&[Some(6000), Some(50_000)]) } else { *ctx.rng.pick(&[None, Some(0), Some(1), Some(1000), Some(100_000)]) };
    let mut ses = open_robot(&ctx.ip.clone(), Some(RealtimeConfig::Ignore), log, 1)?;
    let n = if long {
        8000
    } else if ctx.thorough {
        1500
    } else {
        250
    };
    let (m, t) = (hold(i, n), torque_n(n + 10));
    let cb: CbLog = Default::default();
    let (m, t) = logged(&cb, false, m, t);
    let foreign = ctx.rng.chance(0.3);
    let quiet = calm();
    let p = ses.cli.call(move |r| control(r, i, o, m, t).is_ok());
    let req = ses.srv.request()?;
    ses.srv.respond(cmd::MOVE, req.id, &[mv::STARTED])?;
    let mut st = State::idle(ses.srv.last_id + 1);
    st.mode = RM_MOVE;
    st.mg = i.mg();
    st.cm = o.cm(i);
    let mut lat = vec![];
    let mut fin = false;
    let mut pat = Patience::new(PATIENCE);
    while lat.len() < n + 50 && !fin {
        if foreign && lat.len() % 20 == 5 {
            // responses nobody waits for
            ses.srv.send(&robot_msg(cmd::SET_LOAD, 4_000_000_000, &[0; 40]))?;
        }
        let t0 = Instant::now();
        ses.srv.state(&st)?;
        st.id += 1;
        loop {
            match ses.srv.event(20) {
                Some(In::Cmd(c)) => {
                    lat.push(t0.elapsed());
                    fin = c.finished != 0;
                    break;
                }
                Some(e) => return suspect(format!("the client sent {:?} in a motion", e)),
                None => {
                    if p.poll().is_some() || !pat.tick() {
                        return suspect("the motion ended without a finished command");
                    }
                    if lat.is_empty() {
                        // the library may need several states before the first callback
                        ses.srv.state(&st)?;
                        st.id += 1;
                    }
                }
            }
        }
    }
    st.mode = RM_IDLE;
    st.mg = MG_IDLE;
    st.cm = CM_OTHER;
    ses.srv.respond(cmd::MOVE, req.id, &[mv::SUCCESS])?;
    match ses.srv.pump_until(&p, State::idle, |_, _| Ok(()))? {
        Outcome::Ret(true) => {}
        o => return suspect(format!("the motion {}", o.kind())),
    }
    ctx.events(2 * lat.len());
    if long {
        lat.drain(..7000);
        ctx.hit("long motions with a long log");
    }
    judge(ctx, &mut lat, PROMPT, CYCLE, quiet, &format!("{:?} {:?} log {:?}: time from state to command", i, o, log))?;
    let q = lat[lat.len() / 10];
    ctx.eval();
    ctx.hit(&format!("cycles of {:?}", i));
    ctx.sig(("cycles", k % 9, o.limit, o.cutoff.map(|c| c as u64), log, foreign));
    ctx.sample(format!("{:?}: {} cycles, 10% of the commands within {:?}, half within {:?}", i, lat.len(), q, lat[lat.len() / 2]));
    Ok(())
}
/// states reach the callback of a continuous read without delay
fn reads(ctx: &mut Ctx) -> Res<()> {
    let mut ses = open_default(ctx)?;
    let n = if ctx.thorough { 600 } else { 150 };
    let (tx, rx) = std::sync::mpsc::channel();
    let quiet = calm();
    let p = ses.cli.call(move |r| {
        let mut k = 0;
        r.read(move |s| {
            let _ = tx.send((s.time.as_millis() as u64, Instant::now()));
            k += 1;
            k < n
        })
        .is_ok()
    });
    let mut lat = vec![];
    let mut id = 1000;
    let mut pat = Patience::new(PATIENCE);
    while lat.len() < n {
        id += 1;
        let t0 = Instant::now();
        ses.srv.state(&State::idle(id))?;
        loop {
            match rx.recv_timeout(Duration::from_millis(20)) {
                Ok((i, t)) if i == id => {
                    lat.push(t.saturating_duration_since(t0));
                    break;
                }
                Ok(_) => {}
                Err(_) => {
                    if !pat.tick() || p.poll().is_some() {
                        return suspect("a state did not arrive at the callback");
                    }
                }
            }
        }
    }
    match p.wait() {
        Outcome::Ret(true) => {}
        o => return suspect(format!("read {}", o.kind())),
    }
    judge(ctx, &mut lat, PROMPT, CYCLE, quiet, "time from state to callback of a continuous read")?;
    ctx.eval();
    ctx.events(lat.len());
    ctx.hit("continuous reads");
    ctx.sig(("read", lat.len()));
    Ok(())
}
/// CPU time of operations that wait
fn waiting(ctx: &mut Ctx) -> Res<()> {
    let kind = ctx.idx / 6 % 8;
    let ms = ctx.rng.range(150, 400) as u64;
    let (wall, cpu, what) = match kind {
        0 => {
            let mut ses = open_default(ctx)?;
            let p = ses.cli.call(|r| {
                let (w, c) = (Instant::now(), thread_cpu());
                let ok = r.set_joint_impedance([1.; 7]).is_ok();
                (ok, w.elapsed(), thread_cpu() - c)
            });
            let req = ses.srv.request()?;
            std::thread::sleep(Duration::from_millis(ms));
            if ctx.rng.bool() {
                // half of the response, and a pause
                let b = robot_msg(cmd::SET_JOINT_IMPEDANCE, req.id, &[0]);
                ses.srv.send(&b[..12])?;
                std::thread::sleep(Duration::from_millis(ms));
                ses.srv.send(&b[12..])?;
            } else {
                ses.srv.respond(cmd::SET_JOINT_IMPEDANCE, req.id, &[0])?;
            }
            match p.wait() {
                Outcome::Ret((true, w, c)) => (w, c, "waiting for a response"),
                o => return suspect(format!("command {}", o.kind())),
            }
        }
        1 => {
            let mut ses = open_default(ctx)?;
            let p = ses.cli.call(|r| {
                let (w, c) = (Instant::now(), thread_cpu());
                let ok = r.read_once().is_ok();
                (ok, w.elapsed(), thread_cpu() - c)
            });
            std::thread::sleep(Duration::from_millis(ms));
            match ses.srv.pump_until(&p, State::idle, |_, _| Ok(()))? {
                Outcome::Ret((true, w, c)) => (w, c, "waiting for a state"),
                o => return suspect(format!("read_once {}", o.kind())),
            }
        }
        2 => {
            let mut s = super::tcp::open_gripper(&ctx.ip.clone())?;
            let p = s.cli.call(|g| {
                let (w, c) = (Instant::now(), thread_cpu());
                let ok = g.homing().is_ok();
                (ok, w.elapsed(), thread_cpu() - c)
            });
            let req = s.srv.request()?;
            std::thread::sleep(Duration::from_millis(ms));
            s.srv.send(&gripper_msg(gcmd::HOMING, req.id, &[0, 0]))?;
            match p.wait() {
                Outcome::Ret((true, w, c)) => (w, c, "waiting for the gripper"),
                o => return suspect(format!("homing {}", o.kind())),
            }
        }
        4..=7 => {
            // the robot takes its time in one phase of a motion
            let mut ses = open_default(ctx)?;
            let p = ses.cli.call(|r| {
                let (w, c) = (Instant::now(), thread_cpu());
                let mut k = 0;
                let cb = move |_: &RobotState, _: &Duration| {
                    k += 1;
                    let t = JointVelocities::new([0.; 7]);
                    if k > 3 {
                        t.motion_finished()
                    } else {
                        t
                    }
                };
                let ok = r.control_joint_velocities(cb, None, None, None).is_ok();
                (ok, w.elapsed(), thread_cpu() - c)
            });
            let pause = |stage: usize| {
                if stage == kind {
                    std::thread::sleep(Duration::from_millis(ms));
                }
            };
            let req = ses.srv.request()?;
            pause(4);
            ses.srv.respond(cmd::MOVE, req.id, &[mv::STARTED])?;
            pause(5);
            let mut st = State::idle(ses.srv.last_id + 1);
            st.mode = RM_MOVE;
            st.mg = MG_JV;
            st.cm = CM_JOINT;
            let (mut fin, mut pat) = (false, Patience::new(PATIENCE));
            while !fin {
                ses.srv.state(&st)?;
                st.id += 1;
                match ses.srv.event(2) {
                    Some(In::Cmd(c)) => fin = c.finished != 0,
                    _ => {
                        if p.poll().is_some() || !pat.tick() {
                            return suspect("the motion ended without a finished command");
                        }
                    }
                }
            }
            pause(6);
            if kind == 7 {
                // the robot has stopped, the response is missing
                let mut s = State::idle(st.id);
                s.id = st.id;
                ses.srv.state(&s)?;
                pause(7);
            }
            ses.srv.respond(cmd::MOVE, req.id, &[mv::SUCCESS])?;
            match ses.srv.pump_until(&p, State::idle, |_, _| Ok(()))? {
                Outcome::Ret((true, w, c)) => (w, c, ["waiting for the answer to the start of a motion", "waiting for the motion to start", "waiting for the motion to end", "waiting for the final response of a motion"][kind - 4]),
                o => return suspect(format!("motion {}", o.kind())),
            }
        }
        _ => {
            // a motion with one state every 20 ms
            let mut ses = open_default(ctx)?;
            let p = ses.cli.call(|r| {
                let (w, c) = (Instant::now(), thread_cpu());
                let mut k = 0;
                let cb = move |_: &RobotState, _: &Duration| {
                    k += 1;
                    let t = JointVelocities::new([0.; 7]);
                    if k > 12 {
                        t.motion_finished()
                    } else {
                        t
                    }
                };
                let ok = r.control_joint_velocities(cb, None, None, None).is_ok();
                (ok, w.elapsed(), thread_cpu() - c)
            });
            let req = ses.srv.request()?;
            ses.srv.respond(cmd::MOVE, req.id, &[mv::STARTED])?;
            let mut st = State::idle(ses.srv.last_id + 1);
            st.mode = RM_MOVE;
            st.mg = MG_JV;
            st.cm = CM_JOINT;
            let mut fin = false;
            for _ in 0..100 {
                ses.srv.state(&st)?;
                st.id += 1;
                std::thread::sleep(Duration::from_millis(20));
                while let Some(e) = ses.srv.event(0) {
                    if let In::Cmd(c) = e {
                        fin |= c.finished != 0;
                    }
                }
                if fin {
                    break;
                }
            }
            ses.srv.respond(cmd::MOVE, req.id, &[mv::SUCCESS])?;
            match ses.srv.pump_until(&p, State::idle, |_, _| Ok(()))? {
                Outcome::Ret((true, w, c)) => (w, c, "waiting for the states of a motion"),
                o => return suspect(format!("motion {}", o.kind())),
            }
        }
    };
    ensure_t!(cpu < wall / 4, "{}: {:?} of CPU time in {:?}", what, cpu, wall);
    ctx.eval();
    ctx.events(1);
    ctx.hit(what);
    ctx.sig((kind, ms));
    ctx.sample(format!("{}: {:?} of CPU time in {:?}", what, cpu, wall));
    Ok(())
}
