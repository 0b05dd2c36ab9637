//! C26 C27: memory errors (run under AddressSanitizer) and resources that a session holds on to.
use super::model;
use super::tcp::{open_gripper, RCmd, N_RCMD};
use crate::fw::*;
use crate::mock::*;
use crate::motion::*;
use crate::wire::*;
use crate::ensure;
use franka::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ heap use per thread
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
pub struct Counting;
fn add(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        add(l.size() as i64);
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        add(l.size() as i64);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        add(-(l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        std::alloc::System.realloc(p, l, n)
    }
}
/// bytes allocated minus bytes freed by the calling thread
fn live() -> i64 {
    LIVE.with(|l| l.get())
}

// ------------------------------------------------------------------ a robot that answers by itself
/// What the robot does with the next motions, in turn.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fate {
    Finish,
    Reject,
    /// aborted before it begins
    NoStart,
    /// reflex after that many commands
    Reflex(usize),
}
pub struct Auto {
    pub cm: u8,
    pub mg: u8,
    moving: bool,
    move_id: u32,
    n: usize,
    fate: Fate,
    motions: usize,
    pub fates: Vec<Fate>,
    /// status of the responses to configuration commands, in turn
    pub statuses: Vec<u8>,
    commands: usize,
    pub requests: usize,
    pub states: usize,
    pub cmds: usize,
    /// bytes that are sent instead of or in addition to the regular traffic
    pub noise: Option<Box<dyn FnMut(&mut Server)>>,
}
impl Auto {
    pub fn new() -> Auto {
        Auto {
            cm: CM_OTHER,
            mg: MG_IDLE,
            moving: false,
            move_id: 0,
            n: 0,
            fate: Fate::Finish,
            motions: 0,
            fates: vec![Fate::Finish],
            statuses: vec![0],
            commands: 0,
            requests: 0,
            states: 0,
            cmds: 0,
            noise: None,
        }
    }
    fn state(&mut self, srv: &mut Server, reflex: bool) -> Res<()> {
        let mut s = State::idle(srv.last_id + 1);
        if self.moving {
            s.mg = self.mg;
            s.cm = self.cm;
            s.mode = RM_MOVE;
        }
        if reflex {
            s.mode = RM_REFLEX;
            s.refl[3] = true;
        }
        self.states += 1;
        srv.state(&s)
    }
    fn on(&mut self, srv: &mut Server, e: In) -> Res<()> {
        match e {
            In::Req(r) => {
                self.requests += 1;
                if r.cmd == cmd::MOVE && r.payload.len() >= 8 {
                    let mut rd = Rd(&r.payload, 0);
                    let (c, g) = (rd.u32(), rd.u32());
                    self.fate = self.fates[self.motions % self.fates.len()];
                    self.motions += 1;
                    if self.fate == Fate::Reject {
                        return srv.respond(cmd::MOVE, r.id, &[mv::NOT_POSSIBLE]);
                    }
                    if self.fate == Fate::NoStart {
                        srv.respond(cmd::MOVE, r.id, &[mv::STARTED])?;
                        self.state(srv, false)?;
                        return srv.respond(cmd::MOVE, r.id, &[mv::ABORTED]);
                    }
                    // wire codes of the Move request
                    self.cm = c as u8;
                    self.mg = g as u8 + 1;
                    self.moving = true;
                    self.n = 0;
                    self.move_id = r.id;
                    srv.respond(cmd::MOVE, r.id, &[mv::STARTED])?;
                    return self.state(srv, false);
                }
                if r.cmd == cmd::STOP_MOVE {
                    self.moving = false;
                    return srv.respond(r.cmd, r.id, &[0]);
                }
                let st = self.statuses[self.commands % self.statuses.len()];
                self.commands += 1;
                let mut p = vec![st];
                if r.cmd == cmd::GET_CARTESIAN_LIMIT {
                    p.extend(vec![0u8; 153]);
                }
                srv.respond(r.cmd, r.id, &p)
            }
            In::Cmd(c) => {
                self.cmds += 1;
                if !self.moving {
                    return Ok(());
                }
                self.n += 1;
                match self.fate {
                    Fate::Reflex(k) if self.n >= k => {
                        self.moving = false;
                        self.state(srv, true)?;
                        srv.respond(cmd::MOVE, self.move_id, &[mv::REFLEX])
                    }
                    _ if c.finished != 0 => {
                        self.moving = false;
                        self.state(srv, false)?;
                        srv.respond(cmd::MOVE, self.move_id, &[mv::SUCCESS])
                    }
                    _ => self.state(srv, false),
                }
            }
            _ => Ok(()),
        }
    }
    /// plays the robot until the call returned
    pub fn serve<R>(&mut self, srv: &mut Server, p: &Pending<R>, secs: f64) -> Res<Outcome<R>> {
        let mut pat = Patience::new(secs);
        let mut next = Instant::now();
        loop {
            if let Some(o) = p.poll() {
                return Ok(o);
            }
            if let Some(mut f) = self.noise.take() {
                f(srv);
                self.noise = Some(f);
            }
            match srv.event(1) {
                Some(e) => {
                    if self.on(srv, e).is_err() {
                        // the client is gone
                        return Ok(p.wait_s(secs));
                    }
                    pat = Patience::new(secs);
                    next = Instant::now() + Duration::from_millis(2);
                }
                None => {
                    if Instant::now() >= next {
                        self.state(srv, false)?;
                        next = Instant::now() + Duration::from_millis(1);
                    }
                    if !pat.tick() {
                        return Ok(Outcome::Hang);
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C26
fn bytes(rng: &mut Rng, n: usize) -> Vec<u8> {
    match rng.below(4) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|_| rng.below(3) as u8).collect(),
        _ => (0..n).map(|_| rng.u64() as u8).collect(),
    }
}
fn hostile_len(rng: &mut Rng, right: usize) -> usize {
    match rng.below(10) {
        0 => 0,
        1 => 1,
        2 => right - 1,
        3 => right + 1,
        4 => 2 * right,
        5 => rng.below(right),
        6 => 60000,
        7 => 65507,
        _ => right,
    }
}
/// a state datagram with damaged bytes, or none at all
fn hostile_state(rng: &mut Rng, id: u64, right: usize) -> Vec<u8> {
    if rng.bool() {
        let n = hostile_len(rng, right);
        return bytes(rng, n);
    }
    let mut b = State::random(rng, id).encode();
    for _ in 0..rng.below(6) {
        let k = if rng.bool() { rng.below(b.len()) } else { b.len() - 1 - rng.below(100) };
        b[k] = rng.u64() as u8;
    }
    b
}
/// a response whose header and body do not fit
fn hostile_msg(rng: &mut Rng, gripper: bool, id: u32) -> Vec<u8> {
    let mut b = vec![];
    let c = *rng.pick(&[0u32, 1, 2, 13, 14, 255, 256, u32::MAX]);
    if gripper {
        b.extend((c as u16).to_le_bytes());
    } else {
        b.extend(c.to_le_bytes());
    }
    let id = match rng.below(4) {
        0 => rng.u64() as u32,
        1 => 0,
        _ => id,
    };
    b.extend(id.to_le_bytes());
    let h = b.len() as u32 + 4;
    let size = match rng.below(9) {
        0 => 0,
        1 => 1,
        2 => h - 1,
        3 => h,
        4 => h + 1,
        5 => u32::MAX,
        6 => 1 << 31,
        7 => 100_000,
        _ => h + rng.below(300) as u32,
    };
    b.extend(size.to_le_bytes());
    let n = match rng.below(5) {
        0 => 0,
        1 => 1,
        2 => rng.below(300),
        3 => 70_000 + rng.below(70_000),
        _ => (size as usize).saturating_sub(h as usize).min(200_000),
    };
    b.extend(bytes(rng, n));
    if rng.chance(0.3) {
        let cut = rng.below(b.len());
        b.truncate(cut);
    }
    b
}
fn note<R>(ctx: &mut Ctx, what: &str, o: &Outcome<FrankaResult<R>>) {
    let k = match o {
        Outcome::Ret(Ok(_)) => "ok",
        Outcome::Ret(Err(_)) => "exception",
        Outcome::Panic(_) => "panic",
        Outcome::Hang => "still waiting",
    };
    ctx.hit(&format!("{}: {}", what, k));
    ctx.eval();
}
/// the call in progress gets hostile bytes, then the connection is closed
fn hostile_robot(ctx: &mut Ctx) -> Res<()> {
    let mut ses = open_default(ctx)?;
    for _ in 0..ctx.rng.range(1, 3) {
        let op = ctx.rng.below(5);
        let mut rng = Rng::new(ctx.rng.u64());
        match op {
            0 | 1 => {
                // hostile states while reading
                let n = ctx.rng.range(1, 6);
                let p = ses.cli.call(move |r| {
                    if op == 0 {
                        let mut last = Ok(());
                        for _ in 0..n {
                            last = r.read_once().map(|s| drop(format!("{:?} {}", s, s.current_errors)));
                        }
                        last
                    } else {
                        let mut k = 0;
                        r.read(|s| {
                            k += 1;
                            drop(format!("{:?}", s.last_motion_errors));
                            k < n
                        })
                    }
                });
                let mut k = 0u64;
                let mut o = None;
                while o.is_none() && k < 400 {
                    let id = match rng.below(4) {
                        0 => u64::MAX - k,
                        1 => 0,
                        _ => 1000 + k,
                    };
                    let b = hostile_state(&mut rng, id, STATE_LEN);
                    ses.srv.udp_raw(&b)?;
                    ctx.events(1);
                    k += 1;
                    std::thread::sleep(Duration::from_micros(500));
                    o = p.poll();
                }
                let o = match o {
                    Some(o) => o,
                    None => p.wait_s(4.),
                };
                note(ctx, "hostile states while reading", &o);
                ctx.sig((0, n, k, o.kind()));
                if let Outcome::Hang = o {
                    break;
                }
            }
            2 | 3 => {
                // hostile response to a command
                let kind = ctx.rng.below(N_RCMD + 1);
                let c = RCmd::gen(&mut ctx.rng, kind.min(N_RCMD - 1));
                let load = kind == N_RCMD;
                let p = ses.cli.call(move |r| if load { r.load_model(false).map(|_| ()) } else { c.invoke(r).map(|_| ()) });
                let req = match ses.srv.request() {
                    Ok(r) => r,
                    Err(_) => break,
                };
                let mut total = 0;
                for _ in 0..rng.range(1, 3) {
                    let m = hostile_msg(&mut rng, false, req.id);
                    total += m.len();
                    if ses.srv.send(&m).is_err() {
                        break;
                    }
                    std::thread::sleep(Duration::from_micros(200));
                }
                ctx.events(1);
                let o = p.wait_s(0.05);
                let o = match o {
                    Outcome::Hang => {
                        ses.srv.tcp = None; // closes the connection
                        p.wait_s(4.)
                    }
                    o => o,
                };
                note(ctx, "hostile response", &o);
                ctx.sig((1, kind, total, o.kind()));
                // whatever happened, the object can still be used
                if ses.srv.tcp.is_none() {
                    let p = ses.cli.call(|r| r.read_once().map(|_| ()));
                    let _ = ses.srv.idle_state();
                    let o = p.wait_s(4.);
                    note(ctx, "read after the connection ended", &o);
                    break;
                }
            }
            _ => {
                // hostile datagrams and responses during a motion
                let i = *ctx.rng.pick(&IFACES);
                let len = ctx.rng.range(3, 60);
                let p = ses.cli.call(move |r| {
                    let mut m = hold(i, len);
                    let mut t = torque_n(len);
                    let (mut a, mut b) = (0, 0);
                    control(
                        r,
                        i,
                        Opts { joint_imp: None, limit: None, cutoff: None },
                        Box::new(move |s, _| {
                            a += 1;
                            m(a, s)
                        }),
                        Box::new(move |s, _| {
                            b += 1;
                            t(b, s)
                        }),
                    )
                });
                let mut auto = Auto::new();
                let mut r2 = rng.clone();
                let start = rng.below(30);
                let (mut k, tcp) = (0, rng.bool());
                auto.noise = Some(Box::new(move |srv: &mut Server| {
                    k += 1;
                    if k > start && r2.chance(0.4) {
                        if tcp && r2.chance(0.3) {
                            let m = hostile_msg(&mut r2, false, 2);
                            let _ = srv.send(&m);
                        } else {
                            let id = srv.last_id + 1;
                            let b = hostile_state(&mut r2, id, STATE_LEN);
                            let _ = srv.udp_raw(&b);
                        }
                    }
                }));
                let o = match auto.serve(&mut ses.srv, &p, 0.3)? {
                    Outcome::Hang => {
                        ses.srv.tcp = None;
                        p.wait_s(5.)
                    }
                    o => o,
                };
                ctx.events(auto.states + auto.cmds);
                note(ctx, "hostile bytes during a motion", &o);
                ctx.sig((2, i, len, auto.cmds, o.kind()));
                if ses.srv.tcp.is_none() {
                    break;
                }
            }
        }
    }
    Ok(())
}
fn hostile_gripper(ctx: &mut Ctx) -> Res<()> {
    let mut s = open_gripper(&ctx.ip.clone())?;
    let mut rng = Rng::new(ctx.rng.u64());
    for _ in 0..3 {
        if rng.bool() {
            let p = s.cli.call(|g| g.read_once().map(|s| drop(format!("{:?}", s))));
            let mut k = 0;
            let mut o = None;
            while o.is_none() && k < 200 {
                let n = hostile_len(&mut rng, 23);
                let b = bytes(&mut rng, n);
                s.srv.udp_raw(&b)?;
                k += 1;
                std::thread::sleep(Duration::from_micros(500));
                o = p.poll();
            }
            let o = match o {
                Some(o) => o,
                None => p.wait_s(4.),
            };
            ctx.events(k);
            note(ctx, "hostile gripper states", &o);
            ctx.sig((3, k, o.kind()));
        } else {
            let k = rng.below(4);
            let p = s.cli.call(move |g| match k {
                0 => g.homing().map(|_| ()),
                1 => g.grasp(0.1, 0.1, 1., None, None).map(|_| ()),
                2 => g.move_gripper(0.1, 0.1).map(|_| ()),
                _ => g.stop().map(|_| ()),
            });
            let req = match s.srv.request() {
                Ok(r) => r,
                Err(_) => return Ok(()),
            };
            let m = hostile_msg(&mut rng, true, req.id);
            let _ = s.srv.send(&m);
            ctx.events(1);
            let o = match p.wait_s(0.05) {
                Outcome::Hang => {
                    s.srv.tcp = None;
                    p.wait_s(4.)
                }
                o => o,
            };
            note(ctx, "hostile gripper response", &o);
            ctx.sig((4, k, m.len(), o.kind()));
            if s.srv.tcp.is_none() {
                return Ok(());
            }
        }
    }
    Ok(())
}
fn hostile_connect(ctx: &mut Ctx) -> Res<()> {
    let gripper = ctx.rng.bool();
    let mut srv = Server::bind(&ctx.ip.clone(), gripper)?;
    let ip = ctx.ip.clone();
    let (_c1, _c2, p);
    if gripper {
        let (c, q) = Actor::spawn(move || Gripper::new(&ip));
        (_c1, _c2, p) = (Some(c), None, q);
    } else {
        let (c, q) = Actor::spawn(move || Robot::new(&ip, RealtimeConfig::Ignore, None));
        (_c1, _c2, p) = (None, Some(c), q);
    }
    srv.accept()?;
    let req = srv.request()?;
    let mut rd = Rd(&req.payload, 0);
    let _version = rd.u16();
    srv.peer.set_port(rd.u16());
    if ctx.rng.bool() {
        let b = hostile_state(&mut ctx.rng, 1, if gripper { 23 } else { STATE_LEN });
        srv.udp_raw(&b)?;
    }
    let m = hostile_msg(&mut ctx.rng, gripper, req.id);
    let _ = srv.send(&m);
    std::thread::sleep(Duration::from_millis(3));
    srv.tcp = None;
    ctx.events(1);
    let o = p.wait_s(4.);
    note(ctx, "hostile handshake", &o);
    ctx.sig((5, gripper, m.len(), o.kind()));
    Ok(())
}

/// C26: whatever the peer sends and whatever is called, no memory error (decided by
/// AddressSanitizer, which ends the process; this function only provides the workload).
pub fn c26(ctx: &mut Ctx) -> Res<()> {
    match ctx.idx % 8 {
        0 | 1 => hostile_robot(ctx),
        2 => hostile_gripper(ctx),
        3 => hostile_connect(ctx),
        4 => {
            let r = model::lifetimes(ctx);
            if r.is_err() {
                ctx.hit("models: differs");
                ctx.eval();
                ctx.sig(ctx.idx);
            }
            Ok(())
        }
        _ => {
            // the workloads of the other properties, whose own verdicts are not judged here
            let all: Vec<Prop> = super::all().into_iter().filter(|p| !["C21", "C22", "C26", "C27", "C28"].contains(&p.id)).collect();
            let k = (ctx.idx / 8 * 3 + ctx.idx % 8 - 5) % all.len();
            let p = &all[k];
            ctx.idx = ctx.rng.below(p.systematic * 3);
            ctx.nested = true;
            let r = (p.case)(ctx);
            ctx.hit(&format!("workload of {}{}", p.id, if r.is_err() { ": differs" } else { "" }));
            ctx.eval();
            Ok(())
        }
    }
}

// ------------------------------------------------------------------ C27
fn fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}
/// waits until at most `n` descriptors are open; the number that remains
fn fds_back_to(n: usize) -> usize {
    let mut pat = Patience::new(3.);
    loop {
        let k = fds();
        if k <= n || !pat.tick() {
            return k;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}
/// the peer closes its end of the connection
fn sees_close(srv: &mut Server) -> bool {
    let mut pat = Patience::new(3.);
    loop {
        match srv.event(TICK_MS) {
            Some(In::Closed) => return true,
            Some(_) => {}
            None => {
                if !pat.tick() {
                    return false;
                }
            }
        }
    }
}
#[derive(Clone, Debug)]
enum Op {
    Cmd(RCmd),
    Once,
    Read(usize),
    Motion(Iface, usize, bool),
}
fn do_op(r: &mut Robot, op: &Op) -> bool {
    match op {
        Op::Cmd(c) => c.invoke(r).is_ok(),
        Op::Once => r.read_once().is_ok(),
        Op::Read(n) => {
            let mut k = 0;
            r.read(|_| {
                k += 1;
                k < *n
            })
            .is_ok()
        }
        Op::Motion(i, n, lim) => {
            let (mut m, mut t) = (hold(*i, *n), torque_n(*n));
            let (mut a, mut b) = (0, 0);
            let o = Opts { joint_imp: None, limit: Some(*lim), cutoff: if *lim { None } else { Some(1000.) } };
            control(
                r,
                *i,
                o,
                Box::new(move |s, _| {
                    a += 1;
                    m(a - 1, s)
                }),
                Box::new(move |s, _| {
                    b += 1;
                    t(b - 1, s)
                }),
            )
            .is_ok()
        }
    }
}
const TOL: i64 = 600;
fn c27_robot(ctx: &mut Ctx) -> Res<()> {
    let base = fds();
    let log = *ctx.rng.pick(&[0usize, 1, 5, 50]);
    let ip = ctx.ip.clone();
    let mut ses = open_robot(&ip, Some(RealtimeConfig::Ignore), Some(log), 1)?;
    // one round of operations, repeated
    let mut ops = vec![];
    let mut fates = vec![];
    for _ in 0..ctx.rng.range(1, 5) {
        let kind = ctx.rng.below(N_RCMD);
        ops.push(match ctx.rng.below(6) {
            0 | 1 => Op::Cmd(RCmd::gen(&mut ctx.rng, kind)),
            2 => Op::Once,
            3 => Op::Read(ctx.rng.range(1, 5)),
            _ => {
                fates.push(match ctx.rng.below(5) {
                    0 => Fate::Reject,
                    1 => Fate::NoStart,
                    2 => Fate::Reflex(ctx.rng.range(1, 20)),
                    _ => Fate::Finish,
                });
                Op::Motion(*ctx.rng.pick(&IFACES), ctx.rng.range(1, 40), ctx.rng.bool())
            }
        });
    }
    let slow = ops.iter().any(|o| !matches!(o, Op::Cmd(_)));
    let (warm, reps) = if slow { (16, 48) } else { (64, 400) };
    let mut auto = Auto::new();
    if !fates.is_empty() {
        auto.fates = fates.clone();
    }
    auto.statuses = vec![0, 0, 1, 0, 2];
    let ops2 = ops.clone();
    let call = ses.cli.call(move |r| {
        let mut m = [0i64; 3];
        let mut ok = 0;
        for k in 0..reps {
            for o in &ops2 {
                ok += do_op(r, o) as usize;
            }
            if k + 1 == warm {
                m[0] = live();
            }
            if k + 1 == (warm + reps) / 2 {
                m[1] = live();
            }
        }
        m[2] = live();
        (m, ok)
    });
    let (m, ok) = match auto.serve(&mut ses.srv, &call, PATIENCE)? {
        Outcome::Ret(x) => x,
        o => return suspect(format!("a session of {:?} {} ", ops, o.kind())),
    };
    ctx.events(auto.requests + auto.states + auto.cmds);
    ensure!(
        m[2] - m[0] <= TOL,
        "the session holds {} bytes more after {} than after {} repetitions of {:?} with motions that end with {:?} (halfway {})",
        m[2] - m[0], reps, warm, ops, fates, m[1] - m[0]
    );
    ctx.eval();
    ctx.hit(&format!("{} operations in a round", ops.len()));
    ctx.hit(&format!("motions that {}", if fates.is_empty() { "do not occur".into() } else { format!("{:?}", fates[0]).chars().take(6).collect::<String>() }));
    let held = fds();
    drop(ses.cli);
    ensure!(sees_close(&mut ses.srv), "the connection stays open after the robot object was dropped");
    ctx.eval();
    drop(ses.srv);
    let left = fds_back_to(base);
    ensure!(left <= base, "{} file descriptors are open after a session, {} before ({} during it)", left, base, held);
    ctx.eval();
    ctx.sig((format!("{:?}{:?}", ops, fates), log));
    ctx.sample(format!("{} rounds of {:?} ({} successful calls, {} states, {} commands): {} bytes more than after {} rounds", reps, ops, ok, auto.states, auto.cmds, m[2] - m[0], warm));
    Ok(())
}
fn c27_gripper(ctx: &mut Ctx) -> Res<()> {
    let base = fds();
    let mut s = open_gripper(&ctx.ip.clone())?;
    let kinds: Vec<usize> = (0..ctx.rng.range(1, 4)).map(|_| ctx.rng.below(5)).collect();
    let (warm, reps) = (32, if kinds.contains(&4) { 120 } else { 300 });
    let k2 = kinds.clone();
    let call = s.cli.call(move |g| {
        let mut m = [0i64; 2];
        for k in 0..reps {
            for c in &k2 {
                let _ = match c {
                    0 => g.homing().map(|_| ()),
                    1 => g.grasp(0.1, 0.1, 1., None, None).map(|_| ()),
                    2 => g.move_gripper(0.1, 0.1).map(|_| ()),
                    3 => g.stop().map(|_| ()),
                    _ => g.read_once().map(|_| ()),
                };
            }
            if k + 1 == warm {
                m[0] = live();
            }
        }
        m[1] = live();
        m
    });
    let mut pat = Patience::new(PATIENCE);
    let (mut id, mut n) = (1u32, 0usize);
    let m = loop {
        match call.poll() {
            Some(Outcome::Ret(m)) => break m,
            Some(o) => return suspect(format!("a gripper session of {:?} {}", kinds, o.kind())),
            None => {}
        }
        match s.srv.event(1) {
            Some(In::Req(r)) => {
                n += 1;
                let m = gripper_msg(r.cmd as u16, r.id, &((n % 4) as u16).to_le_bytes());
                s.srv.send(&m)?;
                pat = Patience::new(PATIENCE);
            }
            _ => {
                id += 1;
                s.srv.udp_raw(&GState { id, width: 0.1, max_width: 0.2, grasped: false, temp: 20 }.encode())?;
                if !pat.tick() {
                    return suspect(format!("a gripper session of {:?} hangs", kinds));
                }
            }
        }
    };
    ctx.events(n + id as usize);
    ensure!(m[1] - m[0] <= TOL, "the gripper session holds {} bytes more after {} than after {} repetitions of {:?}", m[1] - m[0], reps, warm, kinds);
    ctx.eval();
    drop(s.cli);
    ensure!(sees_close(&mut s.srv), "the connection stays open after the gripper object was dropped");
    drop(s.srv);
    let left = fds_back_to(base);
    ensure!(left <= base, "{} file descriptors are open after a gripper session, {} before", left, base);
    ctx.evals(2);
    ctx.hit("gripper sessions");
    ctx.sig(("g", kinds));
    Ok(())
}
/// attempts to connect that fail, at every stage
fn c27_connect(ctx: &mut Ctx) -> Res<()> {
    let base = fds();
    let gripper = ctx.rng.bool();
    let stage = ctx.rng.below(4);
    let n = ctx.rng.range(1, 5);
    for _ in 0..n {
        let ip = ctx.ip.clone();
        let mut srv = if stage == 0 { None } else { Some(Server::bind(&ip, gripper)?) };
        let (tx, rx) = std::sync::mpsc::channel::<()>();
        let t = std::thread::spawn(move || {
            let before = live();
            let r = guarded(|| if gripper { Gripper::new(&ip).map(|_| ()).is_ok() } else { Robot::new(&ip, RealtimeConfig::Ignore, None).map(|_| ()).is_ok() });
            drop(tx);
            let ok = r.unwrap_or(false);
            (ok, live() - before)
        });
        if let Some(s) = &mut srv {
            s.accept()?;
            match stage {
                1 => {
                    let _ = s.request()?;
                    s.tcp = None;
                }
                2 => s.tcp = None,
                _ if gripper => {
                    // incompatible version
                    let r = s.request()?;
                    let mut p = 1u16.to_le_bytes().to_vec();
                    p.extend(2u16.to_le_bytes());
                    let m = gripper_msg(gcmd::CONNECT, r.id, &p);
                    s.send(&m)?;
                }
                _ => {
                    let r = s.request()?;
                    let mut p = vec![1u8];
                    p.extend(3u16.to_le_bytes());
                    s.respond(cmd::CONNECT, r.id, &p)?;
                }
            }
        }
        let _ = rx.recv_timeout(Duration::from_secs(8));
        let (ok, bytes) = match t.join() {
            Ok(x) => x,
            Err(_) => return suspect("connecting panicked"),
        };
        ensure!(!ok, "connecting succeeded although the robot did not answer");
        ensure!(bytes <= TOL, "an attempt to connect that failed holds {} bytes", bytes);
        ctx.evals(1);
        ctx.events(1);
    }
    let left = fds_back_to(base);
    ensure!(left <= base, "{} file descriptors are open after {} attempts to connect that failed, {} before", left, n, base);
    ctx.eval();
    ctx.hit(&format!("failed attempts to connect, stage {}", stage));
    ctx.sig(("c", gripper, stage, n));
    Ok(())
}
/// one long motion or read: no growth from cycle to cycle
fn c27_long(ctx: &mut Ctx) -> Res<()> {
    let ip = ctx.ip.clone();
    let log = *ctx.rng.pick(&[0usize, 1, 7, 50]);
    let mut ses = open_robot(&ip, Some(RealtimeConfig::Ignore), Some(log), 1)?;
    let read = ctx.rng.chance(0.25);
    let i = *ctx.rng.pick(&IFACES);
    let lim = ctx.rng.bool();
    let (warm, n) = if read { (60, 300) } else { (150, 1000) };
    let reflex = ctx.rng.chance(0.3);
    let mut auto = Auto::new();
    if reflex {
        auto.fates = vec![Fate::Reflex(n)];
    }
    let call = ses.cli.call(move |r| {
        if read {
            let (mut k, mut m) = (0, [0i64; 2]);
            let _ = r.read(|_| {
                k += 1;
                if k == warm {
                    m[0] = live();
                }
                if k == n {
                    m[1] = live();
                }
                k < n
            });
            m
        } else {
            let m: std::sync::Arc<[AtomicI64; 2]> = Default::default();
            let (m1, m2) = (m.clone(), m.clone());
            let (mut mg, mut tg) = (hold(i, n + 5), torque_n(n + 5));
            let (mut a, mut b) = (0, 0);
            let mark = move |m: &[AtomicI64; 2], k: usize| {
                if k == warm {
                    m[0].store(live(), Ordering::Relaxed);
                }
                if k == n - 1 {
                    m[1].store(live(), Ordering::Relaxed);
                }
            };
            let o = Opts { joint_imp: None, limit: Some(lim), cutoff: if lim { None } else { Some(1000.) } };
            let _ = control(
                r,
                i,
                o,
                Box::new(move |s, _| {
                    a += 1;
                    mark(&m1, a);
                    mg(a - 1, s)
                }),
                Box::new(move |s, _| {
                    b += 1;
                    if i == Iface::T {
                        mark(&m2, b);
                    }
                    tg(b - 1, s)
                }),
            );
            [m[0].load(Ordering::Relaxed), m[1].load(Ordering::Relaxed)]
        }
    });
    let m = match auto.serve(&mut ses.srv, &call, PATIENCE)? {
        Outcome::Ret(m) => m,
        o => return suspect(format!("a long {} {}", if read { "read" } else { "motion" }, o.kind())),
    };
    if m[0] == 0 || m[1] == 0 {
        return suspect("the long motion or read ended early");
    }
    ctx.events(auto.states + auto.cmds);
    let what = if read { "read".to_string() } else { format!("{:?} motion (limiter and filter {}, log size {})", i, lim, log) };
    ensure!(m[1] - m[0] <= TOL, "{} bytes more are held in cycle {} than in cycle {} of a {}", m[1] - m[0], n, warm, what);
    ctx.eval();
    ctx.hit(if read { "long read" } else { "long motion" });
    ctx.sig(("l", what, reflex));
    Ok(())
}
fn mapped() -> usize {
    std::fs::read_to_string("/proc/self/maps").map(|s| s.lines().filter(|l| l.contains("model.so")).count()).unwrap_or(0)
}
/// models loaded and dropped again and again
fn c27_model(ctx: &mut Ctx) -> Res<()> {
    let _l = model::MODEL_FILE.lock().unwrap_or_else(|e| e.into_inner());
    let _f = model::FileGuard::new()?;
    let base = fds();
    let maps = mapped();
    let ip = ctx.ip.clone();
    let mut ses = open_robot(&ip, Some(RealtimeConfig::Ignore), None, 1)?;
    let persistent = ctx.rng.chance(0.3);
    let bad = ctx.idx / 10 % 2 == 1;
    let (warm, reps) = (3, 15);
    let call = ses.cli.call(move |r| {
        let mut m = [0i64; 2];
        for k in 0..reps {
            match r.load_model(persistent) {
                Ok(_) if bad => return Err("a model that cannot be used was loaded".to_string()),
                Ok(m) => drop(m),
                Err(_) if bad => {}
                Err(e) => return Err(text(&e)),
            }
            if k + 1 == warm {
                m[0] = live();
            }
        }
        m[1] = live();
        Ok(m)
    });
    let mut pat = Patience::new(PATIENCE);
    let mut n = 0;
    let m = loop {
        match call.poll() {
            Some(Outcome::Ret(Ok(m))) => break m,
            Some(Outcome::Ret(Err(e))) => return suspect(format!("load_model: {}", e)),
            Some(o) => return suspect(format!("load_model {}", o.kind())),
            None => {}
        }
        match ses.srv.event(2) {
            Some(In::Req(r)) => {
                n += 1;
                let mut p = vec![0u8];
                let mut b = model::blob(n)?;
                if bad {
                    match ctx.rng.below(8) {
                        0 => p[0] = 1,
                        1 => {
                            let len = ctx.rng.range(1, 400);
                            b.truncate(len)
                        }
                        2 => b = vec![7; 3000],
                        _ => model::without_function(&mut b, &mut ctx.rng)?,
                    }
                }
                p.extend(b);
                ses.srv.respond(r.cmd, r.id, &p)?;
                pat = Patience::new(PATIENCE);
            }
            _ => {
                if !pat.tick() {
                    return suspect("load_model hangs");
                }
            }
        }
    };
    ctx.events(n as usize + reps);
    ensure!(m[1] - m[0] <= TOL, "{} bytes more are held after {} than after {} models were loaded and dropped", m[1] - m[0], reps, warm);
    ensure!(mapped() <= maps, "the model library stays loaded after {}", if bad { "attempts to load it that failed" } else { "the last model was dropped" });
    drop(ses.cli);
    drop(ses.srv);
    let left = fds_back_to(base);
    ensure!(left <= base, "{} file descriptors are open after models were loaded, {} before", left, base);
    ctx.evals(3);
    ctx.hit(if bad { "models that cannot be loaded" } else { "models loaded and dropped" });
    ctx.sig(("m", persistent, bad, ctx.idx));
    Ok(())
}
/// C27: sessions hold on to nothing they do not need: heap, descriptors, connections.
pub fn c27(ctx: &mut Ctx) -> Res<()> {
    match ctx.idx % 10 {
        4 => c27_gripper(ctx),
        5 => c27_connect(ctx),
        6 | 7 => c27_long(ctx),
        8 => c27_model(ctx),
        _ => c27_robot(ctx),
    }
}

// ------------------------------------------------------------------ C28
const SIGNALLED: [&str; 11] = ["C01", "C03", "C06", "C07", "C08", "C09", "C10", "C04", "C23", "C02", "C05"];
/// C28: signals that the process handles do not disturb any operation. The workloads of other
/// properties run while signals hit the threads of the library; their verdicts count.
pub fn c28(ctx: &mut Ctx) -> Res<()> {
    storm::start();
    let all = super::all();
    let p = all.iter().find(|p| p.id == SIGNALLED[ctx.idx % SIGNALLED.len()]).unwrap();
    ctx.idx = ctx.rng.below(p.systematic * 3);
    let before = storm::caught();
    let r = (p.case)(ctx);
    ctx.hit(&format!("workload of {}", p.id));
    if storm::caught() - before >= 3 {
        ctx.hit("cases with signals");
    }
    r.map_err(|f| match f {
        Fail::Violation(m) => Fail::Violation(format!("while signals arrive ({}): {}", p.id, m)),
        Fail::Suspect(m) => Fail::Suspect(format!("while signals arrive ({}): {}", p.id, m)),
        f => f,
    })
}
