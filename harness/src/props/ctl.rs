//! C08 C09 C10 C11 C12 C17 C23: motions, their protocol, callbacks, errors and logs.
use super::state::check_state;
use super::tcp::{judge_script, RCmd, N_RCMD};
use crate::fw::*;
use crate::mock::*;
use crate::motion::*;
use crate::refmath as rm;
use crate::wire::*;
use crate::{ensure, ensure_t};
use franka::exception::FrankaException;
use franka::robot::logger::Record;
use franka::*;
use std::sync::{Arc, Mutex};
use std::time::Duration;

// ------------------------------------------------------------------ generators
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ElbowMode {
    Never,
    Always,
    Mixed,
}
pub fn random_pose(rng: &mut Rng, r: f64) -> [f64; 16] {
    let ang = match rng.below(6) {
        0 => 0.,
        1 => std::f64::consts::PI,
        2 => std::f64::consts::PI - rng.uni(0., 1e-6),
        3 => rng.uni(0., 1e-6),
        _ => rng.uni(0., std::f64::consts::PI),
    };
    let ax: [f64; 3] = match rng.below(4) {
        0 => *rng.pick(&[[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [-1., 0., 0.], [0., -1., 0.]]),
        _ => rng.arr(-1., 1.),
    };
    let n = rm::norm(&ax).max(1e-9);
    let q = rm::qnorm(&rm::qexp(&rm::scale(&ax, ang / n)));
    rm::pose(&q, &rng.arr(-r, r))
}
/// Seeds of this kind: requests that stay the same over several cycles, requests of zeros.
const STEADY: u64 = 0xEC << 56;
fn steady(seed: u64, k: usize) -> (usize, bool) {
    if seed >> 56 == STEADY >> 56 {
        (k / 4, k / 4 % 3 == 1)
    } else {
        (k, false)
    }
}
pub fn out_at(seed: u64, k: usize, i: Iface, em: ElbowMode, fin: bool) -> Out {
    let (k, zero) = steady(seed, k);
    if zero {
        let elbow = if i.cartesian() && em != ElbowMode::Never { Some([0., -1.]) } else { None };
        return match i.mg() {
            MG_CP => Out::new(&IDENT, elbow, fin),
            MG_CV => Out::new(&[0.; 6], elbow, fin),
            _ => Out::new(&[0.; 7], None, fin),
        };
    }
    let mut rng = Rng::new(mix(seed ^ mix(k as u64)));
    let elbow = match em {
        ElbowMode::Never => None,
        ElbowMode::Always => Some([rng.uni(-3., 3.), if rng.bool() { 1. } else { -1. }]),
        ElbowMode::Mixed if rng.bool() => Some([rng.uni(-3., 3.), if rng.bool() { 1. } else { -1. }]),
        ElbowMode::Mixed => None,
    };
    let elbow = if i.cartesian() { elbow } else { None };
    match i.mg() {
        MG_CP => Out::new(&random_pose(&mut rng, 2.), elbow, fin),
        MG_CV => Out::new(&rng.wild_arr::<6>(), elbow, fin),
        _ => Out::new(&rng.wild_arr::<7>(), None, fin),
    }
}
pub fn tau_at(seed: u64, k: usize) -> [f64; 7] {
    let (k, zero) = steady(seed, k);
    if zero {
        return [0.; 7];
    }
    let mut rng = Rng::new(mix(seed ^ mix(0x7777 + k as u64)));
    rng.wild_arr()
}
/// callbacks which finish in cycle n - 1; for torque interfaces either side may be the one
pub fn gens(i: Iface, n: usize, by_torque: bool, seed: u64, em: ElbowMode) -> (MotionGen, TorqueGen) {
    let mt = !(i.torque() && by_torque) && i != Iface::T;
    let tt = i.torque() && (by_torque || i == Iface::T);
    (
        Box::new(move |k, _| out_at(seed, k, i, em, mt && k + 1 >= n)),
        Box::new(move |k, _| (tau_at(seed, k), tt && k + 1 >= n)),
    )
}
fn any_opts(rng: &mut Rng) -> Opts {
    Opts {
        joint_imp: *rng.pick(&[None, Some(true), Some(false)]),
        limit: *rng.pick(&[None, Some(true), Some(false)]),
        cutoff: *rng.pick(&[None, Some(1000.), Some(100.), Some(20.)]),
    }
}
/// robot that follows its commands (content of the next state)
pub fn follow(s: &mut State, c: Option<&Command>) {
    if let Some(c) = c {
        s.set(off::tau_J_d, &c.tau);
        match s.mg {
            _ => {
                s.set(off::elbow_c, &[c.elbow[0], -1.]);
            }
        }
    }
}
fn still(_: &mut State, _: Option<&Command>) {}

/// small in-limit callbacks that work with limiter and filter on a robot standing still
fn calm(i: Iface, n: usize, by_torque: bool) -> (MotionGen, TorqueGen) {
    let mt = !(i.torque() && by_torque) && i != Iface::T;
    let tt = i.torque() && (by_torque || i == Iface::T);
    (
        Box::new(move |k, _| {
            let fin = mt && k + 1 >= n;
            match i.mg() {
                MG_CP => Out::new(&IDENT, None, fin),
                MG_CV => Out::new(&[1e-4; 6], None, fin),
                _ => Out::new(&[1e-6; 7], None, fin),
            }
        }),
        Box::new(move |k, _| ([0.01 * k as f64; 7], tt && k + 1 >= n)),
    )
}

// ------------------------------------------------------------------ C08
pub fn check_move(req: &Req, i: Iface, o: Opts) -> Res<()> {
    ensure!(req.payload.len() == 56, "Move request with {} payload bytes", req.payload.len());
    let mut r = Rd(&req.payload, 0);
    let (cm, mg) = (r.u32(), r.u32());
    ensure!(cm == o.cm(i) as u32, "{:?} {:?}: Move requests controller mode {}", i, o, cm);
    ensure!(mg == i.mg() as u32 - 1, "{:?}: Move requests motion generator mode {}", i, mg);
    let dev: [f64; 6] = r.arr();
    let want = [10., 3.12, 2. * std::f64::consts::PI];
    ensure!(bits_eq(&dev[..3], &want) && bits_eq(&dev[3..], &want), "Move requests deviations {:?}", dev);
    Ok(())
}
/// the order of everything that happened during a motion that ended regularly
fn check_order(r: &Run, what: &str) -> Res<()> {
    let ev = &r.trace.ev;
    let pos = |e: &Ev| ev.iter().position(|x| x == e);
    let mv = pos(&Ev::MoveReq);
    let ret = pos(&Ev::Returned);
    let fin = pos(&Ev::FinalResp);
    ensure!(mv == Some(0), "{}: first event is {:?}", what, ev.first());
    ensure!(!ev.contains(&Ev::StopReq), "{}: the motion was stopped although it ended regularly", what);
    let first_cmd = ev.iter().position(|x| matches!(x, Ev::Cmd(_)));
    if let Some(f) = first_cmd {
        let entered = ev.iter().position(|x| matches!(x, Ev::State(k) if *k == r.trace.last_enter));
        ensure!(entered.map(|e| e < f) == Some(true), "{}: a command was sent before the robot entered the motion", what);
    }
    let lastc = ev.iter().rposition(|x| matches!(x, Ev::Cmd(_)));
    if let (Some(f), Some(rt)) = (fin, ret) {
        ensure!(f < rt, "{}: returned before the final response", what);
        if let Some(l) = lastc {
            // the datagram may be read late, so only order on the client side matters: a command
            // for a state that was sent after the return cannot exist
            let id = r.trace.cmds[match ev[l] {
                Ev::Cmd(k) => k,
                _ => unreachable!(),
            }]
            .id;
            let sent_before_return = ev[..rt].iter().filter_map(|x| if let Ev::State(k) = x { Some(r.trace.states[*k].id) } else { None }).max().unwrap_or(0);
            ensure!(id <= sent_before_return, "{}: command {} after the motion was over", what, id);
        }
    }
    // finished flag: never before the callback said so, and never withdrawn
    let mut seen = false;
    for c in &r.trace.cmds {
        ensure!(c.finished <= 1, "{}: finished flag {}", what, c.finished);
        ensure!(!(seen && c.finished == 0), "{}: the finished flag was withdrawn", what);
        seen |= c.finished == 1;
    }
    ensure!(seen, "{}: no command carried the finished flag", what);
    Ok(())
}
pub fn c08(ctx: &mut Ctx) -> Res<()> {
    let mut ses = open_default(ctx)?;
    let rounds = 3;
    for k in 0..rounds {
        let i = IFACES[(ctx.idx + k * 4) % 9];
        let o = if k == 0 { Opts { joint_imp: [None, Some(true), Some(false)][ctx.idx / 9 % 3], ..any_opts(&mut ctx.rng) } } else { any_opts(&mut ctx.rng) };
        let n = match ctx.rng.below(4) {
            0 => 1,
            1 => 2,
            2 => ctx.rng.range(3, 40),
            _ => ctx.rng.range(3, 12),
        };
        let n = if ctx.idx % 40 == 39 && k == 0 { 1200 } else { n };
        let by_torque = ctx.rng.bool();
        let (m, t) = calm(i, n, by_torque);
        let mut d = Drive::new(i, o);
        d.pre_states = *ctx.rng.pick(&[0, 0, 1, 3, 12]);
        d.finish_delay = *ctx.rng.pick(&[0, 0, 1, 4, 15]);
        if d.pre_states == 0 {
            d.early_states = *ctx.rng.pick(&[0, 0, 1, 5]);
        }
        // a robot that takes its time
        if k == 1 && ctx.idx % 6 == 1 {
            d.finish_delay = *ctx.rng.pick(&[120, 300, 1100, 3000]);
            ctx.hit("robot stops late");
        }
        if k == 2 && ctx.idx % 6 == 4 {
            d.early_states = 0;
            d.pre_states = *ctx.rng.pick(&[100, 300, 2500]);
            ctx.hit("robot enters the motion late");
        }
        if d.early_states > 0 {
            ctx.hit("robot in motion before its first response");
        }
        d.stale = ctx.rng.chance(0.4);
        if d.stale {
            ctx.hit("old states are sent again");
        }
        d.ports = ctx.rng.chance(0.2);
        if d.ports {
            ctx.hit("states from changing ports");
        }
        d.final_first = ctx.rng.bool();
        d.final_gap_ms = *ctx.rng.pick(&[0, 1, 4, 15]);
        // responses that take as long as the robot needs
        if k == 0 && !ctx.nested && (ctx.idx == 10 || ctx.idx == 11 || (ctx.thorough && ctx.idx % 500 == 60)) {
            let ms = if ctx.thorough { 31_000 } else { 11_000 };
            match ctx.idx % 2 {
                0 => d.first_gap_ms = ms,
                _ => {
                    d.final_first = false;
                    d.final_gap_ms = ms;
                }
            }
            ctx.hit("response after a long time");
        }
        d.end_cm = *ctx.rng.pick(&[CM_OTHER, CM_JOINT, CM_CART]);
        d.end_mode = *ctx.rng.pick(&[RM_IDLE, RM_MOVE, RM_GUIDING]);
        d.frag_us = *ctx.rng.pick(&[None, None, Some(0), Some(700)]);
        d.partial = ctx.rng.bool();
        let (fd, pre) = (d.finish_delay, d.pre_states);
        let partial = d.partial;
        let ff = d.final_first;
        let what = format!("{:?} {:?}, {} cycles, finished by {}, {} idle states first, {} states until the robot stops", i, o, n, if by_torque { "torque" } else { "motion" }, pre, fd);
        let r = motion(&mut ses, i, o, false, m, t, &mut d, &mut still)?;
        expect_ok(&r.out, &what)?;
        check_move(r.trace.move_req.as_ref().unwrap(), i, o)?;
        check_order(&r, &what)?;
        // one command per callback cycle; the finished one is repeated until the robot stops
        let unfinished = r.trace.cmds.iter().filter(|c| c.finished == 0).count();
        ensure!(unfinished == n - 1, "{}: {} commands without finished flag for {} cycles", what, unfinished, n);
        let fin = r.trace.cmds.len() - unfinished;
        let fd = fd + r.trace.halfway;
        ensure_t!(fin > fd && (!partial || r.trace.halfway > 0), "{}: {} finished commands for {} states", what, fin, fd + 1);
        if partial {
            ctx.hit("robot enters and leaves the motion in steps");
        }
        // nothing is sent once the call has returned
        let p = ses.cli.call(|r| r.read_once());
        let o2 = ses.srv.pump_until(&p, |id| State::idle(id), |_, e| viol(format!("{}: {:?} after the motion", what, e)))?;
        ensure_t!(matches!(o2, Outcome::Ret(Ok(_))), "{}: reading a state afterwards: {:?}", what, o2);
        ctx.evals(3);
        ctx.events(r.trace.n_events());
        ctx.hit(&format!("{:?}", i));
        ctx.hit(if ff { "final response before the idle state" } else { "final response after the idle state" });
        if n >= 1000 {
            ctx.hit("long motion");
        }
        ctx.sig((i, o.cm(i), n.min(4), pre, fd, ff, by_torque, partial));
        if k == 0 {
            ctx.sample(what);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C09
fn noisy_state(s: &mut State, seed: u64) {
    let mut rng = Rng::new(seed ^ mix(s.id));
    for x in s.d.iter_mut() {
        *x = rng.uni(-10., 10.);
    }
    s.rate = rng.f();
}
pub fn c09(ctx: &mut Ctx) -> Res<()> {
    if ctx.idx % 5 == 3 {
        return slow_callbacks(ctx);
    }
    let first_id = *ctx.rng.pick(&[1u64, 1, (1 << 32) - 30, 1 << 40, (1 << 63) - 20]);
    let ip = ctx.ip.clone();
    let mut ses = open_robot(&ip, Some(RealtimeConfig::Ignore), None, first_id)?;
    for k in 0..2 {
        let i = IFACES[(ctx.idx + k * 5) % 9];
        let o = Opts::raw();
        let n = if ctx.idx % 30 == 29 { 1500 } else { ctx.rng.range(2, 60) };
        // more cycles than fit into 16 bits
        let n = if k == 0 && !ctx.nested && (ctx.idx == 4 || (ctx.thorough && ctx.idx % 400 == 7)) { 68_000 } else { n };
        let by_torque = ctx.rng.bool();
        let seed = ctx.rng.u64();
        let (m, t) = gens(i, n, by_torque, seed, ElbowMode::Mixed);
        let mut d = Drive::new(i, o);
        d.max_cycles = 30_000 + n;
        if n > 60_000 {
            ctx.hit("very long motion");
        }
        let style = ctx.rng.below(5);
        let sseed = ctx.rng.u64();
        let mut r1 = Rng::new(ctx.rng.u64());
        d.id_step = Box::new(move |_| match style {
            0 => 1,
            1 => 5,
            2 => 1 + r1.below(20) as u64,
            4 => {
                if r1.chance(0.1) {
                    *r1.pick(&[127, 128, 255, 256, 257, 32_768, 65_535, 65_536, 70_001, 1 << 31, (1 << 32) - 1, 1 << 32, 5 << 32])
                } else {
                    1
                }
            }
            _ => {
                if r1.chance(0.1) {
                    1000
                } else {
                    4
                }
            }
        });
        d.finish_delay = *ctx.rng.pick(&[0, 2, 6]);
        d.pre_states = *ctx.rng.pick(&[0, 2]);
        let extra_states: Arc<Mutex<Vec<State>>> = Default::default();
        let es = extra_states.clone();
        let mut r2 = Rng::new(ctx.rng.u64());
        let mut past: Vec<State> = vec![];
        let mut prev_id = first_id;
        let noisy = style != 0;
        // once in a while the robot is silent for a moment, but not for as long as the timeout
        let silent_at = if k == 0 && ctx.idx % 27 == 4 && !ctx.nested { Some(ctx.rng.range(2, 12)) } else { None };
        if silent_at.is_some() {
            ctx.hit("interrupted stream");
        }
        d.extra = Box::new(move |j, s| {
            let mut v = vec![];
            if Some(j) == silent_at {
                std::thread::sleep(Duration::from_millis(600));
            }
            if noisy && past.len() > 1 {
                for _ in 0..r2.below(3) {
                    if r2.bool() {
                        v.push(r2.pick(&past).encode()); // duplicate of an old state
                    } else if s.id > prev_id + 3 && s.mg != MG_IDLE {
                        // an additional newer state, overtaken immediately
                        let mut x = s.clone();
                        x.id = s.id - 1 - r2.below(2) as u64;
                        noisy_state(&mut x, sseed);
                        es.lock().unwrap().push(x.clone());
                        v.push(x.encode());
                    }
                }
            }
            prev_id = s.id;
            past.push(s.clone());
            if past.len() > 8 {
                past.remove(0);
            }
            v
        });
        let mut dynf = move |s: &mut State, _: Option<&Command>| noisy_state(s, sseed);
        let what = format!("{:?}, {} cycles, finished by {}, stream style {}", i, n, if by_torque { "torque" } else { "motion" }, style);
        let r = motion(&mut ses, i, o, n < 100, m, t, &mut d, &mut dynf)?;
        expect_ok(&r.out, &what)?;
        let extras = extra_states.lock().unwrap();
        check_callbacks(ctx, &r, &extras, i, n, by_torque, seed, &what)?;
        ctx.hit(&format!("{:?}", i));
        ctx.hit(["steady stream", "packet loss", "jitter", "bursts", "long gaps"][style]);
        ctx.events(r.trace.n_events() + r.cb.len());
        ctx.sig((i, n, style, by_torque, r.cb.len(), extras.len()));
        if k == 0 {
            ctx.sample(format!("{}: {} callbacks, {} commands, {} overtaken states", what, r.cb.len(), r.trace.cmds.len(), extras.len()));
        }
    }
    Ok(())
}
/// States pile up while the callback computes: the next callback gets the newest of them.
fn slow_callbacks(ctx: &mut Ctx) -> Res<()> {
    use std::sync::mpsc::channel;
    let mut ses = open_default(ctx)?;
    let i = IFACES[ctx.idx / 5 % 9];
    let o = Opts::raw();
    let log: CbLog = Default::default();
    let (in_tx, in_rx) = channel::<u64>();
    let (go_tx, go_rx) = channel::<bool>();
    let lead = i != Iface::T;
    let seed = ctx.rng.u64();
    // the leading callback tells the state it got and waits until it may return
    let gate = move |s: &RobotState| {
        in_tx.send(s.time.as_millis() as u64).ok();
        go_rx.recv().unwrap_or(true)
    };
    let gate = Arc::new(Mutex::new(gate));
    let g2 = gate.clone();
    let m: MotionGen = Box::new(move |k, s| {
        let fin = lead && (gate.lock().unwrap())(s);
        out_at(seed, k, i, ElbowMode::Never, fin)
    });
    let t: TorqueGen = Box::new(move |k, s| {
        let fin = !lead && (g2.lock().unwrap())(s);
        (tau_at(seed, k), fin)
    });
    let (m, t) = logged(&log, false, m, t);
    let p = ses.cli.call(move |r| control(r, i, o, m, t));
    let req = ses.srv.request()?;
    check_move(&req, i, o)?;
    ses.srv.respond(cmd::MOVE, req.id, &[mv::STARTED])?;
    let moving = |id| {
        let mut s = State::idle(id);
        s.mg = i.mg();
        s.cm = o.cm(i);
        s.mode = RM_MOVE;
        s
    };
    // until the first callback; about 50 states fit into the buffer of the client's socket, so do not
    // send too many if it is slow
    let mut pat = Patience::new(PATIENCE);
    let mut sent = 0;
    let mut last = std::time::Instant::now();
    let mut cur = loop {
        if sent < 6 || last.elapsed() > Duration::from_millis(500) {
            ses.srv.state(&moving(ses.srv.last_id + 1))?;
            sent += 1;
            last = std::time::Instant::now();
        }
        match in_rx.recv_timeout(Duration::from_millis(2)) {
            Ok(id) => break id,
            Err(_) => ensure_t!(pat.tick(), "{:?}: no callback although the robot is in motion", i),
        }
    };
    let rounds = ctx.rng.range(5, 15);
    let what = format!("{:?}, slow callbacks", i);
    for k in 0..rounds {
        let n = *ctx.rng.pick(&[1, 1, 2, 5, 12, 20]);
        let mut ids = vec![];
        for _ in 0..n {
            let id = ses.srv.last_id + *ctx.rng.pick(&[1, 1, 1, 2, 40]);
            ses.srv.state(&moving(id))?;
            ids.push(id);
            if ctx.rng.chance(0.2) {
                let old = *ctx.rng.pick(&ids);
                ses.srv.udp_raw(&moving(old).encode())?;
            }
        }
        std::thread::sleep(Duration::from_millis(2));
        go_tx.send(false).ok();
        let next = match in_rx.recv_timeout(Duration::from_secs(8)) {
            Ok(id) => id,
            Err(_) => return suspect(format!("{}: no further callback, {:?}", what, p.poll())),
        };
        ensure_t!(next == ses.srv.last_id, "{}: {} states up to {} had arrived, but the callback got state {}", what, n, ses.srv.last_id, next);
        let mut cmds = vec![];
        let mut pat = Patience::new(PATIENCE);
        while cmds.is_empty() {
            match ses.srv.event(5) {
                Some(In::Cmd(c)) => cmds.push(c.id),
                Some(e) => return viol(format!("{}: {:?}", what, e)),
                None => ensure_t!(pat.tick(), "{}: no command", what),
            }
        }
        ensure!(cmds == [cur], "{}: commands for states {:?}, but the callback had got state {}", what, cmds, cur);
        cur = next;
        ctx.eval();
        ctx.events(n + 2);
        ctx.sig((i, n, k));
    }
    // --- end
    go_tx.send(true).ok();
    drop(go_tx);
    let mut pat = Patience::new(PATIENCE);
    loop {
        match ses.srv.event(5) {
            Some(In::Cmd(c)) => {
                ensure!(c.finished == 1 && c.id == cur, "{}: command for state {}, finished {}, instead of the finishing one for state {}", what, c.id, c.finished, cur);
                break;
            }
            Some(e) => return viol(format!("{}: {:?}", what, e)),
            None => ensure_t!(pat.tick(), "{}: no finishing command", what),
        }
    }
    ses.srv.respond(cmd::MOVE, req.id, &[mv::SUCCESS])?;
    let out = ses.srv.pump_until(&p, |id| State::idle(id), |_, _| Ok(()))?;
    expect_ok(&out, &what)?;
    let cb = log.lock().unwrap();
    for (a, b) in cb.iter().filter(|c| !c.torque).zip(cb.iter().filter(|c| c.torque)) {
        if lead && i.torque() {
            ensure!(a.id == b.id && a.dt_ns == b.dt_ns, "{}: in one cycle the callbacks got states {} and {}", what, a.id, b.id);
        }
    }
    ctx.hit("states pile up during a callback");
    ctx.sample(format!("{}: {} rounds", what, rounds));
    Ok(())
}
fn check_callbacks(ctx: &mut Ctx, r: &Run, extras: &[State], i: Iface, n: usize, by_torque: bool, seed: u64, what: &str) -> Res<()> {
    let mut by_id: std::collections::HashMap<u64, &State> = Default::default();
    for s in r.trace.states.iter().chain(extras.iter()) {
        by_id.entry(s.id).or_insert(s);
    }
    let find = |id: u64| by_id.get(&id).copied();
    // cycles = callbacks grouped by the state they were called with
    let mcb: Vec<&CbEv> = r.cb.iter().filter(|c| !c.torque).collect();
    let tcb: Vec<&CbEv> = r.cb.iter().filter(|c| c.torque).collect();
    let by_torque = i == Iface::T || (i.torque() && by_torque);
    if i != Iface::T {
        ensure!(mcb.len() == n, "{}: motion callback called {} times, it finished at call {}", what, mcb.len(), n);
    }
    if i.torque() {
        let lo = if by_torque { n } else { n - 1 };
        ensure!(tcb.len() == lo || (!by_torque && tcb.len() == n), "{}: torque callback called {} times for {} cycles", what, tcb.len(), n);
    } else {
        ensure!(tcb.is_empty(), "{}: torque callback called", what);
    }
    let lead = if i == Iface::T { &tcb } else { &mcb };
    for set in [&mcb, &tcb] {
        let mut last: Option<u64> = None;
        for c in set.iter() {
            ensure!(find(c.id).is_some(), "{}: callback got state {} which was never sent", what, c.id);
            let dt = match last {
                None => 0,
                Some(l) => {
                    ensure!(c.id > l, "{}: callback got state {} after state {}", what, c.id, l);
                    (c.id - l) as u128 * 1_000_000
                }
            };
            ensure!(c.dt_ns == dt, "{}: callback for state {} (previous {:?}) got a time step of {} ns instead of {}", what, c.id, last, c.dt_ns, dt);
            last = Some(c.id);
            if let Some(s) = &c.state {
                check_state(s, find(c.id).unwrap())?;
                ctx.eval();
            }
        }
    }
    for (a, b) in mcb.iter().zip(tcb.iter()) {
        ensure!(a.id == b.id, "{}: in one cycle the motion callback got state {} and the torque callback state {}", what, a.id, b.id);
    }
    // every command answers the state its values were computed for
    let un: Vec<&Command> = r.trace.cmds.iter().filter(|c| c.finished == 0).collect();
    ensure!(un.len() == n - 1, "{}: {} commands for {} cycles", what, un.len(), n);
    for (j, c) in un.iter().enumerate() {
        ensure!(c.id == lead[j].id, "{}: command {} carries message id {} but was computed from state {}", what, j, c.id, lead[j].id);
    }
    let mut seen = std::collections::HashSet::new();
    let mut last = 0;
    for c in &r.trace.cmds {
        ensure!(seen.insert(c.id), "{}: two commands for state {}", what, c.id);
        ensure!(c.id > last, "{}: command for state {} after one for state {}", what, c.id, last);
        ensure!(find(c.id).is_some(), "{}: command for state {} which was never sent", what, c.id);
        last = c.id;
    }
    // the finishing command answers the state of the last cycle
    if let Some(f) = r.trace.cmds.iter().find(|c| c.finished == 1) {
        ensure!(f.id == lead[n - 1].id, "{}: finishing command carries message id {} instead of {}", what, f.id, lead[n - 1].id);
    }
    // values belong to the same cycle
    for (j, c) in r.trace.cmds.iter().take(n).enumerate() {
        check_values(c, i, seed, j, n, by_torque, ElbowMode::Mixed, what)?;
        ctx.eval();
    }
    Ok(())
}
/// raw mode: the values on the wire are exactly the ones of callback cycle j
fn check_values(c: &Command, i: Iface, seed: u64, j: usize, n: usize, by_torque: bool, em: ElbowMode, what: &str) -> Res<()> {
    let by_torque = i == Iface::T || (i.torque() && by_torque);
    let z = [0.; 16];
    let out = if i == Iface::T { Out::new(&[], None, false) } else { out_at(seed, j, i, em, false) };
    let nn = if i == Iface::T { 0 } else { i.n() };
    let exp = |mg: u8, len: usize| if i.mg() == mg && nn > 0 { out.v[..len].to_vec() } else { z[..len].to_vec() };
    for (name, got, want) in [
        ("joint positions", &c.q[..], exp(MG_JP, 7)),
        ("joint velocities", &c.dq[..], exp(MG_JV, 7)),
        ("pose", &c.pose[..], exp(MG_CP, 16)),
        ("twist", &c.twist[..], exp(MG_CV, 6)),
    ] {
        ensure!(bits_eq(got, &want), "{}: cycle {}: {} on the wire are {:?} instead of {:?}", what, j, name, got, want);
    }
    match out.elbow {
        Some(e) => ensure!(c.valid_elbow == 1 && bits_eq(&c.elbow, &e), "{}: cycle {}: elbow {:?} (valid {}) instead of {:?}", what, j, c.elbow, c.valid_elbow, e),
        None => ensure!(c.valid_elbow == 0 && bits_eq(&c.elbow, &[0., 0.]), "{}: cycle {}: elbow {:?} (valid {}) although none was given", what, j, c.elbow, c.valid_elbow),
    }
    if i.torque() {
        if by_torque || j + 1 < n {
            let want = tau_at(seed, j);
            ensure!(bits_eq(&c.tau, &want), "{}: cycle {}: torques {:?} instead of {:?}", what, j, c.tau, want);
        } else {
            // the motion callback ended the motion: torques of this or of the previous cycle
            let prev = if j == 0 { [0.; 7] } else { tau_at(seed, j - 1) };
            ensure!(bits_eq(&c.tau, &prev) || bits_eq(&c.tau, &tau_at(seed, j)), "{}: last cycle: torques {:?} belong to no cycle", what, c.tau);
        }
    } else {
        ensure!(bits_eq(&c.tau, &[0.; 7]), "{}: cycle {}: torques {:?} without torque control", what, j, c.tau);
    }
    Ok(())
}

// ------------------------------------------------------------------ C17
pub fn c17(ctx: &mut Ctx) -> Res<()> {
    let mut ses = open_default(ctx)?;
    for k in 0..3 {
        let i = IFACES[(ctx.idx + k * 2) % 9];
        let em = *ctx.rng.pick(&[ElbowMode::Never, ElbowMode::Always, ElbowMode::Mixed]);
        let cutoff = match ctx.rng.below(3) {
            0 => 1000.,
            1 => 1000.000001,
            _ => ctx.rng.uni(1000., 1e6),
        };
        let o = Opts { joint_imp: *ctx.rng.pick(&[None, Some(true), Some(false)]), limit: Some(false), cutoff: Some(cutoff) };
        let n = if ctx.idx % 30 == 29 && k == 0 { 2000 } else { *ctx.rng.pick(&[1, 2, 7, 30]) };
        let by_torque = ctx.rng.bool();
        let seed = if ctx.rng.chance(0.3) { STEADY | ctx.rng.u64() >> 8 } else { ctx.rng.u64() };
        let (m, t) = gens(i, n, by_torque, seed, em);
        let mut d = Drive::new(i, o);
        d.finish_delay = *ctx.rng.pick(&[0, 3]);
        let sseed = ctx.rng.u64();
        // hostile content: the state must not influence raw commands
        let nanny = ctx.rng.chance(0.2);
        // nor must what it reports as measured or commanded be compared with the request
        let echo = ctx.rng.chance(0.3);
        let mut seen = (0, 0);
        let mut dynf = move |s: &mut State, c: Option<&Command>| {
            noisy_state(s, sseed);
            if let Some(c) = c {
                if c.id != seen.1 {
                    seen = (seen.0 + 1, c.id);
                }
            }
            if echo {
                // the values of this cycle, sometimes of the one before
                let j = seen.0 - (s.id % 4 == 0 && seen.0 > 0) as usize;
                let out = if i == Iface::T { Out::new(&[0.; 7], None, false) } else { out_at(seed, j, i, em, false) };
                match i.mg() {
                    MG_JP => [off::q_d, off::q].iter().for_each(|o| s.set(*o, &out.v[..7])),
                    MG_JV => [off::dq_d, off::dq].iter().for_each(|o| s.set(*o, &out.v[..7])),
                    MG_CP => [off::O_T_EE_c, off::O_T_EE, off::O_T_EE_d].iter().for_each(|o| s.set(*o, &out.v[..16])),
                    _ => [off::O_dP_EE_c, off::O_dP_EE_d].iter().for_each(|o| s.set(*o, &out.v[..6])),
                }
                if let Some(e) = out.elbow {
                    [off::elbow_c, off::elbow_d, off::elbow].iter().for_each(|o| s.set(*o, &e));
                }
                [off::tau_J_d, off::tau_J].iter().for_each(|o| s.set(*o, &tau_at(seed, j)));
            }
            if nanny {
                for x in s.d.iter_mut() {
                    *x = f64::NAN;
                }
            }
        };
        let what = format!("{:?} cutoff {} {} cycles elbow {:?}", i, cutoff, n, em);
        let r = motion(&mut ses, i, o, false, m, t, &mut d, &mut dynf)?;
        expect_ok(&r.out, &what)?;
        ensure!(r.trace.cmds.len() >= n, "{}: only {} commands", what, r.trace.cmds.len());
        for (j, c) in r.trace.cmds.iter().enumerate() {
            let jj = j.min(n - 1);
            check_values(c, i, seed, jj, n, by_torque, em, &what)?;
            ensure!(c.finished == (j + 1 >= n) as u8, "{}: finished flag of command {} of {} is {}", what, j, n, c.finished);
            ctx.eval();
        }
        ctx.events(r.trace.n_events());
        ctx.hit(&format!("{:?}", i));
        ctx.hit(&format!("elbow {:?}", em));
        ctx.hit(if echo { "states that report what is requested" } else { "states without relation to the request" });
        ctx.sig((i, n, em as u8, by_torque, seed));
        if k == 0 {
            ctx.sample(what);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C10
pub const MOVE_WORDS: [(u8, &str); 8] = [
    (mv::PREEMPTED, "preempted"),
    (mv::NOT_POSSIBLE, "not possible"),
    (mv::SINGULAR, "singular"),
    (mv::INVALID, "deviation"),
    (mv::REFLEX, "reflex"),
    (mv::EMERGENCY, "user stop"),
    (mv::INPUT_ERROR, "invalid input"),
    (mv::ABORTED, "aborted"),
];
fn words(st: u8) -> &'static str {
    MOVE_WORDS.iter().find(|x| x.0 == st).unwrap().1
}
pub fn random_bits(rng: &mut Rng) -> [bool; 41] {
    let mut b = [false; 41];
    match rng.below(4) {
        0 => {}
        1 => b[rng.below(41)] = true,
        2 => b = [true; 41],
        _ => {
            for x in b.iter_mut() {
                *x = rng.chance(0.2);
            }
        }
    }
    b
}
fn reasons(bits: &[bool; 41]) -> String {
    let v: Vec<String> = (0..41).filter(|i| bits[*i]).map(|i| format!("\"{}\"", ERROR_NAMES[i])).collect();
    format!("[{}]", v.join(", "))
}
fn control_error(out: &Outcome<FrankaResult<()>>, what: &str) -> Res<(String, Option<Vec<Record>>)> {
    match out {
        Outcome::Ret(Err(FrankaException::ControlException { log, error })) => Ok((error.clone(), log.clone())),
        Outcome::Ret(Ok(())) => viol(format!("{}: reported as success", what)),
        Outcome::Ret(Err(FrankaException::NetworkException { message })) => suspect(format!("{}: network error {}", what, message)),
        Outcome::Ret(Err(e)) => viol(format!("{}: {} instead of a control exception", what, text(e))),
        Outcome::Panic(m) => viol(format!("{}: panicked: {}", what, m)),
        Outcome::Hang => suspect(format!("{}: did not return", what)),
    }
}
/// the session works: states can be read and a motion runs
fn usable(ctx: &mut Ctx, ses: &mut Session, what: &str) -> Res<()> {
    let p = ses.cli.call(|r| r.read_once());
    let o = ses.srv.pump_until(&p, |id| State::idle(id), |_, e| viol(format!("{}: unexpected {:?} while reading a state afterwards", what, e)))?;
    ensure_t!(matches!(o, Outcome::Ret(Ok(_))), "{}: reading a state afterwards: {:?}", what, o);
    let i = *ctx.rng.pick(&IFACES);
    let o = Opts::raw();
    let n = ctx.rng.range(1, 5);
    let (m, t) = gens(i, n, false, 5, ElbowMode::Mixed);
    let mut d = Drive::new(i, o);
    let w = format!("{}: next motion ({:?})", what, i);
    let r = motion(ses, i, o, false, m, t, &mut d, &mut still)?;
    expect_ok(&r.out, &w)?;
    check_order(&r, &w)?;
    ensure!(r.trace.cmds.iter().filter(|c| c.finished == 0).count() == n - 1, "{}: wrong number of commands", w);
    ctx.eval();
    Ok(())
}
pub fn c10(ctx: &mut Ctx) -> Res<()> {
    let mut ses = open_default(ctx)?;
    let rounds = 2;
    for k in 0..rounds {
        let kind = (ctx.idx + k * 3) % 6;
        let i = *ctx.rng.pick(&IFACES);
        let st = MOVE_WORDS[(ctx.idx / 6 + k) % 8].0;
        match kind {
            // the robot leaves the motion, but claims that it was finished
            0 | 1 if ctx.rng.chance(0.15) => abort_mid(ctx, &mut ses, i, mv::SUCCESS, kind == 0)?,
            0 | 1 => abort_mid(ctx, &mut ses, i, st, kind == 0)?,
            2 => reject_start(ctx, &mut ses, i, st)?,
            3 => abort_finish(ctx, &mut ses, i, st)?,
            4 => abort_starting(ctx, &mut ses, i, st)?,
            _ => already_running(ctx, &mut ses, i)?,
        }
        usable(ctx, &mut ses, &format!("after case kind {} status {}", kind, st))?;
    }
    Ok(())
}
/// An abort state is any in which the robot visibly left the motion.
fn gen_abort(rng: &mut Rng, i: Iface, o: Opts, at: usize, st: u8) -> Abort {
    let (mut mode, mut mg, mut cm) = (RM_MOVE, i.mg(), o.cm(i));
    match rng.below(4) {
        0 => {
            mode = *rng.pick(&[RM_IDLE, RM_REFLEX, RM_USERSTOP, RM_GUIDING, RM_OTHER, RM_RECOVERY]);
            mg = MG_IDLE;
            cm = CM_OTHER;
        }
        1 => mode = *rng.pick(&[RM_IDLE, RM_REFLEX, RM_USERSTOP, RM_GUIDING, RM_OTHER, RM_RECOVERY]),
        2 => {
            mg = *rng.pick(&[MG_IDLE, MG_IDLE, MG_JP, MG_JV, MG_CP, MG_CV]);
            if mg == i.mg() {
                mg = MG_IDLE;
            }
        }
        _ => {
            cm = *rng.pick(&[CM_JOINT, CM_CART, CM_OTHER, CM_EXT]);
            if cm == o.cm(i) {
                cm = CM_OTHER;
            }
        }
    }
    Abort {
        at,
        status: st,
        robot_mode: mode,
        mg,
        cm,
        refl: random_bits(rng),
        err: random_bits(rng),
        resp_first: rng.bool(),
        gap_ms: *rng.pick(&[0, 1, 5, 30]),
        stop_status: *rng.pick(&[0, 0, 0, 1, 2, 3, 4]),
        stop_lag: *rng.pick(&[0, 0, 0, 3, 3, 10, 10, 150, 1200]),
    }
}
fn abort_mid(ctx: &mut Ctx, ses: &mut Session, i: Iface, st: u8, first: bool) -> Res<()> {
    let o = any_opts(&mut ctx.rng);
    let at = match first {
        true => 1,
        _ if ctx.idx % 16 == 7 => ctx.rng.range(300, 2500),
        _ => ctx.rng.range(2, 30),
    };
    let ab = gen_abort(&mut ctx.rng, i, o, at, st);
    let what = format!("{:?} {:?} aborted after {} commands: {:?}", i, o, at, Abort { refl: [false; 41], err: [false; 41], ..ab.clone() });
    let (m, t) = calm(i, 100_000, false);
    let mut d = Drive::new(i, o);
    d.stale = ctx.rng.bool();
    d.abort = Some(ab.clone());
    let r = motion(ses, i, o, false, m, t, &mut d, &mut still)?;
    let (err, log) = control_error(&r.out, &what)?;
    check_abort_text(&err, st, &ab.refl, &what)?;
    ensure!(log.is_some(), "{}: no log", what);
    ensure!(r.trace.cmds.iter().all(|c| c.finished == 0), "{}: a command claims that the motion is finished", what);
    // no command answers the state that showed the abort or a later one
    let aid = r.trace.states[r.trace.abort_state.unwrap()].id;
    ensure!(r.trace.cmds.iter().all(|c| c.id < aid), "{}: a command was sent in response to the aborted state", what);
    ensure!(r.cb.iter().all(|c| c.id < aid), "{}: a callback was called with the aborted state", what);
    ensure!(r.trace.stop_ids.len() == 1, "{}: {} StopMove requests", what, r.trace.stop_ids.len());
    returned_when_idle(&r, &what)?;
    ctx.evals(5);
    ctx.events(r.trace.n_events());
    ctx.hit(&format!("abort status {}", st));
    ctx.sig((i, st, at.min(3), ab.resp_first, ab.gap_ms, ab.robot_mode, ab.mg == MG_IDLE, ab.stop_status));
    ctx.sample(format!("{} -> {}", what, err.chars().take(120).collect::<String>()));
    Ok(())
}
/// the call returns only after the robot reported that it does not execute the motion any more
fn returned_when_idle(r: &Run, what: &str) -> Res<()> {
    let ret = r.trace.ev.iter().position(|e| *e == Ev::Returned).unwrap();
    let idle = r.trace.ev[..ret].iter().any(|e| matches!(e, Ev::State(k) if *k >= r.trace.last_enter && r.trace.states[*k].mg == MG_IDLE && r.trace.states[*k].cm != CM_EXT));
    ensure!(idle, "{}: returned although the robot still reports the motion", what);
    Ok(())
}
fn check_abort_text(err: &str, st: u8, refl: &[bool; 41], what: &str) -> Res<()> {
    ensure!(st == mv::SUCCESS || err.to_lowercase().contains(words(st)), "{}: error text {:?} does not tell the reason ({})", what, err, words(st));
    for (o, w) in MOVE_WORDS {
        // "aborted" is part of several texts
        if o != st && o != mv::ABORTED && (st == mv::SUCCESS || w != words(st)) {
            let head = err.split('[').next().unwrap_or("").to_lowercase();
            ensure!(!head.contains(w), "{}: error text {:?} claims {}", what, err, w);
        }
    }
    if st == mv::REFLEX {
        ensure!(err.contains(&reasons(refl)), "{}: error text {:?} does not list the reasons {}", what, err, reasons(refl));
    }
    Ok(())
}
fn reject_start(ctx: &mut Ctx, ses: &mut Session, i: Iface, st: u8) -> Res<()> {
    let o = any_opts(&mut ctx.rng);
    let what = format!("{:?} rejected with status {}", i, st);
    let (m, t) = calm(i, 5, false);
    let mut d = Drive::new(i, o);
    d.first_status = st;
    let r = motion(ses, i, o, false, m, t, &mut d, &mut still)?;
    match &r.out {
        Outcome::Ret(Err(FrankaException::CommandException { message })) => check_abort_text(message, st, &[false; 41], &what).or_else(|e| if st == mv::REFLEX { Ok(()) } else { Err(e) })?,
        Outcome::Ret(Ok(())) => return viol(format!("{}: reported as success", what)),
        Outcome::Ret(Err(FrankaException::NetworkException { message })) => return suspect(format!("{}: network error {}", what, message)),
        Outcome::Ret(Err(e)) => return viol(format!("{}: {} instead of a command exception", what, text(e))),
        Outcome::Panic(m) => return viol(format!("{}: panicked: {}", what, m)),
        Outcome::Hang => return suspect(format!("{}: did not return", what)),
    }
    ensure!(r.cb.is_empty(), "{}: callbacks were called", what);
    ensure!(r.trace.cmds.is_empty(), "{}: commands were sent", what);
    ctx.evals(3);
    ctx.events(r.trace.n_events());
    ctx.hit(&format!("rejected with status {}", st));
    ctx.sig(("reject", i, st));
    Ok(())
}
/// the Move response after a finished command is an error
fn abort_finish(ctx: &mut Ctx, ses: &mut Session, i: Iface, st: u8) -> Res<()> {
    let o = any_opts(&mut ctx.rng);
    let n = ctx.rng.range(1, 8);
    let (m, t) = calm(i, n, ctx.rng.bool());
    let mut d = Drive::new(i, o);
    d.finish_delay = ctx.rng.below(4);
    d.stale = ctx.rng.bool();
    d.final_status = st;
    d.final_first = ctx.rng.bool();
    d.end_refl = random_bits(&mut ctx.rng);
    d.end_err = random_bits(&mut ctx.rng);
    d.end_mode = *ctx.rng.pick(&[RM_IDLE, RM_REFLEX, RM_USERSTOP]);
    d.stop_status = *ctx.rng.pick(&[0, 0, 1, 3]);
    let refl = d.end_refl;
    let what = format!("{:?} finished after {} cycles, final status {}", i, n, st);
    let r = motion(ses, i, o, false, m, t, &mut d, &mut still)?;
    let (err, log) = control_error(&r.out, &what)?;
    if st == mv::REFLEX {
        // the text says that the robot was still moving
        ensure!(err.contains(&reasons(&refl)), "{}: error text {:?} does not list the reasons {}", what, err, reasons(&refl));
    } else {
        check_abort_text(&err, st, &refl, &what)?;
    }
    ensure!(log.is_some(), "{}: no log", what);
    ctx.evals(2);
    ctx.events(r.trace.n_events());
    ctx.hit(&format!("final status {}", st));
    ctx.sig(("finish", i, st, n.min(3)));
    Ok(())
}
/// the robot aborts after MotionStarted, before it entered the motion
fn abort_starting(ctx: &mut Ctx, ses: &mut Session, i: Iface, st: u8) -> Res<()> {
    let o = any_opts(&mut ctx.rng);
    let mut ab = gen_abort(&mut ctx.rng, i, o, 0, st);
    ab.robot_mode = *ctx.rng.pick(&[RM_IDLE, RM_REFLEX, RM_USERSTOP]);
    ab.mg = MG_IDLE;
    ab.cm = CM_OTHER;
    ab.stop_lag = 0;
    let what = format!("{:?} aborted with status {} before the motion began", i, st);
    let (m, t) = calm(i, 5, false);
    let mut d = Drive::new(i, o);
    d.pre_states = ctx.rng.below(3);
    d.stale = ctx.rng.bool();
    d.abort = Some(ab);
    let r = motion(ses, i, o, false, m, t, &mut d, &mut still)?;
    let (err, _) = control_error(&r.out, &what)?;
    ensure!(err.to_lowercase().contains(words(st)), "{}: error text {:?}", what, err);
    ensure!(r.cb.is_empty(), "{}: callbacks were called", what);
    ensure!(r.trace.cmds.is_empty(), "{}: commands were sent", what);
    ctx.evals(3);
    ctx.events(r.trace.n_events());
    ctx.hit("aborted while starting");
    ctx.sig(("starting", i, st));
    Ok(())
}
fn already_running(ctx: &mut Ctx, ses: &mut Session, i: Iface) -> Res<()> {
    let (mg, cm) = *ctx.rng.pick(&[(MG_JP, CM_JOINT), (MG_JV, CM_EXT), (MG_CP, CM_CART), (MG_CV, CM_JOINT), (MG_IDLE, CM_EXT)]);
    let busy = move |id| {
        let mut s = State::idle(id);
        s.mg = mg;
        s.cm = cm;
        s.mode = RM_MOVE;
        s
    };
    let what = format!("{:?} while the robot reports motion generator {} and controller {}", i, mg, cm);
    if ctx.rng.bool() {
        let p = ses.cli.call(|r| r.read_once());
        let o = ses.srv.pump_until(&p, busy, |_, e| viol(format!("unexpected {:?}", e)))?;
        ensure_t!(matches!(o, Outcome::Ret(Ok(_))), "{}: read_once: {:?}", what, o);
    } else {
        // already when the client connects
        ses.srv.listener = None;
        ses.srv.tcp = None;
        *ses = open_robot_at(&ctx.ip, Some(RealtimeConfig::Ignore), None, &busy(1 + ctx.rng.below(1000) as u64))?;
        ctx.hit("motion already running when the client connected");
        // after the robot stopped, motions are possible again
        if ctx.rng.bool() {
            let p = ses.cli.call(|r| r.read_once());
            let o = ses.srv.pump_until(&p, State::idle, |_, e| viol(format!("unexpected {:?}", e)))?;
            ensure_t!(matches!(o, Outcome::Ret(Ok(_))), "{}: read_once: {:?}", what, o);
            let (m, t) = calm(i, 5, false);
            let mut d = Drive::new(i, Opts::raw());
            let r = motion(ses, i, Opts::raw(), false, m, t, &mut d, &mut still)?;
            ctx.eval();
            return expect_ok(&r.out, &format!("{:?} after the robot had stopped", i));
        }
    }
    let o = any_opts(&mut ctx.rng);
    let log: CbLog = Default::default();
    let (m, t) = calm(i, 5, false);
    let (m, t) = logged(&log, false, m, t);
    let p = ses.cli.call(move |r| control(r, i, o, m, t));
    let out = ses.srv.pump_until(
        &p,
        busy,
        |_, e| match e {
            In::Req(r) => viol(format!("{}: request {} was sent although a motion is running", what, r.cmd)),
            e => viol(format!("{}: {:?}", what, e)),
        },
    )?;
    control_error(&out, &what)?;
    ensure!(log.lock().unwrap().is_empty(), "{}: callbacks were called", what);
    ctx.evals(2);
    ctx.events(2);
    ctx.hit("motion already running");
    ctx.sig(("running", i, mg, cm));
    Ok(())
}

// ------------------------------------------------------------------ C11
pub fn c11(ctx: &mut Ctx) -> Res<()> {
    let size = match ctx.idx % 8 {
        0 if ctx.idx % 48 == 40 => Some(*ctx.rng.pick(&[2048, 4096, 20_000])),
        // everything is kept
        0 if ctx.idx % 48 == 16 => Some(*ctx.rng.pick(&[usize::MAX, usize::MAX / 2 + 1, 1 << 60, 1 << 56])),
        0 => Some(0),
        1 => Some(1),
        2 => Some(2),
        3 => None,
        4 => Some(50),
        5 => Some(ctx.rng.range(3, 12)),
        6 => Some(ctx.rng.range(10, 100)),
        _ => Some(1000),
    };
    let l = size.unwrap_or(50);
    let ip = ctx.ip.clone();
    let mut ses = open_robot(&ip, Some(RealtimeConfig::Ignore), size, 1)?;
    // earlier motions leave no traces
    for k in 0..ctx.rng.below(3) {
        let i = *ctx.rng.pick(&IFACES);
        let n = ctx.rng.range(1, 20);
        let (m, t) = gens(i, n, false, 77 + k as u64, ElbowMode::Never);
        let mut d = Drive::new(i, Opts::raw());
        if ctx.rng.bool() {
            let at = 1 + ctx.rng.below(n);
            d.abort = Some(gen_abort(&mut ctx.rng, i, Opts::raw(), at, mv::ABORTED));
            let _ = motion(&mut ses, i, Opts::raw(), false, m, t, &mut d, &mut still)?;
        } else {
            let r = motion(&mut ses, i, Opts::raw(), false, m, t, &mut d, &mut still)?;
            expect_ok(&r.out, "earlier motion")?;
        }
    }
    let i = IFACES[ctx.idx / 8 % 9];
    let o = if ctx.rng.bool() { Opts::raw() } else { Opts { joint_imp: None, limit: Some(true), cutoff: Some(*ctx.rng.pick(&[1000., 100.])) } };
    let raw = o.limit == Some(false);
    let n = match ctx.rng.below(5) {
        0 => 1,
        1 => l.max(1),
        2 => l.saturating_add(1),
        3 => l.min(100) * 2 + 3,
        _ => ctx.rng.range(1, 80),
    };
    let n = if l > 1 << 40 && ctx.rng.bool() {
        ctx.rng.range(1, 300)
    } else if l > 1000 { ctx.rng.range(2000, 4400) } else { n.min(1100) };
    let seed = ctx.rng.u64();
    let (m, t) = if raw { gens(i, 1 << 40, false, seed, ElbowMode::Mixed) } else { calm(i, 1 << 40, false) };
    let at_finish = ctx.rng.chance(0.3);
    let mut d = Drive::new(i, o);
    let sseed = ctx.rng.u64();
    let mut r1 = Rng::new(sseed);
    d.id_step = Box::new(move |_| if r1.chance(0.2) { 3 } else { 1 });
    let st = MOVE_WORDS[ctx.rng.below(8)].0;
    let (m, t): (MotionGen, TorqueGen) = if at_finish {
        d.final_status = st;
        d.finish_delay = ctx.rng.below(6);
        if raw {
            gens(i, n, true, seed, ElbowMode::Mixed)
        } else {
            calm(i, n, true)
        }
    } else {
        d.abort = Some(gen_abort(&mut ctx.rng, i, o, n, st));
        (m, t)
    };
    let mut dynf = move |s: &mut State, _: Option<&Command>| {
        // content that identifies the state, except for what the limiter and the filter use
        let mut g = Rng::new(sseed ^ mix(s.id));
        for f in [off::tau_J, off::theta, off::dtheta, off::O_F_ext_hat_K] {
            s.set(f, &g.arr::<6>(-5., 5.));
        }
        s.rate = g.f();
    };
    let what = format!("log size {:?}, {:?}, {} cycles, {}", size, i, n, if at_finish { "error at the end" } else { "aborted" });
    let r = motion(&mut ses, i, o, false, m, t, &mut d, &mut dynf)?;
    let (err, log) = control_error(&r.out, &what)?;
    let log = match log {
        Some(l) => l,
        None => return viol(format!("{}: the exception has no log", what)),
    };
    let cmds = &r.trace.cmds;
    let total = cmds.len();
    ensure!(log.len() == total.min(l), "{}: log has {} records after {} commands", what, log.len(), total);
    let off0 = total - log.len();
    for (k, rec) in log.iter().enumerate() {
        let c = &cmds[off0 + k];
        let rc = &rec.command;
        for (name, a, b) in [
            ("joint positions", &rc.joint_positions.q[..], &c.q[..]),
            ("joint velocities", &rc.joint_velocities.dq[..], &c.dq[..]),
            ("pose", &rc.cartesian_pose.O_T_EE[..], &c.pose[..]),
            ("twist", &rc.cartesian_velocities.O_dP_EE[..], &c.twist[..]),
            ("torques", &rc.torques.tau_J[..], &c.tau[..]),
        ] {
            ensure!(bits_eq(a, b), "{}: record {} of {}: {} {:?}, but the command sent was {:?}", what, k, log.len(), name, a, b);
        }
        let e = if c.valid_elbow == 1 { Some(c.elbow) } else { None };
        for (name, a) in [("pose", rc.cartesian_pose.elbow), ("velocities", rc.cartesian_velocities.elbow)] {
            if (name == "pose") != (i.mg() == MG_CP) && a.is_none() {
                continue;
            }
            ensure!(
                a.map(|x| x.map(f64::to_bits)) == e.map(|x| x.map(f64::to_bits)),
                "{}: record {} of {}: {} with elbow {:?}, but the command was sent with elbow {:?}", what, k, log.len(), name, a, e
            );
        }
        let id = rec.state.time.as_millis() as u64;
        let s = match r.trace.states.iter().find(|s| s.id == id) {
            Some(s) => s,
            None => return viol(format!("{}: record {} holds state {} which was never sent", what, k, id)),
        };
        check_state(&rec.state, s)?;
        if off0 + k + 1 < total {
            let next = cmds[off0 + k + 1].id;
            ensure!(id == next, "{}: record {} pairs the command for state {} with state {} instead of {}", what, k, c.id, id, next);
        } else {
            ensure!(id > c.id, "{}: the last record pairs the command for state {} with state {}", what, c.id, id);
            if let Some(a) = r.trace.abort_state {
                ensure!(id >= r.trace.states[a].id, "{}: the last record does not hold the state that showed the error", what);
            }
        }
        ctx.eval();
    }
    // the reflex text quotes the success rate of the log
    if st == mv::REFLEX && log.len() >= 2 {
        let (a, b) = (&log[log.len() - 2].state, &log[log.len() - 1].state);
        let lost = (b.time - a.time).as_millis() as f64 - 1.;
        let want = a.control_command_success_rate * (1. - lost / 100.);
        let got = err.split("control_command_success_rate:").nth(1).and_then(|t| t.split_whitespace().next()).and_then(|t| t.parse::<f64>().ok());
        ensure!(got.map(|g| (g - want).abs() < 1e-9) == Some(true), "{}: success rate {:?} instead of {} in {:?}", what, got, want, err);
        let shown = err.split("last sample:").nth(1).and_then(|t| t.trim().parse::<f64>().ok());
        ensure!(shown == if lost > 0. { Some(lost) } else { None }, "{}: {:?} lost packets instead of {} in {:?}", what, shown, lost, err);
        ctx.hit(if lost > 0. { "lost packets reported" } else { "success rate reported" });
        ctx.eval();
    }
    ctx.eval();
    ctx.events(total + log.len());
    ctx.hit(&format!("log size {}", if l > 1 << 40 { "unlimited".to_string() } else if l > 1000 { "huge".to_string() } else if l > 2 && l != 50 && l != 1000 { "other".to_string() } else { l.to_string() }));
    ctx.hit(if total > l { "log full" } else { "log not full" });
    ctx.sig((l, total, i, at_finish));
    ctx.sample(format!("{}: {} commands, {} records", what, total, log.len()));
    usable(ctx, &mut ses, &what)
}

// ------------------------------------------------------------------ C12
pub fn c12(ctx: &mut Ctx) -> Res<()> {
    let i = IFACES[ctx.idx % 9];
    let mut ses = open_default(ctx)?;
    let o = Opts {
        joint_imp: None,
        limit: [Some(false), Some(true), None][ctx.idx / 9 % 3],
        cutoff: [Some(1000.), Some(100.), None, Some(999.9), Some(5.)][ctx.idx / 27 % 5],
    };
    let filt = o.cutoff.map(|c| c < 1000.).unwrap_or(true);
    let lim = o.limit.unwrap_or(true);
    let at = ctx.rng.below(8);
    let end = *ctx.rng.pick(&[13, 13, 13, at, 400]);
    // also long after the start
    let at = if end == 400 { ctx.rng.range(250, 399) } else { at };
    #[derive(Debug, Clone, Copy, PartialEq)]
    enum Bad {
        Motion(usize, f64),
        Tau(usize, f64),
        Elbow(f64, f64),
        Matrix(usize, f64),
        GoodElbow(f64),
        /// the robot reports a last commanded value that is no number, or an absurd one
        State(usize, f64),
    }
    let nf = *ctx.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN]);
    let mut kinds = vec![];
    if i != Iface::T {
        kinds.push(0);
    }
    if i.torque() {
        kinds.push(1);
    }
    if i.cartesian() {
        kinds.extend([2, 2, 5]);
    }
    if i.mg() == MG_CP {
        kinds.extend([3, 3, 4, 6]);
    }
    let fields: &[(usize, usize)] = match i.mg() {
        _ if i == Iface::T || (i.torque() && ctx.rng.chance(0.3)) => &[(off::tau_J_d, 7)],
        MG_JP | MG_JV => &[(off::q_d, 7), (off::dq_d, 7), (off::ddq_d, 7)],
        _ => &[(off::O_T_EE_c, 15), (off::O_dP_EE_c, 6), (off::O_ddP_EE_c, 6), (off::elbow_c, 1), (off::delbow_c, 1), (off::ddelbow_c, 1)],
    };
    kinds.push(7);
    let bad = match *ctx.rng.pick(&kinds) {
        7 => {
            let (o, n) = *ctx.rng.pick(fields);
            Bad::State(o + ctx.rng.below(n), *ctx.rng.pick(&[nf, nf, f64::MAX, -f64::MAX, 1e200]))
        }
        0 => Bad::Motion(ctx.rng.below(i.n()), nf),
        1 => Bad::Tau(ctx.rng.below(7), nf),
        2 => {
            if ctx.rng.bool() {
                Bad::Elbow(ctx.rng.uni(-1., 1.), *ctx.rng.pick(&[0., -0., 0.5, -0.999, 2., -2., -1.0000001, 1e300, 1. - 1e-9, 1. + 1e-9, -1. + 1e-12, -1. - 1e-12, 1. + f64::EPSILON, 1. - f64::EPSILON / 2., f64::MIN_POSITIVE]))
            } else if ctx.rng.bool() {
                Bad::Elbow(nf, 1.)
            } else {
                Bad::Elbow(0.3, nf)
            }
        }
        3 => {
            // column or row norms off, last row off
            let idx = ctx.rng.below(16);
            Bad::Matrix(if (12..15).contains(&idx) { 0 } else { idx }, *ctx.rng.pick(&[0.5, 1e-3, -0.3, 3.0, 2e-5]))
        }
        4 => Bad::Matrix(*ctx.rng.pick(&[97, 98, 99]), 0.),
        // axes of unit length that are not orthogonal or not right-handed
        6 => Bad::Matrix(*ctx.rng.pick(&[93, 94, 95, 96]), *ctx.rng.pick(&[0.6, 0.3, 0.01, 2e-3])),
        _ => Bad::GoodElbow(if ctx.rng.bool() { 1. } else { -1. }),
    };
    let end = if matches!(bad, Bad::Tau(..)) && i != Iface::T && end == at { 13 } else { end };
    if end == at {
        ctx.hit("invalid value in the last cycle");
    }
    // without limiter and filter any pose may be commanded at once
    let pose = if lim || filt { IDENT } else { random_pose(&mut ctx.rng, 1.) };
    let what = format!("{:?} limit {:?} cutoff {:?}, cycle {}: {:?}", i, o.limit, o.cutoff, at, bad);
    let b2 = bad;
    let base = ctx.rng.uni(-1., 1.);
    let m: MotionGen = Box::new(move |k, _| {
        let fin = k >= end;
        let mut e = None;
        let mut v: Vec<f64> = match i.mg() {
            MG_CP => pose.to_vec(),
            MG_CV => vec![base * 1e-3; 6],
            _ => vec![base * 1e-4; 7],
        };
        if k == at {
            match b2 {
                Bad::Motion(j, x) => v[j] = x,
                Bad::Elbow(a, b) => e = Some([a, b]),
                Bad::Matrix(99, _) => v = vec![0.; 16],
                Bad::Matrix(93 | 95, _) => {
                    // reflected at a plane or at a point
                    for x in v[if matches!(b2, Bad::Matrix(95, _)) { 8..11 } else { 0..11 }].iter_mut() {
                        *x = if *x == 0. { 0. } else { -*x }
                    }
                }
                Bad::Matrix(94, s) => {
                    let c = (1f64 - s * s).sqrt();
                    v = vec![c, s, 0., 0., s, c, 0., 0., 0., 0., 1., 0., 0., 0., 0., 1.]
                }
                Bad::Matrix(96, _) => {
                    let a = 1. / 3f64.sqrt();
                    v = vec![a, a, a, 0., a, -a, a, 0., a, a, -a, 0., 0., 0., 0., 1.]
                }
                // rows of length one only, columns of length one only
                Bad::Matrix(97, _) => v = vec![1., 1., 1., 0., 0., 0., 0., 0., 0., 0., 0., 0., 0.1, 0.2, 0.3, 1.],
                Bad::Matrix(98, _) => v = vec![0., 1., 0., 0., 0., 1., 0., 0., 0., 1., 0., 0., 0.1, 0.2, 0.3, 1.],
                Bad::Matrix(j, x) => v[j] += x,
                _ => {}
            }
        }
        if let Bad::GoodElbow(s) = b2 {
            e = Some([0.1, s]);
        }
        if let (Bad::State(..), MG_CP | MG_CV) = (b2, i.mg()) {
            e = Some([0.1, -1.]);
        }
        Out::new(&v, e, fin)
    });
    let t: TorqueGen = Box::new(move |k, _| {
        let mut v = [0.1 * base; 7];
        if let (Bad::Tau(j, x), true) = (b2, k == at) {
            v[j] = x;
        }
        (v, i == Iface::T && k >= end)
    });
    let mut d = Drive::new(i, o);
    let mut cycle = 0;
    let mut report = |s: &mut State, c: Option<&Command>| {
        cycle += c.is_some() as usize;
        if let (Bad::State(o, x), true) = (bad, cycle >= at) {
            s.d[o] = x;
        }
    };
    let r = motion(&mut ses, i, o, false, m, t, &mut d, &mut report)?;
    // --- whatever happened: nothing invalid on the wire
    for c in &r.trace.cmds {
        ensure!(c.all_finite(), "{}: a command with non-finite values was sent: {:?}", what, c);
        if i.mg() == MG_CP {
            ensure!(rm::homogeneous(&c.pose, 1.0001e-5), "{}: an invalid pose was sent: {:?}", what, c.pose);
        }
        ensure!(c.valid_elbow == 0 || c.elbow[1].abs() == 1., "{}: an invalid elbow was sent: {:?}", what, c.elbow);
        ctx.eval();
    }
    let must_refuse = match bad {
        Bad::GoodElbow(_) | Bad::State(..) => false,
        // the filter and the limiter may bring a slightly wrong rotation into shape
        Bad::Matrix(93..=99, _) => !filt,
        Bad::Matrix(j, x) => {
            let mut m = pose;
            m[j] += x;
            !filt && !rm::homogeneous(&m, 1.1e-5)
        }
        _ => true,
    };
    let bad_cb = r.cb.iter().find(|c| match bad {
        Bad::Tau(..) => c.torque && c.tau.iter().any(|x| !x.is_finite()),
        _ => !c.torque,
    });
    if must_refuse {
        // the bad result must not have led to any command
        let cb_ids: Vec<u64> = r.cb.iter().filter(|c| c.torque == matches!(bad, Bad::Tau(..))).map(|c| c.id).collect();
        ensure_t!(cb_ids.len() > at, "{}: the callback was not called often enough: {:?}", what, r.out);
        let bad_id = cb_ids[at];
        ensure!(r.trace.cmds.iter().all(|c| c.id < bad_id), "{}: a command was sent for the cycle with the invalid value", what);
        match &r.out {
            Outcome::Ret(Ok(())) => return viol(format!("{}: the motion was reported as successful", what)),
            Outcome::Hang => return suspect(format!("{}: did not end", what)),
            _ => {}
        }
        ctx.hit("refused");
    } else {
        let _ = bad_cb;
        if matches!(bad, Bad::GoodElbow(_)) {
            expect_ok(&r.out, &what)?;
            ctx.hit("valid elbow accepted");
        } else if matches!(bad, Bad::State(..)) {
            ctx.hit(if matches!(r.out, Outcome::Ret(Ok(()))) { "strange state: motion went on" } else { "strange state: motion ended" });
        } else {
            ctx.hit("matrix brought into shape or refused");
        }
    }
    ctx.eval();
    ctx.events(r.trace.n_events());
    ctx.hit(&format!("{:?}", i));
    ctx.hit(&format!("limiter {}, filter {}", lim, filt));
    ctx.sig((format!("{:?}", bad), i, lim, filt, at));
    ctx.sample(format!("{} -> {} commands, {}", what, r.trace.cmds.len(), match &r.out {
        Outcome::Panic(m) => format!("refused: {}", m.chars().take(60).collect::<String>()),
        o => format!("{:?}", o).chars().take(60).collect(),
    }));
    Ok(())
}

// ------------------------------------------------------------------ C23
/// Many motions of one robot object: more than fit into 8 bits.
fn many_motions(ctx: &mut Ctx) -> Res<()> {
    let mut ses = open_default(ctx)?;
    let total = if ctx.thorough { 3000 } else { 600 };
    for k in 0..total {
        let what = format!("motion {} of {}", k, total);
        let i = *ctx.rng.pick(&IFACES);
        match if k % 10 == 9 { ctx.rng.below(3) } else { 3 } {
            0 => reject_start(ctx, &mut ses, i, MOVE_WORDS[k % 8].0).map_err(|e| prefix(e, &what))?,
            1 => abort_mid(ctx, &mut ses, i, MOVE_WORDS[k % 8].0, k % 20 == 9).map_err(|e| prefix(e, &what))?,
            _ => {
                let n = ctx.rng.range(1, 3);
                let seed = ctx.rng.u64();
                let (m, t) = gens(i, n, false, seed, ElbowMode::Mixed);
                let mut d = Drive::new(i, Opts::raw());
                let r = motion(&mut ses, i, Opts::raw(), false, m, t, &mut d, &mut still).map_err(|e| prefix(e, &what))?;
                expect_ok(&r.out, &what)?;
                check_move(r.trace.move_req.as_ref().unwrap(), i, Opts::raw())?;
                check_order(&r, &what)?;
                for (j, c) in r.trace.cmds.iter().enumerate() {
                    check_values(c, i, seed, j.min(n - 1), n, false, ElbowMode::Mixed, &what)?;
                }
                ctx.events(r.trace.n_events());
            }
        }
        ctx.eval();
    }
    ctx.hit("many motions");
    ctx.sig(("many", total));
    usable(ctx, &mut ses, "after many motions")
}
pub fn c23(ctx: &mut Ctx) -> Res<()> {
    if !ctx.nested && (ctx.idx == 7 || ctx.thorough && ctx.idx % 300 == 11) {
        return many_motions(ctx);
    }
    let mut ses = open_default(ctx)?;
    let steps = if ctx.idx % 20 == 19 { 90 } else { 14 };
    let mut hist: Vec<&'static str> = vec![];
    let mut stale: Vec<u32> = vec![]; // Move requests whose final response is outstanding
    for k in 0..steps {
        let op = ctx.rng.below(10);
        let what = format!("step {} (history {:?})", k, hist);
        // a late response to a canceled motion may arrive at any time
        if !stale.is_empty() && ctx.rng.chance(0.5) {
            let id = stale.remove(0);
            let st = MOVE_WORDS[ctx.rng.below(8)].0;
            ses.srv.respond(cmd::MOVE, id, &[st])?;
            hist.push("late-response");
            ctx.hit("late Move response");
        }
        match op {
            0 | 1 | 2 => {
                let kind = ctx.rng.below(N_RCMD);
                let c = RCmd::gen(&mut ctx.rng, kind);
                judge_script(ctx, &mut ses, &c).map_err(|e| prefix(e, &what))?;
                hist.push(c.name());
            }
            3 => {
                let p = ses.cli.call(|r| r.read_once());
                let o = ses.srv.pump_until(&p, |id| State::idle(id), |_, e| viol(format!("{}: {:?}", what, e)))?;
                ensure_t!(matches!(o, Outcome::Ret(Ok(_))), "{}: read_once: {:?}", what, o);
                hist.push("read");
            }
            4 | 5 => {
                let i = *ctx.rng.pick(&IFACES);
                let n = ctx.rng.range(1, 12);
                let seed = ctx.rng.u64();
                let bt = ctx.rng.bool();
                let (m, t) = gens(i, n, bt, seed, ElbowMode::Mixed);
                let mut d = Drive::new(i, Opts::raw());
                d.pre_states = ctx.rng.below(3);
                d.finish_delay = ctx.rng.below(3);
                d.final_first = ctx.rng.bool();
                let r = motion(&mut ses, i, Opts::raw(), false, m, t, &mut d, &mut still).map_err(|e| prefix(e, &what))?;
                expect_ok(&r.out, &format!("{}: motion {:?}", what, i))?;
                check_move(r.trace.move_req.as_ref().unwrap(), i, Opts::raw())?;
                check_order(&r, &what)?;
                for (j, c) in r.trace.cmds.iter().enumerate() {
                    check_values(c, i, seed, j.min(n - 1), n, bt, ElbowMode::Mixed, &what)?;
                }
                ensure!(r.cb.first().map(|c| c.dt_ns) == Some(0), "{}: first time step is not zero", what);
                ctx.events(r.trace.n_events());
                hist.push("motion");
            }
            6 => {
                let i = *ctx.rng.pick(&IFACES);
                let st = MOVE_WORDS[ctx.rng.below(8)].0;
                reject_start(ctx, &mut ses, i, st).map_err(|e| prefix(e, &what))?;
                hist.push("rejected");
            }
            7 => {
                let i = *ctx.rng.pick(&IFACES);
                let st = MOVE_WORDS[ctx.rng.below(8)].0;
                abort_mid(ctx, &mut ses, i, st, ctx.rng.clone().bool()).map_err(|e| prefix(e, &what))?;
                hist.push("aborted");
            }
            8 => {
                let i = *ctx.rng.pick(&IFACES);
                let st = MOVE_WORDS[ctx.rng.below(8)].0;
                abort_finish(ctx, &mut ses, i, st).map_err(|e| prefix(e, &what))?;
                hist.push("failed-at-end");
            }
            _ => {
                // the state stream pauses in the middle of a motion
                if k < 3 || hist.contains(&"timeout") {
                    continue;
                }
                let i = *ctx.rng.pick(&IFACES);
                let id = timeout_motion(&mut ses, i).map_err(|e| prefix(e, &what))?;
                stale.push(id);
                hist.push("timeout");
                ctx.hit("state stream paused during a motion");
            }
        }
        ctx.eval();
        ctx.hit(hist.last().unwrap());
    }
    ctx.events(steps);
    let h: Vec<&str> = hist.clone();
    ctx.sig(h);
    ctx.sample(format!("{:?}", hist));
    if hist.len() > 60 {
        ctx.hit("long session");
    }
    usable(ctx, &mut ses, "end of the session")
}
fn prefix(e: Fail, w: &str) -> Fail {
    match e {
        Fail::Violation(m) => Fail::Violation(format!("{}: {}", w, m)),
        Fail::Suspect(m) => Fail::Suspect(format!("{}: {}", w, m)),
        Fail::Harness(m) => Fail::Harness(format!("{}: {}", w, m)),
    }
}
/// no states for more than a second in the middle of a motion; returns the id of the Move request
fn timeout_motion(ses: &mut Session, i: Iface) -> Res<u32> {
    let log: CbLog = Default::default();
    let (m, t) = gens(i, 1000, false, 3, ElbowMode::Never);
    let (m, t) = logged(&log, false, m, t);
    let p = ses.cli.call(move |r| control(r, i, Opts::raw(), m, t));
    let req = ses.srv.request()?;
    ensure!(req.cmd == cmd::MOVE, "request {} instead of Move", req.cmd);
    ses.srv.respond(cmd::MOVE, req.id, &[mv::STARTED])?;
    let moving = |id| {
        let mut s = State::idle(id);
        s.mg = i.mg();
        s.cm = Opts::raw().cm(i);
        s.mode = RM_MOVE;
        s
    };
    let mut pat = Patience::new(PATIENCE);
    let mut n = 0;
    while n < 4 {
        let id = ses.srv.last_id + 1;
        let s = moving(id);
        ses.srv.state(&s)?;
        if let Some(In::Cmd(_)) = ses.srv.event(2) {
            n += 1;
        }
        if !pat.tick() {
            return suspect("no commands");
        }
    }
    // silence; the library gives up and cancels the motion
    let mut pat = Patience::new(PATIENCE);
    let out = loop {
        match ses.srv.event(5) {
            Some(In::Cmd(_)) => {}
            Some(In::Req(r)) if r.cmd == cmd::STOP_MOVE => {
                ses.srv.respond(cmd::STOP_MOVE, r.id, &[0])?;
                let end = ses.srv.pump_until(&p, |id| State::idle(id), |_, _| Ok(()))?;
                break end;
            }
            Some(e) => return viol(format!("unexpected {:?} after the state stream stopped", e)),
            None => {
                if let Some(o) = p.poll() {
                    break o;
                }
                if !pat.tick() {
                    return suspect("the motion does not end although no states arrive");
                }
            }
        }
    };
    match out {
        Outcome::Ret(Err(FrankaException::NetworkException { .. })) => Ok(req.id),
        Outcome::Ret(Ok(())) => viol("a motion without states was reported as success"),
        Outcome::Ret(Err(e)) => viol(format!("a motion without states returned {}", text(&e))),
        Outcome::Panic(m) => viol(format!("a motion without states panicked: {}", m)),
        Outcome::Hang => suspect("a motion without states did not end"),
    }
    .map(|id| {
        std::thread::sleep(Duration::from_millis(1));
        id
    })
}
