//! C05 C06 C24: robot states.
use crate::fw::*;
use crate::mock::*;
use crate::motion::*;
use crate::wire::*;
use crate::{ensure, ensure_t};
use franka::*;
use franka::robot::error::FrankaError;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn field<'a>(rs: &'a RobotState, name: &str) -> Vec<f64> {
    match name {
        "O_T_EE" => rs.O_T_EE.to_vec(),
        "O_T_EE_d" => rs.O_T_EE_d.to_vec(),
        "F_T_EE" => rs.F_T_EE.to_vec(),
        "EE_T_K" => rs.EE_T_K.to_vec(),
        "F_T_NE" => rs.F_T_NE.to_vec(),
        "NE_T_EE" => rs.NE_T_EE.to_vec(),
        "m_ee" => vec![rs.m_ee],
        "I_ee" => rs.I_ee.to_vec(),
        "F_x_Cee" => rs.F_x_Cee.to_vec(),
        "m_load" => vec![rs.m_load],
        "I_load" => rs.I_load.to_vec(),
        "F_x_Cload" => rs.F_x_Cload.to_vec(),
        "elbow" => rs.elbow.to_vec(),
        "elbow_d" => rs.elbow_d.to_vec(),
        "tau_J" => rs.tau_J.to_vec(),
        "tau_J_d" => rs.tau_J_d.to_vec(),
        "dtau_J" => rs.dtau_J.to_vec(),
        "q" => rs.q.to_vec(),
        "q_d" => rs.q_d.to_vec(),
        "dq" => rs.dq.to_vec(),
        "dq_d" => rs.dq_d.to_vec(),
        "ddq_d" => rs.ddq_d.to_vec(),
        "joint_contact" => rs.joint_contact.to_vec(),
        "cartesian_contact" => rs.cartesian_contact.to_vec(),
        "joint_collision" => rs.joint_collision.to_vec(),
        "cartesian_collision" => rs.cartesian_collision.to_vec(),
        "tau_ext_hat_filtered" => rs.tau_ext_hat_filtered.to_vec(),
        "O_F_ext_hat_K" => rs.O_F_ext_hat_K.to_vec(),
        "K_F_ext_hat_K" => rs.K_F_ext_hat_K.to_vec(),
        "O_dP_EE_d" => rs.O_dP_EE_d.to_vec(),
        "O_ddP_O" => rs.O_ddP_O.to_vec(),
        "elbow_c" => rs.elbow_c.to_vec(),
        "delbow_c" => rs.delbow_c.to_vec(),
        "ddelbow_c" => rs.ddelbow_c.to_vec(),
        "O_T_EE_c" => rs.O_T_EE_c.to_vec(),
        "O_dP_EE_c" => rs.O_dP_EE_c.to_vec(),
        "O_ddP_EE_c" => rs.O_ddP_EE_c.to_vec(),
        "theta" => rs.theta.to_vec(),
        "dtheta" => rs.dtheta.to_vec(),
        _ => unreachable!(),
    }
}
/// every field of the state equals the one that was sent, bit by bit
pub fn check_state(rs: &RobotState, s: &State) -> Res<()> {
    ensure!(rs.time == Duration::from_millis(s.id), "state time {:?} for message id {}", rs.time, s.id);
    for (name, o, n) in FIELDS {
        let v = field(rs, name);
        ensure!(bits_eq(&v, &s.d[*o..*o + *n]), "field {} is {:?}, the robot sent {:?}", name, v, &s.d[*o..*o + *n]);
    }
    ensure!(rs.control_command_success_rate.to_bits() == s.rate.to_bits(), "success rate {} instead of {}", rs.control_command_success_rate, s.rate);
    let mode = format!("{:?}", rs.robot_mode);
    ensure!(mode == ROBOT_MODE_NAMES[s.mode as usize], "robot mode {} instead of {}", mode, ROBOT_MODE_NAMES[s.mode as usize]);
    check_errors(&rs.current_errors, &s.err, "current_errors")?;
    check_errors(&rs.last_motion_errors, &s.refl, "last_motion_errors")
}
fn all_errors() -> Vec<FrankaError> {
    use FrankaError::*;
    vec![
        JointPositionLimitsViolation, CartesianPositionLimitsViolation, SelfCollisionAvoidanceViolation, JointVelocityViolation, CartesianVelocityViolation,
        ForceControlSafetyViolation, JointReflex, CartesianReflex, MaxGoalPoseDeviationViolation, MaxPathPoseDeviationViolation,
        CartesianVelocityProfileSafetyViolation, JointPositionMotionGeneratorStartPoseInvalid, JointMotionGeneratorPositionLimitsViolation,
        JointMotionGeneratorVelocityLimitsViolation, JointMotionGeneratorVelocityDiscontinuity, JointMotionGeneratorAccelerationDiscontinuity,
        CartesianPositionMotionGeneratorStartPoseInvalid, CartesianMotionGeneratorElbowLimitViolation, CartesianMotionGeneratorVelocityLimitsViolation,
        CartesianMotionGeneratorVelocityDiscontinuity, CartesianMotionGeneratorAccelerationDiscontinuity, CartesianMotionGeneratorElbowSignInconsistent,
        CartesianMotionGeneratorStartElbowInvalid, ForceControllerDesiredForceToleranceViolation, StartElbowSignInconsistent,
        CommunicationConstraintsViolation, PowerLimitViolation, CartesianMotionGeneratorJointPositionLimitsViolation,
        CartesianMotionGeneratorJointVelocityLimitsViolation, CartesianMotionGeneratorJointVelocityDiscontinuity,
        CartesianMotionGeneratorJointAccelerationDiscontinuity, CartesianPositionMotionGeneratorInvalidFrame, ControllerTorqueDiscontinuity,
        JointP2PInsufficientTorqueForPlanning, TauJRangeViolation, InstabilityDetection, JointMoveInWrongDirection, CartesianSplineViolation,
        JointViaPlanLimitViolation, BaseAccelerationInitializationTimeout, BaseAccelerationInvalidReading,
    ]
}
pub fn check_errors(e: &franka::robot::errors::FrankaErrors, bits: &[bool; 41], what: &str) -> Res<()> {
    let exp: Vec<&str> = (0..41).filter(|i| bits[*i]).map(|i| ERROR_NAMES[i]).collect();
    for (i, x) in all_errors().into_iter().enumerate() {
        ensure!(e.contains(x) == bits[i], "{}: {} is {} but the robot reported {}", what, ERROR_NAMES[i], e.contains(x), bits[i]);
    }
    let shown = e.to_string();
    let want = format!("[{}]", exp.iter().map(|n| format!("\"{}\"", n)).collect::<Vec<_>>().join(", "));
    ensure!(shown == want, "{} is displayed as {} instead of {}", what, shown, want);
    Ok(())
}

pub fn c05(ctx: &mut Ctx) -> Res<()> {
    let id0 = match ctx.rng.below(5) {
        0 => 1,
        3 => (1u64 << 63) - ctx.rng.u64() % 10,
        1 => (1u64 << 32) - 10,
        2 => (1u64 << 53) + ctx.rng.u64() % 1000,
        _ => ctx.rng.u64() >> ctx.rng.range(5, 40),
    };
    let mut ses = open_robot(&ctx.ip, Some(RealtimeConfig::Ignore), None, id0)?;
    // --- one call per state
    let n = if ctx.idx < 82 { 2 } else { 12 };
    let sent: Arc<Mutex<Vec<State>>> = Default::default();
    for k in 0..n {
        let mut rng = Rng::new(ctx.rng.u64());
        let bit = if ctx.idx < 82 && k == 0 { Some(ctx.idx) } else { None };
        let step = 1 + (ctx.rng.u64() >> ctx.rng.range(40, 63));
        let p = ses.cli.call(|r| r.read_once());
        let s2 = sent.clone();
        ses.srv.last_id += step - 1;
        let o = ses.srv.pump_until(
            &p,
            move |id| {
                let mut s = State::random(&mut rng, id);
                if let Some(b) = bit {
                    s.err = [false; 41];
                    s.refl = [false; 41];
                    if b < 41 {
                        s.err[b] = true
                    } else {
                        s.refl[b - 41] = true
                    }
                }
                s2.lock().unwrap().push(s.clone());
                s
            },
            |_, e| viol(format!("read_once caused {:?}", e)),
        )?;
        let sent = sent.lock().unwrap();
        match o {
            Outcome::Ret(Ok(rs)) => {
                let s = match sent.iter().rev().find(|s| Duration::from_millis(s.id) == rs.time) {
                    Some(s) => s,
                    None => return viol(format!("the state with time {:?} was never sent", rs.time)),
                };
                check_state(&rs, s)?;
                ctx.eval();
                ctx.sig((s.mode, s.mg, s.cm, s.err, s.refl));
                ctx.hit(&format!("mode {}", ROBOT_MODE_NAMES[s.mode as usize]));
                if k == 0 {
                    ctx.sample(format!("id {} mode {} errors {:?}", s.id, s.mode, rs.current_errors.to_string()));
                }
            }
            Outcome::Ret(Err(e)) => return suspect(format!("read_once returned {}", text(&e))),
            Outcome::Panic(m) => return viol(format!("read_once panicked on a well formed state: {}", m)),
            Outcome::Hang => return suspect("read_once did not return"),
        }
        ctx.events(1);
    }
    // --- the read loop (it may begin with a state that is still pending)
    let m = ctx.rng.range(3, 25);
    let got: Arc<Mutex<Vec<RobotState>>> = Default::default();
    let g2 = got.clone();
    let p = ses.cli.call(move |r| {
        r.read(move |s| {
            shared::callback();
            let mut g = g2.lock().unwrap();
            g.push(s.clone());
            g.len() < m
        })
    });
    let s2 = sent.clone();
    let mut rng = Rng::new(ctx.rng.u64());
    let o = ses.srv.pump_until(
        &p,
        move |id| {
            let s = State::random(&mut rng, id);
            s2.lock().unwrap().push(s.clone());
            s
        },
        |_, e| viol(format!("read caused {:?}", e)),
    )?;
    match o {
        Outcome::Ret(Ok(())) => {}
        Outcome::Panic(m) => return viol(format!("read panicked on well formed states: {}", m)),
        o => return suspect(format!("read: {:?}", o)),
    }
    let got = got.lock().unwrap();
    let sent = sent.lock().unwrap();
    ensure!(got.len() == m, "read called back {} times, the callback asked to stop at {}", got.len(), m);
    for rs in got.iter() {
        match sent.iter().find(|s| Duration::from_millis(s.id) == rs.time) {
            Some(s) => check_state(rs, s)?,
            None => return viol(format!("the state with time {:?} was never sent", rs.time)),
        }
        ctx.eval();
    }
    ctx.events(sent.len());
    ctx.hit("read loop");
    Ok(())
}

// ------------------------------------------------------------------ C06
/// a state whose whole content is derived from its message id and a nonce
fn tagged(id: u64, nonce: u64) -> State {
    let mut s = State::idle(id);
    for (i, x) in s.d.iter_mut().enumerate() {
        *x = (mix(id ^ mix(nonce ^ i as u64)) >> 12) as f64;
    }
    s
}
/// a command or motion between reads; the ids of the states that were sent and the newest handed out
fn other_use(ctx: &mut Ctx, ses: &mut Session) -> Res<(Vec<u64>, u64)> {
    let kind = ctx.rng.below(6);
    ctx.hit(["stop", "stop", "command", "rejected motion", "aborted motion", "motion"][kind]);
    if kind < 3 {
        let p = ses.cli.call(move |r| if kind < 2 { r.stop() } else { r.automatic_error_recovery() });
        let req = ses.srv.request()?;
        ses.srv.respond(req.cmd, req.id, &[if kind == 1 { 1 } else { 0 }])?;
        return match p.wait() {
            Outcome::Ret(_) => Ok((vec![], 0)),
            o => suspect(format!("command between reads: {:?}", o)),
        };
    }
    let i = *ctx.rng.pick(&IFACES);
    let o = Opts::raw();
    let mut d = Drive::new(i, o);
    match kind {
        3 => d.first_status = 2,
        4 => {
            d.abort = Some(Abort {
                at: ctx.rng.range(1, 5),
                status: *ctx.rng.pick(&[mv::REFLEX, 3, 4]),
                robot_mode: RM_REFLEX,
                mg: MG_IDLE,
                cm: CM_OTHER,
                refl: [true; 41],
                err: [false; 41],
                resp_first: ctx.rng.bool(),
                gap_ms: 0,
                stop_status: 0,
                stop_lag: ctx.rng.below(3),
            })
        }
        _ => {}
    }
    let (m, t) = (hold(i, if kind == 4 { 10000 } else { 3 }), torque_n(if kind == 4 { 10000 } else { 3 }));
    let r = motion(ses, i, o, false, m, t, &mut d, &mut |_, _| {})?;
    ensure_t!(matches!(r.out, Outcome::Ret(_)), "motion between reads: {:?}", r.out);
    Ok((r.trace.states.iter().map(|s| s.id).collect(), r.cb.iter().map(|c| c.id).max().unwrap_or(0)))
}
/// One continuous read with more states than fit into 16 bits.
fn long_read(ctx: &mut Ctx) -> Res<()> {
    let mut ses = open_default(ctx)?;
    let nonce = ctx.rng.u64();
    let total = 67_000;
    let (tx, rx) = std::sync::mpsc::channel();
    let end = ses.srv.last_id + total as u64;
    let p = ses.cli.call(move |r| {
        r.read(move |s| {
            tx.send(s.clone()).ok();
            s.time.as_millis() < end as u128
        })
    });
    let mut last = ses.srv.last_id;
    for k in 0..total {
        let st = tagged(ses.srv.last_id + 1, nonce);
        ses.srv.state(&st)?;
        if k % 64 == 5 {
            ses.srv.udp_raw(&tagged(ses.srv.last_id - 3, nonce).encode())?;
        }
        // one state may still have been pending from before
        let mut pat = Patience::new(PATIENCE);
        loop {
            match rx.recv_timeout(Duration::from_millis(20)) {
                Ok(s) => {
                    let id = s.time.as_millis() as u64;
                    ensure!(id > last, "read, callback {}: state {} after state {}", k, id, last);
                    last = id;
                    if id == ses.srv.last_id {
                        check_state(&s, &st)?;
                        break;
                    }
                    ensure!(k == 0, "read, callback {}: state {} although {} was sent", k, id, ses.srv.last_id);
                }
                Err(_) => {
                    if let Some(o) = p.poll() {
                        return viol(format!("read ended after {} states: {:?}", k, o));
                    }
                    ensure_t!(pat.tick(), "read: state {} did not reach the callback", k);
                }
            }
        }
        ctx.eval();
    }
    match p.wait() {
        Outcome::Ret(Ok(())) => {}
        o => return suspect(format!("read of {} states: {:?}", total, o)),
    }
    ctx.events(2 * total);
    ctx.hit("very long read");
    ctx.sig(("long", total));
    Ok(())
}
/// C06: states handed out are genuine and strictly newer than everything before
pub fn c06(ctx: &mut Ctx) -> Res<()> {
    if ctx.idx == 3 && !ctx.nested {
        return long_read(ctx);
    }
    let base = match ctx.rng.below(6) {
        0 => 100,
        4 => (1u64 << 63) - 15,
        1 => (1u64 << 32) - 20,
        2 => (1u64 << 31) - 10,
        3 => (1u64 << 53) - 3,
        _ => (1u64 << 32) * 5,
    };
    let nonce = ctx.rng.u64();
    let mut srv = Server::bind(&ctx.ip, false)?;
    let ip = ctx.ip.clone();
    let (cli, p) = Actor::spawn(move || Robot::new(&ip, RealtimeConfig::Ignore, None));
    srv.handshake(0, 5, Some(&tagged(base, nonce)))?;
    match p.wait() {
        Outcome::Ret(Ok(())) => {}
        o => return suspect(format!("connecting: {:?}", o)),
    }
    let mut top = base; // newest id sent so far
    let mut last_out = base; // newest id handed out
    // what may be sent again: everything that was sent, and states from long before the connection
    let mut history: Vec<u64> = vec![base];
    history.extend([1, base / 2, base - 50, base - (base >> 1).min(1 << 31), base - (base >> 1).min(1 << 32), base & 0xffff_ffff].iter().filter(|x| **x > 0 && **x < base));
    // malformed datagrams may still be queued from the step before
    let mut mal_before = false;
    // what may still be queued from the steps before: only about 50 states fit into the buffer of the
    // socket, newer ones are then lost
    let mut leftover = 0;
    // states of motions, with another content
    let mut moving: std::collections::HashSet<u64> = Default::default();
    let mut ses = Session { srv, cli };
    let steps = ctx.rng.range(6, 14);
    for k in 0..steps {
        // --- whatever else the object is used for, states remain strictly newer
        if ctx.rng.chance(0.15) {
            ses.srv.last_id = top;
            let (used, handed) = other_use(ctx, &mut ses)?;
            top = ses.srv.last_id;
            for id in used {
                history.push(id);
                moving.insert(id);
            }
            last_out = last_out.max(handed);
            mal_before = true;
        }
        let (srv, cli) = (&mut ses.srv, &ses.cli);
        // --- hostile traffic between calls
        let burst = if ctx.rng.chance(0.1) { ctx.rng.range(15, 30) } else { ctx.rng.below(8) };
        let mut descr = vec![];
        let mut newest_in_order = true;
        let mut sent_new = vec![];
        for _ in 0..burst {
            match ctx.rng.below(7) {
                0 => {
                    // duplicate or stale
                    let id = *ctx.rng.pick(&history);
                    srv.udp_raw(&tagged(id, nonce).encode())?;
                    descr.push('s');
                    newest_in_order = false;
                }
                1 => {
                    // malformed size
                    let n = *ctx.rng.pick(&[0usize, 1, 8, 27, 356, STATE_LEN - 1, STATE_LEN + 1, 4000]);
                    let mut g = tagged(top + 1000, nonce).encode();
                    g.resize(n, 0x41);
                    srv.udp_raw(&g)?;
                    descr.push('m');
                    newest_in_order = false;
                }
                2 => {
                    // two states, swapped
                    top += 1 + ctx.rng.below(3) as u64;
                    let a = top;
                    top += 1 + ctx.rng.below(3) as u64;
                    srv.udp_raw(&tagged(top, nonce).encode())?;
                    srv.udp_raw(&tagged(a, nonce).encode())?;
                    history.extend([a, top]);
                    sent_new.extend([top, a]);
                    descr.push('w');
                    newest_in_order = false;
                }
                3 => {
                    // a gap
                    top += *ctx.rng.pick(&[50, 50, 50, 65_536, 1 << 31, 1 << 32, 3 << 31, 1 << 40]);
                    srv.udp_raw(&tagged(top, nonce).encode())?;
                    history.push(top);
                    sent_new.push(top);
                    descr.push('g');
                }
                _ => {
                    top += 1;
                    srv.udp_raw(&tagged(top, nonce).encode())?;
                    history.push(top);
                    sent_new.push(top);
                    descr.push('n');
                }
            }
        }
        srv.last_id = top;
        let before_call = top;
        let queued = leftover + burst + descr.iter().filter(|c| **c == 'w').count();
        // --- read with one of the three methods
        let method = ctx.rng.below(3);
        let want = if method == 0 { 1 } else { ctx.rng.range(1, 6) };
        let got: Arc<Mutex<Vec<RobotState>>> = Default::default();
        let g2 = got.clone();
        let call = cli.call(move |r| {
            if method == 0 {
                let s = r.read_once()?;
                g2.lock().unwrap().push(s);
                Ok(())
            } else {
                r.read(move |s| {
            shared::callback();
                    let mut g = g2.lock().unwrap();
                    g.push(s.clone());
                    g.len() < want
                })
            }
        });
        let mut pat = Patience::new(PATIENCE);
        let mut r2 = Rng::new(ctx.rng.u64());
        let mut nmal = 0;
        let mut resent = vec![];
        leftover = 0;
        let out = loop {
            if let Some(o) = call.poll() {
                break o;
            }
            leftover += 2;
            match r2.below(8) {
                0 => {
                    let id = *r2.pick(&history);
                    srv.udp_raw(&tagged(id, nonce).encode())?;
                    resent.push(id);
                }
                1 if nmal < 2 && method == 0 && k % 3 == 0 => {
                    srv.udp_raw(&vec![1u8; *r2.pick(&[3usize, 500, STATE_LEN + 7])])?;
                    nmal += 1;
                }
                2 => {
                    top += 1;
                    let a = top;
                    top += 1;
                    srv.udp_raw(&tagged(top, nonce).encode())?;
                    srv.udp_raw(&tagged(a, nonce).encode())?;
                    history.extend([a, top]);
                    resent.push(a);
                }
                _ => {
                    top += 1;
                    srv.udp_raw(&tagged(top, nonce).encode())?;
                    history.push(top);
                }
            }
            let pause = if r2.bool() { 100 } else { 700 };
            // silent for a moment, but not for as long as the timeout
            let pause = if k == 0 && leftover == 2 && !ctx.nested && ctx.idx % 30 == 7 { 600_000 } else { pause };
            std::thread::sleep(Duration::from_micros(pause));
            if !pat.tick() {
                break Outcome::Hang;
            }
        };
        let got = got.lock().unwrap();
        if std::env::var("VERIF_DEBUG").is_ok() {
            eprintln!("step {} burst {:?} method {} want {} nmal {} before {} got {:?} out {:?}", k, descr, method, want, nmal, before_call, got.iter().map(|s| s.time.as_millis()).collect::<Vec<_>>(), out.kind());
        }
        match &out {
            Outcome::Ret(Ok(())) => {}
            // a malformed datagram may surface as a network error, it must never be taken for a state
            Outcome::Ret(Err(exception::FrankaException::NetworkException { message })) => {
                ensure_t!(nmal > 0 || mal_before || descr.contains(&'m'), "network error {:?} although the stream is healthy", message);
                ctx.hit("malformed datagram reported");
            }
            Outcome::Ret(Err(e)) => return viol(format!("reading states returned {}", text(e))),
            Outcome::Panic(m) => return viol(format!("reading states panicked: {}", m)),
            Outcome::Hang => return suspect("reading states did not return"),
        }
        for (j, rs) in got.iter().enumerate() {
            let id = rs.time.as_millis() as u64;
            ensure!(history.contains(&id), "state {} was never sent", id);
            if !moving.contains(&id) {
                check_state(rs, &tagged(id, nonce)).map_err(|e| match e {
                    Fail::Violation(m) => Fail::Violation(format!("state {} mixes content: {}", id, m)),
                    e => e,
                })?;
            }
            ensure!(id > last_out, "state {} was handed out after state {}", id, last_out);
            if method == 0 {
                ensure!(id > before_call || resent.contains(&id), "read_once returned state {}, which was sent before the call (newest was {})", id, before_call);
            }
            if j == 0 && method != 0 && !sent_new.is_empty() && queued < 40 {
                ensure_t!(id >= before_call, "read handed out state {} first although {} was already pending", id, before_call);
                ctx.hit(if newest_in_order { "newest pending state first" } else { "newest pending state first, although others followed it" });
            }
            last_out = id;
            ctx.eval();
        }
        if let Outcome::Ret(Ok(())) = out {
            ensure!(got.len() == want, "{} callbacks instead of {}", got.len(), want);
        }
        if !matches!(out, Outcome::Ret(Ok(()))) {
            leftover += queued;
        }
        mal_before = nmal > 0 || descr.contains(&'m');
        descr.sort();
        ctx.events(burst + got.len());
        ctx.hit(if method == 0 { "read_once" } else { "read" });
        ctx.sig((descr.clone(), method, want));
        if k == 0 {
            ctx.sample(format!("pending datagrams {:?} (n new, s stale, m malformed, w swapped, g gap), then {} states via method {}", descr, want, method));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C24
fn combine(m1: f64, c1: [f64; 3], i1: [f64; 9], m2: f64, c2: [f64; 3], i2: [f64; 9]) -> (f64, [f64; 3], [f64; 9]) {
    let m = m1 + m2;
    let mut c = [0.; 3];
    if m > 0. {
        for i in 0..3 {
            c[i] = (m1 * c1[i] + m2 * c2[i]) / m;
        }
    }
    let mut t = [0.; 9];
    for (mm, cc, ii) in [(m1, c1, i1), (m2, c2, i2)] {
        if mm == 0. {
            continue;
        }
        // parallel axis theorem about the common center of mass
        let d = [cc[0] - c[0], cc[1] - c[1], cc[2] - c[2]];
        let d2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2];
        for col in 0..3 {
            for row in 0..3 {
                t[col * 3 + row] += ii[col * 3 + row] + mm * (if row == col { d2 } else { 0. } - d[row] * d[col]);
            }
        }
    }
    (m, c, t)
}
pub fn c24(ctx: &mut Ctx) -> Res<()> {
    let mut ses = open_default(ctx)?;
    for k in 0..20 {
        let mass = |rng: &mut Rng| match rng.below(6) {
            0 => 0.0,
            1 => rng.uni(1e-6, 1e-3),
            2 => rng.uni(0.1, 1.0) * *rng.pick(&[1e-12, 1e-9, 1e-7, 1e-5, 100.]),
            _ => rng.uni(0., 5.),
        };
        let (m1, m2) = (mass(&mut ctx.rng), mass(&mut ctx.rng));
        let r = *ctx.rng.pick(&[0.0, 0.01, 0.3, 2.0]);
        let (mut c1, mut c2): ([f64; 3], [f64; 3]) = (ctx.rng.arr(-r, r), ctx.rng.arr(-r, r));
        let (mut i1, mut i2): ([f64; 9], [f64; 9]) = (ctx.rng.arr(-0.1, 0.3), ctx.rng.arr(-0.1, 0.3));
        match ctx.rng.below(12) {
            0 => c1 = [0.; 3],
            1 => c2 = [0.; 3],
            2 => c2 = c1,
            3 => c2 = [-c1[0], -c1[1], -c1[2]],
            4 => i1 = [0.; 9],
            5 => i2 = [0.; 9],
            6 => {
                let k = ctx.rng.below(3);
                c1[k] = 0.;
                c2[k] = 0.;
            }
            7 => i2 = i1,
            _ => {}
        }
        if ctx.rng.bool() {
            for i in [&mut i1, &mut i2] {
                i[3] = i[1];
                i[6] = i[2];
                i[7] = i[5];
            }
        }
        let p = ses.cli.call(|r| r.read_once());
        let o = ses.srv.pump_until(
            &p,
            |id| {
                let mut s = State::idle(id);
                s.set(off::m_ee, &[m1]);
                s.set(off::F_x_Cee, &c1);
                s.set(off::I_ee, &i1);
                s.set(off::m_load, &[m2]);
                s.set(off::F_x_Cload, &c2);
                s.set(off::I_load, &i2);
                s
            },
            |_, e| viol(format!("unexpected {:?}", e)),
        )?;
        let rs = match o {
            Outcome::Ret(Ok(rs)) => rs,
            Outcome::Panic(m) => return viol(format!("read_once panicked: {}", m)),
            o => return suspect(format!("read_once: {:?}", o)),
        };
        let (m, c, t) = combine(m1, c1, i1, m2, c2, i2);
        let what = format!("m_ee {} at {:?} inertia {:?}, m_load {} at {:?} inertia {:?}", m1, c1, i1, m2, c2, i2);
        ensure!((rs.m_total - m).abs() <= 1e-12 * m, "m_total {} instead of {}: {}", rs.m_total, m, what);
        for i in 0..3 {
            ensure!((rs.F_x_Ctotal[i] - c[i]).abs() <= 1e-10, "F_x_Ctotal {:?} instead of {:?}: {}", rs.F_x_Ctotal, c, what);
        }
        for i in 0..9 {
            ensure!((rs.I_total[i] - t[i]).abs() <= 1e-9 * (1. + m), "I_total {:?} instead of {:?}: {}", rs.I_total, t, what);
        }
        ctx.eval();
        ctx.events(1);
        ctx.hit(match (m1 == 0., m2 == 0.) {
            (true, true) => "no mass",
            (true, false) => "only load",
            (false, true) => "only end effector",
            _ => "both",
        });
        ctx.sig((m1.to_bits(), m2.to_bits()));
        if k == 0 {
            ctx.sample(what);
        }
    }
    Ok(())
}
