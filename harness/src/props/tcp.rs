//! C01 C02 C03 C04 C07: the TCP side of robot and gripper.
use crate::fw::*;
use crate::mock::*;
use crate::wire::*;
use crate::{ensure, ensure_t};
use franka::exception::FrankaException;
use franka::*;
use std::time::Duration;

// ------------------------------------------------------------------ robot commands
#[derive(Clone, Debug)]
pub enum RCmd {
    Collision([[f64; 7]; 4], [[f64; 6]; 4]),
    JointImp([f64; 7]),
    CartImp([f64; 6]),
    Guiding([bool; 6], bool),
    SetK([f64; 16]),
    SetEe([f64; 16]),
    Load(f64, [f64; 3], [f64; 9]),
    Filters([f64; 5]),
    Recovery,
    Stop,
    Wall(i32),
}
pub const N_RCMD: usize = 11;
#[derive(Debug)]
pub enum Reply {
    Unit,
    Wall(i32, [f64; 3], [f64; 16], bool),
}
impl RCmd {
    pub fn gen(rng: &mut Rng, kind: usize) -> RCmd {
        match kind {
            0 => RCmd::Collision(
                [rng.wild_arr(), rng.wild_arr(), rng.wild_arr(), rng.wild_arr()],
                [rng.wild_arr(), rng.wild_arr(), rng.wild_arr(), rng.wild_arr()],
            ),
            1 => RCmd::JointImp(rng.wild_arr()),
            2 => RCmd::CartImp(rng.wild_arr()),
            3 => {
                let mut g = [false; 6];
                for x in g.iter_mut() {
                    *x = rng.bool();
                }
                RCmd::Guiding(g, rng.bool())
            }
            4 => RCmd::SetK(rng.wild_arr()),
            5 => RCmd::SetEe(rng.wild_arr()),
            6 => RCmd::Load(rng.wild(), rng.wild_arr(), rng.wild_arr()),
            7 => RCmd::Filters(rng.wild_arr()),
            8 => RCmd::Recovery,
            9 => RCmd::Stop,
            _ => RCmd::Wall(match rng.below(4) {
                0 => rng.u64() as i32,
                1 => i32::MIN,
                2 => i32::MAX,
                _ => rng.below(10) as i32 - 3,
            }),
        }
    }
    pub fn name(&self) -> &'static str {
        ["set_collision_behavior", "set_joint_impedance", "set_cartesian_impedance", "set_guiding_mode", "set_K", "set_EE", "set_load", "set_filters", "automatic_error_recovery", "stop", "get_virtual_wall"][self.kind()]
    }
    pub fn kind(&self) -> usize {
        match self {
            RCmd::Collision(..) => 0,
            RCmd::JointImp(..) => 1,
            RCmd::CartImp(..) => 2,
            RCmd::Guiding(..) => 3,
            RCmd::SetK(..) => 4,
            RCmd::SetEe(..) => 5,
            RCmd::Load(..) => 6,
            RCmd::Filters(..) => 7,
            RCmd::Recovery => 8,
            RCmd::Stop => 9,
            RCmd::Wall(..) => 10,
        }
    }
    pub fn code(&self) -> u32 {
        [
            cmd::SET_COLLISION_BEHAVIOR, cmd::SET_JOINT_IMPEDANCE, cmd::SET_CARTESIAN_IMPEDANCE, cmd::SET_GUIDING_MODE, cmd::SET_EE_TO_K, cmd::SET_NE_TO_EE,
            cmd::SET_LOAD, cmd::SET_FILTERS, cmd::AUTOMATIC_ERROR_RECOVERY, cmd::STOP_MOVE, cmd::GET_CARTESIAN_LIMIT,
        ][self.kind()]
    }
    pub fn payload(&self) -> Vec<u8> {
        match self {
            RCmd::Collision(a, b) => {
                let mut v = vec![];
                for x in a {
                    v.extend(f64s(x));
                }
                for x in b {
                    v.extend(f64s(x));
                }
                v
            }
            RCmd::JointImp(a) => f64s(a),
            RCmd::CartImp(a) => f64s(a),
            RCmd::Guiding(g, e) => g.iter().chain(std::iter::once(e)).map(|b| *b as u8).collect(),
            RCmd::SetK(a) | RCmd::SetEe(a) => f64s(a),
            RCmd::Load(m, x, i) => {
                let mut v = f64s(&[*m]);
                v.extend(f64s(x));
                v.extend(f64s(i));
                v
            }
            RCmd::Filters(a) => f64s(a),
            RCmd::Recovery | RCmd::Stop => vec![],
            RCmd::Wall(i) => i.to_le_bytes().to_vec(),
        }
    }
    pub fn invoke(&self, r: &mut Robot) -> FrankaResult<Reply> {
        match self {
            RCmd::Collision(a, b) => r.set_collision_behavior(a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]).map(|_| Reply::Unit),
            RCmd::JointImp(a) => r.set_joint_impedance(*a).map(|_| Reply::Unit),
            RCmd::CartImp(a) => r.set_cartesian_impedance(*a).map(|_| Reply::Unit),
            RCmd::Guiding(g, e) => r.set_guiding_mode(*g, *e).map(|_| Reply::Unit),
            RCmd::SetK(a) => r.set_K(*a).map(|_| Reply::Unit),
            RCmd::SetEe(a) => r.set_EE(*a).map(|_| Reply::Unit),
            RCmd::Load(m, x, i) => r.set_load(*m, *x, *i).map(|_| Reply::Unit),
            RCmd::Filters(a) => r.set_filters(a[0], a[1], a[2], a[3], a[4]).map(|_| Reply::Unit),
            RCmd::Recovery => r.automatic_error_recovery().map(|_| Reply::Unit),
            RCmd::Stop => r.stop().map(|_| Reply::Unit),
            RCmd::Wall(i) => r.get_virtual_wall(*i).map(|w| Reply::Wall(w.id, w.object_world_size, w.p_frame, w.active)),
        }
    }
    /// (number of statuses, words that the error text for a status has to contain)
    pub fn statuses(&self) -> usize {
        match self {
            RCmd::Recovery => 6,
            RCmd::Stop => 5,
            _ => 3,
        }
    }
    pub fn words(&self, st: u8) -> &'static str {
        match (self, st) {
            (RCmd::Recovery, 1) => "not possible",
            (RCmd::Recovery, 2) => "manual error recovery",
            (RCmd::Recovery, 3) => "reflex",
            (RCmd::Recovery, 4) => "user stop",
            (RCmd::Recovery, _) => "aborted",
            (RCmd::Stop, 1) => "not possible",
            (RCmd::Stop, 2) => "user stop",
            (RCmd::Stop, 3) => "reflex",
            (RCmd::Stop, _) => "aborted",
            (_, 1) => "not possible",
            (_, _) => "invalid argument",
        }
    }
}

fn cuts(rng: &mut Rng, len: usize) -> Vec<usize> {
    match rng.below(6) {
        0 => vec![],
        1 => vec![rng.range(1, len.max(2) - 1)],
        2 => (1..len.min(60)).collect(), // byte by byte
        3 => vec![1, 4, 8, 11, 12, 13],
        4 => vec![12],
        _ => {
            let n = rng.range(1, 6);
            let mut v: Vec<usize> = (0..n).map(|_| rng.range(1, len)).collect();
            v.sort();
            v
        }
    }
}

/// checks the outcome of one command against the status the robot answered with
pub fn judge(c: &RCmd, st: u8, wall: &(Vec<f64>, Vec<f64>, bool), out: Outcome<FrankaResult<Reply>>) -> Res<()> {
    match out {
        Outcome::Ret(Ok(r)) => {
            ensure!(st == 0, "{} returned Ok although the robot answered with status {}", c.name(), st);
            match (c, r) {
                (RCmd::Wall(i), Reply::Wall(id, s, f, a)) => {
                    ensure!(id == *i, "virtual wall {} returned for id {}", id, i);
                    ensure!(bits_eq(&s, &wall.0), "virtual wall size {:?} instead of {:?}", s, wall.0);
                    ensure!(bits_eq(&f, &wall.1), "virtual wall frame {:?} instead of {:?}", f, wall.1);
                    ensure!(a == wall.2, "virtual wall active = {}", a);
                }
                (RCmd::Wall(_), _) => return harness("reply type"),
                _ => {}
            }
            Ok(())
        }
        Outcome::Ret(Err(FrankaException::CommandException { message })) => {
            ensure!(st != 0, "{} failed ({}) although the robot answered with success", c.name(), message);
            ensure!(message.to_lowercase().contains(c.words(st)), "{}: status {} was reported as {:?}", c.name(), st, message);
            Ok(())
        }
        Outcome::Ret(Err(e)) => viol(format!("{}: status {} was answered, but the call returned {}", c.name(), st, text(&e))),
        Outcome::Panic(p) => viol(format!("{}: status {} was answered, but the call panicked: {}", c.name(), st, p)),
        Outcome::Hang => suspect(format!("{}: the response was sent, but the call did not return", c.name())),
    }
}
fn answer(c: &RCmd, st: u8, rng: &mut Rng) -> (Vec<u8>, (Vec<f64>, Vec<f64>, bool)) {
    let mut p = vec![st];
    let mut wall = (vec![], vec![], false);
    if let RCmd::Wall(_) = c {
        let s: [f64; 3] = rng.wild_arr();
        let f: [f64; 16] = rng.wild_arr();
        let a = rng.bool();
        p.extend(f64s(&s));
        p.extend(f64s(&f));
        p.push(a as u8);
        wall = (s.to_vec(), f.to_vec(), a);
    }
    (p, wall)
}

/// an id that is not the one of the request, but looks similar or belongs to an earlier one
fn foreign_id(rng: &mut Rng, used: &[u32], own: u32) -> u32 {
    match rng.below(8) {
        0..=3 if !used.is_empty() => *rng.pick(used),
        0..=4 => own ^ (1 << rng.range(16, 31)),
        5 => own.swap_bytes() | 1 << 24,
        _ => 1_000_000 + rng.below(3_000_000_000) as u32,
    }
}
/// a response to another request
fn foreign(rng: &mut Rng, used: &[u32], c: &RCmd, own: u32) -> Vec<u8> {
    let id = foreign_id(rng, used, own);
    if rng.chance(0.3) {
        // of the same kind, with another result
        let st = rng.below(c.statuses()) as u8;
        let (p, _) = answer(c, st, rng);
        return robot_msg(c.code(), id, &p);
    }
    let n = *rng.pick(&[0usize, 1, 1, 1, 1, 3, 3, 100, 100, 154, 154, 4084, 4085, 5000, 16_384, 65_536, 200_000]);
    let mut p = vec![0u8; n];
    for x in p.iter_mut() {
        *x = rng.u64() as u8;
    }
    robot_msg(rng.below(14) as u32, id, &p)
}

/// C01: every call gets the answer to its own request, whatever the segmentation of the stream and
/// whatever other responses are in it.
pub fn c01(ctx: &mut Ctx) -> Res<()> {
    let mut ses = open_default(ctx)?;
    // ids of requests that were already answered
    let mut used = vec![ses.srv.connect_req.as_ref().unwrap().id];
    let n = if ctx.idx % 20 == 19 { 400 } else { 12 };
    for k in 0..n {
        let kind = if ctx.idx < N_RCMD { ctx.idx } else { ctx.rng.below(N_RCMD) };
        let c = RCmd::gen(&mut ctx.rng, kind);
        let st = if ctx.rng.chance(0.3) { 0 } else { ctx.rng.below(c.statuses()) as u8 };
        let st = if ctx.idx < N_RCMD { (k % c.statuses()) as u8 } else { st };
        let c2 = c.clone();
        let p = ses.cli.call(move |r| c2.invoke(r));
        let req = ses.srv.request()?;
        ensure!(req.cmd == c.code(), "{} sent request {}", c.name(), req.cmd);
        let (pay, wall) = answer(&c, st, &mut ctx.rng);
        let before = if ctx.rng.chance(0.02) { ctx.rng.range(10, 60) } else if ctx.rng.chance(0.5) { ctx.rng.below(4) } else { 0 };
        let after = if ctx.rng.chance(0.4) { ctx.rng.below(3) } else { 0 };
        let mut stream = vec![];
        for _ in 0..before {
            stream.extend(foreign(&mut ctx.rng, &used, &c, req.id));
        }
        let begin = stream.len();
        stream.extend(robot_msg(req.cmd, req.id, &pay));
        let end = stream.len();
        for _ in 0..after {
            stream.extend(foreign(&mut ctx.rng, &used, &c, req.id));
        }
        let mut cs = cuts(&mut ctx.rng, stream.len());
        if ctx.rng.chance(0.3) {
            cs.push(begin + 12.min(end - begin));
            cs.push(end);
            cs.sort();
        }
        let pause = *ctx.rng.pick(&[0u64, 0, 30, 300]);
        // the robot takes the time it needs
        if k == 0 && !ctx.nested && (ctx.idx == 21 || ctx.idx == 22 || (ctx.thorough && ctx.idx % 1000 == 70)) {
            slowly(ctx, &p)?;
        }
        // the response must not be acted upon before it is complete
        let early = ctx.rng.chance(0.05) && !cs.is_empty();
        if early {
            let cut = begin + ctx.rng.below(end - begin);
            ses.srv.send(&stream[..cut])?;
            std::thread::sleep(Duration::from_millis(15));
            if let Some(o) = p.poll() {
                return viol(format!("{} ended ({:?}) before its response was complete", c.name(), o));
            }
            ses.srv.send(&stream[cut..])?;
        } else {
            ses.srv.send_pieces(&stream, &cs, pause)?;
        }
        judge(&c, st, &wall, p.wait())?;
        used.push(req.id);
        ctx.eval();
        ctx.events(2 + before + after);
        ctx.hit(&format!("{} status {}", c.name(), st));
        ctx.hit(&format!("foreign before {} after {}", if before > 3 { "many".to_string() } else { before.to_string() }, after));
        ctx.sig((kind, st, before, after, cs.len().min(20), pause));
        if k == 0 {
            ctx.sample(format!("{} status {} in a stream of {} bytes cut at {:?}, {} foreign responses before, {} after", c.name(), st, stream.len(), cs, before, after));
        }
    }
    Ok(())
}

/// a command waits for its response, however long the robot needs
fn slowly<R: std::fmt::Debug>(ctx: &mut Ctx, p: &Pending<R>) -> Res<()> {
    std::thread::sleep(Duration::from_secs(if ctx.thorough { 31 } else { 11 }));
    ctx.hit("response after a long time");
    match p.poll() {
        Some(o) => viol(format!("the command ended ({:?}) before the robot had answered", o)),
        None => Ok(()),
    }
}

/// runs one command with a random status on an open session and judges the outcome
pub fn judge_script(ctx: &mut Ctx, ses: &mut Session, c: &RCmd) -> Res<()> {
    let st = ctx.rng.below(c.statuses()) as u8;
    let c2 = c.clone();
    let p = ses.cli.call(move |r| c2.invoke(r));
    let req = ses.srv.request()?;
    check_req(&req, 12, c.code(), &c.payload(), c.name())?;
    let (pay, wall) = answer(c, st, &mut ctx.rng);
    ses.srv.respond(req.cmd, req.id, &pay)?;
    judge(c, st, &wall, p.wait())
}

fn check_req(req: &Req, hdr: usize, code: u32, payload: &[u8], what: &str) -> Res<()> {
    ensure!(req.cmd == code, "{}: request has command {} instead of {}", what, req.cmd, code);
    ensure!(req.size as usize == hdr + payload.len(), "{}: header announces {} bytes, expected {}", what, req.size, hdr + payload.len());
    ensure!(req.payload == payload, "{}: request payload differs from the arguments: {:02x?} instead of {:02x?}", what, req.payload, payload);
    Ok(())
}

/// C02: requests carry exactly the arguments, one per call, with fresh ids.
pub fn c02(ctx: &mut Ctx) -> Res<()> {
    if ctx.idx == 60 {
        return many_requests(ctx);
    }
    let mut ses = open_default(ctx)?;
    let mut last = ses.srv.connect_req.as_ref().unwrap().id;
    let n = if ctx.idx % 25 == 24 { 700 } else { 15 };
    for k in 0..n {
        if ctx.rng.chance(0.08) {
            // default behavior: three requests, stops at the first failure
            let p = ses.cli.call(|r| r.set_default_behavior().map(|_| Reply::Unit));
            let mut e1 = vec![];
            for v in [20., 20., 10., 10.] {
                e1.extend(f64s(&[v; 7]));
            }
            for v in [20., 20., 10., 10.] {
                e1.extend(f64s(&[v; 6]));
            }
            let exp = [
                (cmd::SET_COLLISION_BEHAVIOR, e1),
                (cmd::SET_JOINT_IMPEDANCE, f64s(&[3000., 3000., 3000., 2500., 2500., 2000., 2000.])),
                (cmd::SET_CARTESIAN_IMPEDANCE, f64s(&[3000., 3000., 3000., 300., 300., 300.])),
            ];
            let fail_at = ctx.rng.below(6);
            let mut failed = false;
            for (i, (code, pay)) in exp.iter().enumerate() {
                let req = ses.srv.request()?;
                check_req(&req, 12, *code, pay, "set_default_behavior")?;
                ensure!(req.id > last, "request id {} follows {}", req.id, last);
                last = req.id;
                let st = if i == fail_at { 1 + ctx.rng.below(2) as u8 } else { 0 };
                ses.srv.respond(req.cmd, req.id, &[st])?;
                ctx.events(2);
                if st != 0 {
                    failed = true;
                    break;
                }
            }
            match p.wait() {
                Outcome::Ret(Ok(_)) => ensure!(!failed, "set_default_behavior returned Ok although a request was rejected"),
                Outcome::Ret(Err(FrankaException::CommandException { .. })) => ensure!(failed, "set_default_behavior failed although every request succeeded"),
                Outcome::Hang => return suspect("set_default_behavior did not return"),
                o => return viol(format!("set_default_behavior: {:?}", o)),
            }
            ctx.eval();
            ctx.hit("set_default_behavior");
            ctx.sig(("default", fail_at));
            continue;
        }
        let kind = if ctx.idx < N_RCMD { ctx.idx } else { ctx.rng.below(N_RCMD) };
        let c = RCmd::gen(&mut ctx.rng, kind);
        let c2 = c.clone();
        let p = ses.cli.call(move |r| c2.invoke(r));
        let req = ses.srv.request()?;
        check_req(&req, 12, c.code(), &c.payload(), c.name())?;
        ensure!(req.id > last, "{}: request id {} does not follow {}", c.name(), req.id, last);
        last = req.id;
        let st = ctx.rng.below(c.statuses()) as u8;
        let (pay, _) = answer(&c, st, &mut ctx.rng);
        ses.srv.respond(req.cmd, req.id, &pay)?;
        match p.wait() {
            Outcome::Ret(_) => {}
            Outcome::Panic(m) => return viol(format!("{} panicked: {}", c.name(), m)),
            Outcome::Hang => return suspect(format!("{} did not return", c.name())),
        }
        if let Some(e) = ses.srv.event(0) {
            return viol(format!("{} sent more than its request: {:?}", c.name(), e));
        }
        ensure!(ses.srv.partial_len() == 0, "{} left {} bytes on the stream", c.name(), ses.srv.partial_len());
        ctx.eval();
        ctx.events(2);
        ctx.hit(c.name());
        ctx.sig((kind, crate::fw::mix(c.payload().iter().fold(7u64, |h, b| mix(h ^ *b as u64)))));
        if k == 0 {
            ctx.sample(format!("{:?}", c).chars().take(200).collect::<String>());
        }
    }
    Ok(())
}

/// more requests than fit into 16 bits, on one connection
fn many_requests(ctx: &mut Ctx) -> Res<()> {
    let mut ses = open_default(ctx)?;
    let n = 67_000u32;
    let p = ses.cli.call(move |r| {
        for k in 0..n {
            if k % 2 == 0 {
                r.set_cartesian_impedance([k as f64; 6])?;
            } else {
                r.automatic_error_recovery()?;
            }
        }
        Ok(Reply::Unit)
    });
    let mut last = ses.srv.connect_req.as_ref().unwrap().id;
    for k in 0..n {
        let req = ses.srv.request()?;
        if k % 2 == 0 {
            check_req(&req, 12, cmd::SET_CARTESIAN_IMPEDANCE, &f64s(&[k as f64; 6]), "set_cartesian_impedance")?;
        } else {
            check_req(&req, 12, cmd::AUTOMATIC_ERROR_RECOVERY, &[], "automatic_error_recovery")?;
        }
        ensure!(req.id > last, "request id {} of request {} does not follow {}", req.id, k, last);
        last = req.id;
        ses.srv.respond(req.cmd, req.id, &[0])?;
    }
    match p.wait() {
        Outcome::Ret(Ok(_)) => {}
        Outcome::Ret(Err(e)) => return viol(format!("{} successful requests: {}", n, text(&e))),
        Outcome::Panic(m) => return viol(format!("{} successful requests: panicked: {}", n, m)),
        Outcome::Hang => return suspect(format!("{} requests: did not return", n)),
    }
    ctx.evals(n as usize);
    ctx.events(2 * n as usize);
    ctx.hit("more requests than fit into 16 bits");
    ctx.sig("many");
    Ok(())
}
fn many_gripper_requests(ctx: &mut Ctx) -> Res<()> {
    let mut s = open_gripper(&ctx.ip)?;
    let n = 67_000u32;
    let p = s.cli.call(move |g| {
        for k in 0..n {
            if g.move_gripper(k as f64, 0.5)? != (k % 3 != 0) {
                return Ok(Some(k));
            }
        }
        Ok(None)
    });
    let mut last = s.connect_id;
    for k in 0..n {
        let req = s.srv.request()?;
        check_req(&req, 10, gcmd::MOVE as u32, &f64s(&[k as f64, 0.5]), "move_gripper")?;
        ensure!(req.id > last, "gripper request id {} of request {} does not follow {}", req.id, k, last);
        last = req.id;
        s.srv.send(&gripper_msg(gcmd::MOVE, req.id, &(if k % 3 != 0 { 0u16 } else { 2 }).to_le_bytes()))?;
    }
    match p.wait() {
        Outcome::Ret(Ok(None)) => {}
        Outcome::Ret(Ok(Some(k))) => return viol(format!("gripper request {} of {}: wrong result", k, n)),
        Outcome::Ret(Err(e)) => return viol(format!("{} gripper requests: {}", n, text(&e))),
        Outcome::Panic(m) => return viol(format!("{} gripper requests: panicked: {}", n, m)),
        Outcome::Hang => return suspect(format!("{} gripper requests: did not return", n)),
    }
    ctx.evals(n as usize);
    ctx.events(2 * n as usize);
    ctx.hit("more requests than fit into 16 bits");
    ctx.sig("many");
    Ok(())
}

// ------------------------------------------------------------------ gripper
pub fn gripper_handshake(srv: &mut Server, status: u16, version: u16, cutv: &[usize], pause: u64) -> Res<Req> {
    srv.accept()?;
    let r = srv.request()?;
    ensure!(r.cmd == gcmd::CONNECT as u32, "first gripper request is {}", r.cmd);
    ensure!(r.payload.len() == 4, "gripper Connect has {} payload bytes", r.payload.len());
    let port = u16::from_le_bytes([r.payload[2], r.payload[3]]);
    srv.advertised_port = port;
    srv.peer.set_port(port);
    let mut p = status.to_le_bytes().to_vec();
    p.extend_from_slice(&version.to_le_bytes());
    let m = gripper_msg(gcmd::CONNECT, r.id, &p);
    srv.send_pieces(&m, cutv, pause)?;
    Ok(r)
}
pub struct GSession {
    pub srv: Server,
    pub cli: Actor<Gripper>,
    pub connect_id: u32,
}
pub fn open_gripper(ip: &str) -> Res<GSession> {
    let mut srv = Server::bind(ip, true)?;
    let ip2 = ip.to_string();
    let (cli, p) = Actor::spawn(move || Gripper::new(&ip2));
    let r = gripper_handshake(&mut srv, 0, 3, &[], 0)?;
    match p.wait() {
        Outcome::Ret(Ok(())) => Ok(GSession { srv, cli, connect_id: r.id }),
        o => suspect(format!("connecting to the gripper: {:?}", o)),
    }
}
#[derive(Clone, Debug)]
enum GCmd {
    Move(f64, f64),
    Homing,
    Stop,
    Grasp(f64, f64, f64, Option<f64>, Option<f64>),
}
impl GCmd {
    fn gen(rng: &mut Rng, k: usize) -> GCmd {
        match k {
            0 => GCmd::Move(rng.wild(), rng.wild()),
            1 => GCmd::Homing,
            2 => GCmd::Stop,
            _ => GCmd::Grasp(
                rng.wild(),
                rng.wild(),
                rng.wild(),
                if rng.bool() { Some(rng.wild()) } else { None },
                if rng.bool() { Some(rng.wild()) } else { None },
            ),
        }
    }
    fn code(&self) -> u16 {
        match self {
            GCmd::Move(..) => gcmd::MOVE,
            GCmd::Homing => gcmd::HOMING,
            GCmd::Stop => gcmd::STOP,
            GCmd::Grasp(..) => gcmd::GRASP,
        }
    }
    fn payload(&self) -> Vec<u8> {
        match self {
            GCmd::Move(a, b) => f64s(&[*a, *b]),
            GCmd::Grasp(w, s, f, i, o) => f64s(&[*w, i.unwrap_or(0.005), o.unwrap_or(0.005), *s, *f]),
            _ => vec![],
        }
    }
    fn invoke(&self, g: &mut Gripper) -> FrankaResult<bool> {
        match self {
            GCmd::Move(a, b) => g.move_gripper(*a, *b),
            GCmd::Homing => g.homing(),
            GCmd::Stop => g.stop(),
            GCmd::Grasp(a, b, c, d, e) => g.grasp(*a, *b, *c, *d, *e),
        }
    }
}

/// C03: gripper commands, their results and gripper states
pub fn c03(ctx: &mut Ctx) -> Res<()> {
    if ctx.idx == 60 {
        return many_gripper_requests(ctx);
    }
    let mut s = open_gripper(&ctx.ip)?;
    let mut last = s.connect_id;
    let mut used = vec![last];
    let mut sid: u32 = if ctx.rng.bool() { 1 } else { ctx.rng.u64() as u32 >> 1 };
    let n = if ctx.idx % 25 == 24 { 400 } else { 12 };
    for k in 0..n {
        if ctx.rng.chance(0.35) {
            gripper_state(ctx, &mut s, &mut sid)?;
            continue;
        }
        let kind = if ctx.idx < 4 { ctx.idx } else { ctx.rng.below(4) };
        let c = GCmd::gen(&mut ctx.rng, kind);
        let st = if ctx.idx < 4 { (k % 4) as u16 } else { ctx.rng.below(4) as u16 };
        let c2 = c.clone();
        let p = s.cli.call(move |g| c2.invoke(g));
        let req = s.srv.request()?;
        check_req(&req, 10, c.code() as u32, &c.payload(), &format!("{:?}", c))?;
        ensure!(req.id > last, "gripper request id {} does not follow {}", req.id, last);
        last = req.id;
        let mut stream = vec![];
        let before = if ctx.rng.chance(0.4) { ctx.rng.below(3) } else { 0 };
        for _ in 0..before {
            let id = foreign_id(&mut ctx.rng, &used, req.id);
            let code = if ctx.rng.bool() { c.code() } else { ctx.rng.below(5) as u16 };
            stream.extend(gripper_msg(code, id, &(ctx.rng.below(4) as u16).to_le_bytes()));
        }
        stream.extend(gripper_msg(c.code(), req.id, &st.to_le_bytes()));
        let cs = cuts(&mut ctx.rng, stream.len());
        let pause = *ctx.rng.pick(&[0u64, 0, 50, 300]);
        if k == 0 && !ctx.nested && (ctx.idx < 4 || (ctx.thorough && ctx.idx % 1000 == 70)) {
            slowly(ctx, &p)?;
        }
        s.srv.send_pieces(&stream, &cs, pause)?;
        match p.wait() {
            Outcome::Ret(Ok(true)) => ensure!(st == 0, "{:?}: gripper status {} was reported as success", c, st),
            Outcome::Ret(Ok(false)) => ensure!(st == 2, "{:?}: gripper status {} was reported as unsuccessful", c, st),
            Outcome::Ret(Err(FrankaException::CommandException { message })) => {
                ensure!(st == 1 || st == 3, "{:?}: gripper status {} was reported as error {:?}", c, st, message);
                let w = if st == 1 { "fail" } else { "abort" };
                ensure!(message.to_lowercase().contains(w), "{:?}: gripper status {} was reported as {:?}", c, st, message);
            }
            Outcome::Hang => return suspect(format!("{:?} did not return", c)),
            o => return viol(format!("{:?} with status {}: {:?}", c, st, o)),
        }
        if let Some(e) = s.srv.event(0) {
            return viol(format!("{:?} sent more than its request: {:?}", c, e));
        }
        used.push(req.id);
        ctx.eval();
        ctx.events(2 + before);
        ctx.hit(&format!("command {} status {}", c.code(), st));
        ctx.sig((kind, st, before, cs.len().min(12), format!("{:?}", c).len() % 7));
        if k == 0 {
            ctx.sample(format!("{:?} answered with status {}", c, st));
        }
    }
    Ok(())
}
fn gripper_state(ctx: &mut Ctx, s: &mut GSession, sid: &mut u32) -> Res<()> {
    // some states arrive before the call
    let stale = if ctx.rng.chance(0.05) { ctx.rng.range(30, 200) } else { ctx.rng.below(4) };
    let mk = |rng: &mut Rng, id: u32| GState {
        id,
        width: rng.wild(),
        max_width: if rng.bool() { rng.wild() } else { f64::from_bits(rng.u64()) },
        grasped: rng.bool(),
        temp: rng.u64() as u16,
    };
    let mut sent: Vec<GState> = vec![];
    for _ in 0..stale {
        *sid = sid.wrapping_add(1);
        let g = mk(&mut ctx.rng, *sid);
        s.srv.udp_raw(&g.encode())?;
        sent.push(g);
    }
    let barrier = sent.len();
    let p = s.cli.call(|g| g.read_once());
    let mut pat = Patience::new(PATIENCE);
    let out = loop {
        if let Some(o) = p.poll() {
            break o;
        }
        *sid = sid.wrapping_add(1);
        let g = mk(&mut ctx.rng, *sid);
        s.srv.udp_raw(&g.encode())?;
        sent.push(g);
        std::thread::sleep(Duration::from_micros(500));
        if !pat.tick() {
            break Outcome::Hang;
        }
    };
    match out {
        Outcome::Ret(Ok(st)) => {
            let i = match sent.iter().position(|g| st.time == Duration::from_millis(g.id as u64)) {
                Some(i) => i,
                None => return viol(format!("gripper state with time {:?} was never sent (sent ids {:?})", st.time, sent.iter().map(|g| g.id).collect::<Vec<_>>())),
            };
            let g = &sent[i];
            ensure!(
                st.width.to_bits() == g.width.to_bits() && st.max_width.to_bits() == g.max_width.to_bits() && st.is_grasped == g.grasped && st.temperature == g.temp,
                "gripper state {:?} differs from the sent {:?}", st, g
            );
            ensure!(i >= barrier, "gripper read_once returned a state that was sent before the call");
        }
        Outcome::Hang => return suspect("gripper read_once did not return"),
        o => return suspect(format!("gripper read_once: {:?}", o)),
    }
    ctx.eval();
    ctx.events(sent.len());
    ctx.hit("state read");
    ctx.sig(("state", stale));
    Ok(())
}

// ------------------------------------------------------------------ C04 handshake
pub fn c04(ctx: &mut Ctx) -> Res<()> {
    let kind = if ctx.idx < 16 { ctx.idx } else { ctx.rng.below(10) };
    match kind {
        0..=4 => c04_robot(ctx, kind == 1 || kind == 3, None),
        5..=9 => c04_gripper(ctx, kind == 6 || kind == 8, None),
        14 | 15 => {
            // a host name instead of an address; only one case at a time can be that host
            static LOCALHOST: std::sync::Mutex<()> = std::sync::Mutex::new(());
            use std::net::ToSocketAddrs;
            let name = "localhost";
            let _g = match LOCALHOST.try_lock() {
                Ok(g) => g,
                Err(_) => return Ok(()),
            };
            let a = match (name, if kind == 14 { 1337 } else { 1338 }).to_socket_addrs().ok().and_then(|mut a| a.next()) {
                Some(a) if a.is_ipv4() && std::net::TcpListener::bind(a).is_ok() => a,
                _ => return Ok(()),
            };
            let ip = std::mem::replace(&mut ctx.ip, a.ip().to_string());
            let r = if kind == 14 { c04_robot(ctx, false, Some(name)) } else { c04_gripper(ctx, false, Some(name)) };
            ctx.ip = ip;
            ctx.hit("host name");
            r
        }
        10 | 11 => {
            // nobody listens
            let ip = ctx.ip.clone();
            let g = kind == 11;
            let r = if g { run_new(move || Gripper::new(&ip).map(|_| ())) } else { run_new(move || Robot::new(&ip, None, None).map(|_| ())) };
            expect_network(r, "connecting to an address without a server")?;
            ctx.eval();
            ctx.events(1);
            ctx.hit("refused");
            ctx.sig(("refused", g));
            Ok(())
        }
        _ => {
            for a in ["", "256.256.256.256", "no such host", "1.2.3", ":::"] {
                let a2 = a.to_string();
                if a == "1.2.3" {
                    continue; // a valid short notation
                }
                let r = if kind == 12 { run_new(move || Robot::new(&a2, RealtimeConfig::Ignore, None).map(|_| ())) } else { run_new(move || Gripper::new(&a2).map(|_| ())) };
                expect_network(r, &format!("connecting to {:?}", a))?;
                ctx.eval();
                ctx.events(1);
                ctx.sig(("unresolvable", kind, a));
            }
            ctx.hit("unresolvable");
            Ok(())
        }
    }
}
fn run_new(f: impl FnOnce() -> FrankaResult<()> + Send + 'static) -> Outcome<FrankaResult<()>> {
    let (_a, p) = Actor::<()>::spawn(f);
    p.wait_s(30.0)
}
pub fn expect_network<R: std::fmt::Debug>(o: Outcome<FrankaResult<R>>, what: &str) -> Res<()> {
    match o {
        Outcome::Ret(Err(FrankaException::NetworkException { .. })) => Ok(()),
        Outcome::Hang => suspect(format!("{}: did not return", what)),
        Outcome::Ret(Err(e)) => viol(format!("{}: {} instead of a NetworkException", what, text(&e))),
        Outcome::Ret(Ok(r)) => viol(format!("{}: returned Ok({:?})", what, r)),
        Outcome::Panic(m) => viol(format!("{}: panicked: {}", what, m)),
    }
}
fn version(ctx: &mut Ctx) -> u16 {
    match ctx.rng.below(12) {
        0 => 5,
        1 => 3,
        2 => 65535,
        3 => 256 * ctx.rng.below(12) as u16,
        4..=8 => ctx.rng.below(24) as u16,
        _ => ctx.rng.u64() as u16,
    }
}
fn c04_robot(ctx: &mut Ctx, incompatible: bool, name: Option<&str>) -> Res<()> {
    let mut srv = Server::bind(&ctx.ip, false)?;
    let ip = name.map(|n| n.to_string()).unwrap_or_else(|| ctx.ip.clone());
    let (cli, p) = Actor::spawn(move || Robot::new(&ip, RealtimeConfig::Ignore, None));
    srv.accept()?;
    let r = srv.request()?;
    ensure!(r.cmd == cmd::CONNECT, "the first request is {}", r.cmd);
    ensure!(r.size == 16 && r.payload.len() == 4, "Connect request of {} bytes", r.size);
    let lv = u16::from_le_bytes([r.payload[0], r.payload[1]]);
    let port = u16::from_le_bytes([r.payload[2], r.payload[3]]);
    ensure!(lv == 5, "the robot client announces protocol version {}", lv);
    ensure!(port != 0, "the client announces UDP port 0");
    srv.peer.set_port(port);
    let v = version(ctx);
    let mut pay = vec![incompatible as u8];
    pay.extend_from_slice(&v.to_le_bytes());
    let mut m = vec![];
    if ctx.rng.chance(0.3) {
        m.extend(robot_msg(cmd::SET_LOAD, 77777, &[0]));
    }
    m.extend(robot_msg(cmd::CONNECT, r.id, &pay));
    let cs = cuts(&mut ctx.rng, m.len());
    let id0 = 1 + (ctx.rng.u64() >> ctx.rng.range(12, 50));
    let early_state = ctx.rng.bool();
    if early_state {
        srv.state(&State::idle(id0))?;
    }
    srv.send_pieces(&m, &cs, 100)?;
    if incompatible {
        match p.wait() {
            Outcome::Ret(Err(FrankaException::IncompatibleLibraryVersionError { server_version, library_version })) => {
                ensure!(server_version == v && library_version == 5, "incompatible versions reported as server {} library {}, expected {} and 5", server_version, library_version, v)
            }
            Outcome::Hang => return suspect("connecting to an incompatible robot did not return"),
            o => return viol(format!("connecting to an incompatible robot: {:?}", o)),
        }
    } else {
        if !early_state {
            std::thread::sleep(Duration::from_millis(ctx.rng.below(5) as u64));
            srv.state(&State::idle(id0))?;
        }
        match p.wait() {
            Outcome::Ret(Ok(())) => {}
            o => return suspect(format!("connecting: {:?}", o)),
        }
        match cli.call(|r| r.server_version()).wait() {
            Outcome::Ret(x) => ensure!(x == v, "server_version() is {} but the robot reported {}", x, v),
            o => return suspect(format!("server_version(): {:?}", o)),
        }
        // the announced port receives states
        let call = cli.call(|r| r.read_once().map(|s| s.time));
        srv.last_id = id0;
        let o = srv.pump_until(&call, State::idle, |_, e| viol(format!("read_once sent {:?}", e)))?;
        match o {
            Outcome::Ret(Ok(t)) => ensure!(t.as_millis() as u64 > id0 || !early_state || t.as_millis() as u64 >= id0, "state time {:?}", t),
            o => return suspect(format!("no state was received on the announced UDP port: {:?}", o)),
        }
        ctx.events(3);
    }
    ctx.eval();
    ctx.events(2);
    ctx.hit(if incompatible { "robot incompatible" } else { "robot compatible" });
    ctx.sig(("robot", incompatible, v, cs.len()));
    ctx.sample(format!("robot version {} incompatible {} response cut at {:?}", v, incompatible, cs));
    Ok(())
}
fn c04_gripper(ctx: &mut Ctx, incompatible: bool, name: Option<&str>) -> Res<()> {
    let mut srv = Server::bind(&ctx.ip, true)?;
    let ip = name.map(|n| n.to_string()).unwrap_or_else(|| ctx.ip.clone());
    let (cli, p) = Actor::spawn(move || Gripper::new(&ip));
    let v = version(ctx);
    let st = if incompatible { ctx.rng.range(1, 3) as u16 } else { 0 };
    let cs = cuts(&mut ctx.rng, 14);
    let r = gripper_handshake(&mut srv, st, v, &cs, 100)?;
    ensure!(r.size == 14, "gripper Connect request of {} bytes", r.size);
    let lv = u16::from_le_bytes([r.payload[0], r.payload[1]]);
    ensure!(lv == 3, "the gripper client announces protocol version {}", lv);
    match p.wait() {
        Outcome::Ret(Err(FrankaException::IncompatibleLibraryVersionError { server_version, library_version })) => {
            ensure!(incompatible, "a compatible gripper was refused");
            ensure!(server_version == v && library_version == 3, "incompatible versions reported as server {} library {}, expected {} and 3", server_version, library_version, v)
        }
        Outcome::Ret(Ok(())) => {
            ensure!(!incompatible, "connected to an incompatible gripper");
            match cli.call(|r| r.server_version()).wait() {
                Outcome::Ret(x) => ensure!(x == v, "gripper server_version() is {} but {} was reported", x, v),
                o => return suspect(format!("server_version(): {:?}", o)),
            }
            let mut s = GSession { srv, cli, connect_id: 0 };
            let mut sid = 10;
            gripper_state(ctx, &mut s, &mut sid)?;
        }
        Outcome::Hang => return suspect("connecting to the gripper did not return"),
        o => return viol(format!("connecting to the gripper: {:?}", o)),
    }
    ctx.eval();
    ctx.events(2);
    ctx.hit(if incompatible { "gripper incompatible" } else { "gripper compatible" });
    ctx.sig(("gripper", st, v));
    Ok(())
}

// ------------------------------------------------------------------ C07 connection loss
#[derive(Clone, Copy, Debug)]
enum Kill {
    Fin,
    Rst,
    HalfClose,
    /// power loss: nothing is closed, but nothing is answered any more
    Vanish,
}
/// Power loss that cannot be simulated here: that the client's socket would notice it is read from
/// its options.
fn notices_silence(t: &std::net::TcpStream) -> Res<()> {
    let (us, them) = (t.local_addr().unwrap(), t.peer_addr().unwrap());
    let opt = |fd: i32, level: i32, name: i32| -> i32 {
        let mut v: libc::c_int = 0;
        let mut l = 4u32;
        unsafe { libc::getsockopt(fd, level, name, &mut v as *mut _ as *mut libc::c_void, &mut l) };
        v
    };
    for e in std::fs::read_dir("/proc/self/fd").map_err(|e| Fail::Harness(e.to_string()))? {
        let fd: i32 = match e.ok().and_then(|e| e.file_name().to_string_lossy().parse().ok()) {
            Some(fd) => fd,
            None => continue,
        };
        if tcp_name(fd, false) != Some(them) || tcp_name(fd, true) != Some(us) {
            continue;
        }
        let total = opt(fd, libc::IPPROTO_TCP, libc::TCP_KEEPIDLE) as i64 + opt(fd, libc::IPPROTO_TCP, libc::TCP_KEEPINTVL) as i64 * opt(fd, libc::IPPROTO_TCP, libc::TCP_KEEPCNT) as i64;
        ensure!(opt(fd, libc::SOL_SOCKET, libc::SO_KEEPALIVE) != 0 && total <= 60, "the connection has no keepalive probes that would notice within a minute that the robot is gone ({} s)", total);
    }
    Ok(())
}
fn tcp_name(fd: i32, peer: bool) -> Option<std::net::SocketAddr> {
    unsafe {
        let mut a: libc::sockaddr_in = std::mem::zeroed();
        let mut l = std::mem::size_of::<libc::sockaddr_in>() as u32;
        let p = &mut a as *mut _ as *mut libc::sockaddr;
        let rc = if peer { libc::getpeername(fd, p, &mut l) } else { libc::getsockname(fd, p, &mut l) };
        if rc != 0 || a.sin_family != libc::AF_INET as u16 {
            return None;
        }
        Some((std::net::Ipv4Addr::from(u32::from_be(a.sin_addr.s_addr)), u16::from_be(a.sin_port)).into())
    }
}
fn kill(srv: &mut Server, k: Kill) -> Res<()> {
    if let Some(t) = srv.tcp.take() {
        match k {
            Kill::Fin => {}
            Kill::Vanish => {
                use std::os::unix::io::AsRawFd;
                // everything sent so far is acknowledged, so that nothing is repeated
                for _ in 0..200 {
                    let mut n: libc::c_int = 0;
                    unsafe { libc::ioctl(t.as_raw_fd(), libc::TIOCOUTQ, &mut n) };
                    if n == 0 {
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(2));
                }
                // a socket filter that drops everything, also keepalive probes
                let mut drop_all = libc::sock_filter { code: 6, jt: 0, jf: 0, k: 0 };
                let f = libc::sock_fprog { len: 1, filter: &mut drop_all };
                let rc = unsafe { libc::setsockopt(t.as_raw_fd(), libc::SOL_SOCKET, libc::SO_ATTACH_FILTER, &f as *const _ as *const libc::c_void, std::mem::size_of::<libc::sock_fprog>() as u32) };
                if rc != 0 {
                    // not permitted here: judge the options and break the connection the hard way
                    notices_silence(&t)?;
                    abort_on_close(&t);
                    drop(t);
                    srv.listener = None;
                    return Ok(());
                }
                std::thread::spawn(move || {
                    std::thread::sleep(Duration::from_secs(40));
                    drop(t);
                });
                srv.listener = None;
                return Ok(());
            }
            Kill::HalfClose => {
                let _ = t.shutdown(std::net::Shutdown::Write);
                // keep the socket open for a while: only the robot's sending side is closed
                std::thread::spawn(move || {
                    std::thread::sleep(Duration::from_secs(20));
                    drop(t);
                });
                return Ok(());
            }
            Kill::Rst => abort_on_close(&t),
        }
        drop(t);
    }
    srv.listener = None;
    Ok(())
}
/// the timeout is one second
fn soon(t0: std::time::Instant, what: &str) -> Res<()> {
    ensure_t!(t0.elapsed() < Duration::from_secs(4), "{}: ended only after {:?}", what, t0.elapsed());
    Ok(())
}
fn abort_on_close(t: &std::net::TcpStream) {
    use std::os::unix::io::AsRawFd;
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe { libc::setsockopt(t.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32) };
}
pub fn c07(ctx: &mut Ctx) -> Res<()> {
    let k = *ctx.rng.pick(&[Kill::Fin, Kill::Rst, Kill::HalfClose]);
    let kind = ctx.idx % 24;
    let k = if kind <= 14 && ctx.idx / 24 % 4 == 1 && (ctx.idx + ctx.idx / 96) % 3 == 0 { Kill::Vanish } else { k };
    match kind {
        0..=10 => {
            // a command whose response never arrives completely
            let mut ses = open_default(ctx)?;
            let c = RCmd::gen(&mut ctx.rng, kind);
            for _ in 0..ctx.rng.below(3) {
                let c0 = RCmd::gen(&mut ctx.rng, 1);
                let p = ses.cli.call(move |r| c0.invoke(r));
                let q = ses.srv.request()?;
                ses.srv.respond(q.cmd, q.id, &[0])?;
                p.wait();
            }
            let before_request = !matches!(k, Kill::Vanish) && ctx.rng.chance(0.25);
            if before_request {
                kill(&mut ses.srv, k)?;
                std::thread::sleep(Duration::from_millis(2));
            }
            let c2 = c.clone();
            let p = ses.cli.call(move |r| c2.invoke(r));
            let mut part = 0;
            if !before_request {
                let q = ses.srv.request()?;
                let st = ctx.rng.below(c.statuses()) as u8;
                let (pay, _) = answer(&c, st, &mut ctx.rng);
                let m = robot_msg(q.cmd, q.id, &pay);
                part = ctx.rng.below(m.len());
                if part > 0 {
                    ses.srv.send(&m[..part])?;
                    if ctx.rng.bool() {
                        std::thread::sleep(Duration::from_millis(3));
                    }
                }
                kill(&mut ses.srv, k)?;
            }
            expect_network(p.wait(), &format!("{} after the connection was lost ({:?}, {} response bytes, before request {})", c.name(), k, part, before_request))?;
            // and again
            let c3 = c.clone();
            let p = ses.cli.call(move |r| c3.invoke(r));
            expect_network(p.wait(), &format!("{} repeated on a lost connection", c.name()))?;
            ctx.evals(2);
            ctx.events(3);
            ctx.hit(&format!("{:?} during a robot command", k));
            ctx.sig((kind, format!("{:?}", k), part, before_request));
            ctx.sample(format!("{} with {:?} after {} response bytes", c.name(), k, part));
        }
        11..=14 => {
            let mut s = open_gripper(&ctx.ip)?;
            let c = GCmd::gen(&mut ctx.rng, kind - 11);
            let c2 = c.clone();
            let p = s.cli.call(move |g| c2.invoke(g));
            let q = s.srv.request()?;
            let m = gripper_msg(c.code(), q.id, &[0, 0]);
            let part = ctx.rng.below(m.len());
            if part > 0 {
                s.srv.send(&m[..part])?;
            }
            kill(&mut s.srv, k)?;
            expect_network(p.wait(), &format!("gripper {:?} after the connection was lost ({:?}, {} bytes)", c, k, part))?;
            let p = s.cli.call(move |g| c.invoke(g));
            expect_network(p.wait(), "gripper command on a lost connection")?;
            ctx.evals(2);
            ctx.events(3);
            ctx.hit(&format!("{:?} during a gripper command", k));
            ctx.sig((kind, format!("{:?}", k), part));
        }
        15 => {
            // silence instead of states
            let mut ses = open_default(ctx)?;
            let t0 = std::time::Instant::now();
            let p = ses.cli.call(|r| r.read_once().map(|s| s.time));
            expect_network(p.wait(), "read_once without states")?;
            soon(t0, "read_once without states")?;
            let cnt = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
            let c2 = cnt.clone();
            let p = ses.cli.call(move |r| {
                r.read(move |_| {
                    c2.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    true
                })
            });
            for _ in 0..ctx.rng.below(5) {
                ses.srv.idle_state()?;
                std::thread::sleep(Duration::from_millis(1));
            }
            if ctx.rng.bool() {
                kill(&mut ses.srv, k)?;
            }
            let t0 = std::time::Instant::now();
            expect_network(p.wait(), "read when the states stop")?;
            soon(t0, "read when the states stop")?;
            ctx.evals(2);
            ctx.events(2);
            ctx.hit("silent state stream");
            ctx.sig(("silence", ctx.idx));
        }
        16 => {
            let s = open_gripper(&ctx.ip)?;
            let t0 = std::time::Instant::now();
            let p = s.cli.call(|g| g.read_once().map(|s| s.time));
            expect_network(p.wait(), "gripper read_once without states")?;
            soon(t0, "gripper read_once without states")?;
            ctx.eval();
            ctx.events(1);
            ctx.hit("silent gripper");
            ctx.sig(("gsilence", ctx.idx));
        }
        17 => {
            // connection phase
            let g = ctx.rng.bool();
            let mut srv = Server::bind(&ctx.ip, g)?;
            let ip = ctx.ip.clone();
            let (_keep, p);
            if g {
                let (a, b) = Actor::spawn(move || Gripper::new(&ip).map(|_| ()));
                _keep = a;
                p = b;
            } else {
                let (a, b) = Actor::spawn(move || Robot::new(&ip, RealtimeConfig::Ignore, None).map(|_| ()));
                _keep = a;
                p = b;
            }
            srv.accept()?;
            let mut part = 0;
            if ctx.rng.chance(0.8) {
                let q = srv.request()?;
                let m = if g { gripper_msg(0, q.id, &[0, 0, 3, 0]) } else { robot_msg(0, q.id, &[0, 5, 0]) };
                part = ctx.rng.below(m.len());
                if part > 0 {
                    srv.send(&m[..part])?;
                }
            }
            kill(&mut srv, k)?;
            expect_network(p.wait(), &format!("connecting when the server closes after {} response bytes ({:?})", part, k))?;
            ctx.eval();
            ctx.events(2);
            ctx.hit("lost while connecting");
            ctx.sig(("connect", g, part, format!("{:?}", k)));
        }
        18 => {
            // connected, but no state ever arrives
            let mut srv = Server::bind(&ctx.ip, false)?;
            let ip = ctx.ip.clone();
            let (_a, p) = Actor::spawn(move || Robot::new(&ip, RealtimeConfig::Ignore, None).map(|_| ()));
            srv.handshake(0, 5, None)?;
            if ctx.rng.bool() {
                kill(&mut srv, k)?;
            }
            expect_network(p.wait(), "connecting to a robot that sends no state")?;
            ctx.eval();
            ctx.events(1);
            ctx.hit("no first state");
            ctx.sig(("nostate", ctx.idx));
        }
        19 => {
            // model download cut off
            let _g = super::model::MODEL_FILE.lock().unwrap_or_else(|e| e.into_inner());
            let _f = super::model::FileGuard::new()?;
            let mut ses = open_default(ctx)?;
            let p = ses.cli.call(|r| r.load_model(false).map(|_| ()));
            let q = ses.srv.request()?;
            let blob = vec![7u8; 200_000];
            let mut pay = vec![0u8];
            pay.extend(&blob);
            let m = robot_msg(q.cmd, q.id, &pay);
            let part = ctx.rng.below(m.len());
            ses.srv.send(&m[..part])?;
            kill(&mut ses.srv, k)?;
            expect_network(p.wait(), &format!("load_model cut off after {} bytes ({:?})", part, k))?;
            ctx.eval();
            ctx.events(2);
            ctx.hit("model download cut off");
            ctx.sig(("model", part));
        }
        _ => c07_motion(ctx, k)?,
    }
    Ok(())
}
fn c07_motion(ctx: &mut Ctx, k: Kill) -> Res<()> {
    use crate::motion::*;
    let mut ses = open_default(ctx)?;
    let i = *ctx.rng.pick(&IFACES);
    let o = Opts::raw();
    // 0: before the first response, 1: between response and first state, 2: mid motion, 3: while finishing
    let phase = ctx.idx % 4;
    let cyc = ctx.rng.range(1, 10);
    let log: CbLog = Default::default();
    let nfin = if phase == 3 { 3 } else { 1_000_000 };
    let (m, t) = logged(&log, false, hold(i, nfin), if i == Iface::T { torque_n(nfin) } else { no_torque() });
    let p = ses.cli.call(move |r| control(r, i, o, m, t));
    let q = ses.srv.request()?;
    ensure!(q.cmd == cmd::MOVE, "request {} instead of Move", q.cmd);
    // the TCP connection may survive while the states stop; the stop request is then answered
    let tcp_lives = phase != 0 && ctx.rng.chance(0.3);
    if phase >= 1 {
        ses.srv.respond(cmd::MOVE, q.id, &[mv::STARTED])?;
    }
    if phase >= 2 {
        let mut sent = 0;
        let mut pat = Patience::new(PATIENCE);
        while sent < cyc {
            let id = ses.srv.last_id + 1;
            let mut s = State::idle(id);
            s.mg = i.mg();
            s.cm = o.cm(i);
            s.mode = RM_MOVE;
            ses.srv.state(&s)?;
            if let Some(In::Cmd(_)) = ses.srv.event(2) {
                sent += 1;
            }
            if !pat.tick() {
                return suspect("the motion did not run");
            }
        }
    }
    // a part of the final response may have arrived
    let mut rest = vec![];
    if phase >= 1 && ctx.rng.bool() {
        let m = robot_msg(cmd::MOVE, q.id, &[mv::ABORTED]);
        let n = *ctx.rng.pick(&[1, 11, 12, m.len() - 1]);
        ses.srv.send(&m[..n])?;
        rest = m[n..].to_vec();
        if phase == 1 {
            // it is read together with the next state
            ses.srv.state(&State::idle(ses.srv.last_id + 1))?;
        }
        ctx.hit("silence after a part of a response");
    }
    if !tcp_lives {
        kill(&mut ses.srv, k)?;
    }
    let mut pat = Patience::new(12.0);
    let out = loop {
        if let Some(o) = p.poll() {
            break o;
        }
        if tcp_lives {
            match ses.srv.event(5) {
                Some(In::Req(r)) => {
                    let rest = std::mem::take(&mut rest);
                    ses.srv.send(&rest)?;
                    ses.srv.respond(r.cmd, r.id, &[0])?
                }
                _ => {}
            }
        } else {
            std::thread::sleep(Duration::from_millis(5));
        }
        if !pat.tick() {
            break Outcome::Hang;
        }
    };
    expect_network(out, &format!("motion {:?} when the robot disappears in phase {} (TCP alive {})", i, phase, tcp_lives))?;
    if !tcp_lives {
        let p = ses.cli.call(|r| r.read_once().map(|s| s.time));
        expect_network(p.wait(), "read_once after the robot disappeared")?;
    }
    ensure_t!(true, "");
    ctx.evals(2);
    ctx.events(cyc + 3);
    ctx.hit(&format!("motion phase {} tcp alive {}", phase, tcp_lives));
    ctx.sig((format!("{:?}", i), phase, tcp_lives));
    Ok(())
}
