//! Motion sessions: the client side for all nine control interfaces, the robot side driver, and
//! the trace both record.
use crate::ensure;
use crate::fw::*;
use crate::mock::*;
use crate::wire::*;
use franka::*;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Iface {
    Jp,
    Jv,
    Cp,
    Cv,
    T,
    TJp,
    TJv,
    TCp,
    TCv,
}
pub const IFACES: [Iface; 9] = [Iface::Jp, Iface::Jv, Iface::Cp, Iface::Cv, Iface::T, Iface::TJp, Iface::TJv, Iface::TCp, Iface::TCv];
impl Iface {
    /// motion generator mode the robot reports
    pub fn mg(self) -> u8 {
        match self {
            Iface::Jp | Iface::TJp => MG_JP,
            Iface::Jv | Iface::TJv | Iface::T => MG_JV,
            Iface::Cp | Iface::TCp => MG_CP,
            Iface::Cv | Iface::TCv => MG_CV,
        }
    }
    pub fn torque(self) -> bool {
        matches!(self, Iface::T | Iface::TJp | Iface::TJv | Iface::TCp | Iface::TCv)
    }
    pub fn cartesian(self) -> bool {
        matches!(self.mg(), MG_CP | MG_CV)
    }
    /// number of values of the motion command
    pub fn n(self) -> usize {
        match self.mg() {
            MG_JP | MG_JV => 7,
            MG_CP => 16,
            _ => 6,
        }
    }
}

/// output of a motion callback
#[derive(Clone, Debug)]
pub struct Out {
    pub v: [f64; 16],
    pub elbow: Option<[f64; 2]>,
    pub fin: bool,
}
impl Out {
    pub fn new(v: &[f64], elbow: Option<[f64; 2]>, fin: bool) -> Out {
        let mut a = [0.; 16];
        a[..v.len()].copy_from_slice(v);
        Out { v: a, elbow, fin }
    }
}
pub type MotionCb = Box<dyn FnMut(&RobotState, &Duration) -> Out + Send>;
pub type TorqueCb = Box<dyn FnMut(&RobotState, &Duration) -> ([f64; 7], bool) + Send>;

fn a<const N: usize>(v: &[f64; 16]) -> [f64; N] {
    let mut o = [0.; N];
    o.copy_from_slice(&v[..N]);
    o
}
/// how the callback builds its result: the values decide, so that it varies within a motion
fn style(x: f64) -> usize {
    (x.to_bits() ^ (x.to_bits() >> 17) ^ (x.to_bits() >> 40)) as usize % 3
}
fn ended<T: Finishable + Copy>(mut x: T, fin: bool, style: usize) -> T {
    match (fin, style) {
        (true, 0) => x.motion_finished(),
        (true, _) => {
            x.set_motion_finished(true);
            x
        }
        // changed its mind
        (false, 1) => {
            let mut y = x.motion_finished();
            y.set_motion_finished(false);
            y
        }
        (false, _) => x,
    }
}
fn vec7(v: [f64; 7]) -> Vector7 {
    Vector7::from_column_slice(&v)
}
fn jp(o: Out) -> JointPositions {
    let st = style(o.v[0]);
    let x = match st {
        0 => JointPositions::new(a(&o.v)),
        1 => vec7(a(&o.v)).into(),
        _ => {
            let mut x = JointPositions::new([0.; 7]);
            x.q = a(&o.v);
            x
        }
    };
    ended(x, o.fin, st)
}
fn jv(o: Out) -> JointVelocities {
    let st = style(o.v[0]);
    let x = match st {
        0 => JointVelocities::new(a(&o.v)),
        1 => vec7(a(&o.v)).into(),
        _ => {
            let mut x = JointVelocities::new([0.; 7]);
            x.dq = a(&o.v);
            x
        }
    };
    ended(x, o.fin, st)
}
fn cp(o: Out) -> CartesianPose {
    let st = style(o.v[12] + o.v[1]);
    let x = match st {
        0 => CartesianPose::new(o.v, o.elbow),
        1 => {
            let mut x = CartesianPose::from(o.v);
            x.elbow = o.elbow;
            x
        }
        _ => {
            let mut x = CartesianPose::new([0.; 16], o.elbow);
            x.O_T_EE = o.v;
            x
        }
    };
    ended(x, o.fin, st)
}
fn cv(o: Out) -> CartesianVelocities {
    let st = style(o.v[0]);
    let x = match st {
        0 => CartesianVelocities::new(a(&o.v), o.elbow),
        1 => {
            let mut x = CartesianVelocities::from(nalgebra::Vector6::from_column_slice(&o.v[..6]));
            x.elbow = o.elbow;
            x
        }
        _ => {
            let mut x = CartesianVelocities::new([0.; 6], o.elbow);
            x.O_dP_EE = a(&o.v);
            x
        }
    };
    ended(x, o.fin, st)
}
fn tq(o: ([f64; 7], bool)) -> Torques {
    let st = style(o.0[0]);
    let x = match st {
        0 => Torques::new(o.0),
        1 => vec7(o.0).into(),
        _ => {
            let mut x = Torques::new([0.; 7]);
            x.tau_J = o.0;
            x
        }
    };
    ended(x, o.1, st)
}

/// options of a control call; None means that the library default is used
#[derive(Clone, Copy, Debug)]
pub struct Opts {
    /// Some(true): joint impedance, Some(false): Cartesian impedance
    pub joint_imp: Option<bool>,
    pub limit: Option<bool>,
    pub cutoff: Option<f64>,
}
impl Opts {
    pub fn raw() -> Opts {
        Opts { joint_imp: None, limit: Some(false), cutoff: Some(1000.0) }
    }
    pub fn limited() -> bool {
        true
    }
    pub fn cm(&self, i: Iface) -> u8 {
        if i.torque() {
            CM_EXT
        } else if self.joint_imp.unwrap_or(true) {
            CM_JOINT
        } else {
            CM_CART
        }
    }
}

pub fn control(robot: &mut Robot, i: Iface, o: Opts, mut m: MotionCb, mut t: TorqueCb) -> FrankaResult<()> {
    let cm = || o.joint_imp.map(|j| if j { ControllerMode::JointImpedance } else { ControllerMode::CartesianImpedance });
    match i {
        Iface::Jp => robot.control_joint_positions(move |s, d| jp(m(s, d)), cm(), o.limit, o.cutoff),
        Iface::Jv => robot.control_joint_velocities(move |s, d| jv(m(s, d)), cm(), o.limit, o.cutoff),
        Iface::Cp => robot.control_cartesian_pose(move |s, d| cp(m(s, d)), cm(), o.limit, o.cutoff),
        Iface::Cv => robot.control_cartesian_velocities(move |s, d| cv(m(s, d)), cm(), o.limit, o.cutoff),
        Iface::T => robot.control_torques(move |s, d| tq(t(s, d)), o.limit, o.cutoff),
        Iface::TJp => robot.control_torques_and_joint_positions(move |s, d| tq(t(s, d)), move |s, d| jp(m(s, d)), o.limit, o.cutoff),
        Iface::TJv => robot.control_torques_and_joint_velocities(move |s, d| tq(t(s, d)), move |s, d| jv(m(s, d)), o.limit, o.cutoff),
        Iface::TCp => robot.control_torques_and_cartesian_pose(move |s, d| tq(t(s, d)), move |s, d| cp(m(s, d)), o.limit, o.cutoff),
        Iface::TCv => robot.control_torques_and_cartesian_velocities(move |s, d| tq(t(s, d)), move |s, d| cv(m(s, d)), o.limit, o.cutoff),
    }
}

/// one callback invocation as seen by the client
#[derive(Clone, Debug)]
pub struct CbEv {
    pub torque: bool,
    /// state time in ms
    pub id: u64,
    pub dt_ns: u128,
    pub out: Out,
    pub tau: [f64; 7],
    pub fin: bool,
    /// the state handed to the callback (kept when `keep_states`)
    pub state: Option<Box<RobotState>>,
}
pub type CbLog = Arc<Mutex<Vec<CbEv>>>;

/// What the callbacks return: index = number of the invocation of that callback.
pub type MotionGen = Box<dyn FnMut(usize, &RobotState) -> Out + Send>;
pub type TorqueGen = Box<dyn FnMut(usize, &RobotState) -> ([f64; 7], bool) + Send>;

pub fn logged(log: &CbLog, keep: bool, mut mg: MotionGen, mut tg: TorqueGen) -> (MotionCb, TorqueCb) {
    let l1 = log.clone();
    let l2 = log.clone();
    let mut n1 = 0;
    let mut n2 = 0;
    (
        Box::new(move |s, d| {
            shared::callback();
            let o = mg(n1, s);
            n1 += 1;
            l1.lock().unwrap().push(CbEv {
                torque: false,
                id: s.time.as_millis() as u64,
                dt_ns: d.as_nanos(),
                fin: o.fin,
                out: o.clone(),
                tau: [0.; 7],
                state: if keep { Some(Box::new(s.clone())) } else { None },
            });
            o
        }),
        Box::new(move |s, d| {
            shared::callback();
            let o = tg(n2, s);
            n2 += 1;
            l2.lock().unwrap().push(CbEv {
                torque: true,
                id: s.time.as_millis() as u64,
                dt_ns: d.as_nanos(),
                fin: o.1,
                out: Out::new(&[], None, o.1),
                tau: o.0,
                state: if keep { Some(Box::new(s.clone())) } else { None },
            });
            o
        }),
    )
}

#[derive(Clone, Debug)]
pub struct Abort {
    /// after that many commands
    pub at: usize,
    pub status: u8,
    pub robot_mode: u8,
    pub mg: u8,
    pub cm: u8,
    pub refl: [bool; 41],
    pub err: [bool; 41],
    /// the Move response arrives before the state that shows the abort
    pub resp_first: bool,
    /// ms between the two
    pub gap_ms: u64,
    pub stop_status: u8,
    /// the robot keeps moving that many states after the stop was acknowledged
    pub stop_lag: usize,
}
pub struct Drive {
    pub mg: u8,
    pub cm: u8,
    /// status of the first response (STARTED normally)
    pub first_status: u8,
    /// states sent before the robot enters the commanded mode
    pub pre_states: usize,
    /// states in which the robot is already in motion, before the first response
    pub early_states: usize,
    pub finish_delay: usize,
    /// the robot passes through states in which only one of motion generator and controller runs,
    /// when it enters and when it leaves the motion
    pub partial: bool,
    pub final_status: u8,
    pub final_first: bool,
    pub final_gap_ms: u64,
    /// states from before are sent again: duplicates of any age, with whatever mode they show
    pub stale: bool,
    /// the robot sends from changing ports
    pub ports: bool,
    /// time until the robot answers the Move request
    pub first_gap_ms: u64,
    /// what the robot reports once it is done
    pub end_mg: u8,
    pub end_cm: u8,
    pub end_mode: u8,
    /// reflex reasons of the states at the end
    pub end_refl: [bool; 41],
    /// errors that these states report at the same time
    pub end_err: [bool; 41],
    pub abort: Option<Abort>,
    /// message id increment of cycle n
    pub id_step: Box<dyn FnMut(usize) -> u64 + Send>,
    /// extra (duplicate / stale / malformed) datagrams sent right before state of cycle n
    pub extra: Box<dyn FnMut(usize, &State) -> Vec<Vec<u8>> + Send>,
    pub max_cycles: usize,
    pub frag_us: Option<u64>,
    /// answer to StopMove outside of an abort
    pub stop_status: u8,
}
impl Drive {
    pub fn new(i: Iface, o: Opts) -> Drive {
        Drive {
            mg: i.mg(),
            cm: o.cm(i),
            first_status: mv::STARTED,
            pre_states: 0,
            early_states: 0,
            finish_delay: 0,
            partial: false,
            final_status: mv::SUCCESS,
            final_first: true,
            final_gap_ms: 0,
            stale: false,
            ports: false,
            first_gap_ms: 0,
            end_mg: MG_IDLE,
            end_cm: CM_OTHER,
            end_mode: RM_IDLE,
            end_refl: [false; 41],
            end_err: [false; 41],
            abort: None,
            id_step: Box::new(|_| 1),
            extra: Box::new(|_, _| vec![]),
            max_cycles: 30000,
            frag_us: None,
            stop_status: 0,
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    MoveReq,
    FirstResp,
    State(usize),
    Cmd(usize),
    FinalResp,
    StopReq,
    StopResp,
    OtherReq(u32),
    Returned,
}
#[derive(Default)]
pub struct Trace {
    pub move_req: Option<Req>,
    pub states: Vec<State>,
    pub cmds: Vec<Command>,
    /// for every command: index of the newest state that had been sent
    pub cmd_at: Vec<usize>,
    pub ev: Vec<Ev>,
    pub stop_ids: Vec<u32>,
    pub started: bool,
    pub early: bool,
    /// index of the state that showed the abort
    pub abort_state: Option<usize>,
    /// the dynamics of the last cycle were driven to the end
    pub finished_cmd: Option<usize>,
    pub last_enter: usize,
    /// halfway states that were answered while finishing
    pub halfway: usize,
}
impl Trace {
    pub fn state_by_id(&self, id: u64) -> Option<&State> {
        self.states.iter().rev().find(|s| s.id == id)
    }
    pub fn n_events(&self) -> usize {
        self.ev.len()
    }
    /// every command was received before the next state that was answered was sent: the robot
    /// followed the client without a stall
    pub fn lockstep(&self) -> bool {
        (1..self.cmds.len()).all(|k| self.states.iter().rposition(|s| s.id == self.cmds[k].id).map_or(false, |p| p == self.cmd_at[k - 1] + 1))
    }
}

/// fills the content of the next state from the last command
pub type Dyn<'a> = &'a mut dyn FnMut(&mut State, Option<&Command>);

struct Driver<'a, R> {
    srv: &'a mut Server,
    p: &'a Pending<R>,
    d: &'a mut Drive,
    dynf: Dyn<'a>,
    t: Trace,
    move_id: u32,
    done: Option<Outcome<R>>,
    idx: usize,
    prev: Option<State>,
}
impl<'a, R> Driver<'a, R> {
    fn take(&mut self, e: In) -> Res<()> {
        match e {
            In::Cmd(c) => {
                self.t.ev.push(Ev::Cmd(self.t.cmds.len()));
                if c.finished != 0 && self.t.finished_cmd.is_none() {
                    self.t.finished_cmd = Some(self.t.cmds.len());
                }
                self.t.cmds.push(c);
                self.t.cmd_at.push(self.t.states.len().saturating_sub(1));
            }
            In::BadUdp(n) => return viol(format!("client sent a UDP datagram of {} bytes", n)),
            In::Req(r) if r.cmd == cmd::STOP_MOVE => {
                self.t.ev.push(Ev::StopReq);
                self.t.stop_ids.push(r.id);
                let st = match &self.d.abort {
                    Some(a) if self.t.abort_state.is_some() => a.stop_status,
                    _ => self.d.stop_status,
                };
                self.srv.respond(cmd::STOP_MOVE, r.id, &[st])?;
                self.t.ev.push(Ev::StopResp);
            }
            In::Req(r) => {
                self.t.ev.push(Ev::OtherReq(r.cmd));
                return viol(format!("unexpected request {} during a motion", r.cmd));
            }
            In::Closed => return suspect("client closed the TCP connection during a motion"),
        }
        Ok(())
    }
    fn poll_done(&mut self) -> bool {
        if self.done.is_none() {
            if let Some(o) = self.p.poll() {
                self.t.ev.push(Ev::Returned);
                self.done = Some(o);
            }
        }
        self.done.is_some()
    }
    fn send_state(&mut self, mg: u8, cm: u8, mode: u8, refl: [bool; 41], err: [bool; 41]) -> Res<()> {
        let step = (self.d.id_step)(self.idx);
        let id = self.srv.last_id + step.max(1);
        let mut s = State::idle(id);
        if let Some(p) = &self.prev {
            s.d = p.d.clone();
            s.rate = p.rate;
        }
        (self.dynf)(&mut s, self.t.cmds.last());
        s.id = id;
        s.mg = mg;
        s.cm = cm;
        s.mode = mode;
        s.refl = refl;
        s.err = err;
        // not while an answer is on its way
        let quiet = match self.t.cmds.last() {
            Some(c) => c.id == self.srv.last_id,
            None => self.t.states.iter().all(|s| s.mg == MG_IDLE && s.cm == CM_OTHER),
        };
        if self.d.ports && mix(id) % 4 == 0 && quiet {
            self.srv.other_port()?;
        }
        if self.d.stale {
            let h = mix(self.idx as u64 ^ self.move_id as u64) as usize;
            match h % 5 {
                0 => self.srv.state_again(&State::idle(self.srv.last_id))?,
                1 if !self.t.states.is_empty() => {
                    let x = self.t.states[h / 5 % self.t.states.len()].clone();
                    self.srv.state_again(&x)?;
                }
                2 => {
                    let mut x = State::idle(self.srv.last_id - h as u64 / 5 % self.srv.last_id.min(50));
                    x.mg = self.d.mg;
                    x.cm = self.d.cm;
                    x.mode = RM_MOVE;
                    self.srv.state_again(&x)?;
                }
                _ => {}
            }
        }
        for x in (self.d.extra)(self.idx, &s) {
            self.srv.udp_raw(&x)?;
        }
        self.srv.state(&s)?;
        self.idx += 1;
        self.t.ev.push(Ev::State(self.t.states.len()));
        self.prev = Some(s.clone());
        self.t.states.push(s);
        Ok(())
    }
    /// waits for the answer to the newest state
    fn wait_cmd(&mut self, ms: Option<u64>) -> Res<bool> {
        let mut pat = Patience::new(PATIENCE);
        let t0 = std::time::Instant::now();
        loop {
            let want = self.srv.last_id;
            match self.srv.event(if ms.is_some() { 1 } else { 5 }) {
                Some(e) => {
                    let is_cmd = matches!(e, In::Cmd(_));
                    self.take(e)?;
                    if is_cmd && self.t.cmds.last().unwrap().id == want {
                        return Ok(true);
                    }
                }
                None => {
                    if self.poll_done() {
                        return Ok(false);
                    }
                    if let Some(ms) = ms {
                        if t0.elapsed().as_millis() as u64 >= ms {
                            return Ok(false);
                        }
                    }
                    if !pat.tick() {
                        return suspect("no command for the newest state arrived");
                    }
                }
            }
        }
    }
    /// states in which the robot has not entered or not left the motion completely
    fn halfway(&self, k: usize) -> (u8, u8, u8) {
        let mode = [RM_MOVE, RM_IDLE, RM_MOVE][k % 3];
        match (k / 2) % 2 {
            0 => (self.d.mg, if self.d.cm == CM_OTHER { CM_JOINT } else { CM_OTHER }, mode),
            _ => (MG_IDLE, self.d.cm, mode),
        }
    }
    fn final_resp(&mut self, status: u8) -> Res<()> {
        let m = robot_msg(cmd::MOVE, self.move_id, &[status]);
        if let Some(us) = self.d.frag_us {
            self.srv.send_pieces(&m, &[1, 5, 11, 12], us)?;
        } else {
            self.srv.send(&m)?;
        }
        self.t.ev.push(Ev::FinalResp);
        Ok(())
    }
    fn run(&mut self) -> Res<()> {
        // --- Move request
        let mut pat = Patience::new(PATIENCE);
        let req = loop {
            match self.srv.event(5) {
                Some(In::Req(r)) => {
                    ensure!(r.cmd == cmd::MOVE, "request {} instead of Move", r.cmd);
                    break r;
                }
                Some(In::Cmd(c)) => return viol(format!("motion command (message id {}) was sent before the Move request", c.id)),
                Some(In::BadUdp(n)) => return viol(format!("client sent a UDP datagram of {} bytes", n)),
                Some(In::Closed) => return suspect("client closed the connection"),
                None => {
                    if self.poll_done() {
                        self.t.early = true;
                        return Ok(());
                    }
                    if !pat.tick() {
                        return suspect("no Move request arrived");
                    }
                }
            }
        };
        self.t.ev.push(Ev::MoveReq);
        self.move_id = req.id;
        self.t.move_req = Some(req);
        for _ in 0..self.d.early_states {
            self.send_state(self.d.mg, self.d.cm, RM_MOVE, [false; 41], [false; 41])?;
            std::thread::sleep(Duration::from_micros(300));
            while let Some(e) = self.srv.event(0) {
                self.take(e)?;
            }
        }
        if self.d.first_gap_ms > 0 {
            std::thread::sleep(Duration::from_millis(self.d.first_gap_ms));
            if self.poll_done() {
                return viol("the call returned before the robot answered the Move request");
            }
        }
        let m = robot_msg(cmd::MOVE, self.move_id, &[self.d.first_status]);
        if let Some(us) = self.d.frag_us {
            self.srv.send_pieces(&m, &[3, 12], us)?;
        } else {
            self.srv.send(&m)?;
        }
        self.t.ev.push(Ev::FirstResp);
        if self.d.first_status != mv::STARTED {
            return Ok(());
        }
        self.t.started = true;
        // --- robot still idle
        for k in 0..self.d.pre_states {
            let (a, b, c) = if self.d.partial { self.halfway(k + 1) } else { (MG_IDLE, CM_OTHER, RM_IDLE) };
            self.send_state(a, b, c, [false; 41], [false; 41])?;
            std::thread::sleep(Duration::from_micros(300));
            while let Some(e) = self.srv.event(0) {
                if let In::Cmd(c) = &e {
                    return viol(format!("motion command (message id {}) was sent while the robot had not entered the motion", c.id));
                }
                self.take(e)?;
            }
        }
        // --- robot moves
        let (mg, cm) = (self.d.mg, self.d.cm);
        let mut first = true;
        self.t.last_enter = if self.d.pre_states == 0 { 0 } else { self.t.states.len() };
        for cyc in 0.. {
            if let Some(ab) = self.d.abort.clone() {
                if self.t.cmds.len() >= ab.at {
                    return self.do_abort(ab);
                }
            }
            if cyc > self.d.max_cycles {
                return suspect(format!("none of {} commands is marked as finished", self.t.cmds.len()));
            }
            self.send_state(mg, cm, RM_MOVE, [false; 41], [false; 41])?;
            if first {
                // the library may need several states before the first callback
                let mut pat = Patience::new(PATIENCE);
                while !self.wait_cmd(Some(1))? {
                    if self.done.is_some() {
                        self.t.early = true;
                        return Ok(());
                    }
                    if !pat.tick() {
                        return suspect("no command was sent although the robot is in motion");
                    }
                    if self.t.cmds.is_empty() || self.t.cmds.last().unwrap().id != self.srv.last_id {
                        self.send_state(mg, cm, RM_MOVE, [false; 41], [false; 41])?;
                    }
                }
                first = false;
            } else if !self.wait_cmd(None)? {
                self.t.early = true;
                return Ok(());
            }
            if self.t.finished_cmd.is_some() {
                break;
            }
        }
        // --- finish
        for _ in 0..self.d.finish_delay {
            self.send_state(mg, cm, RM_MOVE, [false; 41], [false; 41])?;
            if !self.wait_cmd(None)? {
                self.t.early = true;
                return Ok(());
            }
        }
        for k in 0..if self.d.partial { 4 } else { 0 } {
            let (a, b, c) = self.halfway(k);
            if a == MG_IDLE && b != CM_EXT {
                continue;
            }
            self.send_state(a, b, c, [false; 41], [false; 41])?;
            if !self.wait_cmd(None)? {
                self.t.early = true;
                return Ok(());
            }
            self.t.halfway += 1;
        }
        let (emg, ecm, emode, erefl) = (self.d.end_mg, self.d.end_cm, self.d.end_mode, self.d.end_refl);
        let fs = self.d.final_status;
        if self.d.final_first {
            self.final_resp(fs)?;
            if self.d.final_gap_ms > 0 {
                std::thread::sleep(Duration::from_millis(self.d.final_gap_ms));
            }
        }
        self.send_state(emg, ecm, emode, erefl, self.d.end_err)?;
        if !self.d.final_first {
            if self.d.final_gap_ms > 0 {
                std::thread::sleep(Duration::from_millis(self.d.final_gap_ms));
                if self.poll_done() {
                    return viol("the call returned before the final response to the Move request was sent");
                }
            }
            self.final_resp(fs)?;
        }
        Ok(())
    }
    fn do_abort(&mut self, ab: Abort) -> Res<()> {
        if ab.resp_first {
            self.final_resp(ab.status)?;
            if ab.gap_ms > 0 {
                std::thread::sleep(Duration::from_millis(ab.gap_ms));
            }
        }
        self.t.abort_state = Some(self.t.states.len());
        self.send_state(ab.mg, ab.cm, ab.robot_mode, ab.refl, ab.err)?;
        if !ab.resp_first {
            if ab.gap_ms > 0 {
                std::thread::sleep(Duration::from_millis(ab.gap_ms));
            }
            self.final_resp(ab.status)?;
        }
        Ok(())
    }
}

/// Plays the robot side of one motion; returns what was observed and how the call ended.
pub fn drive<R>(srv: &mut Server, p: &Pending<R>, d: &mut Drive, dynf: Dyn) -> Res<(Trace, Outcome<R>)> {
    let mut dr = Driver { srv, p, d, dynf, t: Trace::default(), move_id: 0, done: None, idx: 0, prev: None };
    dr.run()?;
    // wait for the end of the call, keep the state stream alive
    let mut pat = Patience::new(PATIENCE);
    let mut next = std::time::Instant::now() + Duration::from_millis(2);
    let mut lag = dr.d.abort.as_ref().map(|a| a.stop_lag).unwrap_or(0);
    while !dr.poll_done() {
        if let Some(e) = dr.srv.event(1) {
            dr.take(e)?;
            continue;
        }
        if std::time::Instant::now() >= next {
            if lag > 0 && dr.t.stop_ids.is_empty() == false {
                lag -= 1;
                let (a, b) = match lag % 3 {
                    0 => (dr.d.mg, dr.d.cm),
                    1 => (MG_IDLE, if dr.d.cm == CM_EXT { CM_EXT } else { CM_OTHER }),
                    _ => (dr.d.mg, CM_OTHER),
                };
                dr.send_state(a, b, RM_MOVE, [false; 41], [false; 41])?;
            } else if dr.t.abort_state.is_some() && dr.t.stop_ids.is_empty() {
                let ab = dr.d.abort.clone().unwrap();
                dr.send_state(ab.mg, ab.cm, ab.robot_mode, ab.refl, ab.err)?;
            } else if dr.d.abort.is_none() && dr.t.finished_cmd.is_some() {
                let (a, b, c, refl, err) = (dr.d.end_mg, dr.d.end_cm, dr.d.end_mode, dr.d.end_refl, dr.d.end_err);
                dr.send_state(a, b, c, refl, err)?;
            } else {
                dr.send_state(MG_IDLE, CM_OTHER, RM_IDLE, [false; 41], [false; 41])?;
            }
            next = std::time::Instant::now() + Duration::from_millis(1);
        }
        if !pat.tick() {
            return Ok((dr.t, Outcome::Hang));
        }
    }
    // anything sent late?
    while let Some(e) = dr.srv.event(0) {
        dr.take(e)?;
    }
    let o = dr.done.take().unwrap();
    Ok((dr.t, o))
}

pub struct Run {
    pub trace: Trace,
    pub cb: Vec<CbEv>,
    pub out: Outcome<FrankaResult<()>>,
}
/// runs one motion on an open session
pub fn motion(ses: &mut Session, i: Iface, o: Opts, keep: bool, mg: MotionGen, tg: TorqueGen, d: &mut Drive, dynf: Dyn) -> Res<Run> {
    let log: CbLog = Arc::new(Mutex::new(vec![]));
    let (m, t) = logged(&log, keep, mg, tg);
    let p = ses.cli.call(move |r| control(r, i, o, m, t));
    let (trace, out) = drive(&mut ses.srv, &p, d, dynf)?;
    let cb = std::mem::take(&mut *log.lock().unwrap());
    Ok(Run { trace, cb, out })
}
/// an outcome that must be Ok(())
pub fn expect_ok(out: &Outcome<FrankaResult<()>>, what: &str) -> Res<()> {
    match out {
        Outcome::Ret(Ok(())) => Ok(()),
        Outcome::Ret(Err(e)) => suspect(format!("{}: returned {}", what, text(e))),
        Outcome::Panic(m) => suspect(format!("{}: panicked: {}", what, m)),
        Outcome::Hang => suspect(format!("{}: did not return", what)),
    }
}
/// no-motion generator: keeps the robot where it is
pub fn hold(i: Iface, n: usize) -> MotionGen {
    Box::new(move |k, _s| {
        let fin = k + 1 >= n;
        match i.mg() {
            MG_CP => Out::new(&IDENT, None, fin),
            MG_CV => Out::new(&[0.; 6], None, fin),
            _ => Out::new(&[0.; 7], None, fin),
        }
    })
}
pub fn no_torque() -> TorqueGen {
    Box::new(|_, _| ([0.; 7], false))
}
pub fn torque_n(n: usize) -> TorqueGen {
    Box::new(move |k, _| ([0.; 7], k + 1 >= n))
}
