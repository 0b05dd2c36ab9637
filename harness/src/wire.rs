//! Independent codec of the FCI wire format (written from the protocol description, shares no code
//! with the library under test).
use crate::fw::Rng;

pub mod cmd {
    pub const CONNECT: u32 = 0;
    pub const MOVE: u32 = 1;
    pub const STOP_MOVE: u32 = 2;
    pub const GET_CARTESIAN_LIMIT: u32 = 3;
    pub const SET_COLLISION_BEHAVIOR: u32 = 4;
    pub const SET_JOINT_IMPEDANCE: u32 = 5;
    pub const SET_CARTESIAN_IMPEDANCE: u32 = 6;
    pub const SET_GUIDING_MODE: u32 = 7;
    pub const SET_EE_TO_K: u32 = 8;
    pub const SET_NE_TO_EE: u32 = 9;
    pub const SET_LOAD: u32 = 10;
    pub const SET_FILTERS: u32 = 11;
    pub const AUTOMATIC_ERROR_RECOVERY: u32 = 12;
    pub const LOAD_MODEL_LIBRARY: u32 = 13;
}
pub mod gcmd {
    pub const CONNECT: u16 = 0;
    pub const HOMING: u16 = 1;
    pub const GRASP: u16 = 2;
    pub const MOVE: u16 = 3;
    pub const STOP: u16 = 4;
}
pub mod mv {
    pub const SUCCESS: u8 = 0;
    pub const STARTED: u8 = 1;
    pub const PREEMPTED: u8 = 2;
    pub const NOT_POSSIBLE: u8 = 3;
    pub const SINGULAR: u8 = 4;
    pub const INVALID: u8 = 5;
    pub const REFLEX: u8 = 6;
    pub const EMERGENCY: u8 = 7;
    pub const INPUT_ERROR: u8 = 8;
    pub const ABORTED: u8 = 9;
}
/// motion generator mode in a state
pub const MG_IDLE: u8 = 0;
pub const MG_JP: u8 = 1;
pub const MG_JV: u8 = 2;
pub const MG_CP: u8 = 3;
pub const MG_CV: u8 = 4;
pub const CM_JOINT: u8 = 0;
pub const CM_CART: u8 = 1;
pub const CM_EXT: u8 = 2;
pub const CM_OTHER: u8 = 3;
pub const RM_OTHER: u8 = 0;
pub const RM_IDLE: u8 = 1;
pub const RM_MOVE: u8 = 2;
pub const RM_GUIDING: u8 = 3;
pub const RM_REFLEX: u8 = 4;
pub const RM_USERSTOP: u8 = 5;
pub const RM_RECOVERY: u8 = 6;
pub const ROBOT_MODE_NAMES: [&str; 7] = ["Other", "Idle", "Move", "Guiding", "Reflex", "UserStopped", "AutomaticErrorRecovery"];

pub const ERROR_NAMES: [&str; 41] = [
    "JointPositionLimitsViolation", "CartesianPositionLimitsViolation", "SelfCollisionAvoidanceViolation",
    "JointVelocityViolation", "CartesianVelocityViolation", "ForceControlSafetyViolation", "JointReflex",
    "CartesianReflex", "MaxGoalPoseDeviationViolation", "MaxPathPoseDeviationViolation",
    "CartesianVelocityProfileSafetyViolation", "JointPositionMotionGeneratorStartPoseInvalid",
    "JointMotionGeneratorPositionLimitsViolation", "JointMotionGeneratorVelocityLimitsViolation",
    "JointMotionGeneratorVelocityDiscontinuity", "JointMotionGeneratorAccelerationDiscontinuity",
    "CartesianPositionMotionGeneratorStartPoseInvalid", "CartesianMotionGeneratorElbowLimitViolation",
    "CartesianMotionGeneratorVelocityLimitsViolation", "CartesianMotionGeneratorVelocityDiscontinuity",
    "CartesianMotionGeneratorAccelerationDiscontinuity", "CartesianMotionGeneratorElbowSignInconsistent",
    "CartesianMotionGeneratorStartElbowInvalid", "ForceControllerDesiredForceToleranceViolation",
    "StartElbowSignInconsistent", "CommunicationConstraintsViolation", "PowerLimitViolation",
    "CartesianMotionGeneratorJointPositionLimitsViolation", "CartesianMotionGeneratorJointVelocityLimitsViolation",
    "CartesianMotionGeneratorJointVelocityDiscontinuity", "CartesianMotionGeneratorJointAccelerationDiscontinuity",
    "CartesianPositionMotionGeneratorInvalidFrame", "ControllerTorqueDiscontinuity",
    "JointP2PInsufficientTorqueForPlanning", "TauJRangeViolation", "InstabilityDetection",
    "JointMoveInWrongDirection", "CartesianSplineViolation", "JointViaPlanLimitViolation",
    "BaseAccelerationInitializationTimeout", "BaseAccelerationInvalidReading",
];

macro_rules! fields {
    ($($name:ident $n:expr;)*) => {
        #[allow(non_snake_case)]
        pub mod off {
            fields!(@ 0; $($name $n;)*);
        }
        pub const FIELDS: &[(&str, usize, usize)] = &[$((stringify!($name), off::$name, $n)),*];
    };
    (@ $o:expr; $name:ident $n:expr; $($rest:tt)*) => {
        #[allow(non_upper_case_globals)]
        pub const $name: usize = $o;
        fields!(@ $o + $n; $($rest)*);
    };
    (@ $o:expr;) => { pub const TOTAL: usize = $o; };
}
fields! {
    O_T_EE 16; O_T_EE_d 16; F_T_EE 16; EE_T_K 16; F_T_NE 16; NE_T_EE 16;
    m_ee 1; I_ee 9; F_x_Cee 3; m_load 1; I_load 9; F_x_Cload 3;
    elbow 2; elbow_d 2;
    tau_J 7; tau_J_d 7; dtau_J 7; q 7; q_d 7; dq 7; dq_d 7; ddq_d 7;
    joint_contact 7; cartesian_contact 6; joint_collision 7; cartesian_collision 6;
    tau_ext_hat_filtered 7; O_F_ext_hat_K 6; K_F_ext_hat_K 6; O_dP_EE_d 6; O_ddP_O 3;
    elbow_c 2; delbow_c 2; ddelbow_c 2;
    O_T_EE_c 16; O_dP_EE_c 6; O_ddP_EE_c 6; theta 7; dtheta 7;
}
pub const NF: usize = off::TOTAL;
pub const STATE_LEN: usize = 8 + NF * 8 + 1 + 1 + 41 + 41 + 1 + 8;
pub const COMMAND_LEN: usize = 8 + (7 + 7 + 16 + 6 + 2) * 8 + 2 + 7 * 8;

#[derive(Clone, PartialEq, Debug)]
pub struct State {
    pub id: u64,
    pub d: Vec<f64>,
    pub mg: u8,
    pub cm: u8,
    pub err: [bool; 41],
    pub refl: [bool; 41],
    pub mode: u8,
    pub rate: f64,
}
pub const IDENT: [f64; 16] = [1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1.];
impl State {
    /// an idle robot with plausible content
    pub fn idle(id: u64) -> State {
        let mut s = State { id, d: vec![0.; NF], mg: MG_IDLE, cm: CM_OTHER, err: [false; 41], refl: [false; 41], mode: RM_IDLE, rate: 1.0 };
        for o in [off::O_T_EE, off::O_T_EE_d, off::F_T_EE, off::EE_T_K, off::F_T_NE, off::NE_T_EE, off::O_T_EE_c] {
            s.set(o, &IDENT);
        }
        s.set(off::elbow_c, &[0.1, -1.0]);
        s.set(off::elbow, &[0.1, -1.0]);
        s.set(off::elbow_d, &[0.1, -1.0]);
        s
    }
    pub fn random(rng: &mut Rng, id: u64) -> State {
        let mut s = State::idle(id);
        let style = rng.below(4);
        for x in s.d.iter_mut() {
            *x = match style {
                0 => f64::from_bits(rng.u64()),
                1 => rng.uni(-10., 10.),
                2 => *rng.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e-310, 1.5]),
                _ => rng.wild(),
            };
        }
        s.mg = rng.below(5) as u8;
        s.cm = rng.below(4) as u8;
        s.mode = rng.below(7) as u8;
        s.rate = match rng.below(6) {
            0 => f64::from_bits(rng.u64()),
            1 => rng.wild(),
            _ => rng.f(),
        };
        let p = *rng.pick(&[0.0, 0.05, 0.5, 1.0]);
        let p2 = *rng.pick(&[0.0, 0.05, 0.5, 1.0]);
        for i in 0..41 {
            s.err[i] = rng.chance(p);
            s.refl[i] = rng.chance(p2);
        }
        s
    }
    pub fn set(&mut self, o: usize, v: &[f64]) {
        self.d[o..o + v.len()].copy_from_slice(v);
    }
    pub fn get<const N: usize>(&self, o: usize) -> [f64; N] {
        let mut a = [0.; N];
        a.copy_from_slice(&self.d[o..o + N]);
        a
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut b = Vec::with_capacity(STATE_LEN);
        b.extend_from_slice(&self.id.to_le_bytes());
        for x in &self.d {
            b.extend_from_slice(&x.to_le_bytes());
        }
        b.push(self.mg);
        b.push(self.cm);
        b.extend(self.err.iter().map(|x| *x as u8));
        b.extend(self.refl.iter().map(|x| *x as u8));
        b.push(self.mode);
        b.extend_from_slice(&self.rate.to_le_bytes());
        assert_eq!(b.len(), STATE_LEN);
        b
    }
}

#[derive(Clone, Debug)]
pub struct Command {
    pub id: u64,
    pub q: [f64; 7],
    pub dq: [f64; 7],
    pub pose: [f64; 16],
    pub twist: [f64; 6],
    pub elbow: [f64; 2],
    pub valid_elbow: u8,
    pub finished: u8,
    pub tau: [f64; 7],
}
pub struct Rd<'a>(pub &'a [u8], pub usize);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> &'a [u8] {
        let r = &self.0[self.1..self.1 + n];
        self.1 += n;
        r
    }
    pub fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    pub fn u16(&mut self) -> u16 {
        u16::from_le_bytes(self.take(2).try_into().unwrap())
    }
    pub fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take(4).try_into().unwrap())
    }
    pub fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
    pub fn f64(&mut self) -> f64 {
        f64::from_le_bytes(self.take(8).try_into().unwrap())
    }
    pub fn arr<const N: usize>(&mut self) -> [f64; N] {
        let mut a = [0.; N];
        for x in a.iter_mut() {
            *x = self.f64();
        }
        a
    }
}
impl Command {
    pub fn decode(b: &[u8]) -> Option<Command> {
        if b.len() != COMMAND_LEN {
            return None;
        }
        let mut r = Rd(b, 0);
        Some(Command {
            id: r.u64(),
            q: r.arr(),
            dq: r.arr(),
            pose: r.arr(),
            twist: r.arr(),
            elbow: r.arr(),
            valid_elbow: r.u8(),
            finished: r.u8(),
            tau: r.arr(),
        })
    }
    pub fn all_finite(&self) -> bool {
        self.q.iter().chain(&self.dq).chain(&self.pose).chain(&self.twist).chain(&self.elbow).chain(&self.tau).all(|x| x.is_finite())
    }
}

/// robot TCP message: header + payload
pub fn robot_msg(command: u32, id: u32, payload: &[u8]) -> Vec<u8> {
    let mut b = Vec::new();
    b.extend_from_slice(&command.to_le_bytes());
    b.extend_from_slice(&id.to_le_bytes());
    b.extend_from_slice(&((12 + payload.len()) as u32).to_le_bytes());
    b.extend_from_slice(payload);
    b
}
pub fn gripper_msg(command: u16, id: u32, payload: &[u8]) -> Vec<u8> {
    let mut b = Vec::new();
    b.extend_from_slice(&command.to_le_bytes());
    b.extend_from_slice(&id.to_le_bytes());
    b.extend_from_slice(&((10 + payload.len()) as u32).to_le_bytes());
    b.extend_from_slice(payload);
    b
}
pub fn f64s(v: &[f64]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
#[derive(Clone, Debug)]
pub struct GState {
    pub id: u32,
    pub width: f64,
    pub max_width: f64,
    pub grasped: bool,
    pub temp: u16,
}
impl GState {
    pub fn encode(&self) -> Vec<u8> {
        let mut b = self.id.to_le_bytes().to_vec();
        b.extend_from_slice(&self.width.to_le_bytes());
        b.extend_from_slice(&self.max_width.to_le_bytes());
        b.push(self.grasped as u8);
        b.extend_from_slice(&self.temp.to_le_bytes());
        b
    }
}
pub fn bits_eq(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}
