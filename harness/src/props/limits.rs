//! C13 C14 C16 C25: rate limiting and filtering as seen on the wire, and joint motions.
use super::ctl::{check_move, random_pose};
use crate::fw::*;
use crate::mock::*;
use crate::motion::*;
use crate::refmath as rm;
use crate::refmath::*;
use crate::wire::*;
use crate::{ensure, ensure_t};
use franka::RobotState;
use std::f64::consts::{PI, TAU};

/// What has to be on the wire for a callback result, given the state it was computed for.
pub struct Expected {
    pub v: Vec<f64>,
    pub elbow: Option<[f64; 2]>,
    /// the rotation between request and last pose is so close to 180 degrees that its direction is
    /// not determined
    pub ambiguous: bool,
}
pub fn cutoff(o: &Opts) -> Option<f64> {
    let f = o.cutoff.unwrap_or(100.);
    if f < 1000. {
        Some(f)
    } else {
        None
    }
}
pub fn expected(i: Iface, o: &Opts, out: &Out, s: &State) -> Expected {
    let f = cutoff(o);
    let lim = o.limit.unwrap_or(true);
    let mut ambiguous = false;
    let v = match i.mg() {
        MG_JP => {
            let (q, dq, ddq): ([f64; 7], [f64; 7], [f64; 7]) = (s.get(off::q_d), s.get(off::dq_d), s.get(off::ddq_d));
            (0..7)
                .map(|k| {
                    let mut x = out.v[k];
                    if let Some(f) = f {
                        x = lowpass(DT, x, q[k], f);
                    }
                    if lim {
                        x = limit_p(&JOINT_NOMINAL[k].applied(), x, q[k], dq[k], ddq[k]);
                    }
                    x
                })
                .collect()
        }
        MG_JV => {
            let (dq, ddq): ([f64; 7], [f64; 7]) = (s.get(off::dq_d), s.get(off::ddq_d));
            (0..7)
                .map(|k| {
                    let mut x = out.v[k];
                    if let Some(f) = f {
                        x = lowpass(DT, x, dq[k], f);
                    }
                    if lim {
                        x = limit_v(&JOINT_NOMINAL[k].applied(), x, dq[k], ddq[k]);
                    }
                    x
                })
                .collect()
        }
        MG_CP => {
            let p0: [f64; 16] = s.get(off::O_T_EE_c);
            let mut p = out.v;
            if f.is_some() || lim {
                ambiguous = qangle(&qmat(&p), &qmat(&p0)) > PI - 1e-3;
            }
            if let Some(f) = f {
                p = filter_pose(&p, &p0, DT, f);
            }
            if lim {
                p = limit_pose(&p, &p0, &s.get(off::O_dP_EE_c), &s.get(off::O_ddP_EE_c));
            }
            p.to_vec()
        }
        _ => {
            let v0: [f64; 6] = s.get(off::O_dP_EE_c);
            let mut v = [0.; 6];
            v.copy_from_slice(&out.v[..6]);
            if let Some(f) = f {
                for k in 0..6 {
                    v[k] = lowpass(DT, v[k], v0[k], f);
                }
            }
            if lim {
                v = limit_twist(&v, &v0, &s.get(off::O_ddP_EE_c));
            }
            v.to_vec()
        }
    };
    let elbow = out.elbow.map(|e| {
        let mut x = e[0];
        let (c, d, dd): ([f64; 2], [f64; 2], [f64; 2]) = (s.get(off::elbow_c), s.get(off::delbow_c), s.get(off::ddelbow_c));
        if let Some(f) = f {
            x = lowpass(DT, x, c[0], f);
        }
        if lim {
            x = limit_p(&ELBOW_NOMINAL.applied(), x, c[0], d[0], dd[0]);
        }
        [x, e[1]]
    });
    Expected { v, elbow, ambiguous }
}
pub fn expected_tau(o: &Opts, tau: &[f64; 7], s: &State) -> Vec<f64> {
    let last: [f64; 7] = s.get(off::tau_J_d);
    (0..7)
        .map(|k| {
            let mut x = tau[k];
            if let Some(f) = cutoff(o) {
                x = lowpass(DT, x, last[k], f);
            }
            if o.limit.unwrap_or(true) {
                x = limit_tau(x, last[k]);
            }
            x
        })
        .collect()
}
fn close(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol * (1. + y.abs()))
}
fn wire_values<'a>(c: &'a Command, i: Iface) -> &'a [f64] {
    match i.mg() {
        MG_JP => &c.q,
        MG_JV => &c.dq,
        MG_CP => &c.pose,
        _ => &c.twist,
    }
}
/// Compares every command with the reference; returns the number of compared commands.
pub fn check_reference(r: &Run, i: Iface, o: &Opts, what: &str) -> Res<usize> {
    let mut n = 0;
    let last = r.trace.cmds.iter().position(|c| c.finished == 1).unwrap_or(r.trace.cmds.len());
    for (k, c) in r.trace.cmds.iter().enumerate().take(last + 1) {
        let s = match r.trace.state_by_id(c.id) {
            Some(s) => s,
            None => return viol(format!("{}: command for unknown state {}", what, c.id)),
        };
        if i != Iface::T {
            let cb = match r.cb.iter().find(|e| !e.torque && e.id == c.id) {
                Some(cb) => cb,
                None => return viol(format!("{}: command for state {} without callback", what, c.id)),
            };
            let e = expected(i, o, &cb.out, s);
            let tol = if i.mg() == MG_CP { 1e-7 } else { 1e-9 };
            if !e.ambiguous {
                let w = wire_values(c, i);
                ensure!(
                    close(w, &e.v, tol),
                    "{}: cycle {}: sent {:?} instead of {:?} (difference {:.3e}) for request {:?} in a state with last command {:?}",
                    what, k, w, e.v, max_diff(w, &e.v), &cb.out.v[..i.n()], last_values(s, i)
                );
            }
            match e.elbow {
                Some(el) => ensure!(c.valid_elbow == 1 && close(&c.elbow, &el, 1e-9), "{}: cycle {}: elbow {:?} instead of {:?} for request {:?}", what, k, c.elbow, el, cb.out.elbow),
                None => ensure!(c.valid_elbow == 0, "{}: cycle {}: elbow marked valid although none was given", what, k),
            }
            n += 1;
        }
        if i.torque() {
            if let Some(cb) = r.cb.iter().find(|e| e.torque && e.id == c.id) {
                let e = expected_tau(o, &cb.tau, s);
                ensure!(close(&c.tau, &e, 1e-9), "{}: cycle {}: torques {:?} instead of {:?} for request {:?} after {:?}", what, k, c.tau, e, cb.tau, &s.d[off::tau_J_d..off::tau_J_d + 7]);
                n += 1;
            } else {
                ensure!(c.finished == 1, "{}: cycle {}: command without torque callback", what, k);
            }
        } else {
            ensure!(c.tau.iter().all(|x| *x == 0.), "{}: torques without torque control", what);
        }
    }
    Ok(n)
}
fn last_values(s: &State, i: Iface) -> Vec<f64> {
    let (o, n) = match i.mg() {
        MG_JP => (off::q_d, 7),
        MG_JV => (off::dq_d, 7),
        MG_CP => (off::O_T_EE_c, 16),
        _ => (off::O_dP_EE_c, 6),
    };
    s.d[o..o + n].to_vec()
}
#[derive(Default, Clone, Copy, Debug)]
struct Worst {
    v: f64,
    a: f64,
    j: f64,
}
impl Worst {
    fn upd(&mut self, l: &Lim, v: f64, a: f64, j: f64) {
        self.v = self.v.max(v.abs() / l.v);
        self.a = self.a.max(a.abs() / l.a);
        self.j = self.j.max(j.abs() / l.j);
    }
}
/// limits of every command relative to the state it answers
fn check_bounds(r: &Run, i: Iface, jerk: bool, follows: bool, what: &str) -> Res<[f64; 3]> {
    let mut w = Worst::default();
    // the limiter gives the velocity limit precedence over the Cartesian jerk limit
    let mut wc = Worst::default();
    let mut wt: f64 = 0.;
    for c in &r.trace.cmds {
        let s = r.trace.state_by_id(c.id).unwrap();
        match i.mg() {
            MG_JP | MG_JV if i != Iface::T => {
                let (q, dq, ddq): ([f64; 7], [f64; 7], [f64; 7]) = (s.get(off::q_d), s.get(off::dq_d), s.get(off::ddq_d));
                for k in 0..7 {
                    let v = if i.mg() == MG_JP { (c.q[k] - q[k]) / DT } else { c.dq[k] };
                    let a = (v - dq[k]) / DT;
                    w.upd(&JOINT_NOMINAL[k], v, a, (a - ddq[k]) / DT);
                }
            }
            MG_CP | MG_CV => {
                let v0: [f64; 6] = s.get(off::O_dP_EE_c);
                let a0: [f64; 6] = s.get(off::O_ddP_EE_c);
                let v = if i.mg() == MG_CP { twist_between(&c.pose, &s.get(off::O_T_EE_c)) } else { c.twist };
                for (l, h) in [(&TRANS_NOMINAL, 0), (&ROT_NOMINAL, 3)] {
                    let p = |x: &[f64; 6]| [x[h], x[h + 1], x[h + 2]];
                    let a = scale(&sub(&p(&v), &p(&v0)), 1. / DT);
                    let j = scale(&sub(&a, &p(&a0)), 1. / DT);
                    wc.upd(l, norm(&p(&v)), norm(&a), norm(&j));
                }
                if c.valid_elbow == 1 {
                    let (e, d, dd): ([f64; 2], [f64; 2], [f64; 2]) = (s.get(off::elbow_c), s.get(off::delbow_c), s.get(off::ddelbow_c));
                    let v = (c.elbow[0] - e[0]) / DT;
                    let a = (v - d[0]) / DT;
                    w.upd(&ELBOW_NOMINAL, v, a, (a - dd[0]) / DT);
                }
            }
            _ => {}
        }
        // the finishing command repeats the last torques when only the motion callback was asked
        if i.torque() && (follows || r.cb.iter().any(|e| e.torque && e.id == c.id)) {
            let last: [f64; 7] = s.get(off::tau_J_d);
            for k in 0..7 {
                wt = wt.max(((c.tau[k] - last[k]) / DT).abs() / TORQUE_RATE_NOMINAL);
            }
        }
        ensure!(w.v <= 1., "{}: velocity limit exceeded by factor {} (command for state {})", what, w.v, c.id);
        ensure!(w.a <= 1.00001, "{}: acceleration limit exceeded by factor {} (command for state {})", what, w.a, c.id);
        ensure!(!jerk || w.j <= 1.0005, "{}: jerk limit exceeded by factor {} (command for state {})", what, w.j, c.id);
        ensure!(wc.v <= 1., "{}: Cartesian velocity limit exceeded by factor {} (command for state {})", what, wc.v, c.id);
        ensure!(wc.a <= 1.00001, "{}: Cartesian acceleration limit exceeded by factor {} (command for state {})", what, wc.a, c.id);
        ensure!(wt <= 1., "{}: torque rate limit exceeded by factor {} (command for state {})", what, wt, c.id);
    }
    Ok([w.v.max(wc.v), w.a.max(wc.a).max(wt), w.j.max(wc.j)])
}

/// The robot follows the commands exactly: next state of the command history.
#[derive(Default)]
pub struct Follow {
    last: Option<u64>,
}
impl Follow {
    pub fn step(&mut self, s: &mut State, c: Option<&Command>, i: Iface) {
        let c = match c {
            Some(c) if Some(c.id) != self.last => c,
            _ => return,
        };
        self.last = Some(c.id);
        match i.mg() {
            MG_JP => {
                let (q, dq): ([f64; 7], [f64; 7]) = (s.get(off::q_d), s.get(off::dq_d));
                let mut v = [0.; 7];
                let mut a = [0.; 7];
                for k in 0..7 {
                    v[k] = (c.q[k] - q[k]) / DT;
                    a[k] = (v[k] - dq[k]) / DT;
                }
                s.set(off::q_d, &c.q);
                s.set(off::dq_d, &v);
                s.set(off::ddq_d, &a);
            }
            MG_JV => {
                let dq: [f64; 7] = s.get(off::dq_d);
                let mut a = [0.; 7];
                for k in 0..7 {
                    a[k] = (c.dq[k] - dq[k]) / DT;
                }
                s.set(off::dq_d, &c.dq);
                s.set(off::ddq_d, &a);
            }
            _ => {
                let v0: [f64; 6] = s.get(off::O_dP_EE_c);
                let v = if i.mg() == MG_CP { twist_between(&c.pose, &s.get(off::O_T_EE_c)) } else { c.twist };
                let mut a = [0.; 6];
                for k in 0..6 {
                    a[k] = (v[k] - v0[k]) / DT;
                }
                if i.mg() == MG_CP {
                    s.set(off::O_T_EE_c, &c.pose);
                }
                s.set(off::O_dP_EE_c, &v);
                s.set(off::O_ddP_EE_c, &a);
                if c.valid_elbow == 1 {
                    let (e, d): ([f64; 2], [f64; 2]) = (s.get(off::elbow_c), s.get(off::delbow_c));
                    let v = (c.elbow[0] - e[0]) / DT;
                    let a = (v - d[0]) / DT;
                    s.set(off::elbow_c, &c.elbow);
                    s.set(off::delbow_c, &[v, 0.]);
                    s.set(off::ddelbow_c, &[a, 0.]);
                }
            }
        }
        s.set(off::tau_J_d, &c.tau);
    }
}

/// one component of a hostile or smooth request signal
fn signal(style: usize, seed: u64, ch: usize, k: usize, amp: f64) -> f64 {
    let mut r = Rng::new(mix(seed ^ mix(ch as u64 + 1)));
    let (p1, p2, p3) = (r.uni(0.2, 1.), r.uni(0.5, 20.), r.uni(0., TAU));
    let t = k as f64 * DT;
    match style {
        // hold a far target
        0 => amp * (p1 - 0.6) * 3.,
        // bang-bang with changing signs
        1 => {
            let per = 5 + (p2 * 20.) as usize;
            if (k / per) % 2 == 0 {
                amp
            } else {
                -amp
            }
        }
        // sinusoid
        2 => amp * p1 * (TAU * p2 * t + p3).sin(),
        // noise
        3 => amp * (Rng::new(mix(seed ^ mix((k * 31 + ch) as u64))).f() - 0.5) * 2.,
        // gigantic jumps
        4 => *Rng::new(mix(seed ^ mix((k / 7 * 31 + ch) as u64))).pick(&[1e6, -1e6, 0., 1e-9, -3e12]),
        // walk
        _ => amp * p1 * ((k as f64 * 0.03 * p2).sin() + (k / 40) as f64 * 0.1 * (p3 - 3.)),
    }
}
const STYLES: [&str; 8] = ["far target", "bang-bang", "sinusoid", "noise", "huge jumps", "walk", "within limits", "stop and hold"];

/// the same request with some or all values replaced by special ones: the last command, zero, the measured value
fn special(o: &mut Out, r: &mut Rng, i: Iface, s: &RobotState) {
    let n = i.n();
    let zero = r.below(3);
    let all = r.chance(0.6);
    if i.mg() == MG_CP {
        match zero {
            0 => o.v[..16].copy_from_slice(&IDENT),
            1 => o.v[..16].copy_from_slice(&s.O_T_EE),
            _ => o.v[..16].copy_from_slice(&s.O_T_EE_c),
        }
        if !all && zero > 0 {
            // only the rotation, only the translation
            let (p, q): ([f64; 16], [f64; 16]) = (s.O_T_EE, s.O_T_EE_c);
            if r.bool() {
                o.v[..12].copy_from_slice(&q[..12]);
                o.v[12..15].copy_from_slice(&p[12..15]);
            } else {
                o.v[..12].copy_from_slice(&p[..12]);
                o.v[12..15].copy_from_slice(&q[12..15]);
            }
        }
    } else {
        for c in 0..n {
            if !all && r.bool() {
                continue;
            }
            o.v[c] = match (i.mg(), zero) {
                (_, 0) => 0.,
                (MG_JP, 1) => s.q[c],
                (MG_JP, _) => s.q_d[c],
                (MG_JV, 1) => s.dq[c],
                (MG_JV, _) => s.dq_d[c],
                (_, 1) => -0.,
                (_, _) => s.O_dP_EE_c[c],
            };
        }
    }
    if let Some(e) = &mut o.elbow {
        e[0] = *r.pick(&[s.elbow_c[0], s.elbow_c[0], 0., s.elbow[0], s.elbow_d[0]]);
        if r.bool() {
            e[1] = s.elbow_c[1];
        }
    }
}
fn special_tau(v: &mut [f64; 7], r: &mut Rng, s: &RobotState) {
    let (kind, all) = (r.below(4), r.chance(0.6));
    for c in 0..7 {
        if all || r.bool() {
            v[c] = match kind {
                0 | 1 => 0.,
                2 => s.tau_J_d[c],
                _ => s.tau_J[c],
            };
        }
    }
}

fn closed_loop(ctx: &mut Ctx, ses: &mut Session, i: Iface, style: usize) -> Res<()> {
    let o = Opts {
        joint_imp: None,
        limit: *ctx.rng.pick(&[None, Some(true)]),
        cutoff: if style == 6 { Some(1000.) } else { *ctx.rng.pick(&[None, Some(1000.), Some(1000.), Some(300.), Some(10.)]) },
    };
    let n = if ctx.thorough && ctx.rng.chance(0.2) { 6000 } else { *ctx.rng.pick(&[300, 700, 1500]) };
    let seed = ctx.rng.u64();
    let amp = *ctx.rng.pick(&[0.05, 1., 10., 1000.]);
    let elbow = ctx.rng.bool();
    let mut start = State::idle(0);
    start.set(off::q_d, &ctx.rng.arr::<7>(-2.5, 2.5));
    start.set(off::elbow_c, &[ctx.rng.uni(-2., 2.), -1.]);
    start.set(off::tau_J_d, &ctx.rng.arr::<7>(-20., 20.));
    let p0 = random_pose(&mut ctx.rng, 0.6);
    start.set(off::O_T_EE_c, &p0);
    let q0: [f64; 7] = start.get(off::q_d);
    let e0: [f64; 2] = start.get(off::elbow_c);
    let t0: [f64; 7] = start.get(off::tau_J_d);
    let what = format!("{:?} {:?}: closed loop over {} cycles, {} (amplitude {})", i, o, n, STYLES[style], amp);
    let smooth = |seed: u64, ch: usize, k: usize, l: &Lim| {
        // A (1 - cos w t): acceleration step A w^2 at the beginning, everything within 60 percent
        let mut r = Rng::new(mix(seed ^ mix(100 + ch as u64)));
        let w = r.uni(1., 12.);
        let amax = (0.6 * l.a).min(0.6 * l.j * DT).min(0.6 * l.v * w) * r.uni(0.2, 1.);
        let a = amax / (w * w);
        let t = k as f64 * DT;
        (a * (1. - (w * t).cos()), a * w * (w * t).sin())
    };
    let base: MotionGen = Box::new(move |k, _| {
        // k = 0 answers the start state, so the request is for one sample later
        let fin = i != Iface::T && k + 1 >= n;
        let kk = k + 1;
        let el = if elbow && i.cartesian() {
            if style == 6 {
                Some([e0[0] + smooth(seed, 90, kk, &ELBOW_NOMINAL).0, 1.])
            } else {
                Some([e0[0] + signal(style, seed, 90, k, amp), if k % 50 < 25 { 1. } else { -1. }])
            }
        } else {
            None
        };
        match i.mg() {
            MG_JP => {
                let mut v = [0.; 7];
                for c in 0..7 {
                    v[c] = q0[c] + if style == 6 { smooth(seed, c, kk, &JOINT_NOMINAL[c]).0 } else { signal(style, seed, c, k, amp) };
                }
                Out::new(&v, None, fin)
            }
            MG_JV => {
                let mut v = [0.; 7];
                for c in 0..7 {
                    v[c] = if style == 6 { smooth(seed, c, kk, &JOINT_NOMINAL[c]).1 } else { signal(style, seed, c, k, amp) };
                }
                Out::new(&v, None, fin)
            }
            MG_CV => {
                let mut v = [0.; 6];
                for c in 0..6 {
                    let l = if c < 3 { TRANS_NOMINAL } else { ROT_NOMINAL };
                    v[c] = if style == 6 { smooth(seed, c, kk, &l.times(0.5)).1 } else { signal(style, seed, c, k, amp) };
                }
                Out::new(&v, el, fin)
            }
            _ => {
                let mut t = trans(&p0);
                let mut w = [0.; 3];
                for c in 0..3 {
                    if style == 6 {
                        t[c] += smooth(seed, c, kk, &TRANS_NOMINAL.times(0.5)).0;
                    } else {
                        t[c] += signal(style, seed, c, k, amp).clamp(-1e9, 1e9);
                        w[c] = signal(style, seed, c + 3, k, amp).clamp(-1e3, 1e3);
                    }
                }
                if style == 6 {
                    // rotation about a fixed axis
                    let mut r = Rng::new(seed);
                    let ax: V3 = r.arr(-1., 1.);
                    w = scale(&ax, smooth(seed, 7, kk, &ROT_NOMINAL.times(0.9)).0 / norm(&ax));
                }
                let ang = norm(&w);
                if ang > 3. {
                    w = scale(&w, 3. / ang);
                }
                Out::new(&pose(&qnorm(&qmul(&qexp(&w), &qmat(&p0))), &t), el, fin)
            }
        }
    });
    // blocks in which the motion is to stop at once: the last command, no velocity, no torque
    let hold = move |k: usize| style == 7 && Rng::new(mix(seed ^ mix(7000 + (k / 29) as u64))).bool();
    let mut base = base;
    let m: MotionGen = Box::new(move |k, s| {
        let mut out = base(k, s);
        if hold(k) {
            match i.mg() {
                MG_JP => out.v[..7].copy_from_slice(&s.q_d),
                MG_CP => out.v[..16].copy_from_slice(&s.O_T_EE_c),
                _ => out.v[..i.n()].fill(0.),
            }
            if let Some(e) = &mut out.elbow {
                *e = s.elbow_c;
            }
        }
        out
    });
    let tg: TorqueGen = Box::new(move |k, s| {
        if hold(k) {
            return (if k / 29 % 2 == 0 { [0.; 7] } else { s.tau_J_d }, i == Iface::T && k + 1 >= n);
        }
        let mut v = [0.; 7];
        for c in 0..7 {
            v[c] = if style == 6 {
                t0[c] + 0.0005 * (k + 1) as f64 * (c as f64 - 3.) * 600. * DT
            } else {
                t0[c] + signal(style, seed, c + 40, k, amp * 10.)
            };
        }
        (v, i == Iface::T && k + 1 >= n)
    });
    let mut d = Drive::new(i, o);
    let mut fol = Follow::default();
    let st0 = start.clone();
    let mut begun = false;
    let mut dynf = move |s: &mut State, c: Option<&Command>| {
        if !begun {
            s.d = st0.d.clone();
            begun = true;
        }
        fol.step(s, c, i);
    };
    let r = motion(ses, i, o, false, m, tg, &mut d, &mut dynf)?;
    expect_ok(&r.out, &what)?;
    ensure_t!(r.cb.len() >= n, "{}: {} callbacks", what, r.cb.len());
    // after a stall the states of the mock do not belong to a robot within its limits
    let w = if r.trace.lockstep() {
        check_bounds(&r, i, true, true, &what)?
    } else {
        ctx.hit("stalled: limits not judged");
        [0.; 3]
    };
    let c = check_reference(&r, i, &o, &what)?;
    // what is within the limits depends on the robot having followed every earlier command
    if style == 6 && r.trace.lockstep() {
        ctx.hit("requests within the limits");
        for cm in r.trace.cmds.iter().take(n) {
            if i != Iface::T {
                let cb = r.cb.iter().find(|e| !e.torque && e.id == cm.id).unwrap();
                let tol = if i.mg() == MG_CP { 1e-7 } else { 1e-9 };
                ensure!(close(wire_values(cm, i), &cb.out.v[..i.n()], tol), "{}: a request within the limits was changed: {:?} -> {:?}", what, &cb.out.v[..i.n()], wire_values(cm, i));
                if let Some(e) = cb.out.elbow {
                    ensure!(close(&cm.elbow, &e, 1e-9), "{}: an elbow request within the limits was changed: {:?} -> {:?}", what, e, cm.elbow);
                }
            }
            if i.torque() {
                if let Some(cb) = r.cb.iter().find(|e| e.torque && e.id == cm.id) {
                    ensure!(close(&cm.tau, &cb.tau, 1e-9), "{}: torques within the limit were changed: {:?} -> {:?}", what, cb.tau, cm.tau);
                }
            }
            ctx.eval();
        }
    }
    ctx.evals(c + r.trace.cmds.len());
    ctx.events(r.trace.n_events());
    ctx.hit(&format!("{:?} {}", i, STYLES[style]));
    ctx.sig((i, style, n, seed));
    ctx.sample(format!("{}: reached {:.2} of the velocity, {:.2} of the acceleration and {:.2} of the jerk limit", what, w[0], w[1], w[2]));
    Ok(())
}
/// every cycle has an unrelated random state and request
fn open_loop(ctx: &mut Ctx, ses: &mut Session, i: Iface, o: Opts, bounds: bool) -> Res<()> {
    let n = 60;
    let seed = ctx.rng.u64();
    let what = format!("{:?} {:?}: independent states", i, o);
    let elbow = ctx.rng.bool();
    // requests are built from the state so that all regimes of the limiter are reached
    let mut base: MotionGen = Box::new(move |k, s| {
        let mut r = Rng::new(mix(seed ^ mix(k as u64)));
        let fin = i != Iface::T && k + 1 >= n;
        let scale_ = *r.pick(&[1e-4, 0.01, 0.5, 1., 1.5, 30., 1e5]);
        let el = if elbow && i.cartesian() && r.bool() { Some([s.elbow_c[0] + r.uni(-1., 1.) * *r.pick(&[1e-6, 1e-3, 1.]), if r.bool() { 1. } else { -1. }]) } else { None };
        match i.mg() {
            MG_JP => {
                let mut v = [0.; 7];
                for c in 0..7 {
                    let l = JOINT_NOMINAL[c];
                    v[c] = s.q_d[c] + DT * (s.dq_d[c] + DT * (s.ddq_d[c] + r.uni(-1., 1.) * scale_ * l.j * DT));
                }
                Out::new(&v, None, fin)
            }
            MG_JV => {
                let mut v = [0.; 7];
                for c in 0..7 {
                    let l = JOINT_NOMINAL[c];
                    v[c] = s.dq_d[c] + DT * (s.ddq_d[c] + r.uni(-1., 1.) * scale_ * l.j * DT);
                }
                Out::new(&v, None, fin)
            }
            _ => {
                let mut v = [0.; 6];
                for c in 0..6 {
                    let l = if c < 3 { TRANS_NOMINAL } else { ROT_NOMINAL };
                    v[c] = s.O_dP_EE_c[c] + DT * (s.O_ddP_EE_c[c] + r.uni(-1., 1.) * scale_ * l.j * DT);
                }
                if i.mg() == MG_CV {
                    Out::new(&v, el, fin)
                } else if r.chance(0.15) {
                    Out::new(&random_pose(&mut r, 1.), el, fin)
                } else {
                    let p: [f64; 16] = s.O_T_EE_c;
                    let mut w = scale(&tail(&v), DT);
                    if norm(&w) > 3. {
                        w = scale(&w, 3. / norm(&w));
                    }
                    Out::new(&pose(&qnorm(&qmul(&qexp(&w), &qmat(&p))), &add(&trans(&p), &scale(&head(&v), DT))), el, fin)
                }
            }
        }
    });
    let mut before: Option<Out> = None;
    let m: MotionGen = Box::new(move |k, s| {
        let mut r = Rng::new(mix(seed ^ mix(9000 + k as u64)));
        let mut out = base(k, s);
        if r.chance(0.25) {
            special(&mut out, &mut r, i, s);
        } else if r.chance(0.07) {
            // once more what was requested before
            if let Some(b) = &before {
                out = Out { fin: out.fin, ..b.clone() };
            }
        }
        before = Some(out.clone());
        out
    });
    let tg: TorqueGen = Box::new(move |k, s| {
        let mut r = Rng::new(mix(seed ^ mix(5000 + k as u64)));
        let mut v = [0.; 7];
        for c in 0..7 {
            v[c] = s.tau_J_d[c] + r.uni(-1., 1.) * *r.pick(&[0.1, 1., 2., 100., 1e7]);
        }
        if r.chance(0.25) {
            special_tau(&mut v, &mut r, s);
        }
        (v, i == Iface::T && k + 1 >= n)
    });
    let mut r1 = Rng::new(ctx.rng.u64());
    let mut dynf = move |s: &mut State, _: Option<&Command>| {
        let mut v = [0.; 7];
        let mut a = [0.; 7];
        for c in 0..7 {
            let l = JOINT_NOMINAL[c].applied();
            let f = *r1.pick(&[0., 0.01, 0.3, 1., 0.99999]);
            v[c] = l.v * r1.uni(-1., 1.) * f;
            a[c] = l.a * r1.uni(-1., 1.);
        }
        s.set(off::q_d, &r1.arr::<7>(-3., 3.));
        s.set(off::dq_d, &v);
        s.set(off::ddq_d, &a);
        // decoys: fields that must not be used as reference
        s.set(off::q, &r1.arr::<7>(-3., 3.));
        s.set(off::dq, &r1.arr::<7>(-3., 3.));
        s.set(off::tau_J, &r1.arr::<7>(-50., 50.));
        s.set(off::O_T_EE, &random_pose(&mut r1, 1.));
        s.set(off::O_T_EE_d, &random_pose(&mut r1, 1.));
        s.set(off::O_dP_EE_d, &r1.arr::<6>(-2., 2.));
        s.set(off::elbow, &[r1.uni(-2., 2.), -1.]);
        s.set(off::elbow_d, &[r1.uni(-2., 2.), 1.]);
        let mut tw = [0.; 6];
        let mut ta = [0.; 6];
        for (l, h) in [(TRANS_NOMINAL.applied(), 0), (ROT_NOMINAL.applied().times(0.99), 3)] {
            let u: V3 = r1.arr(-1., 1.);
            let u = scale(&u, l.v * *r1.pick(&[0., 0.3, 0.9, 0.9999]) / norm(&u));
            let b: V3 = r1.arr(-1., 1.);
            let b = scale(&b, l.a * r1.f() / norm(&b));
            tw[h..h + 3].copy_from_slice(&u);
            ta[h..h + 3].copy_from_slice(&b);
        }
        s.set(off::O_dP_EE_c, &tw);
        s.set(off::O_ddP_EE_c, &ta);
        s.set(off::O_T_EE_c, &random_pose(&mut r1, 0.8));
        let l = ELBOW_NOMINAL.applied();
        s.set(off::elbow_c, &[r1.uni(-2., 2.), -1.]);
        s.set(off::delbow_c, &[l.v * r1.uni(-1., 1.), 0.]);
        s.set(off::ddelbow_c, &[l.a * r1.uni(-1., 1.), 0.]);
        s.set(off::tau_J_d, &r1.arr::<7>(-80., 80.));
        if r1.chance(0.2) {
            // at rest, in whole or in part
            for (o, n) in [(off::dq_d, 7), (off::ddq_d, 7), (off::O_dP_EE_c, 6), (off::O_ddP_EE_c, 6), (off::delbow_c, 2), (off::ddelbow_c, 2), (off::tau_J_d, 7)] {
                if r1.chance(0.8) {
                    s.d[o..o + n].fill(0.);
                }
            }
        }
    };
    let mut d = Drive::new(i, o);
    let mut r2 = Rng::new(ctx.rng.u64());
    d.id_step = Box::new(move |_| if r2.chance(0.2) { 1 + r2.below(6) as u64 } else { 1 });
    let r = motion(ses, i, o, false, m, tg, &mut d, &mut dynf)?;
    expect_ok(&r.out, &what)?;
    let c = check_reference(&r, i, &o, &what)?;
    if bounds {
        check_bounds(&r, i, false, false, &what)?;
    }
    ctx.evals(c);
    ctx.events(r.trace.n_events());
    ctx.hit(&format!("{:?} independent states", i));
    ctx.sig((i, "open", seed));
    Ok(())
}
const JOINTS: [Iface; 5] = [Iface::Jp, Iface::Jv, Iface::T, Iface::TJp, Iface::TJv];
const CARTS: [Iface; 4] = [Iface::Cp, Iface::Cv, Iface::TCp, Iface::TCv];
fn lim_opts(rng: &mut Rng) -> Opts {
    Opts { joint_imp: *rng.pick(&[None, Some(true), Some(false)]), limit: *rng.pick(&[None, Some(true)]), cutoff: *rng.pick(&[Some(1000.), Some(1000.), None, Some(50.)]) }
}
pub fn c13(ctx: &mut Ctx) -> Res<()> {
    let mut ses = open_default(ctx)?;
    let i = JOINTS[ctx.idx % 5];
    closed_loop(ctx, &mut ses, i, ctx.idx / 5 % 8)?;
    let j = *ctx.rng.pick(&JOINTS);
    for _ in 0..2 {
        let o = lim_opts(&mut ctx.rng);
        open_loop(ctx, &mut ses, j, o, true)?;
    }
    Ok(())
}
pub fn c14(ctx: &mut Ctx) -> Res<()> {
    let mut ses = open_default(ctx)?;
    let i = CARTS[ctx.idx % 4];
    closed_loop(ctx, &mut ses, i, ctx.idx / 4 % 8)?;
    let j = *ctx.rng.pick(&CARTS);
    for _ in 0..2 {
        let o = lim_opts(&mut ctx.rng);
        open_loop(ctx, &mut ses, j, o, true)?;
    }
    Ok(())
}
pub fn c16(ctx: &mut Ctx) -> Res<()> {
    let mut ses = open_default(ctx)?;
    for k in 0..4 {
        let i = IFACES[(ctx.idx + k) % 9];
        let cut = match (ctx.idx / 9 + k) % 6 {
            0 => None,
            1 => Some(100.),
            2 => Some(ctx.rng.uni(1., 999.)),
            3 => Some(999.9999),
            4 => Some(1000.),
            _ => Some(*ctx.rng.pick(&[0.01, 1e-6, 500., 1500.])),
        };
        let o = Opts { joint_imp: *ctx.rng.pick(&[None, Some(true), Some(false)]), limit: *ctx.rng.pick(&[Some(false), Some(false), Some(true), None]), cutoff: cut };
        open_loop(ctx, &mut ses, i, o, false)?;
        ctx.hit(match cut {
            None => "default cutoff",
            Some(c) if c < 1000. => "filter on",
            _ => "filter off",
        });
        ctx.sample(format!("{:?} {:?}", i, o));
    }
    Ok(())
}

// ------------------------------------------------------------------ C25
pub fn c25(ctx: &mut Ctx) -> Res<()> {
    let mut ses = open_default(ctx)?;
    let speed = match ctx.idx % 4 {
        0 => 1.0,
        1 => ctx.rng.uni(0.3, 1.),
        2 => ctx.rng.uni(0.1, 0.5),
        _ => 10f64.powf(ctx.rng.uni(-3., 0.)),
    };
    let reach = *ctx.rng.pick(&[2.5, 2.5, 6.]);
    let mut q0: [f64; 7] = ctx.rng.arr(-reach, reach);
    let mut goal: [f64; 7] = ctx.rng.arr(-reach, reach);
    match ctx.idx / 4 % 5 {
        0 => goal = q0,
        1 => {
            // one joint only
            let k = ctx.rng.below(7);
            let g = goal[k];
            goal = q0;
            goal[k] = g;
        }
        2 => {
            for k in 0..7 {
                goal[k] = q0[k] + ctx.rng.uni(-1., 1.) * *ctx.rng.pick(&[0., 1e-7, 0.01, 0.5]);
            }
        }
        3 => q0 = [0.; 7],
        _ => {}
    }
    // motions of at most a few seconds
    let t = super::math::plan(speed, &q0, &goal).t_f;
    let longest = if ctx.thorough { 20. } else { 5. };
    if t > longest {
        for k in 0..7 {
            goal[k] = q0[k] + (goal[k] - q0[k]) * longest / t;
        }
    }
    let mut start = State::idle(0);
    start.set(off::q_d, &q0);
    // the measured position differs from the commanded one
    let mut qm = q0;
    for x in qm.iter_mut() {
        *x += ctx.rng.uni(-0.01, 0.01);
    }
    start.set(off::q, &qm);
    let what = format!("joint_motion(speed {}, {:?} -> {:?})", speed, q0, goal);
    let i = Iface::Jp;
    let o = Opts { joint_imp: None, limit: Some(true), cutoff: Some(1000.) };
    let mut attempt = 0;
    // lost states make the time of the motion jump
    let lossy = ctx.idx % 4 == 1 || ctx.rng.chance(0.1);
    let mut r = loop {
        let p = ses.cli.call(move |r| r.joint_motion(speed, &goal));
        let mut d = Drive::new(i, o);
        if lossy {
            let mut r2 = Rng::new(ctx.rng.u64());
            let (rate, most) = (r2.uni(0.001, 0.1), r2.range(1, 100));
            d.id_step = Box::new(move |_| if r2.chance(rate) { 1 + r2.range(1, most) as u64 } else { 1 });
        }
        d.finish_delay = ctx.rng.below(4);
        d.max_cycles = 60000;
        let mut fol = Follow::default();
        let mut begun = false;
        let start = start.clone();
        let mut dynf = move |s: &mut State, c: Option<&Command>| {
            if !begun {
                s.d = start.d.clone();
                begun = true;
            }
            fol.step(s, c, i);
        };
        let (trace, out) = drive(&mut ses.srv, &p, &mut d, &mut dynf)?;
        let r = Run { trace, cb: vec![], out };
        expect_ok(&r.out, &what)?;
        check_move(r.trace.move_req.as_ref().unwrap(), i, o)?;
        if r.trace.lockstep() {
            break r;
        }
        // the client missed states: its time runs ahead of the robot, which lags behind
        attempt += 1;
        ctx.hit("stalled: repeated");
        if attempt == 5 {
            return Ok(());
        }
    };
    let n = r.trace.cmds.iter().filter(|c| c.finished == 0).count();
    // later ones repeat the last command
    r.trace.cmds.truncate(n + 1);
    check_bounds(&r, i, true, true, &what)?;
    if lossy {
        ctx.evals(n);
        ctx.events(r.trace.n_events());
        ctx.hit("lost states: joint limits");
        return Ok(());
    }
    let last = &r.trace.cmds[n];
    let d = max_diff(&last.q, &goal);
    if std::env::var("VERIF_DEBUG").is_ok() {
        eprintln!("{} cycles, distance to the goal {:.3e}: {}", n, d, what);
    }
    ensure!(d < 2e-5, "{}: ends {:e} rad from the goal", what, d);
    let mut prev = q0;
    let mut first = true;
    let pl = super::math::plan(speed, &q0, &goal);
    let mut dev: f64 = 0.;
    for (j, c) in r.trace.cmds.iter().take(n + 1).enumerate() {
        for k in 0..7 {
            dev = dev.max((c.q[k] - q0[k] - pl.at(j as f64 * DT, k, goal[k] - q0[k], speed)).abs());
        }
    }
    ensure!(dev < 1e-6, "{}: the commands are {:e} rad away from the planned motion", what, dev);
    ensure!(d < 3e-6, "{}: ends {:e} rad from the goal", what, d);
    ctx.hit("every state answered in its cycle: exactly the planned motion");
    for c in r.trace.cmds.iter().take(n + 1) {
        for k in 0..7 {
            let dist = goal[k] - q0[k];
            let lo = q0[k].min(goal[k]) - 1e-5;
            let hi = q0[k].max(goal[k]) + 1e-5;
            ensure!(c.q[k] >= lo && c.q[k] <= hi, "{}: joint {} leaves the way from start to goal: {}", what, k, c.q[k]);
            ensure!((c.q[k] - prev[k]) * dist.signum() >= -1e-5, "{}: joint {} moves away from the goal", what, k);
            let vmax = if k < 4 { 2.0 } else { 2.5 };
            ensure!(((c.q[k] - prev[k]) / DT).abs() <= vmax * speed + 2e-2, "{}: joint {} is faster than the speed factor allows: {} rad/s", what, k, (c.q[k] - prev[k]) / DT);
            if first {
                ensure!((c.q[k] - q0[k]).abs() < 1e-4, "{}: joint {} jumps at the start", what, k);
            }
        }
        first = false;
        prev = c.q;
        ctx.eval();
    }
    // duration: as fast as the slowest joint allows, within two percent
    let t = super::math::plan(speed, &q0, &goal).t_f;
    ensure!((n as f64 * DT - t).abs() <= 0.02 * t + 0.01, "{}: takes {} s, planned are {} s", what, n as f64 * DT, t);
    ctx.events(r.trace.n_events());
    ctx.hit(["same position", "one joint", "small motions", "from zero", "random"][ctx.idx / 4 % 5]);
    ctx.sig((n, speed.to_bits()));
    ctx.sample(format!("{}: {} cycles, ends {:.1e} rad from the goal", what, n, d));
    let _ = rm::DT;
    Ok(())
}
