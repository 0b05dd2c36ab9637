//! C15 C18 C19: pure functions of the public API.
use super::ctl::random_pose;
use crate::ensure;
use crate::fw::*;
use crate::mock::guarded;
use crate::refmath as rm;
use franka::robot::low_pass_filter::{cartesian_low_pass_filter, low_pass_filter};
use franka::*;
use nalgebra::{Isometry3, Quaternion, Translation3, UnitQuaternion};
use std::f64::consts::PI;
use std::time::Duration;

// ------------------------------------------------------------------ C15
pub fn c15(ctx: &mut Ctx) -> Res<()> {
    for _ in 0..400 {
        let dt = *ctx.rng.pick(&[1e-3, 1e-3, 1e-4, 0.02, 1.0]);
        let f = match ctx.rng.below(4) {
            0 => *ctx.rng.pick(&[1e-6, 1., 100., 999.9999, 1000., 1e4]),
            _ => ctx.rng.uni(0.1, 1000.),
        };
        // from the tiniest to the largest numbers; signals that hardly change
        let unit = match ctx.rng.below(8) {
            0 => 10f64.powf(ctx.rng.uni(-300., 300.)),
            1 => 10f64.powf(ctx.rng.uni(-12., -3.)),
            2 => 1e300,
            _ => 1.,
        };
        let y = ctx.rng.uni(-100., 100.) * unit;
        let l = match ctx.rng.below(6) {
            0 => 0.,
            1 => y + unit * ctx.rng.uni(-1e-6, 1e-6),
            2 => -y,
            _ => ctx.rng.uni(-100., 100.) * unit,
        };
        let got = match guarded(|| low_pass_filter(dt, y, l, f)) {
            Ok(g) => g,
            Err(m) => return viol(format!("low_pass_filter({}, {}, {}, {}) panicked: {}", dt, y, l, f, m)),
        };
        let want = rm::lowpass(dt, y, l, f);
        let tiny = f64::MIN_POSITIVE;
        let size = y.abs().max(l.abs()) + tiny;
        ensure!((got - want).abs() <= 1e-12 * size + tiny, "low_pass_filter({}, {}, {}, {}) = {} instead of {}", dt, y, l, f, got, want);
        // the result lies between the two values; a constant signal stays
        let e = 1e-13 * size + tiny;
        ensure!(got >= y.min(l) - e && got <= y.max(l) + e, "low_pass_filter({}, {}, {}, {}) = {} leaves the interval", dt, y, l, f, got);
        let c = low_pass_filter(dt, y, y, f);
        ensure!((c - y).abs() <= e, "a constant signal {} becomes {}", y, c);
        ctx.evals(3);
        ctx.sig((y.to_bits(), f.to_bits()));
    }
    ctx.hit("scalar filter");
    for k in 0..150 {
        let dt = *ctx.rng.pick(&[1e-3, 1e-3, 1e-2]);
        let f = match ctx.rng.below(6) {
            0 => *ctx.rng.pick(&[1e-6, 1e-2, 999.9999, 1000., 1000.0001, 2e3, 1e5]),
            _ => ctx.rng.uni(0.5, 1000.),
        };
        let last = random_pose(&mut ctx.rng, 1.);
        let rel = match ctx.rng.below(6) {
            0 => 0.,
            1 => ctx.rng.uni(0., 1e-7),
            2 => ctx.rng.uni(0., 1e-2),
            3 => ctx.rng.uni(PI - 0.02, PI - 0.002),
            _ => ctx.rng.uni(0., PI - 0.01),
        };
        let ax: rm::V3 = ctx.rng.arr(-1., 1.);
        let w = rm::scale(&ax, rel / rm::norm(&ax));
        let q = rm::qnorm(&rm::qmul(&rm::qexp(&w), &rm::qmat(&last)));
        let y = rm::pose(&q, &ctx.rng.arr(-1., 1.));
        let got = match guarded(|| cartesian_low_pass_filter(dt, &y, &last, f)) {
            Ok(g) => g,
            Err(m) => return viol(format!("cartesian_low_pass_filter({:?}, {:?}) panicked: {}", y, last, m)),
        };
        let want = rm::filter_pose(&y, &last, dt, f);
        let d = rm::max_diff(&got, &want);
        ensure!(d < 1e-7, "cartesian_low_pass_filter(dt {}, f {}) of {:?} after {:?} = {:?} instead of {:?} (difference {:e})", dt, f, y, last, got, want, d);
        ensure!(rm::homogeneous(&got, 1e-6), "filtered pose is no homogeneous transformation: {:?}", got);
        let det = det3(&got);
        ensure!((det - 1.).abs() < 1e-6, "filtered rotation has determinant {}", det);
        ctx.evals(3);
        ctx.sig(rel.to_bits());
        if k == 0 {
            ctx.sample(format!("pose filter at {} Hz over a rotation by {} rad", f, rel));
        }
    }
    ctx.hit("pose filter");
    // exact half turn: the direction is free, the result must be a pose a fraction of the way
    for _ in 0..10 {
        let last = random_pose(&mut ctx.rng, 1.);
        let ax: rm::V3 = *ctx.rng.pick(&[[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [0.6, 0.8, 0.]]);
        let q = rm::qnorm(&rm::qmul(&rm::qexp(&rm::scale(&ax, PI)), &rm::qmat(&last)));
        let y = rm::pose(&q, &[0.1, 0.2, 0.3]);
        let f = ctx.rng.uni(1., 900.);
        let got = match guarded(|| cartesian_low_pass_filter(1e-3, &y, &last, f)) {
            Ok(g) => g,
            Err(m) => return viol(format!("cartesian_low_pass_filter of a half turn panicked: {}", m)),
        };
        ensure!(rm::homogeneous(&got, 1e-9) && (det3(&got) - 1.).abs() < 1e-9, "filtering a half turn gives {:?}", got);
        let ang = rm::qangle(&rm::qmat(&got), &rm::qmat(&last));
        let want = rm::gain(1e-3, f) * PI;
        ensure!((ang - want).abs() < 1e-5, "filtering a half turn moves by {} rad instead of {}", ang, want);
        ctx.evals(2);
    }
    ctx.hit("half turn");
    // --- documented panics
    let bad = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    let b = *ctx.rng.pick(&bad);
    let neg = *ctx.rng.pick(&[-1e-3, 0., -1., f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let good = random_pose(&mut ctx.rng, 1.);
    let mut badp = good;
    badp[ctx.rng.below(16)] = b;
    let cases: Vec<(String, Box<dyn Fn() + std::panic::UnwindSafe>)> = vec![
        (format!("value {}", b), Box::new(move || drop(low_pass_filter(1e-3, b, 0., 100.)))),
        (format!("last value {}", b), Box::new(move || drop(low_pass_filter(1e-3, 0., b, 100.)))),
        (format!("cutoff {}", neg), Box::new(move || drop(low_pass_filter(1e-3, 0., 1., neg)))),
        (format!("sample time {}", neg), Box::new(move || drop(low_pass_filter(neg, 0., 1., 100.)))),
        (format!("pose with {}", b), Box::new(move || drop(cartesian_low_pass_filter(1e-3, &badp, &good, 100.)))),
        (format!("last pose with {}", b), Box::new(move || drop(cartesian_low_pass_filter(1e-3, &good, &badp, 100.)))),
        (format!("pose filter, cutoff {}", neg), Box::new(move || drop(cartesian_low_pass_filter(1e-3, &good, &good, neg)))),
        (format!("pose filter, sample time {}", neg), Box::new(move || drop(cartesian_low_pass_filter(neg, &good, &good, 100.)))),
    ];
    for (w, f) in cases {
        ensure!(guarded(|| f()).is_err(), "invalid argument accepted by the low-pass filter: {}", w);
        ctx.eval();
        ctx.hit("invalid argument");
    }
    ctx.events(570);
    Ok(())
}
pub fn det3(m: &[f64; 16]) -> f64 {
    let r = |row: usize, col: usize| m[col * 4 + row];
    r(0, 0) * (r(1, 1) * r(2, 2) - r(1, 2) * r(2, 1)) - r(0, 1) * (r(1, 0) * r(2, 2) - r(1, 2) * r(2, 0)) + r(0, 2) * (r(1, 0) * r(2, 1) - r(1, 1) * r(2, 0))
}

// ------------------------------------------------------------------ C18
/// Reference plan: all joints start and stop together; the slowest one uses the full limits.
pub struct Plan {
    pub t_f: f64,
    pub v: [f64; 7],
    pub moving: [bool; 7],
}
const VMAX: [f64; 7] = [2.0, 2.0, 2.0, 2.0, 2.5, 2.5, 2.5];
const AMAX: f64 = 5.;
pub fn plan(speed: f64, q0: &[f64; 7], goal: &[f64; 7]) -> Plan {
    let acc = AMAX * speed;
    let mut t_f: f64 = 0.;
    let mut moving = [false; 7];
    for k in 0..7 {
        let d = (goal[k] - q0[k]).abs();
        if d <= 1e-6 {
            continue;
        }
        moving[k] = true;
        // accelerate within 1.5 v / a, on average with half of v, symmetric braking
        let v = (VMAX[k] * speed).min((2. / 3. * d * acc).sqrt());
        t_f = t_f.max(1.5 * v / acc + d / v);
    }
    let mut v = [0.; 7];
    for k in 0..7 {
        if moving[k] {
            // 1.5 v / a + d / v = t_f, smaller root
            let d = (goal[k] - q0[k]).abs();
            let (a, b, c) = (1.5 / acc, -t_f, d);
            v[k] = (-b - (b * b - 4. * a * c).max(0.).sqrt()) / (2. * a);
        }
    }
    Plan { t_f, v, moving }
}
impl Plan {
    pub fn at(&self, t: f64, k: usize, d: f64, speed: f64) -> f64 {
        if !self.moving[k] {
            return 0.;
        }
        let (v, s) = (self.v[k], d.signum());
        let t1 = 1.5 * v / (AMAX * speed);
        // smoothstep acceleration phase: velocity v (3 x^2 - 2 x^3), position v t1 (x^3 - x^4 / 2)
        let acc = |t: f64| {
            let x = (t / t1).clamp(0., 1.);
            v * t1 * (x.powi(3) - x.powi(4) / 2.)
        };
        let tf = t1 + d.abs() / v;
        if t >= tf {
            d
        } else if t < t1 {
            s * acc(t)
        } else if t < tf - t1 {
            s * (acc(t1) + v * (t - t1))
        } else {
            s * (d.abs() - acc(tf - t))
        }
    }
}
pub fn c18(ctx: &mut Ctx) -> Res<()> {
    for case in 0..6 {
        let speed = match (ctx.idx + case) % 4 {
            0 => 1.,
            1 => 0.1,
            2 => 0.5,
            _ => 10f64.powf(ctx.rng.uni(-3., 0.)),
        };
        let reach = *ctx.rng.pick(&[2.8, 2.8, 10., 1e-3]);
        let mut q0: [f64; 7] = ctx.rng.arr(-reach, reach);
        let mut goal: [f64; 7] = ctx.rng.arr(-reach, reach);
        match ctx.rng.below(8) {
            0 => q0 = [0.; 7],
            1 => goal = [0.; 7],
            2 => {
                for k in 0..7 {
                    goal[k] = -q0[k];
                }
            }
            _ => {}
        }
        let kind = (ctx.idx / 4 + case) % 5;
        match kind {
            0 => goal = q0,
            1 => {
                for k in 0..7 {
                    goal[k] = q0[k] + ctx.rng.uni(-1., 1.) * *ctx.rng.pick(&[0., 5e-7, 2e-6, 1e-3, 0.3]);
                }
            }
            2 => {
                let k = ctx.rng.below(7);
                let g = goal[k];
                goal = q0;
                goal[k] = g;
            }
            3 => {
                // equal distances
                let d = ctx.rng.uni(0.01, 3.);
                for k in 0..7 {
                    goal[k] = q0[k] + if ctx.rng.bool() { d } else { -d };
                }
            }
            _ => {}
        }
        let pl = plan(speed, &q0, &goal);
        // long motions are sampled with longer steps, at least 1000 times
        let step = ((pl.t_f / 10.) as u64).clamp(1, 100);
        let mut gen = MotionGenerator::new(speed, &goal);
        let mut st = RobotState::default();
        st.q_d = q0;
        let jitter = ctx.rng.bool();
        let what = format!("speed {} from {:?} to {:?}", speed, q0, goal);
        let mut t_ns: u64 = 0;
        let mut prev: Option<[f64; 7]> = None;
        let mut prev_v: Option<([f64; 7], f64)> = None;
        let mut finished = false;
        let mut steps = 0;
        let mut dt_ms = 0u64;
        while !finished {
            // measured values and later commanded values must not matter
            let mut s = st.clone();
            s.q = ctx.rng.arr(-3., 3.);
            if steps > 0 {
                s.q_d = prev.unwrap();
            }
            t_ns += dt_ms * 1_000_000;
            let out = match guarded(|| gen.generate_motion(&s, &Duration::from_millis(dt_ms))) {
                Ok(o) => o,
                Err(m) => return viol(format!("{}: panicked: {}", what, m)),
            };
            let t = t_ns as f64 * 1e-9;
            finished = out.is_finished();
            for k in 0..7 {
                let d = goal[k] - q0[k];
                let want = q0[k] + pl.at(t, k, d, speed);
                ensure!((out.q[k] - want).abs() < 1e-6, "{}: joint {} is at {} instead of {} after {} s", what, k, out.q[k], want, t);
                let (lo, hi) = (q0[k].min(goal[k]) - 1e-6, q0[k].max(goal[k]) + 1e-6);
                ensure!(out.q[k] >= lo && out.q[k] <= hi, "{}: joint {} leaves the interval at {} s: {}", what, k, t, out.q[k]);
                if let Some(p) = prev {
                    ensure!((out.q[k] - p[k]) * d.signum() >= -1e-9, "{}: joint {} turns back at {} s", what, k, t);
                    let v = (out.q[k] - p[k]) / (dt_ms as f64 * DTM);
                    ensure!(v.abs() <= VMAX[k] * speed * (1. + 1e-6) + 1e-6, "{}: joint {} moves with {} rad/s at {} s", what, k, v, t);
                    if let Some((pv, pdt)) = prev_v {
                        let a = (v - pv[k]) / ((dt_ms as f64 * DTM + pdt) / 2.);
                        ensure!(a.abs() <= AMAX * speed * 1.01 + 1e-3, "{}: joint {} accelerates with {} rad/s^2 at {} s", what, k, a, t);
                    }
                }
                if finished {
                    let want = if pl.moving[k] { goal[k] } else { q0[k] };
                    ensure!((out.q[k] - want).abs() < 1e-9, "{}: joint {} ends at {} instead of {}", what, k, out.q[k], want);
                }
            }
            if finished {
                ensure!(t >= pl.t_f - 1e-6, "{}: finished after {} s, planned are {} s", what, t, pl.t_f);
            } else {
                ensure!(t <= pl.t_f + 1e-6, "{}: not finished after {} s, planned are {} s", what, t, pl.t_f);
            }
            if let (Some(p), true) = (prev, dt_ms > 0) {
                let mut v = [0.; 7];
                for k in 0..7 {
                    v[k] = (out.q[k] - p[k]) / (dt_ms as f64 * DTM);
                }
                prev_v = Some((v, dt_ms as f64 * DTM));
            }
            prev = Some(out.q);
            steps += 1;
            dt_ms = if jitter { ctx.rng.range(1, 5) as u64 * step } else { step };
            ctx.eval();
        }
        // asked again after the end it holds the goal
        for _ in 0..4 {
            let mut s = st.clone();
            s.q_d = prev.unwrap();
            let dt = Duration::from_millis(*ctx.rng.pick(&[1, 1, 10, 1500, 60_000]));
            let out = match guarded(|| gen.generate_motion(&s, &dt)) {
                Ok(o) => o,
                Err(m) => return viol(format!("{}: panicked after the end: {}", what, m)),
            };
            ensure!(out.is_finished(), "{}: no longer finished after the end", what);
            ensure!(rm::max_diff(&out.q, &prev.unwrap()) < 1e-9, "{}: {:?} after the end at {:?}", what, out.q, prev);
            ctx.eval();
        }
        ctx.events(steps);
        ctx.hit(["no motion", "tiny motions", "one joint", "equal distances", "random"][kind]);
        ctx.sig((speed.to_bits(), goal[0].to_bits()));
        if case == 0 {
            ctx.sample(format!("{}: {} steps, planned {} s", what, steps, pl.t_f));
        }
    }
    Ok(())
}
const DTM: f64 = 1e-3;

// ------------------------------------------------------------------ C19
pub fn c19(ctx: &mut Ctx) -> Res<()> {
    for n in 0..300 {
        let scale = *ctx.rng.pick(&[0., 1., 1e3]);
        let p = random_pose(&mut ctx.rng, scale);
        let iso = match guarded(|| array_to_isometry(&p)) {
            Ok(i) => i,
            Err(m) => return viol(format!("array_to_isometry({:?}) panicked: {}", p, m)),
        };
        // the transformation acts on points like the matrix does
        let x: rm::V3 = ctx.rng.arr(-2., 2.);
        let y = iso * nalgebra::Point3::new(x[0], x[1], x[2]);
        for r in 0..3 {
            let want = p[r] * x[0] + p[4 + r] * x[1] + p[8 + r] * x[2] + p[12 + r];
            ensure!((y[r] - want).abs() < 1e-8 * (1. + want.abs()), "array_to_isometry({:?}) maps {:?} to {:?}, coordinate {} should be {}", p, x, y, r, want);
        }
        let q = iso.rotation.quaternion();
        ensure!((q.norm() - 1.).abs() < 1e-9, "array_to_isometry({:?}) has a quaternion of norm {}", p, q.norm());
        // and back
        let back = CartesianPose::from(iso);
        ensure!(rm::max_diff(&back.O_T_EE, &p) < 1e-8 * (1. + rm::norm(&rm::trans(&p))), "{:?} becomes {:?} via an isometry", p, back.O_T_EE);
        ensure!(rm::homogeneous(&back.O_T_EE, 1e-8), "pose from an isometry is no homogeneous transformation: {:?}", back.O_T_EE);
        ensure!(back.elbow.is_none() && !back.is_finished(), "pose from an isometry has an elbow or is finished");
        let arr = CartesianPose::from(p);
        ensure!(arr.O_T_EE == p && arr.elbow.is_none() && !arr.is_finished(), "pose from an array differs: {:?}", arr);
        // isometry -> array -> isometry
        let w: rm::V3 = ctx.rng.arr(-PI / 1.8, PI / 1.8);
        let qq = rm::qexp(&w);
        let t: rm::V3 = ctx.rng.arr(-1., 1.);
        let iso2 = Isometry3::from_parts(Translation3::new(t[0], t[1], t[2]), UnitQuaternion::from_quaternion(Quaternion::new(qq[0], qq[1], qq[2], qq[3])));
        let a = CartesianPose::from(iso2).O_T_EE;
        ensure!(rm::max_diff(&a, &rm::pose(&qq, &t)) < 1e-9, "CartesianPose::from of rotation {:?} translation {:?} is {:?}", qq, t, a);
        let b = array_to_isometry(&a);
        ensure!(iso2.rotation.angle_to(&b.rotation) < 1e-6 && (iso2.translation.vector - b.translation.vector).norm() < 1e-9, "isometry {:?} becomes {:?}", iso2, b);
        ctx.evals(6);
        ctx.events(3);
        ctx.sig((p[0].to_bits(), p[5].to_bits()));
        let ang = rm::norm(&rm::qlog(&rm::qmat(&p)));
        ctx.hit(if ang > PI - 1e-5 {
            "half turn"
        } else if ang < 1e-5 {
            "no rotation"
        } else {
            "generic rotation"
        });
        if n == 0 {
            ctx.sample(format!("{:?}", p));
        }
        // slightly inexact matrices, as a robot reports them, give the nearby rotation
        let mut noisy = p;
        for k in [0, 1, 2, 4, 5, 6, 8, 9, 10] {
            noisy[k] += ctx.rng.uni(-1e-6, 1e-6);
        }
        let near = array_to_isometry(&noisy);
        ensure!((near.rotation.quaternion().norm() - 1.).abs() < 1e-9, "inexact matrix {:?} becomes a quaternion of norm {}", noisy, near.rotation.quaternion().norm());
        let near = near.to_homogeneous();
        let mut flat = [0.; 16];
        flat.copy_from_slice(near.as_slice());
        ensure!(rm::homogeneous(&flat, 1e-9), "inexact matrix {:?} becomes no rotation: {:?}", noisy, flat);
        ensure!(CartesianPose::from(noisy).O_T_EE == noisy, "pose from an inexact array differs");
        ensure!(rm::max_diff(near.as_slice(), &p) < 1e-4 * (1. + rm::norm(&rm::trans(&p))), "inexact matrix {:?} becomes {:?}", noisy, near);
        ctx.eval();
    }
    // --- vectors
    let v: [f64; 7] = ctx.rng.wild_arr();
    let v7 = Vector7::from_column_slice(&v);
    ensure!(JointPositions::from(v7).q == v && JointVelocities::from(v7).dq == v && Torques::from(v7).tau_J == v, "conversion from a vector changes {:?}", v);
    ensure!(JointPositions::new(v).q == v && !JointPositions::new(v).is_finished() && JointPositions::new(v).motion_finished().is_finished() && JointPositions::new(v).motion_finished().q == v, "JointPositions: {:?}", v);
    ensure!(JointVelocities::new(v).dq == v && !JointVelocities::new(v).is_finished() && JointVelocities::new(v).motion_finished().is_finished() && JointVelocities::new(v).motion_finished().dq == v, "JointVelocities: {:?}", v);
    ensure!(Torques::new(v).tau_J == v && !Torques::new(v).is_finished() && Torques::new(v).motion_finished().is_finished() && Torques::new(v).motion_finished().tau_J == v, "Torques: {:?}", v);
    let w: [f64; 6] = ctx.rng.wild_arr();
    let cv = CartesianVelocities::from(nalgebra::Vector6::from_column_slice(&w));
    ensure!(cv.O_dP_EE == w && cv.elbow.is_none() && !cv.is_finished() && cv.motion_finished().is_finished(), "CartesianVelocities: {:?}", w);
    let e = [ctx.rng.uni(-1., 1.), 1.];
    ensure!(CartesianPose::new(rm::pose(&[1., 0., 0., 0.], &[0.; 3]), Some(e)).has_elbow() && CartesianVelocities::new(w, Some(e)).has_elbow() && !CartesianVelocities::new(w, None).has_elbow(), "has_elbow");
    for (s, ok) in [(1., true), (-1., true), (0., false), (0.5, false), (-2., false)] {
        ensure!(CartesianPose::is_valid_elbow(&[0.3, s]) == ok, "elbow sign {} valid: {}", s, !ok);
    }
    ctx.evals(7);
    ctx.hit("vector conversions");
    Ok(())
}
