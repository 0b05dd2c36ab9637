//! C20 C21: the model library, with a mock model whose outputs identify function, inputs and file.
use super::tcp::{judge_script, RCmd, N_RCMD};
use crate::ensure;
use crate::fw::*;
use crate::mock::*;
use crate::wire::*;
use franka::exception::FrankaException;
use franka::*;
use std::os::unix::io::AsRawFd;
use std::path::{Path, PathBuf};
use std::sync::Mutex;

pub static MODEL_FILE: Mutex<()> = Mutex::new(());
const PATH: &str = "/tmp/model.so";
/// Sets a model stored by somebody else aside and restores it; cases of parallel checks exclude
/// each other with a lock file.
pub struct FileGuard {
    lock: std::fs::File,
    saved: Option<Vec<u8>>,
}
impl FileGuard {
    pub fn new() -> Res<FileGuard> {
        let lock = match std::fs::OpenOptions::new().create(true).write(true).open("/tmp/.verif-model.lock") {
            Ok(f) => f,
            Err(e) => return harness(format!("lock file: {}", e)),
        };
        if unsafe { libc::flock(lock.as_raw_fd(), libc::LOCK_EX) } != 0 {
            return harness("flock");
        }
        let saved = std::fs::read(PATH).ok();
        let _ = std::fs::remove_file(PATH);
        Ok(FileGuard { lock, saved })
    }
}
impl Drop for FileGuard {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(PATH);
        if let Some(s) = &self.saved {
            let _ = std::fs::write(PATH, s);
        }
        unsafe { libc::flock(self.lock.as_raw_fd(), libc::LOCK_UN) };
    }
}

fn shim(name: &str) -> Res<Vec<u8>> {
    let d = std::env::var("VERIF_SHIM").unwrap_or_else(|_| "/verif/harness/target/shim".into());
    match std::fs::read(format!("{}/{}", d, name)) {
        Ok(b) => Ok(b),
        Err(e) => harness(format!("{}: {}", name, e)),
    }
}
fn find(b: &[u8], pat: &[u8]) -> Option<usize> {
    b.windows(pat.len()).position(|w| w == pat)
}
thread_local! {
    /// models made by this thread: position and value of the salt
    static SALTS: std::cell::RefCell<Vec<(usize, u64)>> = Default::default();
}
/// copies of models made by this thread in /tmp
fn leftovers() -> Vec<String> {
    use std::os::unix::fs::FileExt;
    let salts = SALTS.with(|s| s.borrow().clone());
    let mut v = vec![];
    for e in std::fs::read_dir("/tmp").into_iter().flatten().flatten() {
        if !e.file_type().map_or(false, |t| t.is_file()) || e.path() == Path::new(PATH) {
            continue;
        }
        if let Ok(f) = std::fs::File::open(e.path()) {
            let mut b = [0u8; 24];
            for (p, salt) in &salts {
                if f.read_exact_at(&mut b, *p as u64).is_ok() && &b[..16] == b"VERIF-MODEL-SALT" && b[16..] == salt.to_le_bytes() {
                    v.push(e.path().display().to_string());
                    break;
                }
            }
        }
    }
    v
}
/// the mock model with the given salt
pub fn blob(salt: u64) -> Res<Vec<u8>> {
    let mut b = shim("model.so")?;
    match find(&b, b"VERIF-MODEL-SALT") {
        Some(p) => {
            b[p + 16..p + 24].copy_from_slice(&salt.to_le_bytes());
            SALTS.with(|s| s.borrow_mut().push((p, salt)));
        }
        None => return harness("no salt in the mock model"),
    }
    Ok(b)
}
/// takes a function away from a model
fn rename_symbol(b: &mut [u8], s: &str) -> Res<()> {
    let pat = [b"\0", s.as_bytes(), b"\0"].concat();
    let mut n = 0;
    while let Some(p) = find(b, &pat) {
        b[p + 1] = b'#';
        n += 1;
    }
    if n == 0 {
        return harness(format!("symbol {} not in the mock model", s));
    }
    Ok(())
}
pub fn without_function(b: &mut [u8], rng: &mut Rng) -> Res<()> {
    rename_symbol(b, SYMBOLS[rng.below(SYMBOLS.len() - 1)])
}
/// what the mock model computes
fn reference<const N: usize>(salt: u64, tag: &str, ins: &[&[f64]]) -> [f64; N] {
    let mut h = mix(salt);
    for c in tag.bytes() {
        h = mix(h ^ c as u64);
    }
    for a in ins {
        for x in a.iter() {
            h = mix(h ^ (x + 0.0).to_bits());
        }
    }
    let mut o = [0.; N];
    for i in 0..N {
        o[i] = (mix(h.wrapping_add(i as u64 + 1)) >> 11) as f64 / 9007199254740992.0 * 2.0 - 1.0;
    }
    o
}
pub const SYMBOLS: [&str; 31] = [
    "M_NE", "c_NE", "g_NE", "Ji_J_J1", "Ji_J_J2", "Ji_J_J3", "Ji_J_J4", "Ji_J_J5", "Ji_J_J6", "Ji_J_J7", "Ji_J_J8", "Ji_J_J9", "O_J_J1", "O_J_J2", "O_J_J3", "O_J_J4",
    "O_J_J5", "O_J_J6", "O_J_J7", "O_J_J8", "O_J_J9", "O_T_J1", "O_T_J2", "O_T_J3", "O_T_J4", "O_T_J5", "O_T_J6", "O_T_J7", "O_T_J8", "O_T_J9", "",
];
fn frame(k: usize) -> Frame {
    match k {
        0 => Frame::Joint1,
        1 => Frame::Joint2,
        2 => Frame::Joint3,
        3 => Frame::Joint4,
        4 => Frame::Joint5,
        5 => Frame::Joint6,
        6 => Frame::Joint7,
        7 => Frame::Flange,
        8 => Frame::EndEffector,
        _ => Frame::Stiffness,
    }
}
const FRAME_NAMES: [&str; 10] = ["Joint 1", "Joint 2", "Joint 3", "Joint 4", "Joint 5", "Joint 6", "Joint 7", "Flange", "End-Effector", "Stiffness"];

/// a transform whose products with its like are exact in any order of operations
fn exact_transform(rng: &mut Rng) -> [f64; 16] {
    let mut perm = [0usize, 1, 2];
    rng.shuffle(&mut perm);
    let mut m = [0.; 16];
    let mut sign = [1., 1., 1.];
    sign[0] = *rng.pick(&[1., -1.]);
    sign[1] = *rng.pick(&[1., -1.]);
    // third sign such that the determinant is +1
    let even = matches!(perm, [0, 1, 2] | [1, 2, 0] | [2, 0, 1]);
    sign[2] = sign[0] * sign[1] * if even { 1. } else { -1. };
    for c in 0..3 {
        m[4 * c + perm[c]] = sign[c];
        m[12 + c] = rng.below(257) as f64 / 128.0 - 1.0;
    }
    m[15] = 1.;
    m
}
fn mul(a: &[f64; 16], b: &[f64; 16]) -> [f64; 16] {
    let mut o = [0.; 16];
    for c in 0..4 {
        for r in 0..4 {
            for k in 0..4 {
                o[4 * c + r] += a[4 * k + r] * b[4 * c + k];
            }
        }
    }
    o
}
#[derive(Clone, Debug)]
struct In9 {
    q: [f64; 7],
    dq: [f64; 7],
    f: [f64; 16],
    k: [f64; 16],
    i: [f64; 9],
    m: f64,
    x: [f64; 3],
    g: [f64; 3],
}
fn expect_pose(salt: u64, k: usize, kind: usize, a: &In9) -> Vec<f64> {
    let pre = ["O_T_J", "Ji_J_J", "O_J_J"][kind];
    let stiff = mul(&a.f, &a.k);
    let tag = format!("{}{}", pre, (k + 1).min(9));
    let ins: Vec<&[f64]> = match k {
        0 if kind > 0 => vec![],
        0..=7 => vec![&a.q],
        8 => vec![&a.q, &a.f],
        _ => vec![&a.q, &stiff],
    };
    if kind == 0 {
        reference::<16>(salt, &tag, &ins).to_vec()
    } else {
        reference::<42>(salt, &tag, &ins).to_vec()
    }
}
/// all functions of a model on one input; `st` is a robot state with the same values
fn check_model(salt: u64, m: &Model, a: &In9, st: &RobotState) -> Result<usize, String> {
    let mut n = 0;
    let mut same = |what: &str, got: &[f64], exp: &[f64]| -> Result<(), String> {
        n += 1;
        if bits_eq(got, exp) {
            Ok(())
        } else {
            Err(format!("{}: returned {:?}, the model library computes {:?} for {:?}", what, got, exp, a))
        }
    };
    for k in 0..10 {
        let f = frame(k);
        if format!("{}", f) != FRAME_NAMES[k] {
            return Err(format!("frame {} is displayed as {}", FRAME_NAMES[k], f));
        }
        let e = [expect_pose(salt, k, 0, a), expect_pose(salt, k, 1, a), expect_pose(salt, k, 2, a)];
        same(&format!("pose of {}", f), &m.pose(&f, &a.q, &a.f, &a.k), &e[0])?;
        same(&format!("pose_from_state of {}", f), &m.pose_from_state(&f, st), &e[0])?;
        same(&format!("body_jacobian of {}", f), &m.body_jacobian(&f, &a.q, &a.f, &a.k), &e[1])?;
        same(&format!("body_jacobian_from_state of {}", f), &m.body_jacobian_from_state(&f, st), &e[1])?;
        same(&format!("zero_jacobian of {}", f), &m.zero_jacobian(&f, &a.q, &a.f, &a.k), &e[2])?;
        same(&format!("zero_jacobian_from_state of {}", f), &m.zero_jacobian_from_state(&f, st), &e[2])?;
    }
    let mm = [a.m];
    let e: [f64; 49] = reference(salt, "M_NE", &[&a.q, &a.i, &mm, &a.x]);
    same("mass", &m.mass(&a.q, &a.i, a.m, &a.x), &e)?;
    same("mass_from_state", &m.mass_from_state(st), &e)?;
    let e: [f64; 7] = reference(salt, "c_NE", &[&a.q, &a.dq, &a.i, &mm, &a.x]);
    same("coriolis", &m.coriolis(&a.q, &a.dq, &a.i, a.m, &a.x), &e)?;
    same("coriolis_from_state", &m.coriolis_from_state(st), &e)?;
    let e: [f64; 7] = reference(salt, "g_NE", &[&a.q, &a.g, &mm, &a.x]);
    same("gravity", &m.gravity(&a.q, a.m, &a.x, &a.g), &e)?;
    same("gravity_from_state with explicit gravity", &m.gravity_from_state(st, &a.g), &e)?;
    let e: [f64; 7] = reference(salt, "g_NE", &[&a.q, &[0., 0., -9.81], &mm, &a.x]);
    same("gravity with default", &m.gravity(&a.q, a.m, &a.x, None), &e)?;
    let e: [f64; 7] = reference(salt, "g_NE", &[&a.q, &st.O_ddP_O, &mm, &a.x]);
    same("gravity_from_state with default", &m.gravity_from_state(st, None), &e)?;
    Ok(n)
}
fn gen_in(rng: &mut Rng) -> In9 {
    let q = if rng.bool() { rng.arr(-3., 3.) } else { rng.wild_arr() };
    In9 { q, dq: rng.wild_arr(), f: exact_transform(rng), k: exact_transform(rng), i: rng.wild_arr(), m: if rng.chance(0.1) { 0. } else { rng.uni(0., 5.) }, x: rng.wild_arr(), g: if rng.chance(0.1) { [0.; 3] } else { rng.arr(-10., 10.) } }
}
fn to_state(rng: &mut Rng, a: &In9, st: &mut RobotState) {
    // everything that must not be used gets other values
    st.q_d = rng.arr(-3., 3.);
    st.dq_d = rng.arr(-3., 3.);
    st.theta = rng.arr(-3., 3.);
    st.dtheta = rng.arr(-3., 3.);
    st.I_ee = rng.arr(-3., 3.);
    st.I_load = rng.arr(-3., 3.);
    st.m_ee = rng.uni(0., 9.);
    st.m_load = rng.uni(0., 9.);
    st.F_x_Cee = rng.arr(-1., 1.);
    st.F_x_Cload = rng.arr(-1., 1.);
    st.F_T_NE = exact_transform(rng);
    st.NE_T_EE = exact_transform(rng);
    st.O_T_EE = exact_transform(rng);
    st.O_ddP_O = match rng.below(4) {
        0 => [0.; 3],
        1 => [0., 0., -9.81],
        _ => rng.arr(-12., 12.),
    };
    st.q = a.q;
    st.dq = a.dq;
    st.F_T_EE = a.f;
    st.EE_T_K = a.k;
    st.I_total = a.i;
    st.m_total = a.m;
    st.F_x_Ctotal = a.x;
}
struct Tmp(PathBuf);
impl Drop for Tmp {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
fn tmp(ctx: &Ctx, what: &str, b: &[u8]) -> Res<Tmp> {
    let p = std::env::temp_dir().join(format!("verif-{}-{}-{}.so", what, std::process::id(), ctx.ip));
    match std::fs::write(&p, b) {
        Ok(()) => Ok(Tmp(p)),
        Err(e) => harness(format!("temporary file: {}", e)),
    }
}

/// C20: every model function forwards to the function of the model library it stands for, with
/// exactly its arguments, and returns exactly its result.
pub fn c20(ctx: &mut Ctx) -> Res<()> {
    // enumerated: files which are no complete model
    if ctx.idx < SYMBOLS.len() + 4 {
        let (what, b) = if ctx.idx < SYMBOLS.len() - 1 {
            let s = SYMBOLS[ctx.idx];
            let mut b = blob(1)?;
            rename_symbol(&mut b, s)?;
            (format!("model without {}", s), Some(b))
        } else {
            match ctx.idx - (SYMBOLS.len() - 1) {
                0 => ("empty file".into(), Some(vec![])),
                1 => ("text file".into(), Some(b"not a shared object\n".to_vec())),
                2 => ("missing file".into(), None),
                3 => ("missing libm".into(), Some(blob(1)?)),
                _ => ("no execution format".into(), Some(vec![0x7f; 5000])),
            }
        };
        let t = match &b {
            Some(b) => tmp(ctx, "c20", b)?,
            None => Tmp(Path::new("/nonexistent/verif/model.so").into()),
        };
        let libm = Path::new("/nonexistent/libm.so");
        let lm = if what == "missing libm" { Some(libm) } else { None };
        match guarded(|| Model::new(&t.0, lm).map(|_| ())) {
            Ok(Err(FrankaException::ModelException { .. })) => {}
            Ok(Ok(())) => return viol(format!("{} was accepted as a model", what)),
            Ok(Err(e)) => return viol(format!("{}: {}", what, text(&e))),
            Err(p) => return viol(format!("{}: panicked: {}", what, p)),
        }
        ctx.eval();
        ctx.events(1);
        ctx.hit("incomplete model refused");
        ctx.sig(("bad", ctx.idx));
        return Ok(());
    }
    if ctx.idx % 9 == 4 {
        return lifetimes(ctx);
    }
    let salt = ctx.rng.u64();
    let t = tmp(ctx, "c20", &blob(salt)?)?;
    let m = match guarded(|| Model::new(&t.0, None)) {
        Ok(Ok(m)) => m,
        Ok(Err(e)) => return suspect(format!("a complete model was refused: {}", text(&e))),
        Err(p) => return suspect(format!("loading a model panicked: {}", p)),
    };
    let mut st = if ctx.idx % 8 == 0 {
        // a state that came over the wire
        let mut ses = open_default(ctx)?;
        let call = ses.cli.call(|r| r.read_once());
        match ses.srv.pump_until(&call, State::idle, |_, e| viol(format!("read_once sent {:?}", e)))? {
            Outcome::Ret(Ok(s)) => s,
            Outcome::Ret(Err(e)) => return suspect(format!("read_once: {}", text(&e))),
            _ => return suspect("read_once did not return"),
        }
    } else {
        RobotState::default()
    };
    let reps = if ctx.thorough { 40 } else { 12 };
    for _ in 0..reps {
        let a = gen_in(&mut ctx.rng);
        to_state(&mut ctx.rng, &a, &mut st);
        match guarded(|| check_model(salt, &m, &a, &st)) {
            Ok(Ok(n)) => {
                ctx.evals(n);
                ctx.events(n);
            }
            Ok(Err(e)) => return viol(e),
            Err(p) => return viol(format!("a model function panicked: {}", p)),
        }
        ctx.sig(a.q[0].to_bits());
    }
    ctx.hit("68 model calls compared bitwise");
    ctx.sample(format!("salt {:#x}, {} random inputs, all 10 frames, all dynamics functions, explicit and from state", salt, reps));
    Ok(())
}

/// Several models from different files, used and dropped in any order, on any thread, after their
/// files and the robot are gone.
pub fn lifetimes(ctx: &mut Ctx) -> Res<()> {
    let n = ctx.rng.range(2, 5);
    let mut models: Vec<(u64, Model)> = vec![];
    for k in 0..n {
        let salt = ctx.rng.u64();
        let t = tmp(ctx, &format!("life{}", k), &blob(salt)?)?;
        match guarded(|| Model::new(&t.0, None)) {
            Ok(Ok(m)) => models.push((salt, m)),
            Ok(Err(e)) => return suspect(format!("a complete model was refused: {}", text(&e))),
            Err(p) => return suspect(format!("loading a model panicked: {}", p)),
        }
        // the file is removed here
    }
    let mut rng = Rng::new(ctx.rng.u64());
    let mut order = String::new();
    while !models.is_empty() {
        let k = rng.below(models.len());
        match rng.below(3) {
            0 => {
                drop(models.remove(k));
                order.push('d');
            }
            1 => {
                let (salt, m) = models.remove(k);
                let a = gen_in(&mut rng);
                let mut st = RobotState::default();
                to_state(&mut rng, &a, &mut st);
                let r = std::thread::spawn(move || {
                    let r = guarded(|| check_model(salt, &m, &a, &st));
                    (r, m)
                })
                .join();
                match r {
                    Ok((Ok(Ok(n)), m)) => {
                        ctx.evals(n);
                        ctx.events(n);
                        models.push((salt, m));
                    }
                    Ok((Ok(Err(e)), _)) => return viol(format!("on another thread: {}", e)),
                    _ => return viol("a model function panicked on another thread"),
                }
                order.push('t');
            }
            _ => {
                let a = gen_in(&mut rng);
                let mut st = RobotState::default();
                to_state(&mut rng, &a, &mut st);
                match guarded(|| check_model(models[k].0, &models[k].1, &a, &st)) {
                    Ok(Ok(n)) => {
                        ctx.evals(n);
                        ctx.events(n);
                    }
                    Ok(Err(e)) => return viol(format!("with {} models loaded: {}", models.len(), e)),
                    Err(p) => return viol(format!("a model function panicked: {}", p)),
                }
                order.push('u');
            }
        }
        if order.len() > 25 {
            break;
        }
    }
    ctx.hit("several models, dropped in random order");
    ctx.sig(order);
    Ok(())
}

/// C21: load_model yields exactly the library the robot sent.
pub fn c21(ctx: &mut Ctx) -> Res<()> {
    let _l = MODEL_FILE.lock().unwrap_or_else(|e| e.into_inner());
    let _f = FileGuard::new()?;
    SALTS.with(|s| s.borrow_mut().clear());
    match ctx.idx % 6 {
        3 => several(ctx),
        5 => no_space(ctx),
        _ => history(ctx),
    }?;
    let l = leftovers();
    for f in &l {
        let _ = std::fs::remove_file(f);
    }
    ensure!(l.is_empty(), "copies of the model were left behind: {:?}", l);
    Ok(())
}
fn history(ctx: &mut Ctx) -> Res<()> {
    let mut ses = open_default(ctx)?;
    // salt of the model that should be stored
    let mut stored: Option<(u64, Vec<u8>)> = None;
    let steps = ctx.rng.range(2, 6);
    let mut hist = String::new();
    if ctx.idx >= 2 && ctx.rng.chance(0.15) {
        // stored by an earlier session
        let salt = ctx.rng.u64();
        let b = blob(salt)?;
        if let Err(e) = std::fs::write(PATH, &b) {
            return harness(format!("{}: {}", PATH, e));
        }
        stored = Some((salt, b));
        hist.push('p');
    }
    for k in 0..steps {
        if ctx.rng.chance(0.3) {
            let kind = ctx.rng.below(N_RCMD);
            let c = RCmd::gen(&mut ctx.rng, kind);
            judge_script(ctx, &mut ses, &c)?;
            hist.push('c');
        }
        let persistent = if ctx.idx < 2 { ctx.idx == 1 } else { ctx.rng.bool() };
        if stored.is_none() && ctx.idx >= 2 && ctx.rng.chance(0.08) {
            // stored, but not by this library
            let b: Vec<u8> = match ctx.rng.below(3) {
                0 => vec![],
                1 => (0..ctx.rng.range(1, 5000)).map(|_| ctx.rng.u64() as u8 | 1).collect(),
                _ => {
                    let mut b = blob(1)?;
                    without_function(&mut b, &mut ctx.rng)?;
                    b
                }
            };
            if let Err(e) = std::fs::write(PATH, &b) {
                return harness(format!("{}: {}", PATH, e));
            }
            let p = ses.cli.call(move |r| r.load_model(persistent).map(|_| ()));
            let o = p.wait();
            let what = format!("load_model({}) with a stored file that is no model", persistent);
            match o {
                Outcome::Ret(Err(FrankaException::ModelException { .. })) => {}
                Outcome::Hang => return suspect(format!("{} did not return", what)),
                o => return viol(format!("{}: {}", what, o.kind())),
            }
            ensure!(persistent || !Path::new(PATH).exists(), "{}: it is still stored", what);
            let _ = std::fs::remove_file(PATH);
            ctx.eval();
            ctx.hit("stored file that is no model");
            hist.push('g');
        }
        if stored.is_some() && ctx.rng.chance(0.3) {
            // start over with no stored model
            let _ = std::fs::remove_file(PATH);
            stored = None;
            hist.push('x');
        }
        let a = gen_in(&mut ctx.rng);
        let salt_new = ctx.rng.u64();
        let exp_salt = stored.as_ref().map(|s| s.0).unwrap_or(salt_new);
        let a2 = a.clone();
        let p = ses.cli.call(move |r| {
            let m = r.load_model(persistent)?;
            let mut st = RobotState::default();
            let mut rng = Rng::new(exp_salt);
            to_state(&mut rng, &a2, &mut st);
            // evaluated before the model is dropped
            Ok::<_, FrankaException>(check_model(exp_salt, &m, &a2, &st))
        });
        let mut expect_err = None;
        let mut blob_bytes = vec![];
        if stored.is_none() {
            let req = ses.srv.request()?;
            ensure!(req.cmd == cmd::LOAD_MODEL_LIBRARY, "load_model sent request {}", req.cmd);
            ensure!(req.size == 14 && req.payload == [0, 0], "load_model asks for {:?} (size {}) instead of the x64 Linux library", req.payload, req.size);
            let mut pay = vec![0u8];
            if ctx.rng.chance(0.2) {
                pay[0] = 1;
                expect_err = Some("robot reports an error");
                if ctx.rng.bool() {
                    pay.extend(blob(salt_new)?);
                }
            } else if ctx.rng.chance(0.15) {
                if ctx.rng.bool() {
                    let n = if ctx.rng.chance(0.3) { 0 } else { ctx.rng.range(1, 20000) };
                    blob_bytes = (0..n).map(|_| ctx.rng.u64() as u8 | 1).collect();
                    expect_err = Some(if n == 0 { "empty library" } else { "no shared library" });
                } else {
                    blob_bytes = blob(salt_new)?;
                    let n = ctx.rng.below(30);
                    rename_symbol(&mut blob_bytes, SYMBOLS[n])?;
                    expect_err = Some("library without a function");
                }
                pay.extend(&blob_bytes);
            } else {
                blob_bytes = blob(salt_new)?;
                // the loader ignores what follows the last section: files of any length
                let pad = *ctx.rng.pick(&[0usize, 0, 1, 7, 1000, 8191, 50_000, 300_000, 2_000_000]);
                for _ in 0..pad / 8 {
                    blob_bytes.extend(ctx.rng.u64().to_le_bytes());
                }
                blob_bytes.extend(vec![0xEE; pad % 8]);
                pay.extend(&blob_bytes);
            }
            let mut m = vec![];
            if ctx.rng.chance(0.3) {
                let n = ctx.rng.below(3000);
                m.extend(robot_msg(cmd::SET_LOAD, 3_000_000_000, &vec![1; n]));
            }
            m.extend(robot_msg(cmd::LOAD_MODEL_LIBRARY, req.id, &pay));
            let n = ctx.rng.below(8);
            let mut cuts: Vec<usize> = (0..n).map(|_| ctx.rng.range(1, m.len())).collect();
            if ctx.rng.chance(0.3) {
                cuts.extend([1, 12, 13]);
            }
            cuts.sort();
            let pause = *ctx.rng.pick(&[0u64, 100, 2000]);
            if ctx.rng.chance(0.08) {
                // the robot disappears during the download
                let n = ctx.rng.below(m.len());
                cuts.retain(|c| *c < n);
                m.truncate(n);
                ses.srv.send_pieces(&m, &cuts, pause)?;
                ses.srv.tcp = None;
                match p.wait() {
                    Outcome::Ret(Err(FrankaException::NetworkException { .. })) => {}
                    Outcome::Ret(Ok(_)) => return viol(format!("load_model returned a model after {} bytes of the response", n)),
                    Outcome::Ret(Err(e)) => return viol(format!("load_model with a lost connection: {}", text(&e))),
                    Outcome::Panic(m) => return viol(format!("load_model with a lost connection panicked: {}", m)),
                    Outcome::Hang => return suspect("load_model with a lost connection did not return"),
                }
                ensure!(!Path::new(PATH).exists(), "an incomplete model was stored");
                ctx.eval();
                ctx.hit("connection lost during the download");
                hist.push('l');
                break;
            }
            ses.srv.send_pieces(&m, &cuts, pause)?;
            ctx.events(m.len() / 65536 + 2);
            hist.push(if expect_err.is_some() { 'e' } else { 'd' });
        } else {
            hist.push('s');
        }
        let what = format!("load_model({}) [{}]", persistent, hist);
        match p.wait() {
            Outcome::Ret(Ok(r)) => {
                if let Some(e) = expect_err {
                    return viol(format!("{} returned a model although: {}", what, e));
                }
                if let Err(m) = r {
                    return viol(format!("{}: the loaded model is not the one the robot sent: {}", what, m));
                }
                let f = std::fs::read(PATH).ok();
                if persistent {
                    let want = stored.as_ref().map(|s| &s.1).unwrap_or(&blob_bytes);
                    ensure!(f.as_ref() == Some(want), "{}: the stored model ({:?} bytes) is not the {} bytes the robot sent", what, f.map(|f| f.len()), want.len());
                    if stored.is_none() {
                        stored = Some((salt_new, blob_bytes));
                    }
                } else {
                    ensure!(f.is_none(), "{}: the model is still stored", what);
                    if stored.take().is_some() {
                        ctx.hit("stored model used once more, then removed");
                    }
                }
                ctx.hit(&format!("persistent {} ok", persistent));
            }
            Outcome::Ret(Err(FrankaException::ModelException { message })) => {
                ensure!(expect_err.is_some(), "{} failed although the robot sent a complete model: {}", what, message);
                if expect_err == Some("robot reports an error") {
                    ensure!(!Path::new(PATH).exists(), "{}: a model file was left after the robot refused", what);
                }
                ensure!(!Path::new(PATH).exists(), "{}: an unusable model is still stored", what);
                ctx.hit(expect_err.unwrap());
            }
            Outcome::Ret(Err(e)) => return viol(format!("{}: {}", what, text(&e))),
            Outcome::Panic(m) => return viol(format!("{} panicked: {}", what, m)),
            Outcome::Hang => return suspect(format!("{} did not return", what)),
        }
        if let Some(e) = ses.srv.event(0) {
            return viol(format!("{}: the client sent {:?}", what, e));
        }
        ctx.eval();
        if k == 0 {
            ctx.sample(what);
        }
    }
    ctx.sig(hist);
    Ok(())
}

/// Several robots with different models in one process: at the same time, or one after the other
/// while the models of the others are in use.
fn several(ctx: &mut Ctx) -> Res<()> {
    let n = ctx.rng.range(2, 5);
    let persistent = ctx.rng.chance(0.3);
    let at_once = ctx.idx % 12 == 3 || ctx.rng.bool();
    let octets: Vec<usize> = ctx.ip.split('.').map(|x| x.parse().unwrap_or(1)).collect();
    let what = format!("{} robots load models ({}, persistent {})", n, if at_once { "at the same time" } else { "one after the other" }, persistent);
    let mut robots = vec![];
    for k in 0..n {
        let ip = format!("127.{}.{}.{}", 220 + k * 3 + octets[1] % 3, octets[2], octets[3]);
        let ses = open_robot(&ip, Some(RealtimeConfig::Ignore), None, 1)?;
        let salt = ctx.rng.u64();
        let mut b = blob(salt)?;
        let pad = *ctx.rng.pick(&[0usize, 5000, 1_000_000, 6_000_000]);
        b.extend(std::iter::repeat(salt as u8).take(pad));
        robots.push((ses, salt, b));
    }
    let mut calls = vec![];
    for (k, (ses, salt, b)) in robots.iter_mut().enumerate() {
        if persistent && !at_once {
            // otherwise the stored model of the first robot is used
            let _ = std::fs::remove_file(PATH);
        }
        let salt = *salt;
        let a = gen_in(&mut ctx.rng);
        let (gtx, grx) = std::sync::mpsc::channel::<()>();
        let (ltx, lrx) = std::sync::mpsc::channel::<()>();
        let call = ses.cli.call(move |r| {
            let m = r.load_model(persistent);
            let _ = ltx.send(());
            // the model is used when all robots have loaded theirs
            let _ = grx.recv_timeout(std::time::Duration::from_secs(20));
            let m = m?;
            let mut st = RobotState::default();
            to_state(&mut Rng::new(salt), &a, &mut st);
            Ok::<_, FrankaException>(check_model(salt, &m, &a, &st))
        });
        let req = ses.srv.request()?;
        ensure!(req.cmd == cmd::LOAD_MODEL_LIBRARY, "load_model sent request {}", req.cmd);
        let mut pay = vec![0u8];
        pay.extend(b.iter());
        let msg = robot_msg(cmd::LOAD_MODEL_LIBRARY, req.id, &pay);
        if !at_once {
            ses.srv.send(&msg)?;
            let mut pat = Patience::new(PATIENCE);
            while lrx.recv_timeout(std::time::Duration::from_millis(20)).is_err() {
                if !pat.tick() {
                    return suspect(format!("{}: load_model of robot {} did not return", what, k));
                }
            }
        }
        calls.push((call, gtx, lrx, msg));
    }
    if at_once {
        let hs: Vec<_> = robots
            .iter_mut()
            .zip(calls.iter())
            .map(|((ses, _, _), (_, _, _, msg))| {
                let (mut srv, msg) = (ses.srv.tcp.as_ref().unwrap().try_clone().unwrap(), msg.clone());
                std::thread::spawn(move || std::io::Write::write_all(&mut srv, &msg).is_ok())
            })
            .collect();
        let mut ok = true;
        for h in hs {
            ok &= h.join().unwrap_or(false);
        }
        if !ok {
            return suspect(format!("{}: a model could not be sent", what));
        }
        for (k, c) in calls.iter().enumerate() {
            let mut pat = Patience::new(PATIENCE);
            while c.2.recv_timeout(std::time::Duration::from_millis(20)).is_err() {
                if !pat.tick() {
                    return suspect(format!("{}: load_model of robot {} did not return", what, k));
                }
            }
        }
    }
    for (k, (call, gtx, _, _)) in calls.into_iter().enumerate() {
        let _ = gtx.send(());
        match call.wait() {
            Outcome::Ret(Ok(Ok(n))) => {
                ctx.evals(n);
                ctx.events(n);
            }
            Outcome::Ret(Ok(Err(m))) => return viol(format!("{}: the model of robot {} is not the one it sent: {}", what, k, m)),
            Outcome::Ret(Err(e)) => return viol(format!("{}: robot {}: {}", what, k, text(&e))),
            Outcome::Panic(m) => return viol(format!("{}: robot {}: panicked: {}", what, k, m)),
            Outcome::Hang => return suspect(format!("{}: robot {} did not return", what, k)),
        }
    }
    let f = std::fs::read(PATH).ok();
    if persistent {
        ensure!(f.as_ref().map_or(false, |f| robots.iter().any(|r| &r.2 == f)), "{}: the stored model ({:?} bytes) is none of the models sent", what, f.map(|f| f.len()));
    } else {
        ensure!(f.is_none(), "{}: a model is still stored", what);
    }
    ctx.eval();
    ctx.hit(if at_once { "several robots load at the same time" } else { "several models loaded" });
    ctx.sig((n, persistent, at_once, ctx.idx));
    ctx.sample(what);
    Ok(())
}

/// No file of this process gets longer than the given length while this exists.
struct FileLimit(libc::rlimit);
impl FileLimit {
    fn new(n: u64) -> FileLimit {
        unsafe {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let mut old: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
            libc::setrlimit(libc::RLIMIT_FSIZE, &libc::rlimit { rlim_cur: n, rlim_max: old.rlim_max });
            FileLimit(old)
        }
    }
}
impl Drop for FileLimit {
    fn drop(&mut self) {
        unsafe { libc::setrlimit(libc::RLIMIT_FSIZE, &self.0) };
    }
}
/// A model that cannot be stored completely is not used and not kept.
fn no_space(ctx: &mut Ctx) -> Res<()> {
    let mut ses = open_default(ctx)?;
    let persistent = ctx.rng.bool();
    let salt = ctx.rng.u64();
    let mut b = blob(salt)?;
    b.extend(vec![7; ctx.rng.below(50_000)]);
    let room = if ctx.rng.chance(0.2) { 0 } else { ctx.rng.below(b.len()) };
    let what = format!("load_model({}) of {} bytes with space for {}", persistent, b.len(), room);
    for attempt in 0..2 {
        let limit = if attempt == 0 { Some(FileLimit::new(room as u64)) } else { None };
        let a = gen_in(&mut ctx.rng);
        let p = ses.cli.call(move |r| {
            let m = r.load_model(persistent)?;
            let mut st = RobotState::default();
            to_state(&mut Rng::new(salt), &a, &mut st);
            Ok::<_, FrankaException>(check_model(salt, &m, &a, &st))
        });
        let req = match ses.srv.request() {
            Ok(r) => r,
            Err(e) if attempt == 0 => return Err(e),
            Err(_) => match p.wait() {
                Outcome::Ret(Err(e)) => return viol(format!("{}: a later load_model with enough space fails without a download: {}", what, text(&e))),
                _ => return suspect(format!("{}: a later load_model does not download the model", what)),
            },
        };
        let mut pay = vec![0u8];
        pay.extend(b.iter());
        ses.srv.respond(cmd::LOAD_MODEL_LIBRARY, req.id, &pay)?;
        let o = p.wait();
        drop(limit);
        match (o, attempt) {
            (Outcome::Ret(Err(FrankaException::ModelException { .. })), 0) => {
                ensure!(!Path::new(PATH).exists(), "{}: an incomplete model was stored", what);
            }
            (Outcome::Ret(Ok(Ok(n))), _) if attempt == 1 => {
                ctx.evals(n);
                let f = std::fs::read(PATH).ok();
                ensure!(f == if persistent { Some(b.clone()) } else { None }, "{}: after a later load_model with enough space {:?} bytes are stored", what, f.map(|f| f.len()));
            }
            (Outcome::Ret(Ok(_)), _) if attempt == 0 => return viol(format!("{}: returned a model", what)),
            (Outcome::Ret(Ok(Err(m))), _) => return viol(format!("{}: a later load_model returned another model: {}", what, m)),
            (Outcome::Ret(Err(e)), _) => return viol(format!("{} (attempt {}): {}", what, attempt, text(&e))),
            (Outcome::Panic(m), _) => return viol(format!("{} (attempt {}): panicked: {}", what, attempt, m)),
            (Outcome::Ret(Ok(_)), _) => {}
            (Outcome::Hang, _) => return suspect(format!("{}: did not return", what)),
        }
        ctx.eval();
        ctx.events(2);
    }
    ctx.hit("no space for the model");
    ctx.sig((persistent, room, b.len()));
    ctx.sample(what);
    Ok(())
}
