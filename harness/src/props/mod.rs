pub mod ctl;
pub mod limits;
pub mod math;
pub mod mem;
pub mod model;
pub mod multi;
pub mod rt;
pub mod state;
pub mod tcp;
use crate::fw::Prop;

const NET: &[&str] = &[
    "the robot is played by an in-process mock that speaks the wire format over loopback sockets; its codec is written independently of the library",
    "bounded patience: a call is taken to hang after 8 s of scheduled time, repeated three times",
];
const RUN: &str = "exploration";

macro_rules! p {
    ($v:ident, $id:expr, $case:path, $sys:expr, $w:expr, $q:expr, $t:expr, $max:expr, $rule:expr) => {
        $v.push(Prop { id: $id, rule: $rule, level: RUN, systematic: $sys, workers: $w, quick_s: $q, thorough_s: $t, max_cases_quick: $max, assumptions: NET, case: $case });
    };
}
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    // id, case, enumerated cases, workers, quick seconds, thorough seconds, quick case limit, what counts as distinct
    p!(v, "C01", tcp::c01, 60, 6, 20.0, 300.0, 1200, "distinct (command, status, foreign responses before/after, number of stream cuts, pause)");
    p!(v, "C02", tcp::c02, 61, 6, 20.0, 300.0, 5000, "distinct (command, argument values) requests decoded on the wire");
    p!(v, "C03", tcp::c03, 61, 6, 20.0, 300.0, 2500, "distinct (gripper command, status, stream shape) and gripper states");
    p!(v, "C04", tcp::c04, 60, 6, 20.0, 200.0, 3000, "distinct (endpoint, outcome, version, segmentation) handshakes");
    p!(v, "C05", state::c05, 130, 6, 20.0, 300.0, 1500, "distinct robot states decoded");
    p!(v, "C06", state::c06, 60, 6, 25.0, 300.0, 4000, "distinct datagram histories (bursts of fresh, stale, duplicate, malformed datagrams)");
    p!(v, "C07", tcp::c07, 96, 12, 30.0, 300.0, 500, "distinct (operation, kind of loss, bytes received before it)");
    p!(v, "C08", ctl::c08, 60, 6, 25.0, 300.0, 2000, "distinct motion session histories");
    p!(v, "C09", ctl::c09, 45, 6, 25.0, 300.0, 4000, "distinct (interface, state/command history)");
    p!(v, "C10", ctl::c10, 96, 8, 25.0, 300.0, 3000, "distinct (interface, kind of abort, status, order of response and state, robot mode)");
    p!(v, "C11", ctl::c11, 72, 8, 25.0, 300.0, 3000, "distinct (log size, motion length, interface, abort)");
    p!(v, "C12", ctl::c12, 135, 8, 25.0, 300.0, 6000, "distinct (interface, option, kind of bad value, cycle)");
    p!(v, "C13", limits::c13, 40, 8, 25.0, 300.0, 2500, "distinct limited command series");
    p!(v, "C14", limits::c14, 32, 8, 25.0, 300.0, 2500, "distinct limited command series");
    p!(v, "C15", math::c15, 40, 6, 15.0, 200.0, 30000, "distinct filter inputs");
    p!(v, "C16", limits::c16, 54, 8, 25.0, 300.0, 4000, "distinct (interface, cutoff, command series)");
    p!(v, "C17", ctl::c17, 45, 6, 25.0, 300.0, 4000, "distinct (interface, value class, length) command series");
    p!(v, "C18", math::c18, 40, 6, 20.0, 300.0, 12000, "distinct (speed, start, goal) profiles");
    p!(v, "C19", math::c19, 40, 6, 15.0, 200.0, 30000, "distinct poses");
    p!(v, "C20", model::c20, 43, 6, 15.0, 200.0, 10000, "distinct model inputs");
    p!(v, "C21", model::c21, 30, 2, 20.0, 250.0, 600, "distinct histories of load, store, error, reuse");
    p!(v, "C22", rt::c22, rt::SYSTEMATIC, 8, 25.0, 200.0, 181, "distinct (configuration, system facilities, interface)");
    p!(v, "C23", ctl::c23, 40, 14, 25.0, 300.0, 300, "distinct session histories");
    p!(v, "C24", state::c24, 60, 6, 15.0, 200.0, 1500, "distinct load combinations");
    p!(v, "C25", limits::c25, 20, 8, 25.0, 300.0, 1500, "distinct (speed, start, goal) motions");
    p!(v, "C26", mem::c26, 160, 8, 25.0, 400.0, 1000, "distinct (kind of hostile input, operation, size, outcome) and inputs of the other workloads");
    p!(v, "C27", mem::c27, 60, 1, 25.0, 300.0, 600, "distinct rounds of operations");
    p!(v, "C28", mem::c28, 88, 8, 25.0, 300.0, 1500, "distinct (workload, history) under signals");
    p!(v, "C29", multi::c29, 36, 4, 25.0, 300.0, 600, "distinct histories of the workloads that share a thread");
    p!(v, "C30", multi::c30, 54, 2, 20.0, 150.0, 200, "distinct (interface, options, log size) and kinds of waiting");
    v
}
