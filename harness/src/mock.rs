//! Mock robot / gripper endpoints and the client actor that runs the library under test.
use crate::fw::*;
use crate::wire::*;
use crate::ensure;
use franka::exception::FrankaException;
use franka::*;
use std::collections::VecDeque;
use std::io::Write;
use std::net::{SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::os::unix::io::AsRawFd;
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- patience
/// Counts only ticks during which this thread really ran on time, so that a stalled machine does
/// not look like a hanging library.
pub struct Patience {
    left: u32,
    last: Instant,
}
pub const TICK_MS: u64 = 20;
impl Patience {
    pub fn new(secs: f64) -> Self {
        Patience { left: (secs * 1000.0 / TICK_MS as f64) as u32, last: Instant::now() }
    }
    /// call at most every TICK_MS; false when patience has run out
    pub fn tick(&mut self) -> bool {
        let e = self.last.elapsed();
        if e < Duration::from_millis(TICK_MS) {
            return true;
        }
        self.last = Instant::now();
        if e > Duration::from_millis(10 * TICK_MS) {
            return true; // we were not scheduled: does not count
        }
        if self.left == 0 {
            return false;
        }
        self.left -= 1;
        true
    }
}
pub const PATIENCE: f64 = 8.0;

// ---------------------------------------------------------------- client actor
#[derive(Debug)]
pub enum Outcome<R> {
    Ret(R),
    Panic(String),
    Hang,
}
impl<R> Outcome<R> {
    pub fn kind(&self) -> &'static str {
        match self {
            Outcome::Ret(_) => "returned",
            Outcome::Panic(_) => "panicked",
            Outcome::Hang => "hangs",
        }
    }
}
pub struct Pending<R> {
    rx: Receiver<Result<R, String>>,
}
impl<R> Pending<R> {
    pub fn poll(&self) -> Option<Outcome<R>> {
        match self.rx.try_recv() {
            Ok(Ok(r)) => Some(Outcome::Ret(r)),
            Ok(Err(p)) => Some(Outcome::Panic(p)),
            Err(std::sync::mpsc::TryRecvError::Empty) => None,
            Err(_) => Some(Outcome::Panic("client thread ended".into())),
        }
    }
    pub fn wait(&self) -> Outcome<R> {
        self.wait_s(PATIENCE)
    }
    pub fn wait_s(&self, secs: f64) -> Outcome<R> {
        let mut p = Patience::new(secs);
        loop {
            match self.rx.recv_timeout(Duration::from_millis(TICK_MS)) {
                Ok(Ok(r)) => return Outcome::Ret(r),
                Ok(Err(s)) => return Outcome::Panic(s),
                Err(RecvTimeoutError::Timeout) => {
                    if !p.tick() {
                        return Outcome::Hang;
                    }
                }
                Err(_) => return Outcome::Panic("client thread ended".into()),
            }
        }
    }
}
type Job<T> = Box<dyn FnOnce(&mut T) + Send>;
enum Home<T> {
    /// a thread of its own
    Own(Sender<Job<T>>),
    /// a thread that several objects share
    Shared(shared::Client, std::marker::PhantomData<fn(T)>),
}
pub struct Actor<T>(Home<T>);
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| panic_text(&e))
}
impl<T: 'static> Actor<T> {
    pub fn spawn<F>(make: F) -> (Actor<T>, Pending<FrankaResult<()>>)
    where
        F: FnOnce() -> FrankaResult<T> + Send + 'static,
    {
        let (rtx, rrx) = channel();
        // the new object, if there is one
        let create = move || match guarded(make) {
            Ok(Ok(o)) => {
                let _ = rtx.send(Ok(Ok(())));
                Some(o)
            }
            Ok(Err(e)) => {
                let _ = rtx.send(Ok(Err(e)));
                None
            }
            Err(p) => {
                let _ = rtx.send(Err(p));
                None
            }
        };
        if let Some(c) = shared::client() {
            c.job(Box::new(move |_| create().map(|o| Box::new(o) as Box<dyn std::any::Any>)));
            return (Actor(Home::Shared(c, std::marker::PhantomData)), Pending { rx: rrx });
        }
        let (tx, rx) = channel::<Job<T>>();
        std::thread::spawn(move || {
            let _target = storm::Target::new();
            let mut obj = match create() {
                Some(o) => o,
                None => return,
            };
            while let Ok(job) = rx.recv() {
                job(&mut obj);
            }
        });
        (Actor(Home::Own(tx)), Pending { rx: rrx })
    }
    pub fn call<R: Send + 'static>(&self, f: impl FnOnce(&mut T) -> R + Send + 'static) -> Pending<R> {
        let (rtx, rrx) = channel();
        match &self.0 {
            Home::Own(tx) => {
                let _ = tx.send(Box::new(move |o: &mut T| {
                    let _ = rtx.send(guarded(|| f(o)));
                }));
            }
            Home::Shared(c, _) => c.job(Box::new(move |o| {
                let mut o = o?;
                if let Some(t) = o.downcast_mut::<T>() {
                    let _ = rtx.send(guarded(|| f(t)));
                }
                Some(o)
            })),
        }
        Pending { rx: rrx }
    }
}
impl<T> Drop for Actor<T> {
    fn drop(&mut self) {
        if let Home::Shared(c, _) = &self.0 {
            c.job(Box::new(|_| None));
        }
    }
}

/// One thread that runs the calls of several objects: one after the other, and inside of the
/// callbacks of each other.
pub mod shared {
    use std::any::Any;
    use std::cell::{Cell, RefCell};
    use std::collections::{HashMap, HashSet, VecDeque};
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::sync::mpsc::{channel, Receiver, Sender};
    use std::sync::Arc;
    type Obj = Box<dyn Any>;
    type Work = Box<dyn FnOnce(Option<Obj>) -> Option<Obj> + Send>;
    #[derive(Clone)]
    pub struct Executor {
        tx: Sender<(usize, Work)>,
        next: Arc<AtomicUsize>,
        /// calls that were run inside of a callback of another object
        pub nested: Arc<AtomicUsize>,
    }
    pub struct Client(usize, Executor);
    impl Client {
        pub fn job(&self, w: Work) {
            let _ = self.1.tx.send((self.0, w));
        }
    }
    struct Here {
        rx: Receiver<(usize, Work)>,
        waiting: RefCell<VecDeque<(usize, Work)>>,
        objects: RefCell<HashMap<usize, Obj>>,
        busy: RefCell<HashSet<usize>>,
        nested: Arc<AtomicUsize>,
        clock: Cell<usize>,
    }
    thread_local! {
        static HERE: RefCell<Option<std::rc::Rc<Here>>> = RefCell::new(None);
        static JOIN: RefCell<Option<Executor>> = RefCell::new(None);
    }
    impl Here {
        fn run_one(&self) -> bool {
            while let Ok(w) = self.rx.try_recv() {
                self.waiting.borrow_mut().push_back(w);
            }
            let pos = self.waiting.borrow().iter().position(|(id, _)| !self.busy.borrow().contains(id));
            let (id, w) = match pos.and_then(|p| self.waiting.borrow_mut().remove(p)) {
                Some(x) => x,
                None => return false,
            };
            let o = self.objects.borrow_mut().remove(&id);
            self.busy.borrow_mut().insert(id);
            let o = w(o);
            self.busy.borrow_mut().remove(&id);
            if let Some(o) = o {
                self.objects.borrow_mut().insert(id, o);
            }
            true
        }
    }
    impl Executor {
        pub fn start() -> Executor {
            let (tx, rx) = channel::<(usize, Work)>();
            let nested = Arc::new(AtomicUsize::new(0));
            let n2 = nested.clone();
            std::thread::spawn(move || {
                let here = std::rc::Rc::new(Here { rx, waiting: Default::default(), objects: Default::default(), busy: Default::default(), nested: n2, clock: Cell::new(0) });
                HERE.with(|h| *h.borrow_mut() = Some(here.clone()));
                while let Ok(w) = here.rx.recv() {
                    here.waiting.borrow_mut().push_back(w);
                    while here.run_one() {}
                }
            });
            Executor { tx, next: Arc::new(AtomicUsize::new(0)), nested }
        }
        /// objects created by this thread live on the executor from now on
        pub fn join(&self) {
            JOIN.with(|j| *j.borrow_mut() = Some(self.clone()));
        }
    }
    pub fn client() -> Option<Client> {
        JOIN.with(|j| j.borrow().as_ref().map(|e| Client(e.next.fetch_add(1, Ordering::SeqCst), e.clone())))
    }
    /// called in callbacks: gives the calls of other objects on this thread a chance
    pub fn callback() {
        let here = match HERE.with(|h| h.borrow().clone()) {
            Some(h) => h,
            None => return,
        };
        here.clock.set(here.clock.get() + 1);
        if here.clock.get() % 2 == 0 {
            return;
        }
        if here.run_one() {
            here.nested.fetch_add(1, Ordering::Relaxed);
        }
    }
}

// ---------------------------------------------------------------- signals
/// Sends signals to the threads that run the library, which a handler catches and ignores.
pub mod storm {
    use std::collections::BTreeSet;
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
    use std::sync::Mutex;
    use std::time::Duration;
    static ON: AtomicBool = AtomicBool::new(false);
    static TARGETS: Mutex<BTreeSet<i32>> = Mutex::new(BTreeSet::new());
    static CAUGHT: AtomicU64 = AtomicU64::new(0);
    extern "C" fn handler(_: libc::c_int) {
        CAUGHT.fetch_add(1, Ordering::Relaxed);
    }
    pub struct Target(Option<i32>);
    impl Target {
        pub fn new() -> Target {
            if !ON.load(Ordering::Relaxed) {
                return Target(None);
            }
            let tid = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
            TARGETS.lock().unwrap().insert(tid);
            Target(Some(tid))
        }
    }
    impl Drop for Target {
        fn drop(&mut self) {
            if let Some(t) = self.0 {
                TARGETS.lock().unwrap().remove(&t);
            }
        }
    }
    /// signals caught so far
    pub fn caught() -> u64 {
        CAUGHT.load(Ordering::Relaxed)
    }
    /// begins to send signals
    pub fn start() {
        if ON.swap(true, Ordering::SeqCst) {
            return;
        }
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = handler as *const () as usize;
            // half of the signals ask for system calls to be restarted
            libc::sigaction(libc::SIGUSR1, &a, std::ptr::null_mut());
            a.sa_flags = libc::SA_RESTART;
            libc::sigaction(libc::SIGUSR2, &a, std::ptr::null_mut());
        }
        std::thread::spawn(|| {
            let pid = std::process::id() as libc::c_long;
            let mut n = 0u64;
            loop {
                for t in TARGETS.lock().unwrap().iter() {
                    unsafe { libc::syscall(libc::SYS_tgkill, pid, *t as libc::c_long, if n % 2 == 0 { libc::SIGUSR1 } else { libc::SIGUSR2 } as libc::c_long) };
                }
                n += 1;
                std::thread::sleep(Duration::from_micros(30 + crate::fw::mix(n) % 900));
            }
        });
    }
}

// ---------------------------------------------------------------- server
#[derive(Clone, Debug)]
pub struct Req {
    pub cmd: u32,
    pub id: u32,
    pub size: u32,
    pub payload: Vec<u8>,
}
#[derive(Debug)]
pub enum In {
    Req(Req),
    Cmd(Command),
    BadUdp(usize),
    Closed,
}
pub struct Server {
    pub ip: String,
    gripper: bool,
    pub listener: Option<TcpListener>,
    pub tcp: Option<TcpStream>,
    pub udp: UdpSocket,
    pub peer: SocketAddr,
    rx: Vec<u8>,
    q: VecDeque<In>,
    closed: bool,
    pub last_id: u64,
    pub advertised_port: u16,
    pub connect_req: Option<Req>,
}
fn io<T>(what: &str, r: std::io::Result<T>) -> Res<T> {
    r.map_err(|e| Fail::Harness(format!("{}: {}", what, e)))
}
pub fn poll_fds(fds: &mut [libc::pollfd], ms: i32) {
    unsafe {
        libc::poll(fds.as_mut_ptr(), fds.len() as libc::nfds_t, ms);
    }
}
impl Server {
    pub fn bind(ip: &str, gripper: bool) -> Res<Server> {
        let port = if gripper { 1338 } else { 1337 };
        let listener = io("listen", TcpListener::bind((ip, port)))?;
        io("nonblocking", listener.set_nonblocking(true))?;
        let udp = io("udp", UdpSocket::bind((ip, 0)))?;
        io("nonblocking", udp.set_nonblocking(true))?;
        Ok(Server {
            ip: ip.into(),
            gripper,
            listener: Some(listener),
            tcp: None,
            udp,
            peer: "127.0.0.1:9".parse().unwrap(),
            rx: vec![],
            q: VecDeque::new(),
            closed: false,
            last_id: 0,
            advertised_port: 0,
            connect_req: None,
        })
    }
    pub fn accept(&mut self) -> Res<()> {
        let mut p = Patience::new(PATIENCE);
        loop {
            match self.listener.as_ref().unwrap().accept() {
                Ok((s, a)) => {
                    io("blocking", s.set_nonblocking(false))?;
                    let _ = s.set_nodelay(true);
                    let _ = s.set_write_timeout(Some(Duration::from_secs(10)));
                    self.peer = SocketAddr::new(a.ip(), 9);
                    self.tcp = Some(s);
                    return Ok(());
                }
                Err(_) => {
                    let mut f = [libc::pollfd { fd: self.listener.as_ref().unwrap().as_raw_fd(), events: libc::POLLIN, revents: 0 }];
                    poll_fds(&mut f, TICK_MS as i32);
                    if !p.tick() {
                        return suspect("client never connected");
                    }
                }
            }
        }
    }
    fn hdr(&self) -> usize {
        if self.gripper {
            10
        } else {
            12
        }
    }
    fn pump(&mut self) {
        if let Some(t) = &self.tcp {
            let mut buf = [0u8; 4096];
            while !self.closed {
                let n = unsafe { libc::recv(t.as_raw_fd(), buf.as_mut_ptr() as *mut libc::c_void, buf.len(), libc::MSG_DONTWAIT) };
                if n > 0 {
                    self.rx.extend_from_slice(&buf[..n as usize]);
                } else if n == 0 {
                    self.closed = true;
                    self.q.push_back(In::Closed);
                } else {
                    let e = std::io::Error::last_os_error();
                    if e.kind() != std::io::ErrorKind::WouldBlock && e.kind() != std::io::ErrorKind::Interrupted {
                        self.closed = true;
                        self.q.push_back(In::Closed);
                    }
                    break;
                }
            }
        }
        loop {
            let h = self.hdr();
            if self.rx.len() < h {
                break;
            }
            let mut r = Rd(&self.rx, 0);
            let cmd = if self.gripper { r.u16() as u32 } else { r.u32() };
            let id = r.u32();
            let size = r.u32();
            let total = (size as usize).clamp(h, 1 << 16);
            if self.rx.len() < total {
                break;
            }
            let payload = self.rx[h..total].to_vec();
            self.rx.drain(..total);
            self.q.push_back(In::Req(Req { cmd, id, size, payload }));
        }
        let mut b = [0u8; 4096];
        while let Ok((n, _)) = self.udp.recv_from(&mut b) {
            match Command::decode(&b[..n]) {
                Some(c) => self.q.push_back(In::Cmd(c)),
                None => self.q.push_back(In::BadUdp(n)),
            }
        }
    }
    /// unconsumed bytes which do not form a request yet
    pub fn partial_len(&self) -> usize {
        self.rx.len()
    }
    pub fn event(&mut self, ms: u64) -> Option<In> {
        if let Some(e) = self.q.pop_front() {
            return Some(e);
        }
        self.pump();
        if let Some(e) = self.q.pop_front() {
            return Some(e);
        }
        if ms > 0 {
            let tfd = if self.closed { -1 } else { self.tcp.as_ref().map(|t| t.as_raw_fd()).unwrap_or(-1) };
            let mut f = [
                libc::pollfd { fd: self.udp.as_raw_fd(), events: libc::POLLIN, revents: 0 },
                libc::pollfd { fd: tfd, events: libc::POLLIN, revents: 0 },
            ];
            poll_fds(&mut f, ms as i32);
            self.pump();
            return self.q.pop_front();
        }
        None
    }
    /// next TCP request; UDP commands seen meanwhile are an error of the library
    pub fn request(&mut self) -> Res<Req> {
        let mut p = Patience::new(PATIENCE);
        loop {
            match self.event(TICK_MS) {
                Some(In::Req(r)) => return Ok(r),
                Some(In::Cmd(c)) => return viol(format!("unexpected UDP command (message id {}) while no motion runs", c.id)),
                Some(In::BadUdp(n)) => return viol(format!("UDP datagram of {} bytes sent by the client", n)),
                Some(In::Closed) => return suspect("client closed the connection instead of sending a request"),
                None => {
                    if !p.tick() {
                        return suspect(format!("no request arrived ({} unparsed bytes)", self.rx.len()));
                    }
                }
            }
        }
    }
    pub fn send(&mut self, b: &[u8]) -> Res<()> {
        match self.tcp.as_mut().unwrap().write_all(b) {
            Ok(()) => Ok(()),
            Err(e) => suspect(format!("robot side could not send TCP data: {}", e)),
        }
    }
    /// send in pieces; `cuts` are byte positions, `pause_us` between the pieces
    pub fn send_pieces(&mut self, b: &[u8], cuts: &[usize], pause_us: u64) -> Res<()> {
        let mut pos = 0;
        for &c in cuts.iter().chain(std::iter::once(&b.len())) {
            if c > pos && c <= b.len() {
                self.send(&b[pos..c])?;
                pos = c;
                if pos < b.len() && pause_us > 0 {
                    std::thread::sleep(Duration::from_micros(pause_us));
                }
            }
        }
        Ok(())
    }
    pub fn respond(&mut self, cmd: u32, id: u32, payload: &[u8]) -> Res<()> {
        let m = robot_msg(cmd, id, payload);
        self.send(&m)
    }
    /// from now on states come from another port of the robot
    pub fn other_port(&mut self) -> Res<()> {
        let udp = io("udp", UdpSocket::bind((&self.ip[..], 0)))?;
        io("nonblocking", udp.set_nonblocking(true))?;
        self.udp = udp;
        Ok(())
    }
    pub fn udp_raw(&mut self, b: &[u8]) -> Res<()> {
        for _ in 0..200 {
            match self.udp.send_to(b, self.peer) {
                Ok(_) => return Ok(()),
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => std::thread::sleep(Duration::from_millis(1)),
                Err(_) => return Ok(()), // client socket gone
            }
        }
        harness("udp send buffer full")
    }
    /// sends a state without taking note of its id
    pub fn state_again(&mut self, s: &State) -> Res<()> {
        self.udp_raw(&s.encode())
    }
    pub fn state(&mut self, s: &State) -> Res<()> {
        self.last_id = self.last_id.max(s.id);
        self.udp_raw(&s.encode())
    }
    pub fn idle_state(&mut self) -> Res<u64> {
        let id = self.last_id + 1;
        self.state(&State::idle(id))?;
        Ok(id)
    }
    /// Keeps sending idle states (about one per millisecond) until the call returned; answers a
    /// StopMove if asked. Returns the outcome and everything that was received.
    pub fn pump_until<R>(&mut self, p: &Pending<R>, mut st: impl FnMut(u64) -> State, mut on: impl FnMut(&mut Server, In) -> Res<()>) -> Res<Outcome<R>> {
        let mut pat = Patience::new(PATIENCE);
        let mut next = Instant::now();
        loop {
            while let Some(e) = self.event(0) {
                on(self, e)?;
            }
            if let Some(o) = p.poll() {
                while let Some(e) = self.event(0) {
                    on(self, e)?;
                }
                return Ok(o);
            }
            if Instant::now() >= next {
                let id = self.last_id + 1;
                let s = st(id);
                self.state(&s)?;
                next = Instant::now() + Duration::from_millis(1);
            }
            if let Some(e) = self.event(1) {
                on(self, e)?;
            }
            if !pat.tick() {
                return Ok(Outcome::Hang);
            }
        }
    }
    /// robot side of the connection handshake
    pub fn handshake(&mut self, status: u8, version: u16, first: Option<&State>) -> Res<()> {
        self.accept()?;
        let r = self.request()?;
        ensure!(r.cmd == cmd::CONNECT, "first request is command {} instead of Connect", r.cmd);
        ensure!(r.payload.len() == 4, "Connect request has {} payload bytes", r.payload.len());
        let mut rd = Rd(&r.payload, 0);
        let _v = rd.u16();
        let port = rd.u16();
        self.advertised_port = port;
        self.peer.set_port(port);
        let mut p = vec![status];
        p.extend_from_slice(&version.to_le_bytes());
        let id = r.id;
        self.connect_req = Some(r);
        if let Some(s) = first {
            self.state(s)?;
        }
        self.respond(cmd::CONNECT, id, &p)
    }
}

pub struct Session {
    pub srv: Server,
    pub cli: Actor<Robot>,
}
pub fn text(e: &FrankaException) -> String {
    format!("{:?}", e).chars().take(300).collect()
}
pub fn open_robot(ip: &str, rt: Option<RealtimeConfig>, log: Option<usize>, first_id: u64) -> Res<Session> {
    open_robot_at(ip, rt, log, &State::idle(first_id))
}
/// connects to a robot that reports the given state at that moment
pub fn open_robot_at(ip: &str, rt: Option<RealtimeConfig>, log: Option<usize>, first: &State) -> Res<Session> {
    let mut srv = Server::bind(ip, false)?;
    let ip2 = ip.to_string();
    let (cli, p) = Actor::spawn(move || Robot::new(&ip2, rt, log));
    srv.handshake(0, 5, Some(first))?;
    match p.wait() {
        Outcome::Ret(Ok(())) => Ok(Session { srv, cli }),
        Outcome::Ret(Err(e)) => suspect(format!("connecting failed: {}", text(&e))),
        Outcome::Panic(m) => suspect(format!("connecting panicked: {}", m)),
        Outcome::Hang => suspect("connecting did not finish"),
    }
}
pub fn open_default(ctx: &mut Ctx) -> Res<Session> {
    let ip = ctx.ip.clone();
    open_robot(&ip, Some(RealtimeConfig::Ignore), None, 1)
}
