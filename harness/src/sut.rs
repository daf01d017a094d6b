//! Runs the real simulation: in this process through the public API of the
//! `sim` crate, with its standard output captured and limited.

use crate::cfg::{mission_json, Phase};
use crate::st::St;
use std::cell::{Cell, RefCell};
use std::io::Write;
use std::os::fd::RawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

struct Fds {
    conf: RawFd,
    out: RawFd,
    pub saved: RawFd,
}
static FDS: OnceLock<Fds> = OnceLock::new();

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    pub static SIM_RUNS: Cell<u64> = const { Cell::new(0) };
    pub static SIM_STEPS: Cell<u64> = const { Cell::new(0) };
}

fn memfd(name: &str) -> RawFd {
    let c = std::ffi::CString::new(name).unwrap();
    let fd = unsafe { libc::memfd_create(c.as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "memfd_create: {}", std::io::Error::last_os_error());
    fd
}

/// Redirects fd 1 of this process to a memory file.
pub fn init() {
    FDS.get_or_init(|| {
        let _ = std::io::stdout().flush();
        let conf = memfd("pv-conf");
        let out = memfd("pv-out");
        let saved = unsafe { libc::dup(1) };
        assert!(saved >= 0);
        assert!(unsafe { libc::dup2(out, 1) } >= 0);
        unsafe {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            libc::signal(libc::SIGPIPE, libc::SIG_IGN);
        }
        std::panic::set_hook(Box::new(|info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = info
                .location()
                .map(|l| format!(" at {}:{}", l.file(), l.line()))
                .unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
        }));
        Fds { conf, out, saved }
    });
}

/// Writes to the real standard output.
pub fn tell(s: &str) {
    match FDS.get() {
        Some(f) => {
            let b = s.as_bytes();
            let mut off = 0;
            while off < b.len() {
                let n = unsafe {
                    libc::write(f.saved, b[off..].as_ptr() as *const _, b.len() - off)
                };
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
        }
        None => print!("{s}"),
    }
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

fn set_limit(bytes: u64) {
    let mut r = libc::rlimit {
        rlim_cur: 0,
        rlim_max: 0,
    };
    unsafe {
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut r);
        r.rlim_cur = if bytes == u64::MAX { r.rlim_max } else { bytes };
        libc::setrlimit(libc::RLIMIT_FSIZE, &r);
    }
}

fn reset_out() {
    let f = FDS.get().unwrap();
    unsafe {
        libc::ftruncate(f.out, 0);
        libc::lseek(f.out, 0, libc::SEEK_SET);
    }
}

fn take_out(want: bool) -> (u64, String) {
    let _ = std::io::stdout().flush();
    let f = FDS.get().unwrap();
    let len = unsafe { libc::lseek(f.out, 0, libc::SEEK_END) }.max(0) as usize;
    let mut s = String::new();
    if want {
        let mut buf = vec![0u8; len];
        let mut off = 0usize;
        while off < len {
            let n = unsafe {
                libc::pread(
                    f.out,
                    buf[off..].as_mut_ptr() as *mut _,
                    len - off,
                    off as i64,
                )
            };
            if n <= 0 {
                break;
            }
            off += n as usize;
        }
        s = String::from_utf8_lossy(&buf[..off]).into_owned();
    }
    reset_out();
    (len as u64, s)
}

#[derive(Clone, Debug)]
pub enum End {
    Done(Box<St>),
    /// The program panicked, with its message.
    Panic(String),
    /// It wrote more output than any expected run could.
    Budget,
}

#[derive(Clone, Debug)]
pub struct RunOut {
    pub end: End,
    pub out: String,
    pub out_len: u64,
}

impl RunOut {
    pub fn done(&self) -> Option<&St> {
        match &self.end {
            End::Done(s) => Some(s),
            _ => None,
        }
    }
    pub fn what(&self) -> String {
        match &self.end {
            End::Done(s) => format!("finished at t={}", s.time),
            End::Panic(m) => format!("panicked: {m}"),
            End::Budget => "did not stop within the output budget".into(),
        }
    }
}

pub enum LoadErr {
    Err(String),
    Panic(String),
}

/// Writes a configuration to a memory file and has the real loader read it.
pub fn load_bytes(json: &[u8]) -> Result<sim::Simulation, LoadErr> {
    init();
    let f = FDS.get().unwrap();
    unsafe {
        libc::ftruncate(f.conf, 0);
        let mut off = 0usize;
        while off < json.len() {
            let n = libc::pwrite(
                f.conf,
                json[off..].as_ptr() as *const _,
                json.len() - off,
                off as i64,
            );
            assert!(n > 0);
            off += n as usize;
        }
    }
    load_path(&format!("/proc/self/fd/{}", f.conf))
}

pub fn load_path(path: &str) -> Result<sim::Simulation, LoadErr> {
    init();
    match catch_unwind(AssertUnwindSafe(|| {
        sim::Simulation::from_file(path).map_err(|e| e.to_string())
    })) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => Err(LoadErr::Err(e)),
        Err(_) => Err(LoadErr::Panic(last_panic())),
    }
}

fn state(sim: &sim::Simulation) -> St {
    let s = sim.run();
    let v = |x: &[f64]| -> [f64; 3] { [x[0], x[1], x[2]] };
    St {
        time: s.time,
        tse: s.time_since_event,
        pos: v(s.position.as_slice()),
        pos_planet: v(s.position_planet.as_slice()),
        alt: s.altitude,
        alt_geo: s.altitude_geopotential,
        vel: v(s.velocity.as_slice()),
        vel_planet: v(s.velocity_planet.as_slice()),
        vel_atm: v(s.velocity_atmosphere.as_slice()),
        acc: v(s.acceleration.as_slice()),
        thrust: v(s.thrust_force_body.as_slice()),
        aero: v(s.aero_force_body.as_slice()),
        veh_acc: v(s.vehicle_acceleration_body.as_slice()),
        grav: v(s.gravity_acceleration.as_slice()),
        mass: s.mass,
        prop: s.propellant_mass,
        massflow: s.massflow,
        temp: s.temperature,
        pres: s.pressure,
        dens: s.density,
        mach: s.mach_number,
        q: s.dynamic_pressure,
        alpha: s.alpha,
        euler: s.euler_angles,
        throttle: s.throttle,
    }
}

/// Runs a loaded simulation. `budget` is the amount of output in bytes which
/// it may write (about 250 to 300 bytes per time step).
pub fn run_loaded(sim: &sim::Simulation, budget: u64, want: bool) -> RunOut {
    init();
    SIM_RUNS.with(|c| c.set(c.get() + 1));
    reset_out();
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    set_limit(budget);
    let r = catch_unwind(AssertUnwindSafe(|| state(sim)));
    set_limit(u64::MAX);
    let (len, out) = take_out(want);
    SIM_STEPS.with(|c| c.set(c.get() + len / 260));
    let end = match r {
        Ok(s) => End::Done(Box::new(s)),
        Err(_) if len >= budget => End::Budget,
        Err(_) => End::Panic(last_panic()),
    };
    RunOut {
        end,
        out,
        out_len: len,
    }
}

pub const BUDGET: u64 = 3_000_000;

/// Loads and runs a mission which the loader has to accept.
pub fn fly_opt(ps: &[Phase], budget: u64, want: bool) -> Result<RunOut, String> {
    fly_json(&mission_json(ps), budget, want)
}

pub fn fly_json(json: &str, budget: u64, want: bool) -> Result<RunOut, String> {
    match load_bytes(json.as_bytes()) {
        Ok(sim) => Ok(run_loaded(&sim, budget, want)),
        Err(LoadErr::Err(e)) => Err(format!("valid configuration rejected: {e}\n{json}")),
        Err(LoadErr::Panic(e)) => Err(format!("loading panicked: {e}\n{json}")),
    }
}

pub fn fly(ps: &[Phase]) -> Result<RunOut, String> {
    fly_opt(ps, BUDGET, false)
}

/// Runs a mission which has to finish.
pub fn fly_done(ps: &[Phase]) -> Result<St, String> {
    let r = fly(ps)?;
    match r.end {
        End::Done(s) => Ok(*s),
        _ => Err(format!("simulation {}", r.what())),
    }
}

/// Runs missions at the same time, each in a thread of its own which loads its
/// file anew for every run. All output is dropped.
pub fn fly_together(paths: &[&str], runs: usize, budget: u64) -> Vec<Vec<RunOut>> {
    init();
    reset_out();
    set_limit(budget);
    let r = std::thread::scope(|sc| {
        let jobs: Vec<_> = paths
            .iter()
            .map(|path| {
                sc.spawn(move || {
                    (0..runs)
                        .map(|_| {
                            let end = match load_path(path) {
                                Ok(sim) => match catch_unwind(AssertUnwindSafe(|| state(&sim))) {
                                    Ok(s) => End::Done(Box::new(s)),
                                    Err(_) => End::Panic(last_panic()),
                                },
                                Err(LoadErr::Err(e)) => End::Panic(format!("rejected: {e}")),
                                Err(LoadErr::Panic(e)) => End::Panic(e),
                            };
                            RunOut {
                                end,
                                out: String::new(),
                                out_len: 0,
                            }
                        })
                        .collect()
                })
            })
            .collect();
        jobs.into_iter().map(|j| j.join().unwrap()).collect()
    });
    set_limit(u64::MAX);
    take_out(false);
    r
}
