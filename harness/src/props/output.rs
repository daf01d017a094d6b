//! What the program writes (C18), that it writes the same every time (C19) and
//! what the plotting tool makes of it (C23).

use super::common::*;
use crate::cfg::*;
use crate::ensure;
use crate::gen::*;
use crate::refm::*;
use crate::runner::*;
use crate::st::*;
use crate::sut;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

// ------------------------------------------------------------ records

/// One record of the output.
#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub time: f64,
    pos: V3,
    vel: V3,
    alt: Option<f64>,
    prop: Option<f64>,
}

fn whole(s: &str) -> Result<f64, String> {
    let d = s.strip_prefix('-').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return Err(format!("not a whole number: {s:?}"));
    }
    Ok(s.parse().unwrap())
}

/// Reads the output of a simulation: phases and their records.
pub fn parse(out: &str) -> Result<Vec<Vec<Rec>>, String> {
    let mut phases: Vec<Vec<Rec>> = vec![];
    // what comes next within a record: 0 time, 1-4 position, 5-8 velocity,
    // 9 altitude, 10 propellant mass
    let mut next = 0;
    let mut rec = Rec::default();
    for line in out.lines() {
        let text = line.trim_matches(|c: char| c.is_whitespace() || ('\u{2500}'..'\u{2580}').contains(&c));
        if text.is_empty() {
            continue;
        }
        if let Some(n) = text.strip_prefix("Starting Phase ") {
            ensure!(next == 0, "a phase starts within a record: {line:?}");
            ensure!(
                n == (phases.len() + 1).to_string(),
                "phase {} is announced as {n:?}",
                phases.len() + 1
            );
            phases.push(vec![]);
            continue;
        }
        let value = |key: &str| -> Result<f64, String> {
            let v = text
                .strip_prefix(key)
                .ok_or(format!("expected {key:?}, found {line:?}"))?;
            whole(v.trim())
        };
        match next {
            0 => rec.time = value("Time:")?,
            1 => ensure!(text == "Position:", "expected the position, found {line:?}"),
            2..=4 => rec.pos[next - 2] = whole(text)?,
            5 => ensure!(text == "Velocity:", "expected the velocity, found {line:?}"),
            6..=8 => rec.vel[next - 6] = whole(text)?,
            9 => rec.alt = Some(value("Altitude:")?),
            _ => {
                rec.prop = Some(value("Prop mass:")?);
                match phases.last_mut() {
                    Some(p) => p.push(std::mem::take(&mut rec)),
                    None => return Err("a record before the first phase".into()),
                }
            }
        }
        next = (next + 1) % 11;
    }
    ensure!(next == 0, "the last record is incomplete");
    Ok(phases)
}

/// Whether a record shows this state, rounded.
fn shows(r: &Rec, s: &St, rel: f64) -> bool {
    let near = |x: f64, v: f64, scale: f64| (x - v).abs() <= 0.5 + rel * scale;
    let p = norm(s.pos);
    let v = norm(s.vel).max(norm(vsub(s.vel, s.vel_planet))).max(1.);
    near(r.time, s.time, s.time.abs().max(1.))
        && (0..3).all(|k| near(r.pos[k], s.pos_planet[k], p) && near(r.vel[k], s.vel[k], v))
        && r.alt.is_none_or(|a| near(a, s.alt, p))
        && r.prop.is_none_or(|x| near(x, s.prop, s.mass.abs()))
}

/// Every state after the first has to be shown in order. A step which was
/// tried and discarded shows the state before it once more.
fn follows(recs: &[Rec], states: &[St], rel: f64) -> Result<(), String> {
    // positions which the last record may be at, in order
    let mut prev = vec![0];
    for (i, r) in recs.iter().enumerate() {
        let mut at: Vec<usize> = vec![];
        for &p in &prev {
            for k in [p, p + 1] {
                if k < states.len() && at.last().is_none_or(|l| *l < k) && shows(r, &states[k], rel) {
                    at.push(k);
                }
            }
        }
        if at.is_empty() {
            let k = *prev.last().unwrap();
            let s = &states[(k + 1).min(states.len() - 1)];
            return Err(format!(
                "record {} is {r:?}, but after step {k} comes the state at t={}: position {:?}, velocity {:?}, altitude {}, propellant {}",
                i + 1, s.time, s.pos_planet, s.vel, s.alt, s.prop
            ));
        }
        prev = at;
    }
    ensure!(
        *prev.last().unwrap() == states.len() - 1 && !recs.is_empty(),
        "{} records do not show all {} steps",
        recs.len(),
        states.len() - 1
    );
    ensure!(
        recs.len() <= states.len() + 1,
        "{} records for {} steps",
        recs.len(),
        states.len() - 1
    );
    Ok(())
}

fn against_reference(phases: &[Vec<Rec>], r: &RefRun, rel: f64) -> Result<(), String> {
    ensure!(
        phases.len() == r.phases.len(),
        "{} phases are announced instead of {}",
        phases.len(),
        r.phases.len()
    );
    for (i, (recs, states)) in phases.iter().zip(&r.phases).enumerate() {
        follows(recs, states, rel).map_err(|m| format!("phase {}: {m}", i + 1))?;
    }
    Ok(())
}

/// A flight which the reference knows step by step.
fn known(ps: &[Phase]) -> Result<Result<RefRun, Verdict>, String> {
    let r = fly_ref(ps, &Pert::default(), 20_000);
    let skip = |s| Ok(Err(Verdict::Skip(s)));
    if r.too_long {
        return skip("too long");
    }
    if r.mon.neg_alt {
        return skip("below the surface");
    }
    if r.mon.nonfinite || r.phases.iter().flatten().any(|s| norm(s.pos) > 1e14) {
        return skip("not finite");
    }
    if let Some(k) = r.mon.knife {
        return skip(k);
    }
    if r.abort.is_some() {
        return skip("limit cannot be kept");
    }
    match sensitivities(ps, &r, 20_000) {
        Some((_, s)) if s < 1e-5 => Ok(Ok(r)),
        _ => skip("sensitive"),
    }
}

fn is_done(r: &sut::RunOut) -> Result<&St, String> {
    r.done().ok_or_else(|| format!("simulation {}", r.what()))
}

fn check_records(ps: &Vec<Phase>, ctx: &mut Ctx) -> CheckResult {
    let r = match known(ps)? {
        Ok(r) => r,
        Err(v) => {
            // whatever the mission does, its end is reported
            let got = sut::fly_opt(ps, 2_000_000, true)?;
            if let sut::End::Done(s) = &got.end {
                if let Some(l) = parse(&got.out).ok().and_then(|p| p.last()?.last().cloned()) {
                    ensure!(
                        !(norm(s.pos) + norm(s.vel) + s.alt + s.prop).is_finite() || shows(&l, s, 0.),
                        "the last record is {l:?}, but the final state is {s:?}"
                    );
                }
            }
            return Ok(v);
        }
    };
    let steps: usize = r.phases.iter().map(|p| p.len()).sum();
    let got = sut::fly_opt(ps, 20_000 + 1500 * steps as u64, true)?;
    let s = is_done(&got)?;
    let phases = parse(&got.out)?;
    against_reference(&phases, &r, 1e-8)?;
    if let Some(l) = phases.last().and_then(|p| p.last()) {
        ensure!(
            shows(l, s, 0.),
            "the last record is {l:?}, but the final state is {s:?}"
        );
    }
    ctx.label(format!("{} phases", ps.len().min(6)));
    let n: usize = phases.iter().map(|p| p.len()).sum();
    ctx.metric("records", n as f64);
    Ok(if n > 1 { Verdict::Pass } else { Verdict::Trivial })
}

// ------------------------------------------------------------ events

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EndCase {
    pub before: Vec<Phase>,
    pub phase: Phase,
    pub var: Var,
    pub step: u8,
    pub frac: f64,
}

pub fn end_case() -> BoxedStrategy<EndCase> {
    let vars = [
        "altitude",
        "velocity_norm",
        "velocity_planet3",
        "mass",
        "propellant_mass",
        "euler_angles_pitch",
        "position2",
        "mach_number",
    ];
    (
        prop::bool::weighted(0.2).prop_flat_map(|limit| {
            timed_mission(MissionOpts {
                max_phases: 2,
                max_steps: 4,
                limit,
                ..Default::default()
            })
        }),
        uni(0.2, 4.),
        proptest::sample::select(vars.iter().map(|n| Var::n(n)).collect::<Vec<_>>()),
        0u8..6,
        uni(0.02, 0.98),
        uni(-4., 4.),
    )
        .prop_map(|(before, h, var, step, frac, rate)| {
            let mut phase = Phase {
                stepsize: Some(qn(h, 5)),
                ..Default::default()
            };
            phase.steer().pitch = Some((Var::n("time_since_event"), [qn(rate, 4), 0., 0.]));
            EndCase {
                before,
                phase,
                var,
                step,
                frac,
            }
        })
        .boxed()
}

/// A mission which ends when a variable reaches a value inside of a step.
pub struct Approach {
    pub mission: Vec<Phase>,
    pub target: f64,
    /// The reference, flown on to the end of that step.
    pub r: RefRun,
}

/// Chooses the value, so that finding it is well behaved.
pub fn approach(c: &EndCase, verbose: bool) -> Result<Result<Approach, Verdict>, String> {
    let h = c.phase.stepsize.unwrap();
    let with = |v: Var, x: f64| {
        let mut p = c.phase.clone();
        p.end_criterion = Some((v, x));
        let mut ps = c.before.clone();
        ps.push(p);
        ps
    };
    let tse = Var::n("time_since_event");
    let k = c.step as usize;
    // the states of each step, and one more
    let r = match known(&with(tse, qn((k + 1) as f64 * h, 12)))? {
        Ok(r) => r,
        Err(v) => return Ok(Err(v)),
    };
    let path = r.phases.last().unwrap();
    let y: Vec<f64> = path.iter().map(|s| s.var(c.var)).collect();
    if path.len() != k + 2 || y.iter().any(|x| !x.is_finite()) {
        return Ok(Err(Verdict::Skip("not finite")));
    }
    let d = y[k + 1] - y[k];
    if d.abs() < 0.05 || y[k].abs() > 1e8 {
        return Ok(Err(Verdict::Trivial));
    }
    let target = qn(y[k] + c.frac * d, 12);
    if (0..=k).any(|i| (y[i] - target) * d > -0.01 * d.abs()) {
        return Ok(Err(Verdict::Skip("passed before")));
    }
    // the variable has to move steadily within the step, as finer steps see it
    let mut fine = with(tse, qn(k as f64 * h, 12));
    if k == 0 {
        fine.pop();
    }
    let mut tail = c.phase.clone();
    tail.stepsize = Some(qn(h / 16., 12));
    // (steps which stay short of the target are followed by another as long)
    tail.end_criterion = Some((tse, qn(2. * h, 12)));
    fine.push(tail);
    let r2 = fly_ref(&fine, &Pert::default(), 20_000);
    let z: Vec<f64> = match r2.phases.last() {
        Some(p) if r2.abort.is_none() && !r2.too_long => p.iter().map(|s| s.var(c.var)).collect(),
        _ => return Ok(Err(Verdict::Skip("not smooth"))),
    };
    if r2.phases.iter().flatten().any(|s| s.prop < 0. || s.mass < 0.2 * path[0].mass) {
        return Ok(Err(Verdict::Skip("runs out of mass")));
    }
    if z.len() < 33
        || z[..17].windows(2).any(|w| ((w[1] - w[0]) * 16. / d - 1.).abs() > 0.7)
        || z[16..].windows(2).any(|w| ((w[1] - w[0]) * 16. / d - 1.).abs() > 0.9)
        || (z[16] - y[k + 1]).abs() > 0.2 * (1. - c.frac) * d.abs()
    {
        return Ok(Err(Verdict::Skip("not smooth")));
    }
    if verbose {
        eprintln!("target {target}, whole steps {y:?}, sixteenths {z:?}\n{}", mission_json(&with(c.var, target)));
    }
    let mission = with(c.var, target);
    Ok(Ok(Approach { mission, target, r }))
}

fn check_end(c: &EndCase, ctx: &mut Ctx) -> CheckResult {
    let Approach { mission, r, .. } = match approach(c, ctx.verbose)? {
        Ok(a) => a,
        Err(v) => return Ok(v),
    };
    let k = c.step as usize;
    let path = r.phases.last().unwrap();
    let got = sut::fly_opt(&mission, 100_000, true)?;
    let s = match &got.end {
        sut::End::Done(s) => s,
        sut::End::Panic(m) if m.contains("zero crossing") => {
            return Ok(Verdict::Skip("crossing not found"))
        }
        _ => return Err(format!("simulation {}", got.what())),
    };
    let phases = parse(&got.out)?;
    ensure!(
        phases.len() == r.phases.len(),
        "{} phases are announced instead of {}",
        phases.len(),
        r.phases.len()
    );
    let n = phases.len() - 1;
    for i in 0..n {
        follows(&phases[i], &r.phases[i], 1e-8).map_err(|m| format!("phase {}: {m}", i + 1))?;
    }
    // whole steps first, then whatever leads to the event
    let recs = &phases[n];
    let mut i = 0;
    for (j, s) in path[..=k].iter().enumerate() {
        if j == 0 {
            continue;
        }
        ensure!(
            i < recs.len() && shows(&recs[i], s, 1e-8),
            "record {} of the last phase is {:?}, but step {j} leads to t={}, position {:?}, velocity {:?}",
            i + 1,
            recs.get(i),
            s.time,
            s.pos_planet,
            s.vel
        );
        i += 1;
    }
    let (from, to) = (&path[k], &path[k + 1]);
    ensure!(i < recs.len(), "nothing is written for the last step");
    for r in &recs[i..] {
        ensure!(
            r.time >= from.time - 0.5 - 1e-6 && r.time <= to.time + 0.5 + 1e-6,
            "{r:?} is not within the last step from t={} to t={}",
            from.time,
            to.time
        );
    }
    let l = recs.last().unwrap();
    ensure!(
        shows(l, s, 0.),
        "the last record is {l:?}, but the final state is {s:?}"
    );
    ctx.label(c.var.name());
    Ok(Verdict::Pass)
}

// ------------------------------------------------------------ the program

#[derive(Clone, Debug, Serialize, Deserialize)]
enum File {
    Mission(Vec<Phase>),
    Missing,
    Directory,
    Cut(Vec<Phase>, u16),
    Unknown(Vec<Phase>, String),
    Text(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Run {
    file: File,
    name: String,
    short: bool,
    /// The name is written without a space after the option.
    #[serde(default)]
    joined: bool,
}

pub fn scratch() -> PathBuf {
    let d = std::env::var_os("PV_SCRATCH")
        .map(PathBuf::from)
        .unwrap_or_else(std::env::temp_dir)
        .join(format!("pv-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}

fn run_case() -> BoxedStrategy<Run> {
    let m = || {
        timed_mission(MissionOpts {
            max_phases: 3,
            max_steps: 4,
            ..Default::default()
        })
    };
    let file = prop_oneof![
        60 => m().prop_map(File::Mission),
        1 => many_phases().prop_map(File::Mission),
        1 => long_mission().prop_map(File::Mission),
        10 => Just(File::Missing),
        10 => Just(File::Directory),
        10 => (m(), any::<u16>()).prop_map(|(p, k)| File::Cut(p, k)),
        10 => (m(), "[a-z_]{1,8}").prop_map(|(p, s)| File::Unknown(p, format!("{s}_"))),
        10 => prop_oneof![
            Just(String::new()),
            Just("{}".into()),
            Just("null".into()),
            Just("[[]]x".into()),
            "[ -~]{0,20}".prop_map(|s| format!("#{s}")),
        ].prop_map(File::Text),
    ];
    (
        file,
        proptest::sample::select(vec!["mission.json", "a b.json", "m", "übung.txt", "-x.json"]),
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(file, name, short, joined)| Run {
            file,
            name: name.to_string(),
            short,
            joined,
        })
        .boxed()
}

pub fn cli() -> PathBuf {
    std::env::var_os("PV_CLI")
        .map(PathBuf::from)
        .unwrap_or_else(|| verif_dir().join("target/cli/debug/post"))
}

/// Numbers of two outputs, compared with room for rounding.
fn similar(a: &str, b: &str) -> bool {
    match (parse(a), parse(b)) {
        (Ok(x), Ok(y)) => {
            x.len() == y.len()
                && x.iter().zip(&y).all(|(p, q)| {
                    p.len() == q.len()
                        && p.iter().zip(q).all(|(r, s)| {
                            let near = |a: f64, b: f64| (a - b).abs() <= 1. + 1e-6 * b.abs();
                            near(r.time, s.time)
                                && (0..3).all(|k| {
                                    near(r.pos[k], s.pos[k]) && near(r.vel[k], s.vel[k])
                                })
                                && near(r.alt.unwrap_or(0.), s.alt.unwrap_or(0.))
                                && near(r.prop.unwrap_or(0.), s.prop.unwrap_or(0.))
                        })
                })
        }
        _ => false,
    }
}

fn check_run(c: &Run, ctx: &mut Ctx) -> CheckResult {
    let dir = scratch();
    let path = dir.join(&c.name);
    let _ = std::fs::remove_file(&path);
    let mut target = path.clone();
    match &c.file {
        File::Mission(ps) => std::fs::write(&path, mission_json(ps)).unwrap(),
        File::Missing => (),
        File::Directory => target = dir.clone(),
        File::Cut(ps, k) => {
            let t = mission_json(ps);
            let n = 1 + *k as usize % (t.len() - 1);
            std::fs::write(&path, &t.as_bytes()[..t.len() - n]).unwrap()
        }
        File::Unknown(ps, key) => {
            let mut v = mission_value(ps);
            v[0].as_object_mut().unwrap().insert(key.clone(), Value::Null);
            std::fs::write(&path, v.to_string()).unwrap()
        }
        File::Text(t) => std::fs::write(&path, t).unwrap(),
    }
    // first in here, where it cannot run forever
    let loaded = sut::load_path(target.to_str().unwrap());
    let want = match &loaded {
        Ok(sim) => Some(sut::run_loaded(sim, 3_000_000, true)),
        Err(sut::LoadErr::Panic(m)) => return Err(format!("loading panicked: {m}")),
        Err(_) => None,
    };
    let valid = matches!(c.file, File::Mission(_));
    ensure!(
        valid == want.is_some(),
        "loading {:?} {}",
        c.file,
        if want.is_some() { "succeeded" } else { "failed" }
    );
    if matches!(want.as_ref().map(|w| &w.end), Some(sut::End::Budget)) {
        return Err(format!("simulation {}", want.unwrap().what()));
    }
    // relative to the working directory
    let arg = if target == dir {
        ".".to_string()
    } else if c.name.starts_with('-') {
        format!("./{}", c.name)
    } else {
        c.name.clone()
    };
    let args = match (c.short, c.joined) {
        (true, false) => vec!["-c".to_string(), arg],
        (true, true) => vec![format!("-c{arg}")],
        (false, false) => vec!["--config".to_string(), arg],
        (false, true) => vec![format!("--config={arg}")],
    };
    let out = Command::new(cli())
        .current_dir(&dir)
        .args(&args)
        .stdin(Stdio::null())
        .output()
        .expect("post");
    let _ = std::fs::remove_file(&path);
    let text = String::from_utf8_lossy(&out.stdout);
    match want {
        None => {
            ensure!(
                !out.status.success(),
                "the configuration cannot be read ({:?}), but the program succeeds",
                c.file
            );
            ensure!(
                out.stdout.is_empty(),
                "the configuration cannot be read, but the program writes {text:?}"
            );
            ensure!(
                out.status.code().is_some_and(|c| c != 101),
                "the program crashes on {:?}: {}",
                c.file,
                String::from_utf8_lossy(&out.stderr)
            );
            ctx.label("failure to read");
        }
        Some(w) => {
            let File::Mission(ps) = &c.file else { unreachable!() };
            let same = text == w.out || similar(&text, &w.out);
            if !same {
                // built differently, the last digits may differ
                if let Err(v) = known(ps)? {
                    return Ok(v);
                }
            }
            ensure!(
                out.status.success() == w.done().is_some(),
                "the simulation {}, but the program exits with {}",
                w.what(),
                out.status
            );
            ensure!(
                same,
                "the program writes {text:?} instead of {:?}",
                w.out
            );
            ctx.label(if w.done().is_some() { "complete" } else { "aborted" });
        }
    }
    Ok(Verdict::Pass)
}

/// Missions far from any planet, which last up to thousands of years.
fn lasting() -> BoxedStrategy<Vec<Phase>> {
    (
        timed_mission(MissionOpts {
            max_phases: 4,
            max_steps: 6,
            high: true,
            ..Default::default()
        }),
        pick(&[10., 100., 1e3, 1e4, 1e5, 1e7, 1e9]),
        pick(&[0., 1e-6, -1e-4]),
        logu(1e-9, 1.),
    )
        .prop_map(|(mut ps, f, w, thrust)| {
            for (i, p) in ps.iter_mut().enumerate() {
                p.planet_model = (i == 0).then(|| void(w));
                if i == 0 || p.stepsize.is_some() {
                    p.stepsize = Some(qn(p.stepsize.unwrap_or(1.) * f, 12));
                }
                if let Some(c) = p.end_criterion.as_mut() {
                    c.1 = qn(c.1 * f, 12);
                }
                p.atmosphere = None;
                if let Some(v) = p.vehicle.as_mut() {
                    for e in v.engines.iter_mut().flatten() {
                        e.thrust_vac = qn(e.thrust_vac * thrust / f, 10);
                    }
                }
            }
            ps
        })
        .boxed()
}

fn c18() -> Property {
    Property {
        id: "C18",
        subs: vec![
            part(
                "records",
                "random missions of 1 to 12 (rarely up to 700) phases, rarely of thousands of steps, lasting up to thousands of years, the whole output parsed strictly and compared \
                 record by record with the states of the reference (a discarded step may repeat the \
                 one before), the last record with the returned state; non-trivial: at least 2 records",
                40_000,
                1_200_000,
                |_| {
                    prop_oneof![
                        180 => timed_mission(MissionOpts {
                            max_phases: 4,
                            max_steps: 8,
                            ..Default::default()
                        }),
                        60 => timed_mission(MissionOpts {
                            max_phases: 12,
                            max_steps: 3,
                            ..Default::default()
                        }),
                        60 => lasting(),
                        2 => long_mission(),
                        1 => many_phases(),
                    ]
                    .boxed()
                },
                |c: &Vec<Phase>, ctx: &mut Ctx| check_records(c, ctx),
            ),
            part(
                "events",
                "phases which end when a variable reaches a value inside of a step: the whole steps \
                 before are written one by one, the way to the event within the last step, and the \
                 final state last; non-trivial: the variable moves",
                30_000,
                900_000,
                |_| end_case(),
                check_end,
            ),
            part(
                "program",
                "the built program with a mission, or a missing, truncated, mistaken or garbled file, \
                 or a directory: its exit status and that its output is the one of the library, or \
                 empty; every case counts",
                4_000,
                100_000,
                |_| run_case(),
                check_run,
            ),
            super::marathon::marathon(true),
        ],
        assumptions: vec![
            "steps which are tried and discarded may repeat the previous record (the statement is about the steps which are taken)",
        ],
    }
}

// ------------------------------------------------------------ C19

fn bits(r: &sut::RunOut) -> String {
    match &r.end {
        sut::End::Done(s) => s
            .fields()
            .iter()
            .map(|(n, x)| {
                // NaN has many forms
                format!("{n}={:x} ", if x.is_nan() { u64::MAX } else { x.to_bits() })
            })
            .collect(),
        sut::End::Panic(m) => format!("panic {m}"),
        sut::End::Budget => "budget".into(),
    }
}

fn first_difference(a: &str, b: &str) -> String {
    let x: Vec<&str> = a.split(' ').collect();
    let y: Vec<&str> = b.split(' ').collect();
    match x.iter().zip(&y).find(|(p, q)| p != q) {
        Some((p, q)) => format!("{p} and {q}"),
        None => format!("{} and {} parts", x.len(), y.len()),
    }
}

fn same_run(what: &str, a: &sut::RunOut, b: &sut::RunOut) -> Result<(), String> {
    let (x, y) = (bits(a), bits(b));
    ensure!(x == y, "{what}: different results: {}", first_difference(&x, &y));
    ensure!(a.out == b.out, "{what}: different output");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Again {
    a: Vec<Phase>,
    b: Vec<Phase>,
    order: Vec<u8>,
}

/// Missions which end at times or events.
pub fn any_mission() -> BoxedStrategy<Vec<Phase>> {
    let t = timed_mission(MissionOpts {
        max_phases: 4,
        max_steps: 5,
        ..Default::default()
    });
    (t, maybe(40, (end_case(), uni(-0.02, 0.02)).boxed()))
        .prop_map(|(mut ps, e)| {
            if let Some((e, f)) = e {
                let mut p = e.phase.clone();
                p.stepsize = Some(e.phase.stepsize.unwrap());
                let i = ps[0].init.as_ref().unwrap();
                let v = ps[0].vehicle.as_ref().unwrap();
                let x = match e.var.name() {
                    "altitude" => i.altitude * (1. + f),
                    "mass" | "propellant_mass" => {
                        (v.structure_mass.unwrap() + v.propellant_mass.unwrap()) * (1. + f)
                    }
                    _ => 1000. * f,
                };
                p.end_criterion = Some((e.var, qn(x, 6)));
                ps.push(p);
            }
            ps
        })
        .boxed()
}

/// Hundreds of steps which need everything: tables, atmosphere and engines.
fn busy_mission() -> BoxedStrategy<Vec<Phase>> {
    (long_mission(), 100u32..400, 0u32..100_000)
        .prop_map(|(mut ps, n, alt)| {
            ps.truncate(1);
            let p = &mut ps[0];
            p.init.as_mut().unwrap().altitude = alt as f64;
            p.atmo().enabled = Some(true);
            p.max_acceleration = None;
            p.end_criterion = Some((Var::n("time"), qn(p.stepsize.unwrap() * n as f64, 12)));
            ps
        })
        .boxed()
}

const SMALL: u64 = 60_000;

fn check_again(c: &Again, ctx: &mut Ctx) -> CheckResult {
    let load = |p: &[Phase]| match sut::load_bytes(mission_json(p).as_bytes()) {
        Ok(s) => Ok(s),
        Err(_) => Err("valid configuration rejected".to_string()),
    };
    let (a, b) = (load(&c.a)?, load(&c.b)?);
    let mut seen: [Option<sut::RunOut>; 2] = [None, None];
    for (i, &k) in c.order.iter().enumerate() {
        let (which, fresh) = ((k & 1) as usize, k & 2 != 0);
        let r = if fresh {
            let s = load(if which == 0 { &c.a } else { &c.b })?;
            sut::run_loaded(&s, SMALL, true)
        } else {
            sut::run_loaded(if which == 0 { &a } else { &b }, SMALL, true)
        };
        match &seen[which] {
            Some(s) => same_run(
                &format!("run {} of mission {which} ({})", i + 1, if fresh { "loaded again" } else { "the same object" }),
                &r,
                s,
            )?,
            None => seen[which] = Some(r),
        }
    }
    for s in seen.iter().flatten() {
        ctx.label(match s.end {
            sut::End::Done(_) => "complete",
            sut::End::Panic(_) => "aborted",
            sut::End::Budget => "cut off",
        });
    }
    Ok(if seen.iter().all(|s| s.is_some()) {
        Verdict::Pass
    } else {
        Verdict::Trivial
    })
}

fn check_threads(c: &(Vec<Phase>, Vec<Phase>, u8), ctx: &mut Ctx) -> CheckResult {
    let mut alone = vec![];
    let mut paths = vec![];
    let mut size = 0;
    for (name, ps) in [("a.json", &c.0), ("b.json", &c.1)] {
        let json = mission_json(ps);
        let path = scratch().join(name);
        std::fs::write(&path, &json).unwrap();
        let mut r = sut::fly_json(&json, 10 * SMALL, false)?;
        if let sut::End::Budget = r.end {
            return Ok(Verdict::Skip("endless"));
        }
        size += r.out_len;
        r.out = String::new();
        alone.push(r);
        paths.push(path.to_str().unwrap().to_string());
    }
    let n = 2 + (c.2 % 3) as usize;
    let runs = 6;
    let list: Vec<&str> = (0..n).map(|i| paths[i % 2].as_str()).collect();
    let budget = 1_000_000 + size * (n * runs * 2) as u64;
    let got = sut::fly_together(&list, runs, budget);
    for p in &paths {
        let _ = std::fs::remove_file(p);
    }
    for (i, runs) in got.iter().enumerate() {
        for r in runs {
            same_run(&format!("mission {} in one of {n} threads", i % 2), r, &alone[i % 2])?;
        }
    }
    ctx.label(format!("{n} threads"));
    Ok(if alone.iter().all(|r| r.done().is_some()) {
        Verdict::Pass
    } else {
        Verdict::Trivial
    })
}

/// The result of one file, for another process.
pub fn one(path: &str, budget: u64) -> String {
    match sut::load_path(path) {
        Ok(s) => {
            let r = sut::run_loaded(&s, budget, true);
            serde_json::json!([bits(&r), r.out]).to_string()
        }
        Err(sut::LoadErr::Err(m)) => serde_json::json!([format!("error {m}"), ""]).to_string(),
        Err(sut::LoadErr::Panic(m)) => serde_json::json!([format!("crash {m}"), ""]).to_string(),
    }
}

fn check_process(c: &(Vec<Phase>, u8), ctx: &mut Ctx) -> CheckResult {
    let json = mission_json(&c.0);
    let here = sut::fly_json(&json, SMALL, true)?;
    let path = scratch().join("one.json");
    std::fs::write(&path, &json).unwrap();
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("one").arg(&path).arg(SMALL.to_string()).stdin(Stdio::null());
    // nothing of the surroundings matters
    if c.1 & 1 != 0 {
        cmd.env("LANG", "de_DE.UTF-8").env("LC_ALL", "tr_TR.UTF-8");
    }
    if c.1 & 2 != 0 {
        cmd.env("TZ", "Asia/Tokyo").env("RUST_LOG", "debug");
    }
    if c.1 & 4 != 0 {
        cmd.current_dir("/");
    }
    let out = cmd.output().expect("own program");
    let _ = std::fs::remove_file(&path);
    let v: (String, String) = serde_json::from_slice(&out.stdout)
        .unwrap_or_else(|e| panic!("answer of pv one: {e}: {:?}", out));
    let x = bits(&here);
    ensure!(
        x == v.0,
        "another process gets another result: {}",
        first_difference(&x, &v.0)
    );
    ensure!(here.out == v.1, "another process writes different output");
    ctx.label(if here.done().is_some() { "complete" } else { "other" });
    Ok(Verdict::Pass)
}

// the notation of the file

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Notation {
    mission: Vec<Phase>,
    style: u64,
}

struct Style(u64);
impl Style {
    fn pick(&mut self, n: u64) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        (z ^ (z >> 31)) % n
    }
    fn space(&mut self, o: &mut String) {
        match self.pick(12) {
            0 => o.push(' '),
            1 => o.push_str("\n\t"),
            2 => o.push_str("\r\n  "),
            _ => (),
        }
    }
    fn text(&mut self, o: &mut String, s: &str) {
        o.push('"');
        for c in s.chars() {
            if self.pick(30) == 0 {
                o.push_str(&format!("\\u{:04x}", c as u32));
            } else if self.pick(60) == 0 {
                o.push_str(&format!("\\u{:04X}", c as u32));
            } else {
                o.push(c);
            }
        }
        o.push('"');
    }
    /// Another way to write a number which every correct parser reads as the
    /// same double: at most 2^53 times a power of ten up to 22.
    fn number(&mut self, o: &mut String, x: f64) {
        let sci = format!("{x:e}");
        let (m, e) = sci.split_once('e').unwrap();
        let mut e: i32 = e.parse().unwrap();
        let neg = m.starts_with('-');
        let m = m.trim_start_matches('-');
        let (a, b) = m.split_once('.').unwrap_or((m, ""));
        e -= b.len() as i32;
        let mut digits = format!("{a}{b}");
        let ok = |d: &str, e: i32| d.parse::<u64>().is_ok_and(|v| v < 1 << 53) && e.abs() <= 22;
        if x == 0. || !ok(&digits, e) {
            o.push_str(&serde_json::json!(x).to_string());
            return;
        }
        for _ in 0..self.pick(3) {
            let d = format!("{digits}0");
            if ok(&d, e - 1) {
                digits = d;
                e -= 1;
            }
        }
        if neg {
            o.push('-');
        }
        let way = self.pick(4);
        // position of the point among the digits
        let point = match way {
            0 => digits.len(),
            1 => 1,
            _ => (digits.len() as i32 + e).clamp(1, digits.len() as i32) as usize,
        };
        let (a, b) = digits.split_at(point);
        o.push_str(a);
        if !b.is_empty() {
            o.push('.');
            o.push_str(b);
        }
        let e = e + b.len() as i32;
        if e > 0 && way == 3 && b.is_empty() && a.len() + (e as usize) < 16 {
            // a plain integer
            o.push_str(&"0".repeat(e as usize));
        } else if e != 0 || self.pick(4) == 0 {
            o.push(if self.pick(2) == 0 { 'e' } else { 'E' });
            if e >= 0 && self.pick(2) == 0 {
                o.push('+');
            }
            o.push_str(&format!("{:0w$}", e, w = 1 + self.pick(3) as usize));
        }
    }
    fn value(&mut self, o: &mut String, v: &Value) {
        self.space(o);
        match v {
            Value::Object(m) => {
                let mut keys: Vec<&String> = m.keys().collect();
                for i in (1..keys.len()).rev() {
                    let j = self.pick(i as u64 + 1) as usize;
                    keys.swap(i, j);
                }
                o.push('{');
                for (i, k) in keys.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    self.space(o);
                    self.text(o, k);
                    self.space(o);
                    o.push(':');
                    self.value(o, &m[*k]);
                }
                self.space(o);
                o.push('}');
            }
            Value::Array(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    self.value(o, x);
                }
                self.space(o);
                o.push(']');
            }
            Value::Number(n) => self.number(o, n.as_f64().unwrap()),
            Value::String(s) => self.text(o, s),
            _ => o.push_str(&v.to_string()),
        }
        self.space(o);
    }
}

pub const OPTIONAL: [(&str, &[&str]); 4] = [
    (
        "",
        &[
            "init",
            "vehicle",
            "steering",
            "planet_model",
            "atmosphere",
            "max_acceleration",
            "stepsize",
            "end_criterion",
        ],
    ),
    (
        "vehicle",
        &[
            "structure_mass",
            "propellant_mass",
            "reference_area",
            "drag_coeff",
            "lift_coeff",
            "side_force_coeff",
            "engines",
        ],
    ),
    ("steering", &["roll", "yaw", "pitch"]),
    ("atmosphere", &["enabled", "wind"]),
];

pub fn restyle(ps: &[Phase], seed: u64) -> String {
    let mut s = Style(seed);
    let mut v = mission_value(ps);
    for p in v.as_array_mut().unwrap() {
        for (group, keys) in OPTIONAL {
            let o = if group.is_empty() {
                p.as_object_mut()
            } else {
                if p.get(group).is_none_or(|x| x.is_null()) && s.pick(4) == 0 {
                    p[group] = serde_json::json!({});
                }
                p.get_mut(group).and_then(|x| x.as_object_mut())
            };
            let Some(o) = o else { continue };
            for k in keys {
                if !o.contains_key(*k) && s.pick(3) == 0 {
                    o.insert(k.to_string(), Value::Null);
                }
            }
            if group == "vehicle" {
                for k in ["drag_coeff", "lift_coeff", "side_force_coeff"] {
                    if let Some(t) = o.get_mut(k).and_then(|t| t.as_object_mut()) {
                        if s.pick(3) == 0 {
                            t.insert("interpolator".into(), "linear".into());
                        }
                    }
                }
            }
        }
    }
    let mut out = String::new();
    if seed % 256 == 7 {
        // much of nothing
        let n = 1usize << (8 + s.pick(15));
        out.extend((0..n).map(|i| if i % 100 == 99 { '\n' } else { ' ' }));
    }
    s.value(&mut out, &v);
    out
}

fn check_notation(c: &Notation, ctx: &mut Ctx) -> CheckResult {
    let a = sut::fly_opt(&c.mission, SMALL, true)?;
    let text = restyle(&c.mission, c.style);
    let b = sut::fly_json(&text, SMALL, true)?;
    same_run(&format!("written as {text}"), &b, &a)?;
    ctx.label(if a.done().is_some() { "complete" } else { "other" });
    Ok(if a.out.len() > 600 { Verdict::Pass } else { Verdict::Trivial })
}

fn c19() -> Property {
    Property {
        id: "C19",
        subs: vec![
            part(
                "again",
                "two random missions run 3 to 12 times in any order, from the same object or loaded \
                 anew: every run of a mission gives the same bits and the same output; non-trivial: \
                 both were run",
                8_000,
                100_000,
                |_| {
                    (any_mission(), any_mission(), prop::collection::vec(0u8..4, 3..12))
                        .prop_map(|(a, b, order)| Again { a, b, order })
                        .boxed()
                },
                check_again,
            ),
            part(
                "threads",
                "two random missions run at the same time in 2 to 4 threads, six times in each: the \
                 bits of the result are those of a run alone; non-trivial: both are complete",
                1_500,
                7_000,
                |_| {
                    let one = || prop_oneof![
                        2 => any_mission(),
                        1 => busy_mission(),
                    ];
                    (one(), one(), any::<u8>()).boxed()
                },
                check_threads,
            ),
            part(
                "process",
                "random missions run here and in a process of their own with another working \
                 directory and environment: the same bits and the same output; every case counts",
                3_000,
                20_000,
                |_| (any_mission(), 0u8..8).boxed(),
                check_process,
            ),
            part(
                "notation",
                "random missions, and the same in another notation (order of keys, white space, \
                 nulls for absent parameters, empty groups, number formats, escapes, the default \
                 interpolator): the same bits and the same output; non-trivial: 2 or more records",
                24_000,
                300_000,
                |_| {
                    (any_mission(), any::<u64>())
                        .prop_map(|(mission, style)| Notation { mission, style })
                        .boxed()
                },
                check_notation,
            ),
        ],
        assumptions: vec![
            "other number formats are limited to those which denote the same double in exact arithmetic",
        ],
    }
}

// ------------------------------------------------------------ C23

struct Tool {
    _child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

thread_local! {
    static TOOL: RefCell<Option<Tool>> = const { RefCell::new(None) };
}

/// Has the plotting tool read an output, or run on it as a whole.
fn tool(out: &str, file: bool, draw: bool) -> Result<Result<Value, String>, &'static str> {
    TOOL.with(|t| {
        let mut t = t.borrow_mut();
        let t = t.get_or_insert_with(|| {
            let dir = verif_dir().join("harness/plot");
            let mut c = Command::new("/usr/local/bin/python3-vt")
                .arg(dir.join("server.py"))
                .arg("/repo/utils/plot/plot.py")
                .env("PYTHONDONTWRITEBYTECODE", "1")
                .env("PYTHONIOENCODING", "utf-8")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .spawn()
                .expect("python3-vt");
            Tool {
                to: c.stdin.take().unwrap(),
                from: BufReader::new(c.stdout.take().unwrap()),
                _child: c,
            }
        });
        let job = serde_json::json!({"out": out, "file": file, "draw": draw}).to_string();
        writeln!(t.to, "{job}").expect("plot server");
        t.to.flush().unwrap();
        let mut line = String::new();
        t.from.read_line(&mut line).expect("plot server");
        let v: Value = serde_json::from_str(&line).expect("answer of the plot server");
        if v.get("skip").is_some() {
            return Err(BEYOND);
        }
        if let Some(e) = v.get("error") {
            return Ok(Err(e.to_string()));
        }
        Ok(Ok(v))
    })
}

/// The beginning of a long text.
fn head(s: &str) -> String {
    s.chars().take(400).collect()
}

/// What the plotting tool reads from an output: its rows.
#[allow(clippy::type_complexity)]
fn plotted(out: &str, file: bool) -> Result<Result<Vec<[f64; 8]>, String>, &'static str> {
    Ok(tool(out, file, false)?.map(|v| serde_json::from_value(v["rows"].clone()).expect("rows")))
}

fn check_plot(c: &(Vec<Phase>, bool), ctx: &mut Ctx) -> CheckResult {
    let r = match known(&c.0)? {
        Ok(r) => r,
        Err(v) => return Ok(v),
    };
    let steps: usize = r.phases.iter().map(|p| p.len()).sum();
    let got = sut::fly_opt(&c.0, 20_000 + 1500 * steps as u64, true)?;
    is_done(&got)?;
    let rows = match plotted(&got.out, c.1) {
        Err(why) => return Ok(Verdict::Skip(why)),
        Ok(Err(m)) => return Err(format!("the plotting tool fails: {m}\n{}", head(&got.out))),
        Ok(Ok(r)) => r,
    };
    let mut phases = vec![];
    let mut now = 0.;
    for r in &rows {
        if r[0] != now {
            ensure!(
                r[0] == now + 1.,
                "phase {} follows phase {now} in what the plotting tool reads",
                r[0]
            );
            now = r[0];
            phases.push(vec![]);
        }
        phases.last_mut().unwrap().push(Rec {
            time: r[1],
            pos: [r[2], r[3], r[4]],
            vel: [r[5], r[6], r[7]],
            alt: None,
            prop: None,
        });
    }
    against_reference(&phases, &r, 1e-8).map_err(|m| format!("read by the plotting tool: {m}"))?;
    // one row for each record which was written
    let n = got.out.lines().filter(|l| l.starts_with("Time:")).count();
    ensure!(
        n == 0 || n == rows.len(),
        "the plotting tool reads {} records of {n}",
        rows.len()
    );
    ctx.label(format!("{} phases", phases.len().min(6)));
    Ok(if rows.len() > 1 { Verdict::Pass } else { Verdict::Trivial })
}

fn c23() -> Property {
    Property {
        id: "C23",
        subs: vec![part(
            "read_back",
            "the output of random missions of 1 to 12 (rarely up to 700) phases, rarely of thousands of steps, lasting up to thousands of years, read by plot.py (as text or through a \
             file): its rows against the states of the reference, as C18 does with the output itself; \
             non-trivial: at least 2 rows",
            40_000,
            1_200_000,
            |_| {
                (
                    prop_oneof![
                        180 => timed_mission(MissionOpts {
                            max_phases: 4,
                            max_steps: 8,
                            ..Default::default()
                        }),
                        60 => timed_mission(MissionOpts {
                            max_phases: 12,
                            max_steps: 3,
                            ..Default::default()
                        }),
                        60 => lasting(),
                        2 => long_mission(),
                        1 => many_phases(),
                    ],
                    prop::bool::weighted(0.1),
                )
                    .boxed()
            },
            check_plot,
        )],
        assumptions: vec![
            "pandas and pyvista are not installed here: plot.py runs with a stand-in for the parts of pandas it uses; what the stand-in does not know is not judged",
        ],
    }
}

// ------------------------------------------------------------ C24

#[derive(Deserialize)]
struct Drawing {
    line: Vec<[f64; 4]>,
    labels: Vec<(String, f64, f64, f64)>,
}

/// The number in a text, if there is just one.
fn number_in(s: &str) -> Option<usize> {
    let mut it = s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty());
    let n = it.next()?.parse().ok()?;
    it.next().is_none().then_some(n)
}

fn check_drawing(c: &(Vec<Phase>, bool), ctx: &mut Ctx) -> CheckResult {
    let r = match known(&c.0)? {
        Ok(r) => r,
        Err(v) => return Ok(v),
    };
    let steps: usize = r.phases.iter().map(|p| p.len()).sum();
    let got = sut::fly_opt(&c.0, 20_000 + 1500 * steps as u64, true)?;
    is_done(&got)?;
    if got.out.lines().filter(|l| l.starts_with("Time:")).count() == 1 {
        return Ok(Verdict::Skip("a line needs two points"));
    }
    let d: Drawing = match tool(&got.out, c.1, true) {
        Err(why) => return Ok(Verdict::Skip(why)),
        Ok(Err(m)) => return Err(format!("the plotting tool fails: {m}\n{}", head(&got.out))),
        Ok(Ok(v)) => serde_json::from_value(v).expect("drawing"),
    };
    ensure!(!d.line.is_empty(), "no trajectory is drawn");
    let at = |q: [f64; 3], s: &St| {
        let tol = 0.5 + 2e-8 * norm(s.pos);
        (0..3).all(|k| (1e3 * q[k] - s.pos_planet[k]).abs() <= tol)
    };
    let shown = |q: &[f64; 4], s: &St| {
        let v = norm(s.vel).max(norm(vsub(s.vel, s.vel_planet))).max(1.);
        at([q[0], q[1], q[2]], s) && (1e3 * q[3] - norm(s.vel)).abs() <= 0.9 + 3e-8 * v
    };
    // the points go through the phases in order
    let mut prev = vec![(0, 0)];
    for (i, q) in d.line.iter().enumerate() {
        let mut now: Vec<(usize, usize)> = vec![];
        for &(p, k) in &prev {
            let mut next = vec![(p, k), (p, k + 1)];
            if k + 1 == r.phases[p].len() {
                next.extend([(p + 1, 0), (p + 1, 1)]);
            }
            for (p, k) in next {
                if r.phases.get(p).and_then(|x| x.get(k)).is_some_and(|s| shown(q, s)) && !now.contains(&(p, k)) {
                    now.push((p, k));
                }
            }
        }
        if now.is_empty() {
            let (p, k) = *prev.last().unwrap();
            let s = &r.phases[p][k];
            return Err(format!(
                "point {} of the line is at {:?} km with {} km/s, but follows step {k} of phase {} at t={}: {:?} m, {} m/s",
                i + 1, &q[..3], q[3], p + 1, s.time, s.pos_planet, norm(s.vel)
            ));
        }
        prev = now;
    }
    let end = r.phases.len() - 1;
    ensure!(
        prev.contains(&(end, r.phases[end].len() - 1)),
        "the line of {} points ends before the mission",
        d.line.len()
    );
    // every phase has its label where it starts
    let mut seen = vec![false; r.phases.len()];
    for (text, x, y, z) in &d.labels {
        let Some(n) = number_in(text) else { return Ok(Verdict::Skip("text of the labels")) };
        ensure!(
            n >= 1 && n <= seen.len() && !std::mem::replace(&mut seen[n - 1], true),
            "a label of phase {n} of {}",
            seen.len()
        );
        let ss = &r.phases[n - 1];
        ensure!(
            at([*x, *y, *z], &ss[0]) || ss.len() > 1 && at([*x, *y, *z], &ss[1]),
            "the label of phase {n} is at {:?} km, but it starts at {:?} m and its first step ends at {:?} m",
            (x, y, z),
            ss[0].pos_planet,
            ss.get(1).map(|s| s.pos_planet)
        );
    }
    ensure!(seen.iter().all(|x| *x), "a phase is not labelled");
    ctx.label(format!("{} phases", r.phases.len().min(12)));
    Ok(if d.line.len() > 2 { Verdict::Pass } else { Verdict::Trivial })
}

fn c24() -> Property {
    Property {
        id: "C24",
        subs: vec![part(
            "drawing",
            "plot.py run as a program (on a file or standard input) on the output of random missions of 1 \
             to 14 (rarely up to 700) phases, lasting up to thousands of years: the points of its line, their \
             colours and the labels of the phases against the states of the reference; \
             non-trivial: at least 3 points",
            30_000,
            900_000,
            |_| {
                (
                    prop_oneof![
                        120 => timed_mission(MissionOpts {
                            max_phases: 4,
                            max_steps: 8,
                            ..Default::default()
                        }),
                        90 => timed_mission(MissionOpts {
                            max_phases: 14,
                            max_steps: 2,
                            ..Default::default()
                        }),
                        60 => lasting(),
                        2 => long_mission(),
                        1 => many_phases(),
                    ],
                    any::<bool>(),
                )
                    .boxed()
            },
            check_drawing,
        )],
        assumptions: vec![
            "pandas and pyvista are not installed here: plot.py runs with stand-ins which record the lines and labels it draws; what the stand-ins do not know is not judged",
        ],
    }
}

pub fn properties() -> Vec<Property> {
    vec![c18(), c19(), c23(), c24()]
}
