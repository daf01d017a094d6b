//! When phases end (C02) and with which steps they get there (C03).

use super::c01::check_mission;
use super::common::*;
use crate::cfg::*;
use crate::ensure;
use crate::gen::*;
use crate::refm::*;
use crate::runner::*;
use crate::st::*;
use crate::sut;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

const MARGIN: f64 = 1e-3;

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Aim {
    /// A value which the variable passes in this step (index, fraction).
    Between(u8, f64),
    /// The value at the end of this step.
    At(u8),
    /// Off the highest or lowest value by this fraction of the range.
    Beyond(bool, f64),
    /// Just short of the highest or lowest value.
    Within(bool, f64),
    /// The initial value, off by this part of the margin.
    Now(f64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Leg {
    phase: Phase,
    var: Var,
    aim: Aim,
    /// number of steps which are looked at
    steps: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EventCase {
    before: Vec<Phase>,
    legs: Vec<Leg>,
}

fn aim() -> BoxedStrategy<Aim> {
    prop_oneof![
        8 => (0u8..12, uni(0.01, 0.99)).prop_map(|(j, f)| Aim::Between(j, f)),
        2 => (1u8..12).prop_map(Aim::At),
        3 => (any::<bool>(), prop_oneof![uni(0.01, 0.2), uni(0.2, 10.)]).prop_map(|(b, f)| Aim::Beyond(b, f)),
        3 => (any::<bool>(), uni(0.001, 0.3)).prop_map(|(b, f)| Aim::Within(b, f)),
        1 => uni(-0.9, 0.9).prop_map(Aim::Now),
    ]
    .boxed()
}

fn event_var() -> BoxedStrategy<Var> {
    let some = [
        "altitude",
        "velocity_norm",
        "velocity_planet_norm",
        "velocity1",
        "velocity3",
        "velocity_atmosphere2",
        "dynamic_pressure",
        "mach_number",
        "mass",
        "propellant_mass",
        "euler_angles_roll",
        "euler_angles_yaw",
        "euler_angles_pitch",
        "acceleration_norm",
        "position_norm",
        "time",
        "time_since_event",
        "altitude_geopotential",
        "pressure",
    ];
    prop_oneof![
        2 => select(some.iter().map(|n| Var::n(n)).collect::<Vec<_>>()),
        1 => (0u8..NAMES.len() as u8).prop_map(Var),
    ]
    .boxed()
}

/// Turns back and forth within the steps looked at.
fn turning_axis(h: f64) -> BoxedStrategy<(Var, [f64; 3])> {
    (uni(-1., 1.), uni(-1., 1.), uni(-1., 1.), uni(3., 12.))
        .prop_map(move |(a, b, c, n)| {
            // degrees over n steps, with extremes inside
            let t = n * h;
            (
                Var::n("time_since_event"),
                [qn(a * 150. / t, 6), qn(b * 250. / t / t, 6), qn(c * 200. / t / t / t, 6)],
            )
        })
        .boxed()
}

fn leg(first: bool) -> BoxedStrategy<Leg> {
    let h = prop_oneof![pick(&[1., 0.5, 2., 5., 0.1]), uni(0.1, 8.).prop_map(|x| qn(x, 5)).boxed()];
    h.prop_flat_map(move |h| {
        (
            maybe(60, (turning_axis(h), 0usize..3).boxed()),
            maybe(if first { 100 } else { 50 }, Just(h).boxed()),
            maybe(if first { 0 } else { 20 }, vehicle_change(5000.)),
            event_var(),
            aim(),
            3u8..11,
            any::<bool>(),
        )
            .prop_map(|(turn, h, v, mut var, aim, steps, follow)| {
                if let (Some((_, k)), true) = (&turn, follow) {
                    var = Var::n(
                        ["euler_angles_roll", "euler_angles_yaw", "euler_angles_pitch"][*k],
                    );
                }
                let mut p = Phase {
                    stepsize: h,
                    vehicle: v,
                    ..Default::default()
                };
                if let Some((t, k)) = turn {
                    let s = p.steer();
                    match k {
                        0 => s.roll = Some(t),
                        1 => s.yaw = Some(t),
                        _ => s.pitch = Some(t),
                    }
                }
                Leg {
                    phase: p,
                    var,
                    aim,
                    steps,
                }
            })
    })
    .boxed()
}

fn event_case() -> BoxedStrategy<EventCase> {
    let base = prop::bool::weighted(0.3).prop_flat_map(|limit| {
        timed_mission(MissionOpts {
            max_phases: 2,
            max_steps: 4,
            limit,
            ..Default::default()
        })
    });
    (base, leg(false), prop::collection::vec(leg(false), 0..2), any::<bool>())
        .prop_flat_map(|(ps, a, more, merge)| {
            let mut legs = vec![a];
            legs.extend(more);
            if merge {
                // the first leg is the first phase itself
                let mut first = ps[0].clone();
                first.end_criterion = None;
                let st = legs[0].phase.steering.clone();
                if let Some(st) = st {
                    let s = first.steer();
                    s.roll = st.roll.or(s.roll);
                    s.yaw = st.yaw.or(s.yaw);
                    s.pitch = st.pitch.or(s.pitch);
                }
                legs[0].phase = first;
                Just(EventCase {
                    before: vec![],
                    legs,
                })
            } else {
                Just(EventCase { before: ps, legs })
            }
        })
        .boxed()
}

/// Bytes which one record needs at least.
const RECORD: u64 = 120;

fn with_end(before: &[Phase], p: &Phase, var: Var, target: f64) -> Vec<Phase> {
    let mut v = before.to_vec();
    let mut p = p.clone();
    p.end_criterion = Some((var, target));
    v.push(p);
    v
}

fn tse() -> Var {
    Var::n("time_since_event")
}

/// Number of tries which the documented search needs from the beginning of a
/// step to the target, using the real simulation to evaluate the variable
/// inside of the step: a step which passes the target is tried again with the
/// length at which the secant reaches it; one which stays short is kept.
fn secant_tries(
    before: &[Phase],
    leg: &Leg,
    t0: f64,
    y0: f64,
    h: f64,
    y1: f64,
    target: f64,
) -> Option<usize> {
    let (mut t, mut y0) = (t0, y0);
    let (mut dt, mut y) = (h, y1);
    let mut tries = 0;
    for _ in 0..80 {
        if y.abs() < MARGIN {
            return Some(tries);
        }
        if y * y0 < 0. {
            dt = -y0 * dt / (y - y0);
            tries += 1;
        } else {
            t += dt;
            y0 = y;
        }
        if !(dt > 0. && dt <= h * 1.0001) {
            return None;
        }
        let s = sut::fly(&with_end(before, &leg.phase, tse(), t + dt)).ok()?;
        y = s.done()?.var(leg.var) - target;
    }
    None
}

/// The way to the target may be taken in several shorter steps. Where the full
/// step is too coarse to say anything about those, they may miss the target.
fn coarse(
    before: &[Phase],
    leg: &Leg,
    k: usize,
    h: f64,
    target: f64,
    e: &[f64],
    st: &[St],
) -> Result<Option<&'static str>, String> {
    if runs_away(before, leg, h, st)? {
        return Ok(Some("runs away"));
    }
    let at = |p: &Phase, t: f64| -> Result<f64, String> {
        let f = sut::fly(&with_end(before, p, tse(), qn(t, 12)))?;
        Ok(f.done().map_or(f64::NAN, |f| f.var(leg.var) - target))
    };
    let mut p = leg.phase.clone();
    p.stepsize = Some(qn(h / 8., 12));
    for i in [k - 1, k] {
        let f = at(&p, i as f64 * h)?;
        if !((f - e[i]).abs() < 0.02 * (e[k] - e[k - 1]).abs().min(e[i].abs().max(MARGIN))) {
            return Ok(Some("step too coarse"));
        }
    }
    // or jump over two crossings at once
    let mut prev = e[k];
    for i in 1..9 {
        let f = at(&leg.phase, k as f64 * h + i as f64 * h / 8.)?;
        if !((f - prev) * (e[k] - e[k - 1]) > 0.) {
            return Ok(Some("turns right after"));
        }
        prev = f;
    }
    Ok(None)
}

/// Whether the flight is too wild for steps of this length.
fn runs_away(before: &[Phase], leg: &Leg, h: f64, st: &[St]) -> Result<bool, String> {
    // including a step more, as the way may be taken in other steps
    let mut st = st.to_vec();
    let more = with_end(before, &leg.phase, tse(), qn(st.len() as f64 * h, 12));
    match sut::fly(&more)?.done() {
        Some(s) => st.push(s.clone()),
        None => return Ok(true),
    }
    if st.iter().any(|s| !(norm(s.vel) < 3e4))
        || st.windows(2).any(|w| norm(vsub(w[1].vel, w[0].vel)) > 200. * h)
    {
        return Ok(true);
    }
    let mut p = leg.phase.clone();
    p.stepsize = Some(qn(h / 8., 12));
    for (i, s) in st.iter().enumerate() {
        let f = sut::fly(&with_end(before, &p, tse(), qn(i as f64 * h, 12)))?;
        if !f.done().is_some_and(|f| norm(vsub(f.vel, s.vel)) < 0.02 * norm(s.vel).max(100.)) {
            return Ok(true);
        }
    }
    Ok(false)
}

/// What became of a leg.
enum Went {
    /// It ended as it should, in the given step.
    Reached(Vec<Phase>, usize),
    /// It decides nothing more.
    End(Verdict),
}

/// Judges the end of one leg after a history which is known to end.
fn check_leg(
    before: &[Phase],
    leg: &Leg,
    n: usize,
    h: f64,
    ctx: &mut Ctx,
) -> Result<Went, String> {
    let end = |v| Ok(Went::End(v));
    // the states of the first steps
    let mut st: Vec<St> = vec![];
    for k in 0..=leg.steps as usize {
        let r = sut::fly(&with_end(before, &leg.phase, tse(), qn(k as f64 * h, 12)))?;
        let Some(s) = r.done() else {
            if let sut::End::Panic(m) = &r.end {
                if m.contains("max. acceleration") {
                    // only possible if nothing is finite any more
                    return end(Verdict::Skip("not finite"));
                }
            }
            return Err(format!("step {k} of leg {n}: simulation {}", r.what()));
        };
        if s.fields().iter().any(|f| !f.1.is_finite() && f.0 != "mach_number")
            || norm(s.vel) > 1e8
        {
            return end(Verdict::Skip("not finite"));
        }
        if s.prop < -1e-9 * s.mass || s.mass <= 0. {
            return end(Verdict::Skip("no propellant left"));
        }
        ensure!(
            (s.tse - k as f64 * h).abs() < 2. * MARGIN,
            "step {k} of leg {n} ends at {} instead of {}",
            s.tse,
            k as f64 * h
        );
        st.push(s.clone());
    }
    let y: Vec<f64> = st.iter().map(|s| s.var(leg.var)).collect();
    if y.iter().any(|x| !x.is_finite()) {
        return end(Verdict::Skip("variable not finite"));
    }
    let hi = y.iter().cloned().fold(f64::MIN, f64::max);
    let lo = y.iter().cloned().fold(f64::MAX, f64::min);
    let steps = leg.steps as usize;
    let target = qn(
        match leg.aim {
            Aim::Between(j, f) => {
                let j = j as usize % steps;
                y[j] + f * (y[j + 1] - y[j])
            }
            Aim::At(k) => y[k as usize % (steps + 1)],
            Aim::Beyond(up, f) => {
                let d = f * (hi - lo).max(10. * MARGIN) + 2. * MARGIN;
                if up {
                    hi + d
                } else {
                    lo - d
                }
            }
            Aim::Within(up, f) => {
                if up {
                    hi - f * (hi - lo)
                } else {
                    lo + f * (hi - lo)
                }
            }
            Aim::Now(f) => y[0] + f * MARGIN,
        },
        10,
    );
    let e: Vec<f64> = y.iter().map(|v| v - target).collect();
    let scale = hi.abs().max(lo.abs()).max(target.abs());
    if e.iter().any(|x| (x.abs() - MARGIN).abs() < 1e-12 * scale + 1e-9) {
        return end(Verdict::Skip("at the margin"));
    }
    // the first step which reaches the target
    let hit = if e[0].abs() < MARGIN {
        Some(1)
    } else {
        (1..=steps).find(|&k| e[k].abs() < MARGIN || e[k] * e[k - 1] < 0.)
    };
    let mission = with_end(before, &leg.phase, leg.var, target);
    let Some(k) = hit else {
        // it has to fly on, beyond everything looked at
        let budget = 20_000
            + (before.len() as u64 * 2000 + (steps as u64 + 12)) * 400;
        let r = sut::fly_opt(&mission, budget, false)?;
        let last = st[steps].time;
        return match r.end {
            sut::End::Done(s) => {
                ensure!(
                    s.time >= last - 1e-9 - MARGIN,
                    "{} goes from {:e} to {:e} without reaching {target:e}, but the phase ended at t={} with {:e}",
                    leg.var.name(), y[0], y[steps], s.time, s.var(leg.var)
                );
                ensure!(
                    (s.var(leg.var) - target).abs() < MARGIN,
                    "the phase ended with {} = {:e} instead of {target:e}",
                    leg.var.name(),
                    s.var(leg.var)
                );
                ctx.label("reached later");
                end(Verdict::Pass)
            }
            sut::End::Budget => {
                ctx.label("not reached");
                end(Verdict::Pass)
            }
            sut::End::Panic(m) => {
                let got = sut::fly_opt(&mission, budget, true)?;
                // records of this phase
                let mine = got.out.rsplit("Starting Phase").next().unwrap_or("");
                let records = mine.matches("Time:").count();
                ensure!(
                    records >= steps,
                    "{} does not reach {target:e} within {steps} steps, but after {records}: {m}",
                    leg.var.name()
                );
                end(Verdict::Skip("fails later"))
            }
        };
    };
    let start = st[0].time;
    if scale > 1e8 || (e[k] - e[k - 1]).abs() / h * st[k].time.max(1.) > 1e10 {
        return end(Verdict::Skip("margin below rounding"));
    }
    let (a, b) = (st[k - 1].time, st[k].time);
    // one and the same crossing however finely it is looked at
    let mut fine = vec![e[k - 1]];
    for i in 1..8 {
        let s = sut::fly(&with_end(
            before,
            &leg.phase,
            tse(),
            qn((k - 1) as f64 * h + i as f64 * h / 8., 12),
        ))?;
        match s.done() {
            Some(s) => fine.push(s.var(leg.var) - target),
            None => return end(Verdict::Skip("not finite")),
        }
    }
    fine.push(e[k]);
    let now = e[0].abs() < MARGIN;
    if !now && e[k].abs() >= MARGIN {
        let up = e[k] > e[k - 1];
        if !fine.windows(2).all(|w| if up { w[1] > w[0] } else { w[1] < w[0] }) {
            return end(Verdict::Skip("turns within a step"));
        }
        if fine.windows(2).any(|w| (w[1] - w[0]).abs() > 0.6 * (e[k] - e[k - 1]).abs()) {
            return end(Verdict::Skip("jumps within a step"));
        }
        // flat beginnings need many small steps
        if fine[1..].iter().any(|x| (x - fine[0]).abs() < 1e-3 * (e[k] - e[k - 1]).abs()) {
            return end(Verdict::Skip("flat within a step"));
        }
        if e[k - 1].abs() < 2e-3 * (e[k] - e[k - 1]).abs() {
            return end(Verdict::Skip("close to the beginning of a step"));
        }
    }
    let r = sut::fly_opt(&mission, sut::BUDGET, true)?;
    if ctx.verbose {
        eprintln!("leg {n}: h={h} {:?} target {target:e} reached in step {k}, e={e:?} fine={fine:?}: {}", leg.var, r.what());
    }
    let s = match r.end {
        sut::End::Done(s) => s,
        sut::End::Panic(ref m) if m.contains("zero crossing") => {
            match secant_tries(
                before,
                leg,
                qn((k - 1) as f64 * h, 12),
                e[k - 1],
                h,
                e[k],
                target,
            ) {
                Some(n) if n <= 15 => {
                    if let Some(why) = coarse(before, leg, k, h, target, &e, &st)? {
                        return end(Verdict::Skip(why));
                    }
                    return Err(format!(
                        "{} reaches {target:e} in step {k}, but the simulation {}",
                        leg.var.name(),
                        r.what()
                    ))
                }
                _ => {
                    return end(Verdict::Skip("secant does not converge"));
                }
            }
        }
        _ => {
            if let Some(why) = coarse(before, leg, k, h, target, &e, &st)? {
                return end(Verdict::Skip(why));
            }
            return Err(format!(
                "{} reaches {target:e} in step {k} (t={a} to {b}), but the simulation {}",
                leg.var.name(),
                r.what()
            ))
        }
    };
    let v = s.var(leg.var);
    ensure!(
        (v - target).abs() < MARGIN,
        "the phase ended with {} = {v:e} instead of {target:e}",
        leg.var.name()
    );
    let eps = 1e-9 * b.abs().max(1.);
    ensure!(
        s.time >= a - eps - if k == 1 { 0. } else { MARGIN },
        "{} reaches {target:e} between t={a} and {b}, but the phase ended before, at {}",
        leg.var.name(),
        s.time
    );
    if s.time > b + eps {
        if let Some(why) = coarse(before, leg, k, h, target, &e, &st)? {
            return end(Verdict::Skip(why));
        }
    }
    ensure!(
        s.time <= b + eps + 0.02 * h,
        "{} reaches {target:e} between t={a} and {b}, but the phase ended after, at {}",
        leg.var.name(),
        s.time
    );
    ensure!(
        (s.time - start - s.tse).abs() <= 1e-9 * s.time.abs().max(1.),
        "{} s since the event at {start}, but t={}",
        s.tse,
        s.time
    );
    // time never runs backwards
    let mut last = f64::MIN;
    for l in r.out.lines() {
        if let Some(t) = l.strip_prefix("Time:") {
            let t: f64 = t.trim().parse().map_err(|_| format!("unreadable time {l:?}"))?;
            ensure!(t >= last, "time runs backwards, from {last} to {t}");
            last = t;
        }
    }
    ctx.label(match leg.aim {
        Aim::Between(..) => "between",
        Aim::At(_) => "at a step",
        Aim::Beyond(..) => "beyond",
        Aim::Within(..) => "near an extreme",
        Aim::Now(_) => "at once",
    });
    if (1..k).any(|i| (y[i] - y[i - 1]) * (y[i + 1] - y[i]) < 0.) {
        ctx.label("turned around before");
    }
    Ok(Went::Reached(mission, k))
}

fn check_events(c: &EventCase, ctx: &mut Ctx) -> CheckResult {
    let mut before = c.before.clone();
    let mut eff = Eff::start();
    for p in &before {
        eff.apply(p);
    }
    let mut verdict = Verdict::Trivial;
    // the history before has to come to an end
    if !before.is_empty() {
        let r = fly_ref(&before, &Pert::default(), 10_000);
        if r.mon.nonfinite || r.mon.knife.is_some() || r.too_long {
            return Ok(Verdict::Skip("undecided history"));
        }
    }
    for (n, leg) in c.legs.iter().enumerate() {
        eff.apply(&leg.phase);
        match check_leg(&before, leg, n, eff.step, ctx)? {
            Went::End(v) => return Ok(v),
            Went::Reached(mission, k) => {
                if k > 1 {
                    verdict = Verdict::Pass;
                }
                if n > 0 {
                    ctx.label("later event");
                }
                before = mission;
            }
        }
    }
    Ok(verdict)
}

/// The same over many phases: legs which decide nothing end by time instead.
fn check_many(c: &EventCase, ctx: &mut Ctx) -> CheckResult {
    let mut before = vec![];
    let mut eff = Eff::start();
    let mut reached = 0;
    for (n, leg) in c.legs.iter().enumerate() {
        eff.apply(&leg.phase);
        match check_leg(&before, leg, n, eff.step, ctx)? {
            Went::Reached(mission, _) => {
                reached += 1;
                before = mission;
            }
            Went::End(_) => {
                let t = qn((0.4 + leg.steps as f64) * eff.step, 10);
                before = with_end(&before, &leg.phase, tse(), t);
                let r = sut::fly_opt(&before, sut::BUDGET, false)?;
                match &r.end {
                    sut::End::Done(s) if s.fields().iter().any(|f| !f.1.is_finite() && f.0 != "mach_number") => {
                        return Ok(Verdict::Skip("not finite"))
                    }
                    sut::End::Done(s) => {
                        ensure!(
                            (s.tse - t).abs() < 2. * MARGIN,
                            "leg {n} ends at {} instead of {t}",
                            s.tse
                        );
                    }
                    sut::End::Panic(m) if m.contains("max. acceleration") => {
                        return Ok(Verdict::Skip("not finite"))
                    }
                    _ => return Err(format!("leg {n}: simulation {}", r.what())),
                }
            }
        }
    }
    ctx.metric("events reached in one mission", reached as f64);
    Ok(if reached >= 5 { Verdict::Pass } else { Verdict::Trivial })
}

fn many_case() -> BoxedStrategy<EventCase> {
    let vars = [
        "altitude",
        "velocity_norm",
        "velocity_planet2",
        "velocity1",
        "velocity3",
        "propellant_mass",
        "mass",
        "euler_angles_pitch",
        "position_norm",
        "position3",
        "time",
        "time_since_event",
    ];
    let one = (
        turning_axis(1.),
        maybe(15, uni(0.3, 1.5).prop_map(|x| qn(x, 4)).boxed()),
        select(vars.iter().map(|n| Var::n(n)).collect::<Vec<_>>()),
        uni(0.02, 0.98),
        1u8..4,
    )
        .prop_map(|(turn, h, var, f, steps)| {
            let mut p = Phase {
                stepsize: h,
                ..Default::default()
            };
            p.steer().pitch = Some(turn);
            Leg {
                phase: p,
                var,
                aim: Aim::Between(steps - 1, f),
                steps,
            }
        });
    let base = timed_mission(MissionOpts {
        max_phases: 1,
        limit: false,
        high: true,
        ..Default::default()
    });
    (base, prop::collection::vec(one, 1..40))
        .prop_map(|(ps, mut legs)| {
            let mut p = ps[0].clone();
            p.stepsize = Some(0.5);
            p.end_criterion = None;
            legs[0].phase = p;
            EventCase {
                before: vec![],
                legs,
            }
        })
        .boxed()
}

fn c02() -> Property {
    Property {
        id: "C02",
        subs: vec![part(
            "events",
            "histories of timed phases and up to two event phases; variable and target are chosen \
             from the states which the real simulation itself shows when it is stopped after every \
             step: targets between and at steps, at extremes, never reached, reached at once; \
             non-trivial: reached after the first step, or never",
            28_000,
            1_200_000,
            |_| event_case(),
            check_events,
        ),
        part(
            "many_events",
            "the same with missions of up to 40 phases (ended by time where the variable does not \
             move steadily); non-trivial: five or more events are reached",
            150,
            8_000,
            |_| many_case(),
            check_many,
        ),
        super::marathon::marathon(false)],
        assumptions: vec![
            "a crossing is seen if the states before and after a full step lie on both sides (documented); \
             steps in which the variable turns around are left out",
            "targets which the secant iteration of the documentation does not find in 15 tries may be \
             given up",
        ],
    }
}

// ---------------------------------------------------------------- C03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StepLeg {
    h: Option<f64>,
    /// rate and acceleration of the roll angle
    roll: (f64, f64),
    thrust: bool,
    /// duration in steps
    n: f64,
    kind: End,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum End {
    Since,
    Absolute,
    Roll,
}

fn step_legs() -> BoxedStrategy<Vec<StepLeg>> {
    let leg = (
        maybe(60, prop_oneof![6 => logu(1.5, 30.), 3 => select(vec![2., 3., 5., 10.]), 1 => logu(30., 3000.)].boxed()),
        (uni(1., 6.), uni(-0.4, 1.)),
        any::<bool>(),
        (0u8..9, prop_oneof![1 => Just(0.), 4 => uni(0.02, 0.98)]),
        select(vec![End::Since, End::Absolute, End::Roll, End::Roll]),
    )
        .prop_map(|(h, roll, thrust, (n, f), kind)| StepLeg {
            h,
            roll,
            thrust,
            n: n as f64 + f,
            kind,
        });
    prop::collection::vec(leg, 1..6)
        .prop_map(|mut v| {
            v[0].h.get_or_insert(2.7182);
            v
        })
        .boxed()
}

fn printed_times(out: &str) -> Result<Vec<Vec<f64>>, String> {
    let mut v: Vec<Vec<f64>> = vec![];
    for l in out.lines() {
        if l.starts_with("Starting Phase") {
            v.push(vec![]);
        } else if let Some(t) = l.strip_prefix("Time:") {
            let t: f64 = t.trim().parse().map_err(|_| format!("unreadable {l:?}"))?;
            v.last_mut().ok_or("time before the first phase")?.push(t);
        }
    }
    Ok(v)
}

fn check_schedule(legs: &Vec<StepLeg>, ctx: &mut Ctx) -> CheckResult {
    let mut ps: Vec<Phase> = vec![];
    let mut h = 1.;
    let mut ends = vec![0.];
    let mut steps = vec![];
    for (i, l) in legs.iter().enumerate() {
        let mut p = Phase::default();
        if i == 0 {
            p.init = Some(Init {
                latitude: 10.,
                longitude: 20.,
                azimuth: 30.,
                altitude: 3e6,
            });
            let v = p.veh();
            v.structure_mass = Some(1000.);
            v.propellant_mass = Some(20_000.);
            if legs.iter().any(|l| l.h.is_some_and(|h| h > 30.)) {
                p.planet_model = Some(void(0.));
            }
        }
        p.veh().engines = Some(if l.thrust {
            vec![Engine {
                incidence: [0., 0.],
                thrust_vac: 20_000.,
                isp_vac: 400.,
                exit_area: 0.1,
            }]
        } else {
            vec![]
        });
        if let Some(x) = l.h {
            h = x;
            p.stepsize = Some(x);
        }
        steps.push(h);
        let dur = qn(l.n * h, 9);
        // monotonic over the whole phase
        let c1 = qn(l.roll.0, 6);
        let c2 = qn(l.roll.1 * c1 / (2. * (dur + h)), 6);
        p.steer().roll = Some((tse(), [c1, c2, 0.]));
        let t0 = *ends.last().unwrap();
        p.end_criterion = Some(match l.kind {
            End::Since => (tse(), dur),
            End::Absolute => (Var::n("time"), qn(t0 + dur, 12)),
            End::Roll => {
                // the angle at that time
                let s = sut::fly_done(&with_end(&ps, &p, tse(), dur))?;
                (Var::n("euler_angles_roll"), qn(s.euler[0], 10))
            }
        });
        ps.push(p);
        let s = sut::fly_done(&ps)?;
        let want = t0 + dur;
        // 0.001 rad of roll at not less than 0.2 deg per second
        let tol = if l.kind == End::Roll { 0.3 + 1e-9 * want } else { 1e-3 + 1e-9 * want };
        close("time at the end of a phase", s.time, want, tol)?;
        ends.push(s.time);
    }
    let r = sut::fly_opt(&ps, sut::BUDGET, true)?;
    ensure!(r.done().is_some(), "simulation {}", r.what());
    let got = printed_times(&r.out)?;
    ensure!(
        got.len() == legs.len(),
        "{} phases announced instead of {}",
        got.len(),
        legs.len()
    );
    let mut shortened = 0;
    for i in 0..legs.len() {
        let (a, b, h) = (ends[i], ends[i + 1], steps[i]);
        let mut seq = vec![a.round_ties_even()];
        seq.extend(&got[i]);
        seq.dedup();
        // full steps which surely are not the last one
        let full = (1..).take_while(|k| a + *k as f64 * h <= b - 0.01).count();
        for k in 1..=full {
            let want = a + k as f64 * h;
            let t = seq.get(k).copied();
            ensure!(
                t.is_some_and(|t| (t - want).abs() <= 0.5 + 1e-6),
                "phase {} with steps of {h} s from t={a}: step {k} ends at {t:?} instead of {want}",
                i + 1
            );
        }
        let rest = &seq[full.min(seq.len() - 1)..];
        for w in rest.windows(2) {
            ensure!(w[1] >= w[0], "time runs backwards from {} to {}", w[0], w[1]);
        }
        ensure!(
            (rest.last().unwrap() - b).abs() <= 0.5 + 1e-6,
            "phase {} ends at {b}, but the last step reported is at {}",
            i + 1,
            rest.last().unwrap()
        );
        if legs[i].kind != End::Roll {
            ensure!(
                rest.len() <= 2,
                "phase {} with steps of {h} s from t={a} to {b} takes additional steps: {seq:?}",
                i + 1
            );
        }
        if i + 1 < legs.len() && b - a - full as f64 * h < h - 0.01 {
            shortened += 1;
        }
    }
    if shortened > 0 {
        ctx.label("steps after a shortened one");
    }
    if legs[1..].iter().any(|l| l.h.is_none()) {
        ctx.label("inherited");
    }
    if legs.iter().any(|l| l.kind == End::Roll) {
        ctx.label("event");
    }
    Ok(if legs.iter().any(|l| l.n > 1.) {
        Verdict::Pass
    } else {
        Verdict::Trivial
    })
}

fn check_signature(ps: &Vec<Phase>, ctx: &mut Ctx) -> CheckResult {
    let v = check_mission(ps, ctx)?;
    if v != Verdict::Pass {
        return Ok(v);
    }
    let r = fly_ref(ps, &Pert::default(), 20_000);
    if r.abort.is_some() {
        return Ok(Verdict::Trivial);
    }
    // would other steps be seen?
    let mut other = ps.clone();
    for (p, e) in other.iter_mut().zip(&r.effs) {
        p.stepsize = Some(e.step / 2.);
    }
    let o = fly_ref(&other, &Pert::default(), 50_000);
    if o.abort.is_some() || o.mon.nonfinite {
        return Ok(Verdict::Trivial);
    }
    let d = distance(o.last(), r.last(), r.effs.last().unwrap());
    Ok(if d > 1e-7 { Verdict::Pass } else { Verdict::Trivial })
}

fn c03() -> Property {
    Property {
        id: "C03",
        subs: vec![
            part(
                "schedule",
                "1 to 5 phases with given or inherited steps from 1.5 to 30 s (rarely up to 3000 s), ended by time or by a \
                 roll angle: the times written for every phase against the sequence of full steps; \
                 non-trivial: some phase has more than one step",
                25_000,
                700_000,
                |_| step_legs(),
                check_schedule,
            ),
            part(
                "signature",
                "random missions with coarse steps against the reference: the truncation error of \
                 the integration shows which steps were made; non-trivial: half the step would \
                 change the result by more than 1e-7",
                50_000,
                1_500_000,
                |_| {
                    let m = |limit| {
                        timed_mission(MissionOpts {
                            max_phases: 4,
                            max_steps: 12,
                            limit,
                            high: false,
                        })
                    };
                    prop_oneof![2 => m(false), 1 => m(true)].boxed()
                },
                check_signature,
            ),
            super::marathon::marathon(false),
        ],
        assumptions: vec!["the step sequence is read from the times written to standard output"],
    }
}

pub fn properties() -> Vec<Property> {
    vec![c02(), c03()]
}
