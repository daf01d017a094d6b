//! Launches as they are really flown: from the ground through the atmosphere,
//! with staging, coasts, limits and phases which end by what they achieve.

use super::common::*;
use crate::cfg::*;
use crate::gen::*;
use crate::refm::*;
use crate::runner::*;
use crate::st::*;
use crate::sut;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

#[derive(Clone, Debug)]
struct Part {
    /// of the burn of the stage
    share: f64,
    turn: f64,
    how: u8,
    end: u8,
    at: f64,
    step: Option<f64>,
    limit: Option<f64>,
    wind: Option<[f64; 3]>,
}

#[derive(Clone, Debug)]
struct Stage {
    tw: f64,
    isp: f64,
    /// structure and propellant, relative to what is above
    structure: f64,
    propellant: f64,
    pressure: f64,
    split: u8,
    parts: Vec<Part>,
    coast: Option<f64>,
    leftover: bool,
    area: f64,
    drag: Table,
    lift: Table,
    side: Option<Table>,
}

fn coefficient(low: f64, high: f64) -> BoxedStrategy<Table> {
    let v = prop_oneof![4 => uni(low, high), 1 => Just(0.), 1 => Just(high)].boxed();
    let mach = || Var::n("mach_number");
    let var = prop_oneof![
        4 => Just(Var::n("mach_number")),
        1 => Just(Var::n("dynamic_pressure")),
        1 => Just(Var::n("altitude")),
    ];
    let alpha = prop_oneof![2 => Just(Var::n("alpha")), 1 => Just(Var::n("time_since_event"))];
    prop_oneof![
        1 => v.clone().prop_map(Table::constant),
        3 => table_with(var.boxed(), v.clone(), 9).prop_filter("one axis", |t| t.axes.len() == 1),
        4 => (alpha.prop_flat_map(|a| axis(a, 6)), axis(mach(), 9))
            .prop_flat_map(move |(a, m)| {
                let n = a.1.len() * m.1.len();
                (Just(vec![a, m]), prop::collection::vec(v.clone(), n))
            })
            .prop_map(|(axes, data)| Table { axes, data }),
    ]
    .boxed()
}

fn part_of_flight() -> BoxedStrategy<Part> {
    (
        uni(0.05, 0.5),
        prop_oneof![1 => Just(0.), 6 => uni(-28., 5.)],
        0u8..8,
        0u8..16,
        uni(0.05, 0.95),
        maybe(30, prop_oneof![uni(0.5, 5.), pick(&[1., 2., 5., 10.])].boxed()),
        maybe(25, prop_oneof![4 => uni(20., 60.), 2 => Just(-1.)].boxed()),
        maybe(10, vec3(uni(-40., 40.))),
    )
        .prop_map(|(share, turn, how, end, at, step, limit, wind)| Part {
            share,
            turn,
            how,
            end,
            at,
            step,
            limit,
            wind,
        })
        .boxed()
}

fn stage() -> BoxedStrategy<Stage> {
    (
        (uni(1.2, 2.2), uni(230., 460.), uni(0.05, 0.4), uni(0.4, 4.), uni(0., 0.2), 0u8..5),
        prop::collection::vec(part_of_flight(), 1..5),
        maybe(40, uni(0.5, 20.)),
        prop::bool::weighted(0.2),
        (logu(3., 500.), coefficient(0., 1.5), coefficient(-0.8, 0.8), maybe(20, coefficient(-0.3, 0.3))),
    )
        .prop_map(
            |((tw, isp, structure, propellant, pressure, split), parts, coast, leftover, (area, drag, lift, side))| Stage {
                tw,
                isp,
                structure,
                propellant,
                pressure,
                split,
                parts,
                coast,
                leftover,
                area,
                drag,
                lift,
                side,
            },
        )
        .boxed()
}

pub fn launches() -> BoxedStrategy<Vec<Phase>> {
    (
        prop_oneof![3 => planet(), 1 => Just(Planet::Spherical), 1 => Just(Planet::Fisher), 1 => Just(Planet::Smithsonian)],
        (uni(-80., 80.), longitude(), angle(), prop_oneof![1 => Just(0.), 3 => uni(0., 3000.)]),
        logu(5e3, 5e5),
        prop::collection::vec(stage(), 1..4),
        prop_oneof![uni(0.5, 6.), pick(&[1., 2., 5.])],
        maybe(50, vec3(uni(-40., 40.))),
        prop::bool::weighted(0.9),
    )
        .prop_map(|(planet, (latitude, longitude, azimuth, altitude), payload, stages, step, wind, air)| {
            let tse = Var::n("time_since_event");
            let mut out: Vec<Phase> = vec![];
            // masses from above
            let mut above = payload;
            let mut masses = vec![];
            for s in stages.iter().rev() {
                let (a, b) = (qn(above * (1. + s.structure), 7), qn(above * s.propellant, 7));
                masses.push((a, b));
                above = a + b;
            }
            masses.reverse();
            let mut up: f64 = altitude;
            let mut speed = 0f64;
            for (s, (dry, prop)) in stages.iter().zip(masses) {
                let thrust = qn(s.tw * 9.81 * (dry + prop), 7);
                let flow = thrust / s.isp / 9.80665;
                let burn = prop / flow;
                let n: i32 = if s.split == 0 { 3 } else { 1 };
                let engines: Vec<Engine> = (0..n)
                    .map(|k| Engine {
                        incidence: match (n, k) {
                            (1, _) | (_, 2) => [0., 0.],
                            (_, k) => [0., 0.05 - 0.1 * k as f64],
                        },
                        thrust_vac: qn(thrust / n as f64, 7),
                        isp_vac: s.isp,
                        exit_area: qn(s.pressure * thrust / n as f64 / 101325., 6),
                    })
                    .collect();
                let mut left = 1f64;
                let last = s.parts.len() - 1;
                for (k, p) in s.parts.iter().enumerate() {
                    let share = if k == last { left } else { p.share * left };
                    let dt = share * burn;
                    left -= share;
                    let mut ph = Phase {
                        stepsize: p.step.map(|h| qn(h, 4)),
                        max_acceleration: p.limit.map(|a| qn(a, 4)),
                        ..Default::default()
                    };
                    if let Some(w) = p.wind {
                        ph.atmosphere = Some(Atmo {
                            enabled: None,
                            wind: Some(w),
                        });
                    }
                    if k == 0 {
                        let v = ph.veh();
                        v.structure_mass = Some(dry);
                        v.propellant_mass = Some(prop);
                        v.reference_area = Some(qn(s.area * payload.sqrt() / 100., 5));
                        v.drag_coeff = Some(s.drag.clone());
                        v.lift_coeff = Some(s.lift.clone());
                        v.side_force_coeff = s.side.clone();
                        v.engines = Some(engines.clone());
                    }
                    // steering
                    let rate = |x: f64| qn(p.turn / x, 6);
                    let pitch = match p.how {
                        0 => None,
                        1 => Some((Var::n("altitude"), [rate(30_000.), 0., 0.])),
                        2 => Some((Var::n("velocity_planet_norm"), [rate(1500.), 0., 0.])),
                        3 => Some((tse, [rate(dt), rate(dt * dt) / 3., 0.])),
                        4 => Some((Var::n("propellant_mass"), [rate(prop), 0., 0.])),
                        _ => Some((tse, [rate(dt), 0., 0.])),
                    };
                    if pitch.is_some() || p.how == 0 {
                        ph.steering = Some(Steering {
                            pitch,
                            yaw: (p.how == 7).then(|| (tse, [rate(dt * 3.), 0., 0.])),
                            roll: (p.how == 6).then(|| (tse, [rate(dt), 0., 0.])),
                        });
                    }
                    // end
                    let rest = qn(if k == last && !s.leftover { 0. } else { left.max(0.02) * prop }, 6);
                    let gain = dt * 9.8 * (s.tw - 1.) * 0.7;
                    up += 0.4 * dt * (speed + speed + gain);
                    speed += gain;
                    let crit = match p.end {
                        0 => (Var::n("altitude"), qn(up * 0.8, 6)),
                        1 => (Var::n("velocity_planet_norm"), qn(speed, 6)),
                        2 => (Var::n("mach_number"), qn(speed / 330., 6)),
                        3 => (Var::n("mass"), qn(dry + rest, 9)),
                        4 => (Var::n("velocity_norm"), qn(speed + 400., 6)),
                        5..=9 => (tse, qn(dt * p.at, 5)),
                        _ => (Var::n("propellant_mass"), rest),
                    };
                    // the last part has to leave the stage in a known state
                    let crit = if k == last && p.end > 1 && p.end != 3 {
                        (Var::n("propellant_mass"), rest)
                    } else {
                        crit
                    };
                    ph.end_criterion = Some(crit);
                    out.push(ph);
                }
                if let Some(t) = s.coast {
                    let mut ph = Phase {
                        max_acceleration: Some(-1.),
                        end_criterion: Some((tse, qn(t, 4))),
                        ..Default::default()
                    };
                    ph.veh().engines = Some(vec![]);
                    out.push(ph);
                }
            }
            let first = &mut out[0];
            first.planet_model = Some(planet);
            first.init = Some(Init {
                latitude: qn(latitude, 6),
                longitude,
                azimuth,
                altitude: qn(altitude, 6),
            });
            first.atmosphere = Some(Atmo {
                enabled: Some(air),
                wind: first.atmosphere.clone().and_then(|a| a.wind).or(wind),
            });
            first.stepsize.get_or_insert(qn(step, 4));
            out
        })
        .boxed()
}

/// The beginning of a launch.
pub fn launch_part() -> BoxedStrategy<Vec<Phase>> {
    (launches(), any::<prop::sample::Index>())
        .prop_map(|(mut ps, n)| {
            ps.truncate(1 + n.index(ps.len()));
            ps
        })
        .boxed()
}

fn check(ps: &[Phase], ctx: &mut Ctx) -> CheckResult {
    let max = 3000;
    let base = Pert::default();
    let r = fly_ref(ps, &base, max);
    if let Some(k) = r.mon.knife {
        return Ok(Verdict::Skip(k));
    }
    if r.mon.neg_alt {
        return Ok(Verdict::Skip("below the surface"));
    }
    if r.too_long {
        return Ok(Verdict::Skip("too long"));
    }
    if r.mon.nonfinite {
        return Ok(Verdict::Skip("not finite"));
    }
    if r.abort.is_some() {
        return Ok(Verdict::Skip("limit cannot be kept"));
    }
    let e = r.effs.last().unwrap();
    let Some(sens) = sensitivity(ps, &r, max).filter(|s| *s < 1e-5) else {
        return Ok(Verdict::Skip("sensitive"));
    };
    let mut tol = 1e-10 + 0.02 * sens;
    // where a phase ends within its margin, and in how many steps, is open
    let timed = |p: &Phase| matches!(p.end_criterion, Some((v, _)) if v.name().starts_with("time"));
    let mut worst = 0f64;
    if !ps.iter().all(timed) {
        for p in [
            Pert { target: 1., ends: Ends::OneStep, ..base },
            Pert { target: -1., ends: Ends::OneStep, ..base },
            Pert { ends: Ends::TwoSteps, ..base },
        ] {
            let o = fly_ref(ps, &p, max);
            if o.abort.is_some() || o.too_long || o.mon.knife.is_some() {
                return Ok(Verdict::Skip("sensitive"));
            }
            worst += distance(o.last(), r.last(), e);
        }
        tol += 2. * worst;
    }
    if !(tol < 1e-3) {
        return Ok(Verdict::Skip("sensitive"));
    }
    let steps: usize = r.phases.iter().map(|p| p.len()).sum();
    let got = sut::fly_opt(ps, 20_000 + 1500 * steps as u64, false)?;
    let Some(s) = got.done() else {
        return Err(format!("simulation {}", got.what()));
    };
    let d = diff(s, r.last(), e, tol);
    ctx.metric("tolerance", tol);
    ctx.metric("difference / tolerance", distance(s, r.last(), e) / tol);
    ctx.metric("altitude", s.alt);
    if !d.is_empty() {
        let txt: Vec<String> = d
            .iter()
            .map(|(n, a, b, r)| format!("{n}: {a:e}, expected {b:e} (off by {r:.1e}, allowed {tol:.1e})"))
            .collect();
        return Err(txt.join("; "));
    }
    if r.mon.throttled {
        ctx.label("throttled");
    }
    ctx.label(match tol {
        x if x < 1e-9 => "tolerance below 1e-9",
        x if x < 1e-6 => "tolerance below 1e-6",
        _ => "tolerance above 1e-6",
    });
    for (p, v) in ps.iter().zip(&r.phases) {
        if let (Some((x, _)), true) = (p.end_criterion, v.len() > 1) {
            ctx.label(format!("ends by {}", x.name()));
        }
    }
    Ok(if norm(s.vel) > 0. && steps > 10 {
        Verdict::Pass
    } else {
        Verdict::Trivial
    })
}

pub fn ascents() -> Sub {
    part(
        "ascents",
        "launches from the ground through the atmosphere: 1 to 3 stages with 1 to 4 phases each and \
         coasts between, tables in Mach number and angle of attack, limits, winds, phases which end by time, \
         propellant, mass, altitude, speed or Mach number: the final state against the reference, within \
         its response to small changes, to ends moved by their margin and to a divided last step; \
         non-trivial: more than 10 states",
        8_000,
        300_000,
        |_| launches(),
        |c: &Vec<Phase>, ctx: &mut Ctx| check(c, ctx),
    )
}
