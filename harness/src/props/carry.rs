//! What is carried from one phase to the next (C04), the mass (C05), and what
//! a coast conserves (C08).

use super::c01::check_mission;
use super::common::*;
use crate::cfg::*;
use crate::ensure;
use crate::gen::*;
use crate::refm::*;
use crate::runner::*;
use crate::st::*;
use crate::sut;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value};

// ---------------------------------------------------------------- C04

/// Nothing, an explicit null, or the value in force.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Restate {
    Omit,
    Null,
    Value,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RestateCase {
    mission: Vec<Phase>,
    /// One choice per parameter and phase.
    how: Vec<[Restate; 16]>,
}

fn restate_case(mission: BoxedStrategy<Vec<Phase>>) -> BoxedStrategy<RestateCase> {
    mission
        .prop_flat_map(|m| {
            let r = prop_oneof![
                2 => Just(Restate::Omit),
                1 => Just(Restate::Null),
                4 => Just(Restate::Value)
            ];
            let row = prop::array::uniform16(r);
            let n = m.len();
            (Just(m), prop::collection::vec(row, n))
        })
        .prop_map(|(mission, how)| RestateCase { mission, how })
        .boxed()
}

const GROUPS: [&str; 3] = ["vehicle", "steering", "atmosphere"];

/// Restates parameters which a mission does not specify. Returns the notation
/// and how many values were restated.
fn restated(c: &RestateCase) -> (String, usize) {
    let mut e = Eff::start();
    let mut planet = Planet::Spherical;
    let mut out = vec![];
    let mut n = 0;
    for (p, how) in c.mission.iter().zip(&c.how) {
        e.apply(p);
        if let Some(x) = &p.planet_model {
            planet = x.clone();
        }
        // a phase which specifies everything
        let s = |i: usize| {
            let (v, c) = e.steer[i];
            Some((v, [c[1], c[2], c[3]]))
        };
        let full = Phase {
            init: None,
            vehicle: Some(Vehicle {
                structure_mass: Some(e.sm),
                propellant_mass: None,
                reference_area: Some(e.area),
                drag_coeff: Some(e.tables[0].clone()),
                lift_coeff: Some(e.tables[1].clone()),
                side_force_coeff: Some(e.tables[2].clone()),
                engines: Some(e.engines.clone()),
            }),
            steering: Some(Steering {
                roll: s(0),
                yaw: s(1),
                pitch: s(2),
            }),
            planet_model: Some(planet.clone()),
            atmosphere: Some(Atmo {
                enabled: Some(e.atm),
                wind: Some(e.wind),
            }),
            max_acceleration: Some(if e.max_acc.is_infinite() { -1. } else { e.max_acc }),
            stepsize: Some(e.step),
            end_criterion: Some(e.crit),
        };
        let Value::Object(full) = phase_json(&full) else {
            unreachable!()
        };
        let Value::Object(mut own) = phase_json(p) else {
            unreachable!()
        };
        let mut i = 0;
        let mut put = |own: &mut Map<String, Value>, k: &str, v: &Value| {
            if own.contains_key(k) {
                return;
            }
            match how[i] {
                Restate::Omit => {}
                Restate::Null => {
                    own.insert(k.into(), Value::Null);
                }
                Restate::Value => {
                    own.insert(k.into(), v.clone());
                    n += 1;
                }
            }
            i += 1;
        };
        for g in GROUPS {
            let mut inner = match own.get(g) {
                Some(Value::Object(o)) => o.clone(),
                _ => Map::new(),
            };
            for (k, v) in full[g].as_object().unwrap() {
                put(&mut inner, k, v);
            }
            if !inner.is_empty() || own.contains_key(g) {
                own.insert(g.into(), Value::Object(inner));
            }
        }
        for k in ["planet_model", "max_acceleration", "stepsize", "end_criterion"] {
            put(&mut own, k, &full[k]);
        }
        out.push(Value::Object(own));
    }
    (Value::Array(out).to_string(), n)
}

fn check_restated(c: &RestateCase, ctx: &mut Ctx) -> CheckResult {
    let (json, n) = restated(c);
    let steps = 4000;
    let a = sut::fly_opt(&c.mission, 400 * steps, false)?;
    let b = sut::fly_json(&json, 400 * steps, false)?;
    let (x, y) = match (&a.end, &b.end) {
        (sut::End::Done(x), sut::End::Done(y)) => (x, y),
        (sut::End::Panic(_), sut::End::Panic(_)) => return Ok(Verdict::Skip("aborts")),
        _ => {
            let r = fly_ref(&c.mission, &Pert::default(), 20_000);
            if r.mon.knife.is_some()
                || r.mon.nonfinite
                || !sensitivity(&c.mission, &r, 20_000).is_some_and(|s| s < 1e-5)
            {
                return Ok(Verdict::Skip("sensitive"));
            }
            return Err(format!(
                "the mission {}, with parameters restated it {}\n{json}",
                a.what(),
                b.what()
            ));
        }
    };
    let same = x
        .fields()
        .iter()
        .zip(y.fields())
        .all(|(p, q)| p.1 == q.1 || p.1.is_nan() && q.1.is_nan());
    if !same {
        // the mass is added up anew when the structure mass is restated
        let r = fly_ref(&c.mission, &Pert::default(), 20_000);
        if r.mon.nonfinite || r.mon.knife.is_some() || r.abort.is_some() {
            return Ok(Verdict::Skip("sensitive"));
        }
        let sens = match sensitivity(&c.mission, &r, 20_000) {
            Some(s) if s < 1e-5 => s,
            _ => return Ok(Verdict::Skip("sensitive")),
        };
        let d = diff(y, x, r.effs.last().unwrap(), 1e-10 + 0.02 * sens);
        ensure!(
            d.is_empty(),
            "restating parameters changes the result: {:?}\n{json}",
            d
        );
    } else {
        ctx.label("bitwise equal");
    }
    ctx.label(format!("{} phases", c.mission.len()));
    Ok(if n > 0 { Verdict::Pass } else { Verdict::Trivial })
}

/// Missions whose later phases change one or two single parameters each.
fn single_changes() -> BoxedStrategy<Vec<Phase>> {
    let first = timed_mission(MissionOpts {
        max_phases: 1,
        max_steps: 4,
        limit: true,
        high: false,
    });
    first
        .prop_flat_map(|ps| {
            let v = ps[0].vehicle.as_ref().unwrap();
            let m = v.structure_mass.unwrap() + v.propellant_mass.unwrap();
            let change = (
                0u8..17,
                vehicle_change(m),
                steering(100),
                (any::<bool>(), wind(), planet(), max_acc(), uni(0.2, 6.)),
                [table(coeff(2., false)), table(coeff(2., true)), table(coeff(1., true))],
                (0u8..5, prop_oneof![Just(0.), uni(0.05, 0.95)]),
            );
            (Just(ps), prop::collection::vec(change, 1..8), any::<u64>())
        })
        .prop_map(|(ps, changes, bits)| {
            let mut out = vec![ps[0].clone()];
            let mut h = out[0].stepsize.unwrap_or(1.);
            for (k, v, s, (en, wi, pl, acc, step), [d, l, y], (n, f)) in changes {
                let mut p = Phase::default();
                match k {
                    0 => p.veh().structure_mass = v.structure_mass,
                    1 => p.veh().propellant_mass = v.propellant_mass,
                    2 => p.veh().reference_area = v.reference_area,
                    3 => p.veh().drag_coeff = Some(d),
                    4 => p.veh().lift_coeff = Some(l),
                    5 => p.veh().side_force_coeff = Some(y),
                    6 => p.veh().engines = v.engines,
                    7 => p.steer().roll = s.roll,
                    8 => p.steer().yaw = s.yaw,
                    9 => p.steer().pitch = s.pitch,
                    10 => p.atmo().enabled = Some(en),
                    11 => p.atmo().wind = Some(wi),
                    12 => p.planet_model = Some(pl),
                    13 => p.max_acceleration = Some(acc),
                    14 => {
                        h = qn(step, 5);
                        p.stepsize = Some(h);
                    }
                    _ => {}
                }
                // the last kind keeps the previous criterion
                if k != 16 {
                    p.end_criterion = Some((
                        Var::n("time_since_event"),
                        qn(h * (n as f64 + f), 8),
                    ));
                }
                out.push(p);
            }
            similar(&mut out, bits);
            out
        })
        .boxed()
}

fn c04() -> Property {
    Property {
        id: "C04",
        subs: vec![
            part(
                "restated",
                "random missions, and the same with every omitted parameter of every phase omitted, \
                 null or restated (defaults in the first phase): the same final state; non-trivial: \
                 at least one value restated and the mission finished",
                60_000,
                2_000_000,
                |_| {
                    restate_case(
                        prop_oneof![
                            timed_mission(MissionOpts {
                                max_phases: 4,
                                max_steps: 4,
                                ..Default::default()
                            }),
                            single_changes()
                        ]
                        .boxed(),
                    )
                },
                check_restated,
            ),
            part(
                "starts",
                "random missions whose first phase leaves out where to start (or sets it to null), and \
                 whose later phases say where to start: the same as from the documented default, or the \
                 start of the first phase alone; non-trivial: finished and different in notation",
                20_000,
                600_000,
                |_| starts(),
                check_starts,
            ),
            part(
                "single_changes",
                "missions of up to 8 phases which change one parameter each (any of 16, or none), \
                 against the reference",
                40_000,
                1_200_000,
                |_| single_changes(),
                |c: &Vec<Phase>, ctx: &mut Ctx| {
                    let v = check_mission(c, ctx)?;
                    if v == Verdict::Pass && c.iter().any(|p| p.end_criterion.is_none()) {
                        ctx.label("inherited criterion");
                    }
                    Ok(v)
                },
            ),
        ],
        assumptions: vec!["a new propellant mass refills the tanks, so it is never restated"],
    }
}

/// Where a mission starts is up to its first phase, which may leave it out.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Starts {
    mission: Vec<Phase>,
    /// Of the first phase: specified, left out or null.
    first: u8,
    /// Of the later ones, which have no effect.
    later: Vec<Option<Init>>,
}

fn starts() -> BoxedStrategy<Starts> {
    let mission = prop_oneof![
        2 => timed_mission(MissionOpts {
            max_phases: 3,
            max_steps: 4,
            ..Default::default()
        }),
        1 => single_changes(),
    ];
    (mission, 0u8..4, prop::collection::vec(maybe(60, init()), 8))
        .prop_map(|(mission, first, later)| Starts {
            mission,
            first,
            later,
        })
        .boxed()
}

fn check_starts(c: &Starts, ctx: &mut Ctx) -> CheckResult {
    let mut plain = c.mission.clone();
    if c.first != 0 {
        plain[0].init = Some(Init::default());
    }
    let mut odd = plain.clone();
    let mut n = usize::from(c.first != 0);
    for (p, i) in odd.iter_mut().skip(1).zip(&c.later) {
        n += usize::from(i.is_some());
        p.init = i.clone();
    }
    let mut json = Value::Array(odd.iter().map(phase_json).collect());
    match c.first {
        0 => {}
        1 => json[0]["init"] = Value::Null,
        _ => drop(json[0].as_object_mut().unwrap().remove("init")),
    }
    let json = json.to_string();
    if n == 0 {
        return Ok(Verdict::Trivial);
    }
    let a = sut::fly(&plain)?;
    let b = sut::fly_json(&json, sut::BUDGET, false)?;
    match (&a.end, &b.end) {
        (sut::End::Done(x), sut::End::Done(y)) => {
            for ((name, p), (_, q)) in x.fields().into_iter().zip(y.fields()) {
                ensure!(
                    p == q || p.is_nan() && q.is_nan(),
                    "{name} is {q:e}, with the start of the first phase alone {p:e}\n{json}"
                );
            }
        }
        (sut::End::Panic(_), sut::End::Panic(_)) => return Ok(Verdict::Skip("aborts")),
        (sut::End::Budget, sut::End::Budget) => return Ok(Verdict::Skip("too long")),
        _ => {
            return Err(format!(
                "the mission {}, with another notation of the start it {}\n{json}",
                a.what(),
                b.what()
            ))
        }
    }
    if c.first != 0 {
        ctx.label("default");
    }
    if odd.iter().skip(1).any(|p| p.init.is_some()) {
        ctx.label("in a later phase");
    }
    Ok(Verdict::Pass)
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MassLeg {
    sm: Option<f64>,
    pm: Option<f64>,
    engines: Option<Vec<Engine>>,
    h: f64,
    /// duration in steps
    n: f64,
    absolute: bool,
}

fn mass_legs() -> BoxedStrategy<Vec<MassLeg>> {
    let leg = (
        maybe(35, logu(10., 1e5)),
        maybe(30, prop_oneof![1 => Just(0.), 6 => logu(1., 1e6)].boxed()),
        maybe(50, engines(100., 4)),
        prop_oneof![pick(&[1., 0.5, 2.]), uni(0.1, 5.)],
        (0u8..7, prop_oneof![Just(0.), uni(0.05, 0.95)]),
        any::<bool>(),
    )
        .prop_map(|(sm, pm, engines, h, (n, f), absolute)| MassLeg {
            sm,
            pm,
            engines,
            h: qn(h, 5),
            n: n as f64 + f,
            absolute,
        });
    (logu(10., 1e5), prop_oneof![1 => Just(0.), 6 => logu(1e2, 1e7)], prop::collection::vec(leg, 1..8))
        .prop_map(|(sm, pm, mut legs)| {
            legs[0].sm = Some(sm);
            legs[0].pm = Some(pm);
            legs
        })
        .boxed()
}

fn check_mass(legs: &Vec<MassLeg>, ctx: &mut Ctx) -> CheckResult {
    let (mut sm, mut prop, mut flow) = (0., 0., 0.);
    let mut t = 0.;
    let mut ps: Vec<Phase> = vec![];
    let mut scale = 0f64;
    let (mut boundaries, mut burned) = (0, false);
    for (i, l) in legs.iter().enumerate() {
        let mut p = Phase {
            stepsize: Some(l.h),
            ..Default::default()
        };
        if i == 0 {
            p.init = Some(Init {
                latitude: 30.,
                longitude: 0.,
                azimuth: 0.,
                altitude: 1e7,
            });
        }
        let v = p.veh();
        v.structure_mass = l.sm;
        v.propellant_mass = l.pm;
        v.engines = l.engines.clone();
        let dur = qn(l.n * l.h, 8);
        if let Some(x) = l.sm {
            sm = x;
            boundaries += usize::from(i > 0 && l.pm.is_none());
        }
        if let Some(x) = l.pm {
            prop = x;
        }
        if let Some(e) = &l.engines {
            flow = e.iter().map(|e| e.thrust_vac / (e.isp_vac * G0)).sum::<f64>();
        }
        scale = scale.max(sm + prop);
        // the end is met within the margin only
        let end: f64 = if l.absolute { qn(t + dur, 10) } else { dur };
        let dur = if l.absolute { end - t } else { end };
        p.end_criterion = Some((
            Var::n(if l.absolute { "time" } else { "time_since_event" }),
            end,
        ));
        // a step beyond the end is tried and thrown away
        if prop - flow * (dur + l.h) < -0.9 * sm {
            return if i > 1 {
                Ok(Verdict::Pass)
            } else {
                Ok(Verdict::Skip("no mass left"))
            };
        }
        ps.push(p);
        let s = sut::fly_done(&ps)?;
        close("time", s.time, t + dur, 1.1e-3)?;
        let dt = s.time - t;
        t = s.time;
        if flow > 0. && dt > 0. {
            burned = true;
        }
        prop -= flow * dt;
        let tol = 1e-11 * scale * (i as f64 + 1.) + 1e-12 * flow * t * 100.;
        close("propellant_mass", s.prop, prop, tol)?;
        close("mass", s.mass, sm + prop, tol)?;
        close("massflow", s.massflow, -flow, 1e-12 * flow)?;
        // carry on with what was seen, so that errors do not add up
        prop = s.prop;
    }
    if boundaries > 0 {
        ctx.label("structure changed under propellant");
    }
    ctx.label(format!("{} phases", legs.len()));
    Ok(if burned { Verdict::Pass } else { Verdict::Trivial })
}

fn check_mass_relation(ps: &Vec<Phase>, ctx: &mut Ctx) -> CheckResult {
    let (s, r) = match fly_timed(ps)? {
        Flight::Undecided(v) => return Ok(v),
        Flight::Done(s, r) => (s, r),
    };
    let e = r.effs.last().unwrap();
    close(
        "mass minus structure mass",
        s.mass - e.sm,
        s.prop,
        1e-12 * (s.mass.abs() + e.sm),
    )?;
    ensure!(s.massflow <= 0., "massflow is {}", s.massflow);
    // engines at most at full throttle all the time, at least off
    let full: f64 = e.engines.iter().map(|e| e.thrust_vac / (e.isp_vac * G0)).sum();
    let first = r.phases.last().unwrap().first().unwrap();
    let cut = ps.len() > 1 || s.tse > 0.;
    if cut {
        // how the phase began, as the simulation itself has it
        let mut q = ps.clone();
        q.last_mut().unwrap().end_criterion = Some((Var::n("time_since_event"), 0.));
        // keeps the end of the mission before
        let r0 = sut::fly_opt(&q, 20_000 + 400 * 20_000, false)?;
        let Some(a) = r0.done() else {
            return Ok(Verdict::Skip("sensitive"));
        };
        let used = a.mass - s.mass;
        let tol = 1e-11 * a.mass.abs().max(s.mass.abs());
        let dt = s.time - a.time;
        ensure!(
            used >= -tol && used <= full * dt + tol + 1e-9 * full * dt,
            "{used} kg used in {dt} s by engines which use up to {full} kg/s"
        );
        if !r.mon.throttled && e.max_acc.is_infinite() {
            close("propellant used", used, full * dt, tol + 1e-9 * full * dt)?;
        }
        let _ = first;
    }
    if r.mon.throttled {
        ctx.label("throttled");
    }
    Ok(if full > 0. && s.tse > 0. {
        Verdict::Pass
    } else {
        Verdict::Trivial
    })
}

fn c05() -> Property {
    Property {
        id: "C05",
        subs: vec![
            part(
                "stages",
                "up to 7 phases with changes of structure mass, propellant mass and engines in any \
                 combination, mass and propellant at every phase end against a sum; non-trivial: \
                 engines burned",
                40_000,
                1_200_000,
                |_| mass_legs(),
                check_mass,
            ),
            part(
                "missions",
                "random missions with limits: mass is structure plus propellant, and the propellant \
                 used in the last phase is between nothing and full throttle (exactly full throttle \
                 without limit); non-trivial: engines in a phase of some length",
                30_000,
                1_000_000,
                |_| timed_mission(MissionOpts::default()),
                check_mass_relation,
            ),
            part(
                "throttled",
                "missions with limits against the reference, which integrates the throttled flow",
                20_000,
                600_000,
                |_| {
                    timed_mission(MissionOpts {
                        max_phases: 3,
                        max_steps: 10,
                        ..Default::default()
                    })
                    .prop_map(|mut ps| {
                        // a limit which lies below what the engines could do
                        let v = ps[0].vehicle.clone().unwrap();
                        let m = v.structure_mass.unwrap() + v.propellant_mass.unwrap();
                        let t: f64 = v.engines.iter().flatten().map(|e| e.thrust_vac).sum();
                        if t > 0. {
                            ps[0].max_acceleration = Some(qn(0.7 * t / m, 5));
                        }
                        ps
                    })
                    .boxed()
                },
                |c: &Vec<Phase>, ctx: &mut Ctx| {
                    let v = check_mission(c, ctx)?;
                    Ok(if v == Verdict::Pass && !ctx.labels.iter().any(|l| l == "throttled") {
                        Verdict::Trivial
                    } else {
                        v
                    })
                },
            ),
        ],
        assumptions: vec![
            "burning on after the propellant is consumed is documented and not decided",
        ],
    }
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Coast {
    /// up to the beginning of the coast
    before: Vec<Phase>,
    coast: Phase,
    /// duration of the coast
    steps: u16,
    h: f64,
    other: Phase,
    other_w: f64,
}

/// A planet which turns so fast that what starts on it may orbit.
fn fast_planet() -> BoxedStrategy<Planet> {
    (custom_planet(), uni(0.3, 1.3), any::<bool>())
        .prop_map(|(p, k, neg)| match p {
            Planet::Custom { re, rp, g, .. } => {
                let w = k * (g[0] / re / re / re).sqrt();
                Planet::Custom {
                    re,
                    rp,
                    g,
                    w: qn(if neg { -w } else { w }, 6),
                }
            }
            p => p,
        })
        .boxed()
}

fn junk() -> BoxedStrategy<Phase> {
    (steering(80), wind(), table(coeff(2., true)), table(coeff(2., true)), logu(0.1, 1e3), logu(10., 1e5))
        .prop_map(|(s, w, d, l, a, m)| {
            let mut p = Phase {
                steering: Some(s),
                ..Default::default()
            };
            p.atmo().wind = Some(w);
            let v = p.veh();
            v.drag_coeff = Some(d);
            v.lift_coeff = Some(l);
            v.reference_area = Some(a);
            v.structure_mass = Some(m);
            p
        })
        .boxed()
}

fn coast_case() -> BoxedStrategy<Coast> {
    (
        init(),
        uni(0.02, 2.),
        fast_planet(),
        any::<bool>(),
        maybe(40, engine(1000.)),
        (junk(), junk()),
        (1u16..60, uni(0.002, 0.05)),
        uni(-1e-3, 1e-3),
    )
        .prop_map(|(mut i, a, pl, round, burn, (x, y), (steps, k), other_w)| {
            let pl = match pl {
                Planet::Custom { re, rp: _, g, w } if round => Planet::Custom {
                    re,
                    rp: re,
                    g: [g[0], 0., 0., 0.],
                    w,
                },
                p => p,
            };
            let pp = planet_params(&pl);
            i.altitude = qn(a * pp.re, 8);
            let r = pp.re * (1. + a);
            // a fraction of the time scale of an orbit
            let h = qn(k * (r * r * r / pp.mu).sqrt(), 6);
            let mut first = Phase {
                init: Some(i),
                planet_model: Some(pl),
                stepsize: Some(h),
                ..Default::default()
            };
            first.veh().structure_mass = Some(1000.);
            first.end_criterion = Some((Var::n("time_since_event"), 0.));
            let mut before = vec![first.clone()];
            if let Some(mut e) = burn {
                // a push of up to about the orbital speed
                let v = (pp.mu / r).sqrt();
                let dur = 3. * h;
                e.thrust_vac = qn(1000. * v / dur * (e.thrust_vac / 40_000.), 6);
                e.exit_area = 0.;
                e.isp_vac = 1e6;
                before[0].veh().engines = Some(vec![e]);
                before[0].steering = x.steering.clone();
                before[0].end_criterion = Some((Var::n("time_since_event"), qn(dur, 9)));
            }
            let mut coast = x;
            coast.veh().engines = Some(vec![]);
            coast.atmo().enabled = Some(false);
            coast.stepsize = Some(h);
            let mut other = y;
            other.veh().engines = Some(vec![]);
            other.atmo().enabled = Some(false);
            other.stepsize = Some(h);
            Coast {
                before,
                coast,
                steps,
                h,
                other,
                other_w: qn(other_w, 6),
            }
        })
        .boxed()
}

fn check_coast(c: &Coast, ctx: &mut Ctx) -> CheckResult {
    let tse = Var::n("time_since_event");
    let with = |p: &Phase, t: f64| {
        let mut v = c.before.clone();
        let mut p = p.clone();
        p.end_criterion = Some((tse, qn(t, 9)));
        v.push(p);
        v
    };
    let dur = c.steps as f64 * c.h;
    let ps = with(&c.coast, dur);
    let r = fly_ref(&ps, &Pert::default(), 5000);
    if r.mon.nonfinite || r.mon.knife.is_some() {
        return Ok(Verdict::Skip("not finite"));
    }
    let pl = r.effs.last().unwrap().planet.clone();
    // from where the program lets the coast begin: what comes before may be chaotic
    let a = sut::fly_done(&with(&c.coast, 0.))?;
    let e = r.effs.last().unwrap();
    let mut mon = Mon::default();
    let mut path = vec![a.clone()];
    for _ in 0..c.steps {
        match rk4(path.last().unwrap(), c.h, e, &mut mon) {
            Ok(s) => path.push(s),
            Err(_) => return Ok(Verdict::Skip("not finite")),
        }
    }
    // an encounter with the singularity in the centre is not resolved
    let low = path.iter().map(|s| norm(s.pos)).fold(f64::MAX, f64::min);
    if low < 0.5 * pl.re {
        return Ok(Verdict::Skip("through the planet"));
    }
    let b = sut::fly_done(&ps)?;
    let energy = |s: &St| dot(s.vel, s.vel) / 2. + pl.potential(s.pos);
    let ang = |s: &St| cross(s.pos, s.vel);
    let es = dot(a.vel, a.vel) / 2. + pl.mu / low;
    let ls = norm(a.pos) * norm(a.vel).max((pl.mu / norm(a.pos)).sqrt());
    // the integration error, as the reference integration has it
    // (anywhere on the way: at the end it may happen to vanish)
    let worst = |f: &dyn Fn(&St) -> f64| path.iter().map(f).fold(0., f64::max);
    let de = worst(&|s| (energy(s) - energy(&path[0])).abs());
    let dl = worst(&|s| norm(vsub(ang(s), ang(&path[0]))));
    let dlz = worst(&|s| (ang(s)[2] - ang(&path[0])[2]).abs());
    let n = c.steps as f64;
    let err = (energy(&b) - energy(&a)).abs();
    ctx.metric("relative energy error of the reference", de / es);
    if de / es > 1e-3 {
        return Ok(Verdict::Skip("step too coarse"));
    }
    close("change of orbital energy", err, 0., 2. * de + 1e-13 * n * es)?;
    let (la, lb) = (ang(&a), ang(&b));
    close(
        "change of angular momentum about the axis",
        lb[2] - la[2],
        0.,
        2. * dlz + 1e-13 * n * ls,
    )?;
    let round = pl.j.iter().all(|j| *j == 0.);
    if round {
        close3("angular momentum", lb, la, 2. * dl + 1e-13 * n * ls)?;
        ctx.label("central field");
    }
    // nothing else matters
    let mut other = c.other.clone();
    if let Some(Planet::Custom { re, rp, g, .. }) = &c.before[0].planet_model {
        other.planet_model = Some(Planet::Custom {
            re: *re,
            rp: *rp,
            g: *g,
            w: c.other_w,
        });
    }
    // (the Mach number is infinite without atmosphere)
    let ro = fly_ref(&with(&other, dur), &Pert::default(), 5000);
    if ro.mon.nonfinite {
        return Ok(Verdict::Skip("not finite"));
    }
    let o = sut::fly_done(&with(&other, dur))?;
    let d = 1e-13 * n * (1. + norm(b.pos) / low);
    close3("position with other wind, steering, tables, rotation", o.pos, b.pos, d * norm(b.pos))?;
    close3("velocity with other wind, steering, tables, rotation", o.vel, b.vel, d * es.sqrt())?;
    close3("acceleration", b.acc, b.grav, 1e-12 * norm(b.grav))?;
    if c.before[0].vehicle.as_ref().unwrap().engines.is_some() {
        ctx.label("after a burn");
    }
    ctx.label(if energy(&a) < 0. { "bound" } else { "escaping" });
    Ok(if c.steps >= 3 { Verdict::Pass } else { Verdict::Trivial })
}

fn c08() -> Property {
    Property {
        id: "C08",
        subs: vec![part(
            "coasts",
            "coasts of 1 to 60 steps from a fast-turning planet, some after a burn: energy and angular \
             momentum (about the axis, or all of it in a central field) change by no more than twice \
             what the reference integration of the same coast changes them; the same coast with \
             other wind, steering, tables, mass and rotation is identical; non-trivial: 3 or more steps",
            40_000,
            1_200_000,
            |_| coast_case(),
            check_coast,
        )],
        assumptions: vec!["the Mach number is documented to be infinite without atmosphere: nothing is steered by it in a coast", "the potential is the one whose gradient C07 checks"],
    }
}

pub fn properties() -> Vec<Property> {
    vec![c04(), c05(), c08()]
}
