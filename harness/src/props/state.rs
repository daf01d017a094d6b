//! Properties of single states: C06, C07, C09, C10, C11, C12, C13, C14.

use super::ascent::launch_part;
use super::common::*;
use crate::cfg::*;
use crate::ensure;
use crate::gen::*;
use crate::refm::*;
use crate::runner::*;
use crate::st::*;
use crate::sut;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

type Rel = fn(&St, &Eff, &RefRun, &mut Ctx) -> CheckResult;

/// A relation which has to hold in the final state of any mission.
fn relation(
    name: &'static str,
    rule: &'static str,
    n: (u32, u32),
    strat: fn() -> BoxedStrategy<Vec<Phase>>,
    rel: Rel,
) -> Sub {
    part(
        name,
        rule,
        n.0,
        n.1,
        move |_| strat(),
        move |ps: &Vec<Phase>, ctx: &mut Ctx| match fly_timed(ps)? {
            Flight::Undecided(v) => Ok(v),
            Flight::Done(s, r) => rel(&s, r.effs.last().unwrap(), &r, ctx),
        },
    )
}

fn missions() -> BoxedStrategy<Vec<Phase>> {
    prop::bool::weighted(0.25)
        .prop_flat_map(|limit| {
            timed_mission(MissionOpts {
                limit,
                ..Default::default()
            })
        })
        .boxed()
}
fn flights() -> BoxedStrategy<Vec<Phase>> {
    prop_oneof![25 => missions(), 1 => launch_part()].boxed()
}
fn limited() -> BoxedStrategy<Vec<Phase>> {
    timed_mission(MissionOpts::default())
}
fn moments() -> BoxedStrategy<Vec<Phase>> {
    moment(false)
}
fn limited_moments() -> BoxedStrategy<Vec<Phase>> {
    moment(true)
}

const MISSION_RULE: &str =
    "final states of random missions of 1-4 phases with changing parameters, ending at given times, \
     some of launches through the atmosphere with phases ending by variables";
const MOMENT_RULE: &str = "single moments (phase of no duration): arbitrary place, planet, \
                           attitude, wind, vehicle";

// ---------------------------------------------------------------- C06


fn c06() -> Property {
    let check = |c: &Vec<Phase>, ctx: &mut Ctx| -> CheckResult {
        let p = &c[0];
        let i = p.init.as_ref().unwrap();
        let mut e = Eff::start();
        e.apply(p);
        let s = sut::fly_done(c)?;
        let pl = &e.planet;
        let r = norm(s.pos);
        ensure!(s.time == 0. && s.tse == 0., "starts at {} / {}", s.time, s.tse);
        let lat = i.latitude.to_radians();
        let lon = i.longitude.to_radians();
        // the altitude is the configured one
        close("altitude", s.alt, i.altitude, 1e-12 * r)?;
        // longitude
        let rho = s.pos[0].hypot(s.pos[1]);
        close(
            "distance across the longitude",
            s.pos[0] * lon.sin() - s.pos[1] * lon.cos(),
            0.,
            1e-12 * r,
        )?;
        ensure!(
            s.pos[0] * lon.cos() + s.pos[1] * lon.sin() >= -1e-9 * r,
            "wrong side of the polar axis: {:?}",
            s.pos
        );
        // the point of the surface below has the geodetic latitude: its
        // normal is along (cos lat, sin lat)
        let d = pl.surface(s.pos[2] / r) / r;
        let (x, z) = (rho * d, s.pos[2] * d);
        let n = (x / (pl.re * pl.re), z / (pl.rp * pl.rp));
        let l = n.0.hypot(n.1);
        close(
            "sine of the difference of the geodetic latitude",
            (n.1 * lat.cos() - n.0 * lat.sin()) / l,
            0.,
            1e-11,
        )?;
        let (want, vel, _) = initial(i, pl);
        close3("position", s.pos, want, 1e-11 * r)?;
        let vs = (pl.w * r).abs();
        close3("velocity", s.vel, vel, 1e-11 * vs)?;
        close3("velocity", s.vel, cross([0., 0., pl.w], s.pos), 1e-12 * vs)?;
        close3("velocity_planet", s.vel_planet, [0.; 3], 1e-12 * vs)?;
        close3("position_planet", s.pos_planet, s.pos, 1e-12 * r)?;
        if pl.re != pl.rp {
            ctx.label("oblate");
        }
        if i.altitude > 0. {
            ctx.label("altitude");
        }
        if i.latitude.abs() == 90. {
            ctx.label("pole");
        }
        Ok(Verdict::Pass)
    };
    Property {
        id: "C06",
        subs: vec![
            part(
                "start",
                "a moment at a random place of a built-in or custom (oblate, prolate, counter-rotating) \
                 planet; the geodetic latitude is checked by the surface normal below, the velocity \
                 by the rotation",
                80_000,
                2_000_000,
                |_| {
                    let usual = (init(), maybe(90, planet()));
                    // a planet of any size and rotation, an altitude of any size
                    let extreme = (
                        init(),
                        logu(1., 1e10),
                        uni(0.3, 1.5),
                        slog(1e-12, 10.),
                        prop_oneof![1 => Just(0.), 8 => logu(1e-6, 1e4)],
                    )
                        .prop_map(|(mut i, re, k, w, a)| {
                            i.altitude = qn(a * re, 6);
                            let p = Planet::Custom {
                                re,
                                rp: q(re * k),
                                g: [q(9. * re * re), 0., 0., 0.],
                                w,
                            };
                            (i, Some(p))
                        });
                    let place = prop_oneof![3 => usual, 1 => extreme];
                    (place, logu(1., 1e6), any::<bool>())
                        .prop_map(|((init, planet_model), m, crit)| {
                            let mut p = Phase {
                                init: Some(init),
                                planet_model,
                                ..Default::default()
                            };
                            p.veh().structure_mass = Some(m);
                            if crit {
                                p.end_criterion = Some((Var::n("time"), 0.));
                            }
                            vec![p]
                        })
                        .boxed()
                },
                check,
            ),
            part(
                "start_of_any_vehicle",
                "the same with arbitrary vehicle, attitude, wind and atmosphere",
                40_000,
                800_000,
                |_| moment(false),
                move |c: &Vec<Phase>, ctx: &mut Ctx| match fly_timed(c)? {
                    Flight::Undecided(v) => Ok(v),
                    _ => check(c, ctx),
                },
            ),
        ],
        assumptions: vec!["altitude is measured along the radius, as the code defines it"],
    }
}

// ---------------------------------------------------------------- C07

fn strong_planet() -> BoxedStrategy<Planet> {
    (
        logu(1e3, 1e8),
        uni(-0.1, 0.3),
        logu(1e3, 1e18),
        slog(1e-6, 0.3),
        slog(1e-6, 0.3),
        slog(1e-6, 0.3),
        prop_oneof![Just(0.), slog(1e-6, 1e-3)],
    )
        .prop_map(|(re, f, mu, j2, j3, j4, w)| Planet::Custom {
            re,
            rp: q(re * (1. - f)),
            g: [mu, j2, j3, j4],
            w,
        })
        .boxed()
}

fn c07() -> Property {
    Property {
        id: "C07",
        subs: vec![
            part(
                "moments",
                "gravity at random places (all latitudes, altitudes from 0 to 100 radii) of built-in \
                 and custom planets with harmonics up to 0.3, against the analytic gradient in \
                 spherical coordinates and the numerical gradient of the potential",
                150_000,
                4_000_000,
                |_| {
                    let pl = prop_oneof![
                        1 => planet(),
                        2 => strong_planet(),
                    ];
                    (latitude(), longitude(), prop_oneof![Just(0.), logu(1e-6, 100.)], pl)
                        .prop_map(|(latitude, longitude, a, pl)| {
                            let re = planet_params(&pl).re;
                            let mut p = Phase {
                                init: Some(Init {
                                    latitude,
                                    longitude,
                                    azimuth: 0.,
                                    altitude: q(a * re),
                                }),
                                planet_model: Some(pl),
                                stepsize: Some(1e-6),
                                ..Default::default()
                            };
                            p.veh().structure_mass = Some(100.);
                            vec![p]
                        })
                        .boxed()
                },
                |c: &Vec<Phase>, ctx: &mut Ctx| {
                    let s = sut::fly_done(c)?;
                    let mut e = Eff::start();
                    e.apply(&c[0]);
                    rel_gravity(&s, &e)?;
                    if e.planet.j.iter().filter(|j| **j != 0.).count() == 3 {
                        ctx.label("J2, J3 and J4");
                    }
                    if s.pos[2].abs() < 1e-9 * norm(s.pos) {
                        ctx.label("equator");
                    }
                    Ok(Verdict::Pass)
                },
            ),
            relation("missions", MISSION_RULE, (20_000, 600_000), flights, |s, e, _, _| {
                rel_gravity(s, e)?;
                Ok(Verdict::Pass)
            }),
        ],
        assumptions: vec![],
    }
}

// ---------------------------------------------------------------- C09

fn alt_mix() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => uni(0., 100_000.),
        2 => uni(0., 800_000.),
        1 => logu(1., 1e8),
        // around the bases of the layers
        2 => (0usize..22, uni(-3., 3.)).prop_map(|(k, d)| {
            let h = LAYERS[k][0] * FT;
            let ra = (20_925_741. + 20_855_590.) / 2. * FT;
            q((ra * h / (ra - h) + d).max(0.))
        }),
    ]
    .boxed()
}

fn at_altitude(lat: f64, lon: f64, alt: f64, pl: Option<Planet>, on: bool) -> Vec<Phase> {
    let mut p = Phase {
        init: Some(Init {
            latitude: lat,
            longitude: lon,
            azimuth: 0.,
            altitude: alt,
        }),
        planet_model: pl,
        atmosphere: Some(Atmo {
            enabled: Some(on),
            wind: Some([30., -20., 5.]),
        }),
        stepsize: Some(1e-6),
        ..Default::default()
    };
    p.veh().structure_mass = Some(1000.);
    vec![p]
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct AirCase {
    lat: f64,
    alt: f64,
    dh: f64,
    planet: Option<Planet>,
}

/// Documented layers of the standard: base temperature and gradient from the
/// molecular-scale temperatures at the geopotential bases.
fn standard_temperature(h: f64) -> f64 {
    const T: [f64; 22] = [
        288.15, 216.65, 216.65, 228.65, 270.65, 270.65, 252.65, 180.65, 180.65, 210.65, 260.65,
        360.65, 960.65, 1110.65, 1210.65, 1350.65, 1550.65, 1830.65, 2160.65, 2420.65, 2590.65,
        2700.65,
    ];
    for i in (0..22).rev() {
        let b = LAYERS[i][0] * FT;
        if h >= b {
            if i == 21 {
                return T[21];
            }
            let n = LAYERS[i + 1][0] * FT;
            return T[i] + (T[i + 1] - T[i]) * (h - b) / (n - b);
        }
    }
    T[0]
}

/// Pressure by integrating the hydrostatic equation over those layers.
fn standard_pressure(h: f64) -> f64 {
    let mut p: f64 = 101_325.;
    for i in 0..22 {
        let b = LAYERS[i][0] * FT;
        if h <= b {
            break;
        }
        let top = if i == 21 { h } else { h.min(LAYERS[i + 1][0] * FT) };
        let (t0, t1) = (standard_temperature(b), standard_temperature(top - 1e-9));
        let dh = top - b;
        p *= if (t1 - t0).abs() < 1e-9 {
            (-G0 * dh / (R_AIR * t0)).exp()
        } else {
            let l = (t1 - t0) / dh;
            (t1 / t0).powf(-G0 / (R_AIR * l))
        };
    }
    p
}

fn c09() -> Property {
    Property {
        id: "C09",
        subs: vec![
            part(
                "standard",
                "two neighbouring altitudes (0 to 1e8 m, a quarter within 3 m of a layer boundary) on \
                 a random planet: temperature against the layers of the standard, pressure against \
                 their hydrostatic integral, the local pressure gradient against the weight of the \
                 air, density against the gas law; all zero when disabled",
                60_000,
                1_500_000,
                |_| {
                    (latitude(), alt_mix(), uni(0.5, 30.), maybe(60, planet()))
                        .prop_map(|(lat, alt, dh, planet)| AirCase {
                            lat,
                            alt,
                            dh,
                            planet,
                        })
                        .boxed()
                },
                |c: &AirCase, ctx: &mut Ctx| {
                    let one = |alt: f64, on: bool| -> Result<(St, Eff), String> {
                        let ps = at_altitude(c.lat, 10., alt, c.planet.clone(), on);
                        let mut e = Eff::start();
                        e.apply(&ps[0]);
                        Ok((sut::fly_done(&ps)?, e))
                    };
                    let (a, ea) = one(c.alt, true)?;
                    let (b, _) = one(q(c.alt + c.dh), true)?;
                    for s in [&a, &b] {
                        if s.alt < 0. {
                            return Ok(Verdict::Trivial);
                        }
                        let h = s.alt_geo;
                        close("geopotential altitude", h, ea.planet.geopotential(s.alt), 1e-12 * norm(s.pos))?;
                        let t = standard_temperature(h);
                        close("temperature", s.temp, t, 2e-6 * t + 1e-4)?;
                        let p = standard_pressure(h);
                        close("pressure", s.pres, p, 3e-5 * p)?;
                        close("density", s.dens, s.pres / (R_AIR * s.temp), 1e-10 * s.dens)?;
                        rel_air(s, &ea)?;
                    }
                    // hydrostatic balance between the two
                    let dh = b.alt_geo - a.alt_geo;
                    if dh > 0.1 {
                        let rho = (a.dens + b.dens) / 2.;
                        let slack = 2e-3 * rho * G0 * dh + 1e-6 * a.pres + a.pres * norm(a.pos) * 1e-15 / dh;
                        close("pressure difference", a.pres - b.pres, rho * G0 * dh, slack)?;
                        ensure!(b.pres < a.pres * (1. + 1e-6), "pressure rises with altitude");
                    }
                    let (z, ez) = one(c.alt, false)?;
                    rel_air(&z, &ez)?;
                    let layer = LAYERS.iter().filter(|l| l[0] * FT <= a.alt_geo).count();
                    ctx.label(format!("layer {layer:02}"));
                    Ok(Verdict::Pass)
                },
            ),
            relation("missions", MISSION_RULE, (20_000, 600_000), flights, |s, e, _, ctx| {
                rel_air(s, e)?;
                ctx.label(if e.atm { "atmosphere" } else { "vacuum" });
                Ok(Verdict::Pass)
            }),
        ],
        assumptions: vec![
            "the layer table is the one of the formulation manual; it is also checked to be hydrostatic",
        ],
    }
}

// ---------------------------------------------------------------- C10

/// Long times around a planet without gravity.
fn long_times() -> BoxedStrategy<Vec<Phase>> {
    (
        init(),
        custom_planet(),
        wind(),
        prop_oneof![uni(-3e-3, 3e-3), slog(1e-7, 1e-2)],
        logu(1., 1e6),
        any::<bool>(),
    )
        .prop_map(|(init, pl, wind, w, t, atm)| {
            let Planet::Custom { re, rp, .. } = pl else { unreachable!() };
            let mut p = Phase {
                init: Some(init),
                planet_model: Some(Planet::Custom {
                    re,
                    rp,
                    g: [1e-3, 0., 0., 0.],
                    w,
                }),
                atmosphere: Some(Atmo {
                    enabled: Some(atm),
                    wind: Some(wind),
                }),
                stepsize: Some(qn(t / 3., 4)),
                end_criterion: Some((Var::n("time"), t)),
                ..Default::default()
            };
            p.veh().structure_mass = Some(100.);
            vec![p]
        })
        .boxed()
}

fn c10() -> Property {
    let rel: Rel = |s, e, _, ctx| {
        rel_derived(s, e)?;
        if (e.planet.w * s.time).abs() > 1e-6 {
            ctx.label("rotated");
        }
        if norm(e.wind) > 0. {
            ctx.label("wind");
        }
        Ok(Verdict::Pass)
    };
    Property {
        id: "C10",
        subs: vec![
            relation("missions", MISSION_RULE, (60_000, 1_500_000), flights, rel),
            relation("moments", MOMENT_RULE, (40_000, 1_000_000), moments, rel),
            relation(
                "long_times",
                "drifting for up to 1e6 s around a rotating planet without gravity",
                (40_000, 1_000_000),
                long_times,
                rel,
            ),
        ],
        assumptions: vec!["altitude is measured along the radius, as the code defines it"],
    }
}

// ---------------------------------------------------------------- C11

/// Engines in known directions and phases which turn the vehicle.
fn turning() -> BoxedStrategy<Vec<Phase>> {
    let phase = (
        prop::collection::vec(maybe(60, (prop::sample::select(steer_vars(true)), [angle(), angle(), angle()]).boxed()), 3),
        prop_oneof![Just(0.), Just(1.), uni(0.1, 3.)],
        prop::bool::weighted(0.7),
    );
    (
        init(),
        planet(),
        wind(),
        incidence(),
        prop::collection::vec(phase, 1..5),
        maybe(50, (uni(0., 2.), uni(0., 1.), uni(0., 1.)).boxed()),
    )
        .prop_map(|(init, pl, wind, inc, phases, aero)| {
            let mut out = vec![];
            for (i, (axes, dur, time)) in phases.into_iter().enumerate() {
                let mut p = Phase::default();
                if i == 0 {
                    p.init = Some(init.clone());
                    p.planet_model = Some(pl.clone());
                    p.atmosphere = Some(Atmo {
                        enabled: Some(true),
                        wind: Some(wind),
                    });
                    let v = p.veh();
                    v.structure_mass = Some(1000.);
                    v.propellant_mass = Some(500.);
                    v.reference_area = Some(0.01);
                    v.engines = Some(vec![Engine {
                        incidence: inc,
                        thrust_vac: 30_000.,
                        isp_vac: 400.,
                        exit_area: 0.01,
                    }]);
                    if let Some((cd, cl, cy)) = aero {
                        v.drag_coeff = Some(Table::constant(cd));
                        v.lift_coeff = Some(Table::constant(cl));
                        v.side_force_coeff = Some(Table::constant(cy));
                    }
                }
                let mut s = Steering::default();
                for (k, a) in axes.into_iter().enumerate() {
                    if let Some((var, ang)) = a {
                        let var = if time { Var::n("time_since_event") } else { var };
                        let (lo, hi) = if time { (0., dur.max(1.)) } else { var_range(var) };
                        let sc = lo.abs().max(hi.abs());
                        let c = [q(ang[0] / sc), q(ang[1] / sc / sc), q(ang[2] / sc.powi(3))];
                        let x = Some((var, c));
                        match k {
                            0 => s.roll = x,
                            1 => s.yaw = x,
                            _ => s.pitch = x,
                        }
                    }
                }
                p.steering = Some(s);
                p.stepsize = Some(0.5);
                p.end_criterion = Some((Var::n("time_since_event"), dur));
                out.push(p);
            }
            out
        })
        .boxed()
}

/// The Euler angles of the last phase from the previous ones.
fn rel_steering(ps: &[Phase], s: &St, e: &Eff) -> Result<(), String> {
    let before = if ps.len() > 1 {
        sut::fly_done(&ps[..ps.len() - 1])?.euler
    } else {
        [0.; 3]
    };
    for k in 0..3 {
        let (var, c) = e.steer[k];
        let n = var.name();
        let y = if n == "alpha" || n.starts_with("euler") { 0. } else { s.var(var) };
        let add = c[1] * y + c[2] * y * y + c[3] * y * y * y;
        let scale = (c[1] * y).abs() + (c[2] * y * y).abs() + (c[3] * y * y * y).abs();
        close(
            ["roll", "yaw", "pitch"][k],
            s.euler[k].to_degrees(),
            before[k].to_degrees() + add,
            1e-10 * (scale + before[k].to_degrees().abs() + 1.),
        )?;
    }
    Ok(())
}

fn c11() -> Property {
    let rel: Rel = |s, e, _, ctx| {
        rel_attitude(s, e)?;
        if s.euler.iter().filter(|a| a.abs() > 1e-6).count() == 3 {
            ctx.label("three angles");
        }
        if s.euler.iter().any(|a| {
            let d = a.to_degrees() / 90.;
            a.abs() > 1. && (d - d.round()).abs() < 1e-9
        }) {
            ctx.label("multiple of 90 deg");
        }
        Ok(if norm(s.veh_acc) > 1e-6 {
            Verdict::Pass
        } else {
            Verdict::Trivial
        })
    };
    Property {
        id: "C11",
        subs: vec![
            part(
                "turning",
                "1-4 phases turning a thrusting (and gliding) vehicle by cubic polynomials in random \
                 variables, a third of the angles multiples of 45 degrees: Euler angles continue from \
                 the phase before, and body accelerations enter the inertial one by elementary \
                 rotations",
                60_000,
                1_500_000,
                |_| turning(),
                |ps: &Vec<Phase>, ctx: &mut Ctx| match fly_timed(ps)? {
                    Flight::Undecided(v) => Ok(v),
                    Flight::Done(s, r) => {
                        let e = r.effs.last().unwrap();
                        rel_steering(ps, &s, e)?;
                        rel_attitude(&s, e)?;
                        if ps.len() > 1 && norm(s.euler) > 0. {
                            ctx.label("several phases");
                        }
                        Ok(if norm(s.euler) > 0. {
                            Verdict::Pass
                        } else {
                            Verdict::Trivial
                        })
                    }
                },
            ),
            relation("moments", MOMENT_RULE, (60_000, 1_500_000), moments, rel),
            part(
                "missions",
                MISSION_RULE,
                30_000,
                800_000,
                |_| missions(),
                |ps: &Vec<Phase>, ctx: &mut Ctx| match fly_timed(ps)? {
                    Flight::Undecided(v) => Ok(v),
                    Flight::Done(s, r) => {
                        let e = r.effs.last().unwrap();
                        rel_steering(ps, &s, e)?;
                        rel_attitude(&s, e)?;
                        ctx.label(format!("{} phases", ps.len()));
                        Ok(if norm(s.euler) > 0. {
                            Verdict::Pass
                        } else {
                            Verdict::Trivial
                        })
                    }
                },
            ),
        ],
        assumptions: vec!["the launch frame is given by the geocentric latitude, as the code documents"],
    }
}

// ---------------------------------------------------------------- C12

/// Aerodynamic and thrust forces of comparable size in arbitrary directions.
fn forces() -> BoxedStrategy<Vec<Phase>> {
    (
        init(),
        vec3(uni(-500., 500.)),
        [angle(), angle(), angle()],
        prop::collection::vec(
            (incidence(), uni(0., 3.), prop_oneof![4 => Just(0.), 1 => uni(0., 3e-5)]),
            0..4,
        ),
        // aerodynamic acceleration relative to the limit
        prop_oneof![1 => Just(0.), 3 => uni(0., 3.), 2 => uni(0.9, 1.6)],
        (uni(-1., 1.), uni(-1., 1.), uni(0., 1.)),
        prop_oneof![4 => uni(1., 100.), 1 => logu(1e-3, 1.), 1 => Just(0.)],
        logu(10., 1e6),
        // some aligned cases
        0u32..7,
    )
        .prop_map(|(mut init, wind, ang, engines, ratio, c, limit, m, aligned)| {
            init.altitude = qn(init.altitude.min(60_000.), 6);
            let m = qn(m, 6);
            // dynamic pressure, roughly
            let (t, p) = atmosphere(init.altitude);
            let qd = p / (R_AIR * t) / 2. * dot(wind, wind).max(1.);
            let v = Var::n("mass");
            let s = |a: f64| (v, [q(a / m), 0., 0.]);
            let mut ph = Phase {
                init: Some(init),
                atmosphere: Some(Atmo {
                    enabled: Some(true),
                    wind: Some(wind),
                }),
                steering: Some(Steering {
                    roll: Some(s(ang[0])),
                    yaw: Some(s(ang[1])),
                    pitch: Some(s(ang[2])),
                }),
                max_acceleration: Some(limit),
                stepsize: Some(1e-6),
                end_criterion: Some((Var::n("time_since_event"), 0.)),
                ..Default::default()
            };
            let v = ph.veh();
            v.structure_mass = Some(m);
            let n = norm([c.0, c.1, c.2]).max(0.1);
            let a = if limit > 0. { limit } else { 1. };
            v.reference_area = Some(qn(ratio * a * m / qd / n, 6));
            v.drag_coeff = Some(Table::constant(c.2));
            v.lift_coeff = Some(Table::constant(c.0));
            v.side_force_coeff = Some(Table::constant(c.1));
            let k = engines.len().max(1) as f64;
            v.engines = Some(
                engines
                    .into_iter()
                    .map(|(incidence, f, ex)| {
                        let thrust = qn(f * a * m / k, 6);
                        Engine {
                            incidence: if aligned == 0 { [0., 0.] } else { incidence },
                            thrust_vac: thrust,
                            isp_vac: 300.,
                            exit_area: qn(thrust * ex, 6),
                        }
                    })
                    .collect(),
            );
            if aligned == 0 {
                // only side force, thrust along x; or drag along the flow
                v.lift_coeff = None;
                v.side_force_coeff = None;
            }
            if aligned == 2 {
                // engines which cancel each other for the most part
                if let Some(mut e) = v.engines.as_ref().unwrap().first().cloned() {
                    let es = v.engines.as_mut().unwrap();
                    es[0].thrust_vac = qn(e.thrust_vac * 40., 6);
                    e.incidence[1] += std::f64::consts::PI;
                    e.thrust_vac = qn(e.thrust_vac * (39. + c.0), 6);
                    es.push(e);
                }
            }
            if aligned == 1 {
                // thrust exactly against or along the aerodynamic force
                v.drag_coeff = None;
                v.lift_coeff = None;
                for e in v.engines.as_mut().unwrap() {
                    e.incidence = [0., if c.0 > 0. { 1.5707963267948966 } else { -1.5707963267948966 }];
                }
            }
            vec![ph]
        })
        .boxed()
}

fn check_limit(ps: &[Phase], ctx: &mut Ctx) -> CheckResult {
    let r = fly_ref(ps, &Pert::default(), 20_000);
    if r.too_long || r.mon.neg_alt || r.mon.nonfinite {
        return Ok(Verdict::Skip("unspecified mission"));
    }
    if let Some(k) = r.mon.knife {
        return Ok(Verdict::Skip(k));
    }
    if r.abort_in_rejected {
        return Ok(Verdict::Skip("limit exceeded beyond the end"));
    }
    let steps: usize = r.phases.iter().map(|p| p.len()).sum();
    let got = sut::fly_opt(ps, 20_000 + 1500 * steps as u64, false)?;
    match (&got.end, &r.abort) {
        (sut::End::Panic(_), Some(_)) => {
            ctx.label("aborts");
            Ok(Verdict::Pass)
        }
        // whether a chaotic flight has to be aborted is chance
        (e, a) if matches!(e, sut::End::Done(_)) == a.is_some()
            && !sensitivity(ps, &r, 20_000).is_some_and(|s| s < 1e-5) =>
        {
            Ok(Verdict::Skip("sensitive"))
        }
        (_, Some(_)) => Err(format!(
            "no throttle keeps the limit, but the simulation {}",
            got.what()
        )),
        (sut::End::Done(s), None) => {
            let e = r.effs.last().unwrap();
            let active = rel_throttle(s, e)?;
            if active {
                ctx.label("throttled");
            }
            if norm(s.aero) > e.max_acc * s.mass {
                ctx.label("aerodynamic force beyond the limit");
            }
            Ok(if e.max_acc.is_finite() {
                Verdict::Pass
            } else {
                Verdict::Trivial
            })
        }
        _ => Err(format!(
            "the limit can be kept, but the simulation {}",
            got.what()
        )),
    }
}

fn c12() -> Property {
    Property {
        id: "C12",
        subs: vec![
            part(
                "forces",
                "a moment with 0-3 engines and aerodynamic force of 0 to 3 times the limit in random \
                 (sometimes aligned) directions: throttle against the quadratic equation for the \
                 sensed acceleration, abort exactly when it has no solution",
                120_000,
                3_000_000,
                |_| forces(),
                |c: &Vec<Phase>, ctx: &mut Ctx| check_limit(c, ctx),
            ),
            part(
                "moments",
                MOMENT_RULE,
                20_000,
                500_000,
                |_| limited_moments(),
                |c: &Vec<Phase>, ctx: &mut Ctx| check_limit(c, ctx),
            ),
            part(
                "missions",
                MISSION_RULE,
                50_000,
                1_500_000,
                |_| prop_oneof![25 => limited(), 1 => launch_part()].boxed(),
                |c: &Vec<Phase>, ctx: &mut Ctx| check_limit(c, ctx),
            ),
        ],
        assumptions: vec![
            "cases within 1e-5 of the boundary of feasibility are not decided",
        ],
    }
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct SplitCase {
    base: Vec<Phase>,
    /// parts of each engine
    parts: Vec<f64>,
    which: usize,
    rotate: usize,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct Burn {
    dry: f64,
    prop: f64,
    thrust: f64,
    isp: f64,
    incidence: [f64; 2],
    angles: [f64; 3],
    used: f64,
    limit: f64,
}

fn c13() -> Property {
    let rel: Rel = |s, e, _, ctx| {
        rel_thrust(s, e)?;
        let n = e.engines.iter().filter(|e| e.thrust_vac != 0.).count();
        ctx.label(format!("{n} engines"));
        if s.throttle < 1. && n > 0 {
            ctx.label("throttled");
        }
        if s.pres > 0. && e.engines.iter().any(|e| e.exit_area > 0.) {
            ctx.label("back pressure");
        }
        if e.engines.iter().any(|e| e.exit_area * s.pres > e.thrust_vac) {
            ctx.label("negative thrust");
        }
        Ok(if n > 0 { Verdict::Pass } else { Verdict::Trivial })
    };
    Property {
        id: "C13",
        subs: vec![
            relation("moments", MOMENT_RULE, (60_000, 1_500_000), limited_moments, rel),
            relation("missions", MISSION_RULE, (30_000, 800_000), limited, rel),
            part(
                "split",
                "a random mission flown again after dividing one of its engines into 2-4 parts (same \
                 direction, thrust and exit area adding up) and reordering all engines",
                15_000,
                400_000,
                |_| {
                    (
                        limited(),
                        prop::collection::vec(uni(0.05, 1.), 2..5),
                        0usize..4,
                        0usize..4,
                    )
                        .prop_map(|(base, parts, which, rotate)| SplitCase {
                            base,
                            parts,
                            which,
                            rotate,
                        })
                        .boxed()
                },
                |c: &SplitCase, ctx: &mut Ctx| {
                    let mut other = c.base.clone();
                    let mut n = 0;
                    for p in other.iter_mut() {
                        if let Some(es) = p.vehicle.as_mut().and_then(|v| v.engines.as_mut()) {
                            if es.is_empty() {
                                continue;
                            }
                            let k = c.which % es.len();
                            let e = es.remove(k);
                            let sum: f64 = c.parts.iter().sum();
                            for f in &c.parts {
                                let mut x = e.clone();
                                x.thrust_vac *= f / sum;
                                x.exit_area *= f / sum;
                                es.push(x);
                            }
                            let m = es.len();
                            es.rotate_left(c.rotate % m);
                            n += 1;
                        }
                    }
                    if n == 0 {
                        return Ok(Verdict::Trivial);
                    }
                    let (a, r) = match fly_timed(&c.base)? {
                        Flight::Undecided(v) => return Ok(v),
                        Flight::Done(s, r) => (s, r),
                    };
                    let sens = match sensitivity(&c.base, &r, 20_000) {
                        Some(x) if x < 1e-5 => x,
                        _ => return Ok(Verdict::Skip("sensitive")),
                    };
                    let b = sut::fly_done(&other)?;
                    let e = r.effs.last().unwrap();
                    let d = diff(&b, &a, e, 1e-9 + 0.02 * sens);
                    ensure!(d.is_empty(), "dividing an engine changed {d:?}");
                    ctx.label(format!("{} phases with engines", n.min(3)));
                    Ok(Verdict::Pass)
                },
            ),
            part(
                "rocket_equation",
                "a burn in free space (also throttled by a limit), its speed against the rocket equation \
                 and its mass against thrust and specific impulse",
                8_000,
                200_000,
                |_| {
                    (
                        logu(10., 1e5),
                        uni(0.1, 8.),
                        uni(1., 50.),
                        uni(150., 500.),
                        incidence(),
                        [angle(), angle(), angle()],
                        uni(0.1, 0.98),
                        prop_oneof![Just(-1.), uni(2., 60.)],
                    )
                        .prop_map(|(dry, ratio, a, isp, incidence, angles, used, limit)| Burn {
                            dry,
                            prop: qn(dry * ratio, 6),
                            thrust: qn(a * dry * (1. + ratio), 6),
                            isp,
                            incidence,
                            angles,
                            used,
                            limit,
                        })
                        .boxed()
                },
                |c: &Burn, ctx: &mut Ctx| {
                    let m0 = c.dry + c.prop;
                    let v = Var::n("time_since_event");
                    // attitude is reached in a first moment and kept
                    let s = |a: f64| Some((Var::n("mass"), [q(a / m0), 0., 0.]));
                    let still = Some((v, [0., 0., 0.]));
                    let mut p1 = Phase {
                        init: Some(Init::default()),
                        planet_model: Some(void(0.)),
                        steering: Some(Steering {
                            roll: s(c.angles[0]),
                            yaw: s(c.angles[1]),
                            pitch: s(c.angles[2]),
                        }),
                        max_acceleration: Some(c.limit),
                        ..Default::default()
                    };
                    let veh = p1.veh();
                    veh.structure_mass = Some(c.dry);
                    veh.propellant_mass = Some(c.prop);
                    veh.engines = Some(vec![Engine {
                        incidence: c.incidence,
                        thrust_vac: c.thrust,
                        isp_vac: c.isp,
                        exit_area: 1.,
                    }]);
                    let flow = c.thrust / (c.isp * G0);
                    // long enough to use this share at full throttle
                    let t = qn(c.prop * c.used / flow, 6);
                    let n = 200.;
                    let p2 = Phase {
                        steering: Some(Steering {
                            roll: still,
                            yaw: still,
                            pitch: still,
                        }),
                        stepsize: Some(q(t / n)),
                        end_criterion: Some((v, t)),
                        ..Default::default()
                    };
                    if t / n < 0.01 {
                        return Ok(Verdict::Trivial);
                    }
                    let s = sut::fly_done(&[p1, p2])?;
                    let dv = norm(s.vel);
                    let ve = c.isp * G0;
                    close("speed", dv, ve * (m0 / s.mass).ln(), 1e-6 * dv + 1e-9)?;
                    // mass: full flow until (or from) the limit, then exponential
                    let a0 = c.thrust / m0;
                    let td = s.time;
                    let m = if c.limit < 0. || a0 < c.limit {
                        let ml = if c.limit < 0. { 0. } else { c.thrust / c.limit };
                        let tl = (m0 - ml) / flow;
                        if td <= tl {
                            m0 - flow * td
                        } else {
                            ctx.label("reaches the limit");
                            ml * (-c.limit / ve * (td - tl)).exp()
                        }
                    } else {
                        ctx.label("starts at the limit");
                        m0 * (-c.limit / ve * td).exp()
                    };
                    close("mass", s.mass, m, 1e-5 * m0)?;
                    Ok(Verdict::Pass)
                },
            ),
        ],
        assumptions: vec![],
    }
}

// ---------------------------------------------------------------- C14

fn flow_case() -> BoxedStrategy<Vec<Phase>> {
    let dir = prop_oneof![
        3 => vec3(uni(-400., 400.)),
        1 => pick(&[-300., 300., -5., 5.]).prop_map(|x| [x, 0., 0.]),
        1 => pick(&[-300., 300., -5., 5.]).prop_map(|x| [0., x, 0.]),
        1 => pick(&[-300., 300., -5., 5.]).prop_map(|x| [0., 0., x]),
    ];
    let t = |s: bool| {
        prop_oneof![
            2 => Just(None),
            1 => Just(Some(Table::empty())),
            2 => coeff(2., s).prop_map(|c| Some(Table::constant(c))),
            5 => table(coeff(2., s)).prop_map(Some),
        ]
    };
    (
        init(),
        dir,
        [angle(), angle(), angle()],
        t(true),
        t(true),
        t(true),
        logu(0.1, 100.),
        maybe(30, engines(1000., 2)),
    )
        .prop_map(|(init, wind, ang, d, l, y, area, engines)| {
            let v = Var::n("mass");
            let s = |a: f64| (v, [q(a / 1000.), 0., 0.]);
            vec![Phase {
                init: Some(init),
                atmosphere: Some(Atmo {
                    enabled: Some(true),
                    wind: Some(wind),
                }),
                steering: Some(Steering {
                    roll: Some(s(ang[0])),
                    yaw: Some(s(ang[1])),
                    pitch: Some(s(ang[2])),
                }),
                vehicle: Some(Vehicle {
                    structure_mass: Some(1000.),
                    propellant_mass: Some(0.),
                    reference_area: Some(area),
                    drag_coeff: d,
                    lift_coeff: l,
                    side_force_coeff: y,
                    engines,
                }),
                stepsize: Some(1e-6),
                ..Default::default()
            }]
        })
        .boxed()
}

fn c14() -> Property {
    let rel: Rel = |s, e, _, ctx| {
        let active = rel_aero(s, e)?;
        let n = e.tables.iter().filter(|t| !t.data.is_empty()).count();
        ctx.label(format!("{n} tables"));
        if s.alpha.abs() > 1.6 {
            ctx.label("flow from behind");
        }
        Ok(if active { Verdict::Pass } else { Verdict::Trivial })
    };
    Property {
        id: "C14",
        subs: vec![
            relation(
                "flow",
                "a moment with wind from any direction and any subset of tables: angle of attack \
                 against the flow turned into the body frame, force against the looked-up coefficients",
                (100_000, 2_500_000),
                flow_case,
                rel,
            ),
            relation("moments", MOMENT_RULE, (30_000, 800_000), moments, rel),
            relation("missions", MISSION_RULE, (40_000, 1_000_000), flights, rel),
            relation(
                "drag",
                "flow cases reduced to their (non-negative) drag table: the force does no positive work \
                 on the vehicle",
                (30_000, 800_000),
                || {
                    flow_case()
                        .prop_map(|mut ps| {
                            let v = ps[0].veh();
                            v.lift_coeff = None;
                            v.side_force_coeff = None;
                            if let Some(t) = &mut v.drag_coeff {
                                for x in t.data.iter_mut() {
                                    *x = x.abs();
                                }
                            }
                            ps
                        })
                        .boxed()
                },
                |s, e, _, _| {
                    let b = body_air(s, e);
                    let xs: Vec<f64> = e.tables[0].axes.iter().map(|a| s.var(a.0)).collect();
                    if e.tables[0].data.is_empty() || interp(&e.tables[0], &xs) <= 0. {
                        ensure!(
                            !e.tables[0].data.is_empty() || norm(s.aero) == 0.,
                            "force without any table: {:?}",
                            s.aero
                        );
                        return Ok(Verdict::Trivial);
                    }
                    let p = dot(b, s.aero);
                    let scale = norm(b) * norm(s.aero);
                    let n = b[0].hypot(b[2]);
                    // without flow in the pitch plane the angle of attack is any
                    let slack = if n > 1e-4 { 0. } else { n };
                    ensure!(
                        p <= 1e-9 * scale + slack * norm(s.aero),
                        "drag adds energy: {p}"
                    );
                    if n > 1e-4 {
                        // along the flow in the pitch plane, nothing sideways
                        ensure!(
                            (p + n * norm(s.aero)).abs() <= 1e-9 * scale && s.aero[1].abs() <= 1e-9 * norm(s.aero),
                            "drag is not along the flow: {:?} in flow {b:?}",
                            s.aero
                        );
                    }
                    Ok(Verdict::Pass)
                },
            ),
        ],
        assumptions: vec![],
    }
}

pub fn properties() -> Vec<Property> {
    vec![c06(), c07(), c09(), c10(), c11(), c12(), c13(), c14()]
}
