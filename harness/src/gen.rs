//! Generators. All numbers are rounded so that they survive being written to
//! JSON in any notation.

use crate::cfg::*;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;

/// Uniform on a fine grid.
pub fn uni(lo: f64, hi: f64) -> BoxedStrategy<f64> {
    (0u32..=1_000_000)
        .prop_map(move |k| q(lo + (hi - lo) * k as f64 / 1e6))
        .boxed()
}
/// Log-uniform.
pub fn logu(lo: f64, hi: f64) -> BoxedStrategy<f64> {
    (0u32..=1_000_000)
        .prop_map(move |k| qn(lo * (hi / lo).powf(k as f64 / 1e6), 6))
        .boxed()
}
/// Symmetric, log-uniform magnitude, sometimes zero.
pub fn slog(lo: f64, hi: f64) -> BoxedStrategy<f64> {
    prop_oneof![
        1 => Just(0.),
        4 => logu(lo, hi),
        4 => logu(lo, hi).prop_map(|x| -x),
    ]
    .boxed()
}
pub fn pick(xs: &'static [f64]) -> BoxedStrategy<f64> {
    select(xs).boxed()
}
/// With this probability (in percent) a value.
pub fn maybe<T: Clone + std::fmt::Debug + 'static>(
    percent: u32,
    s: BoxedStrategy<T>,
) -> BoxedStrategy<Option<T>> {
    prop_oneof![100 - percent => Just(None), percent => s.prop_map(Some)].boxed()
}

pub fn latitude() -> BoxedStrategy<f64> {
    prop_oneof![
        8 => pick(&[0., 28.5, 45., -45., 90., -90., 5.2, -33., 60., 89.9, -89.9]),
        16 => uni(-90., 90.),
        1 => slog(1e-6, 0.1),
    ]
    .boxed()
}
pub fn longitude() -> BoxedStrategy<f64> {
    prop_oneof![
        5 => pick(&[0., 90., 180., 270., -90., -180., 360., 279.4, 45.]),
        15 => uni(-180., 360.),
        1 => uni(-720., 720.),
    ]
    .boxed()
}
pub fn azimuth() -> BoxedStrategy<f64> {
    prop_oneof![
        5 => pick(&[0., 90., 180., 270., -90., 360., 45., 155.]),
        15 => uni(-180., 360.),
        1 => uni(-720., 720.),
    ]
    .boxed()
}
pub fn altitude() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => pick(&[0., 100., 1000., 11000.]),
        9 => uni(1000., 120_000.),
        6 => logu(1., 2e6),
        1 => logu(2e6, 4e8),
    ]
    .boxed()
}
pub fn init() -> BoxedStrategy<Init> {
    (latitude(), longitude(), azimuth(), altitude())
        .prop_map(|(latitude, longitude, azimuth, altitude)| Init {
            latitude,
            longitude,
            azimuth,
            altitude,
        })
        .boxed()
}

pub fn custom_planet() -> BoxedStrategy<Planet> {
    (
        prop_oneof![8 => logu(5e5, 2e7), 1 => logu(2e4, 1.2e8)],
        prop_oneof![4 => Just(0.), 12 => uni(0., 0.2), 4 => uni(-0.1, 0.), 1 => uni(-0.4, 0.45)],
        uni(1., 25.),
        prop_oneof![1 => Just(0.), 3 => uni(-3e-3, 5e-3)],
        prop_oneof![1 => Just(0.), 3 => uni(-1e-3, 1e-3)],
        prop_oneof![1 => Just(0.), 3 => uni(-1e-3, 1e-3)],
        prop_oneof![
            4 => Just(0.),
            12 => uni(0., 3e-4),
            4 => uni(-3e-4, 0.),
            4 => Just(7.29211e-5),
            1 => slog(1e-8, 2e-3),
        ],
    )
        .prop_map(|(re, f, g0, j2, j3, j4, w)| Planet::Custom {
            re,
            rp: q(re * (1. - f)),
            g: [q(g0 * re * re), j2, j3, j4],
            w,
        })
        .boxed()
}
pub fn planet() -> BoxedStrategy<Planet> {
    prop_oneof![
        1 => Just(Planet::Spherical),
        1 => Just(Planet::Fisher),
        1 => Just(Planet::Smithsonian),
        3 => custom_planet(),
    ]
    .boxed()
}

pub fn vec3(s: BoxedStrategy<f64>) -> BoxedStrategy<[f64; 3]> {
    (s.clone(), s.clone(), s).prop_map(|(a, b, c)| [a, b, c]).boxed()
}
pub fn wind() -> BoxedStrategy<[f64; 3]> {
    prop_oneof![
        2 => Just([0.; 3]),
        3 => vec3(uni(-60., 60.)),
        1 => vec3(uni(-600., 600.)),
        1 => uni(-80., 80.).prop_map(|x| [0., x, 0.]),
    ]
    .boxed()
}

pub fn incidence() -> BoxedStrategy<[f64; 2]> {
    let a = prop_oneof![
        2 => Just(0.),
        3 => uni(-0.4, 0.4),
        1 => uni(-3.2, 3.2),
    ]
    .boxed();
    (a.clone(), a).prop_map(|(x, y)| [x, y]).boxed()
}

/// An engine for a vehicle of a given initial mass.
pub fn engine(mass: f64) -> BoxedStrategy<Engine> {
    (
        incidence(),
        prop_oneof![6 => uni(1., 40.), 1 => logu(0.01, 1.)],
        uni(150., 500.),
        prop_oneof![1 => Just(0.), 3 => uni(0., 3e-5), 1 => uni(0., 2e-4)],
    )
        .prop_map(move |(incidence, a, isp, k)| {
            let t = qn(a * mass, 6);
            Engine {
                incidence,
                thrust_vac: t,
                isp_vac: isp,
                // at sea level up to 300 % (or more) of the thrust is lost
                exit_area: qn(t * k, 6),
            }
        })
        .boxed()
}

/// A set of engines: usually fewer than this, rarely many of them. Some are
/// clusters: engines which are alike, or alike in all but one respect.
pub fn engines(mass: f64, usual: usize) -> BoxedStrategy<Vec<Engine>> {
    let sets = prop_oneof![
        14 => prop::collection::vec(engine(mass), 0..usual),
        1 => prop::collection::vec(engine(mass), usual..14),
    ];
    let twin = (any::<prop::sample::Index>(), engine(mass), 0u8..10);
    let clusters = (
        prop::collection::vec(engine(mass), 1..3),
        prop::collection::vec(twin, 1..5),
    )
        .prop_map(|(mut es, twins)| {
            for (of, x, what) in twins {
                let mut e = es[of.index(es.len())].clone();
                match what {
                    0 => e.thrust_vac = x.thrust_vac,
                    1 => e.isp_vac = x.isp_vac,
                    2 => e.exit_area = x.exit_area,
                    3 => e.incidence = x.incidence,
                    4 => e.incidence = e.incidence.map(|a| -a),
                    5 => e.incidence[1] = x.incidence[1],
                    // another size of the same kind
                    6 => {
                        e.exit_area *= 2.;
                        e.thrust_vac *= 2.;
                    }
                    // nearly against it
                    7 => {
                        e.incidence[1] += std::f64::consts::PI;
                        e.thrust_vac = qn(e.thrust_vac * (0.9 + x.isp_vac / 5000.), 6);
                    }
                    _ => {}
                }
                es.push(e);
            }
            es
        });
    prop_oneof![4 => sets, 1 => clusters].boxed()
}

/// Typical range of a variable, for table axes and steering coefficients.
/// Only those which are meaningful when tables are evaluated.
pub fn var_range(v: Var) -> (f64, f64) {
    match v.name() {
        "time" => (0., 300.),
        "time_since_event" => (0., 60.),
        "altitude" | "altitude_geopotential" => (0., 120_000.),
        "velocity_norm" | "velocity_planet_norm" | "velocity_atmosphere_norm" => (0., 3000.),
        "mach_number" => (0., 8.),
        "dynamic_pressure" => (0., 50_000.),
        "alpha" => (-3.2, 3.2),
        "euler_angles_roll" | "euler_angles_yaw" | "euler_angles_pitch" => (-2., 2.),
        "temperature" => (150., 320.),
        "pressure" => (0., 101_325.),
        "density" => (0., 1.3),
        "gravity_acceleration_norm" => (1., 25.),
        "mass" | "propellant_mass" => (0., 2e5),
        n if n.starts_with("velocity") => (-1500., 1500.),
        n if n.starts_with("gravity") => (-15., 15.),
        n if n.starts_with("position_norm") => (5e5, 2e7),
        n if n.starts_with("position") => (-8e6, 8e6),
        _ => (-1., 1.),
    }
}

/// Variables which have a value when the attitude is computed.
pub fn steer_vars(atm: bool) -> Vec<Var> {
    NAMES
        .iter()
        .enumerate()
        .filter(|(_, n)| {
            let early = !(n.starts_with("acceleration")
                || n.starts_with("thrust")
                || n.starts_with("aero")
                || n.starts_with("vehicle")
                || **n == "massflow"
                || **n == "throttle"
                || **n == "alpha"
                || n.starts_with("euler"));
            early && (atm || **n != "mach_number")
        })
        .map(|(i, _)| Var(i as u8))
        .collect()
}
/// Variables which have a value when the tables are looked up.
pub fn table_vars(atm: bool) -> Vec<Var> {
    let mut v = steer_vars(atm);
    for n in ["alpha", "euler_angles_roll", "euler_angles_yaw", "euler_angles_pitch"] {
        v.push(Var::n(n));
    }
    v
}
fn table_var() -> BoxedStrategy<Var> {
    prop_oneof![
        4 => select(vec![Var::n("alpha"), Var::n("mach_number"), Var::n("altitude")]),
        2 => select(table_vars(true)),
    ]
    .boxed()
}

pub fn axis(v: Var, max_len: usize) -> BoxedStrategy<(Var, Vec<f64>)> {
    let (lo, hi) = var_range(v);
    prop_oneof![
        1 => uni(lo, hi).prop_map(|x| vec![x]),
        6 => (uni(lo, hi), prop::collection::vec(uni(0.02, 1.), 1..max_len)).prop_map(
            move |(start, gaps)| {
                let mut x = lo + (start - lo) * 0.5;
                let scale = (hi - lo) / gaps.len() as f64;
                let mut out = vec![qn(x, 7)];
                for g in gaps {
                    x += g * scale;
                    let y = qn(x, 7);
                    if y > *out.last().unwrap() {
                        out.push(y);
                    }
                }
                out
            }
        ),
    ]
    .prop_map(move |g| (v, g))
    .boxed()
}

pub fn table_with(
    vars: BoxedStrategy<Var>,
    value: BoxedStrategy<f64>,
    max_len: usize,
) -> BoxedStrategy<Table> {
    prop::collection::vec(vars.prop_flat_map(move |v| axis(v, max_len)), 1..=3)
        .prop_flat_map(move |axes| {
            let n: usize = axes.iter().map(|a| a.1.len()).product();
            (Just(axes), prop::collection::vec(value.clone(), n))
        })
        .prop_map(|(axes, data)| Table { axes, data })
        .boxed()
}
/// A table with up to 70, rarely 600, values on one of its axes.
pub fn long_table(vars: BoxedStrategy<Var>, value: BoxedStrategy<f64>) -> BoxedStrategy<Table> {
    let most = prop_oneof![9 => Just(70), 1 => Just(600)];
    (1usize..=3, any::<prop::sample::Index>(), most)
        .prop_flat_map(move |(d, i, most)| {
            let long = i.index(d);
            let axes: Vec<_> = (0..d)
                .map(|k| {
                    vars.clone()
                        .prop_flat_map(move |v| axis(v, if k == long { most } else { 3 }))
                })
                .collect();
            (axes, prop::collection::vec(value.clone(), 47))
        })
        .prop_map(|(axes, some)| {
            let n: usize = axes.iter().map(|a| a.1.len()).product();
            let data = (0..n).map(|i| some[(i * 7 + i / 47) % 47]).collect();
            Table { axes, data }
        })
        .boxed()
}
pub fn table(value: BoxedStrategy<f64>) -> BoxedStrategy<Table> {
    prop_oneof![
        4 => Just(Table::empty()),
        8 => value.clone().prop_map(Table::constant),
        20 => table_with(table_var(), value.clone(), 4),
        1 => long_table(table_var(), value),
    ]
    .boxed()
}

/// Steering of one axis; rates are limited so that a phase turns by some tens
/// of degrees.
pub fn steer_axis() -> BoxedStrategy<(Var, [f64; 3])> {
    let c = prop_oneof![2 => Just(0.), 3 => uni(-40., 40.), 1 => uni(-200., 200.)].boxed();
    let var = prop_oneof![
        3 => Just(Var::n("time_since_event")),
        1 => Just(Var::n("time")),
        2 => select(steer_vars(true)),
    ];
    (var, c.clone(), c.clone(), c)
        .prop_map(|(v, a, b, c)| {
            let (lo, hi) = var_range(v);
            let s = lo.abs().max(hi.abs());
            (v, [qn(a / s, 6), qn(b / s / s, 6), qn(c / s / s / s, 6)])
        })
        .boxed()
}
pub fn steering(percent: u32) -> BoxedStrategy<Steering> {
    (
        maybe(percent, steer_axis()),
        maybe(percent, steer_axis()),
        maybe(percent, steer_axis()),
    )
        .prop_map(|(roll, yaw, pitch)| Steering { roll, yaw, pitch })
        .boxed()
}

pub fn coeff(hi: f64, signed: bool) -> BoxedStrategy<f64> {
    if signed {
        prop_oneof![1 => Just(0.), 5 => uni(-hi, hi)].boxed()
    } else {
        prop_oneof![1 => Just(0.), 5 => uni(0., hi)].boxed()
    }
}

/// A complete vehicle.
pub fn vehicle() -> BoxedStrategy<Vehicle> {
    (logu(50., 5e5), prop_oneof![1 => Just(0.), 5 => uni(0.1, 9.)])
        .prop_flat_map(|(sm, ratio)| {
            let pm = qn(sm * ratio, 6);
            let m = sm + pm;
            (
                Just(sm),
                Just(pm),
                prop_oneof![1 => Just(0.), 5 => logu(1e-6, 1e-3).prop_map(move |k| qn(k * m, 5))],
                maybe(70, table(coeff(2., false))),
                maybe(60, table(coeff(2., true))),
                maybe(40, table(coeff(1., true))),
                maybe(85, engines(m, 4)),
            )
        })
        .prop_map(
            |(sm, pm, area, drag_coeff, lift_coeff, side_force_coeff, engines)| Vehicle {
                structure_mass: Some(sm),
                propellant_mass: Some(pm),
                reference_area: Some(area),
                drag_coeff,
                lift_coeff,
                side_force_coeff,
                engines,
            },
        )
        .boxed()
}

/// Overrides of some vehicle parameters, for later phases.
pub fn vehicle_change(mass: f64) -> BoxedStrategy<Vehicle> {
    (
        maybe(40, uni(0.2, 2.).prop_map(move |k| qn(k * mass, 5)).boxed()),
        maybe(30, uni(0., 2.).prop_map(move |k| qn(k * mass, 5)).boxed()),
        maybe(30, logu(1e-6, 1e-3).prop_map(move |k| qn(k * mass, 5)).boxed()),
        maybe(20, table(coeff(2., false))),
        maybe(20, table(coeff(2., true))),
        maybe(20, table(coeff(1., true))),
        maybe(40, engines(mass, 3)),
    )
        .prop_map(|(a, b, c, d, e, f, g)| Vehicle {
            structure_mass: a,
            propellant_mass: b,
            reference_area: c,
            drag_coeff: d,
            lift_coeff: e,
            side_force_coeff: f,
            engines: g,
        })
        .boxed()
}

/// Step size and end time of a phase: the end is either hit by a whole number
/// of steps or clearly between two.
pub fn timing(max_steps: u32) -> BoxedStrategy<(f64, f64, bool)> {
    let h = prop_oneof![
        3 => pick(&[1., 0.5, 2., 5., 0.1, 0.25, 10., 3.]),
        2 => uni(0.05, 12.),
    ];
    (
        h,
        0..=max_steps,
        prop_oneof![2 => Just(0.), 3 => uni(0.05, 0.95)],
        any::<bool>(),
    )
        .prop_map(|(h, n, frac, absolute)| {
            let h = qn(h, 6);
            (h, qn(h * (n as f64 + frac), 8), absolute)
        })
        .boxed()
}

pub fn max_acc() -> BoxedStrategy<f64> {
    prop_oneof![2 => Just(-1.), 3 => uni(5., 60.), 1 => uni(0.5, 5.)].boxed()
}

#[derive(Clone, Debug)]
pub struct MissionOpts {
    pub max_phases: usize,
    pub max_steps: u32,
    /// acceleration limits may be set
    pub limit: bool,
    /// starts high enough for long flights
    pub high: bool,
}
impl Default for MissionOpts {
    fn default() -> Self {
        MissionOpts {
            max_phases: 4,
            max_steps: 6,
            limit: true,
            high: false,
        }
    }
}
fn acc_opt(limit: bool, percent: u32) -> BoxedStrategy<Option<f64>> {
    if limit {
        maybe(percent, max_acc())
    } else {
        prop_oneof![3 => Just(None), 1 => Just(Some(-1.))].boxed()
    }
}

/// A whole mission whose phases end at given times.
pub fn timed_mission(o: MissionOpts) -> BoxedStrategy<Vec<Phase>> {
    let start = if o.high {
        (init(), uni(2e5, 3e6))
            .prop_map(|(mut i, a)| {
                i.altitude = a;
                i
            })
            .boxed()
    } else {
        init()
    };
    let first = (
        start,
        maybe(80, planet()),
        maybe(85, (maybe(90, prop::bool::weighted(0.85).boxed()), maybe(60, wind())).boxed()),
        vehicle(),
        maybe(80, steering(60)),
        acc_opt(o.limit, 50),
        timing(o.max_steps),
        maybe(90, Just(()).boxed()),
    )
        .prop_map(|(init, planet, atm, veh, steer, acc, timing, hasstep)| {
            let p = Phase {
                init: Some(init),
                planet_model: planet,
                atmosphere: atm.map(|(enabled, wind)| Atmo { enabled, wind }),
                vehicle: Some(veh),
                steering: steer,
                max_acceleration: acc,
                stepsize: hasstep.map(|_| timing.0),
                ..Default::default()
            };
            (p, timing)
        })
        .boxed();
    let mp = o.max_phases;
    let ms = o.max_steps;
    let lim = o.limit;
    first
        .prop_flat_map(move |(p, t)| {
            let v = p.vehicle.as_ref().unwrap();
            let mass = v.structure_mass.unwrap() + v.propellant_mass.unwrap();
            let later = (
                maybe(25, vehicle_change(mass)),
                maybe(50, steering(50)),
                maybe(15, (maybe(50, any::<bool>().boxed()), maybe(50, wind())).boxed()),
                maybe(5, planet()),
                acc_opt(lim, 25),
                timing(ms),
                maybe(50, Just(()).boxed()),
            )
                .prop_map(|(v, s, a, pl, acc, timing, hasstep)| {
                    let p = Phase {
                        vehicle: v,
                        steering: s,
                        atmosphere: a.map(|(enabled, wind)| Atmo { enabled, wind }),
                        planet_model: pl,
                        max_acceleration: acc,
                        stepsize: hasstep.map(|_| timing.0),
                        ..Default::default()
                    };
                    (p, timing)
                });
            (Just((p, t)), prop::collection::vec(later, 0..mp), any::<u64>())
        })
        .prop_map(|(first, later, bits)| {
            let mut out = vec![];
            let mut now = 0.;
            let mut h = 1.;
            let time = Var::n("time");
            let tse = Var::n("time_since_event");
            for (mut p, (hh, dur, absolute)) in std::iter::once(first).chain(later) {
                // durations are multiples of the step size in force
                let n = dur / hh;
                if p.stepsize.is_some() {
                    h = hh;
                }
                let dur = qn(n * h, 8);
                now = qn(now + dur, 9);
                p.end_criterion = Some(if absolute { (time, now) } else { (tse, dur) });
                out.push(p);
            }
            similar(&mut out, bits);
            out
        })
        .boxed()
}

/// A mission of up to 700 phases of no or a few steps, which steer at times.
pub fn many_phases() -> BoxedStrategy<Vec<Phase>> {
    (
        timed_mission(MissionOpts {
            max_phases: 3,
            max_steps: 2,
            limit: false,
            high: true,
        }),
        prop::collection::vec((0u8..3, maybe(20, steering(50))), 5..700),
        pick(&[0.05, 0.001]),
    )
        .prop_map(|(mut ps, more, h)| {
            let tse = Var::n("time_since_event");
            for (i, p) in ps.iter_mut().enumerate() {
                p.stepsize = (i == 0).then_some(h);
                p.end_criterion = Some((tse, h));
            }
            for (n, steering) in more {
                ps.push(Phase {
                    steering,
                    end_criterion: Some((tse, qn(n as f64 * h, 8))),
                    ..Default::default()
                });
            }
            ps
        })
        .boxed()
}

/// A mission of some hundred to thousand short steps per phase.
pub fn long_mission() -> BoxedStrategy<Vec<Phase>> {
    (
        timed_mission(MissionOpts {
            max_phases: 2,
            max_steps: 2500,
            ..Default::default()
        }),
        pick(&[0.02, 0.005]),
    )
        .prop_map(|(mut ps, f)| {
            for p in &mut ps {
                p.stepsize = p.stepsize.map(|h| qn(h * f, 12));
                if let Some(c) = p.end_criterion.as_mut() {
                    c.1 = qn(c.1 * f, 12);
                }
            }
            // the default is a second
            ps[0].stepsize.get_or_insert(f);
            ps
        })
        .boxed()
}

pub fn angle() -> BoxedStrategy<f64> {
    prop_oneof![
        2 => pick(&[0., 90., -90., 180., -180., 270., 45., -45., 360., 135.]),
        3 => uni(-180., 180.),
        1 => uni(-720., 720.),
    ]
    .boxed()
}

/// A single moment: a phase of no duration with everything arbitrary. The
/// attitude is reached with linear steering by mass.
pub fn moment(limit: bool) -> BoxedStrategy<Vec<Phase>> {
    (
        init(),
        maybe(85, planet()),
        maybe(90, (maybe(95, prop::bool::weighted(0.9).boxed()), maybe(80, wind())).boxed()),
        vehicle(),
        [angle(), angle(), angle()],
        acc_opt(limit, 80),
    )
        .prop_map(|(init, planet, atm, veh, ang, acc)| {
            let m = veh.structure_mass.unwrap() + veh.propellant_mass.unwrap();
            let v = Var::n("mass");
            let s = |a: f64| (v, [q(a / m), 0., 0.]);
            vec![Phase {
                init: Some(init),
                planet_model: planet,
                atmosphere: atm.map(|(enabled, wind)| Atmo { enabled, wind }),
                vehicle: Some(veh),
                steering: Some(Steering {
                    roll: Some(s(ang[0])),
                    yaw: Some(s(ang[1])),
                    pitch: Some(s(ang[2])),
                }),
                max_acceleration: acc,
                stepsize: Some(0.01),
                end_criterion: Some((Var::n("time_since_event"), 0.)),
            }]
        })
        .boxed()
}

/// Replaces some of the values a phase sets by near copies of those in
/// force, or of its other tables and angles, so that two of a kind differ in
/// one respect only. Zero bits change nothing.
pub fn similar(ps: &mut [Phase], bits: u64) {
    if bits == 0 {
        return;
    }
    let mut state = bits;
    let mut die = move |n: u64| {
        state = state.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = state;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        (z ^ (z >> 31)) % n
    };
    let mut planet = None;
    let mut wind: Option<[f64; 3]> = None;
    let mut engines: Option<Vec<Engine>> = None;
    let mut tables: [Option<Table>; 3] = [None, None, None];
    let mut axes: [Option<(Var, [f64; 3])>; 3] = [None, None, None];
    for p in ps {
        if let Some(new) = &mut p.planet_model {
            if let (Some(old), true) = (&planet, die(2) == 0) {
                let a = crate::refm::planet_params(old);
                let b = crate::refm::planet_params(new);
                let (mut re, mut rp) = (q(a.re), q(a.rp));
                let mut g = [q(a.mu), a.j[0], a.j[1], a.j[2]];
                let mut w = a.w;
                match die(7) {
                    0 => w = b.w,
                    1 => rp = q(a.re * (b.rp / b.re)),
                    2 => {
                        re = q(a.re * (0.9 + 0.01 * die(20) as f64));
                        rp = q(re * (a.rp / a.re));
                    }
                    3 => g[0] = q(a.mu * (0.5 + 0.1 * die(10) as f64)),
                    k => g[k as usize - 3] = b.j[k as usize - 4],
                }
                *new = Planet::Custom { re, rp, g, w };
            }
            planet = Some(new.clone());
        }
        if let Some(new) = p.atmosphere.as_mut().and_then(|a| a.wind.as_mut()) {
            if let (Some(old), true) = (wind, die(3) == 0) {
                let k = die(3) as usize;
                let v = new[k];
                *new = old;
                new[k] = v;
            }
            wind = Some(*new);
        }
        if let Some(v) = &mut p.vehicle {
            if let Some(new) = &mut v.engines {
                if let (Some(old), true) = (&engines, die(3) == 0) {
                    let fresh = new.first().cloned();
                    *new = old.clone();
                    let n = new.len();
                    match (die(6), fresh) {
                        (0, _) if n > 0 => drop(new.pop()),
                        (1, Some(e)) => new.push(e),
                        (2, _) => new.reverse(),
                        (k, Some(e)) if n > 0 => {
                            let o = &mut new[die(n as u64) as usize];
                            match (k, die(2)) {
                                (3, _) => o.incidence = e.incidence,
                                (4, 0) => o.thrust_vac = e.thrust_vac,
                                (4, _) => o.isp_vac = e.isp_vac,
                                _ => o.exit_area = e.exit_area,
                            }
                        }
                        _ => {}
                    }
                }
                engines = Some(new.clone());
            }
            let slots = [&mut v.drag_coeff, &mut v.lift_coeff, &mut v.side_force_coeff];
            let mut neighbour: Option<Table> = None;
            for (slot, before) in slots.into_iter().zip(&mut tables) {
                let Some(new) = slot else { continue };
                // that of the phase before, or of another coefficient
                let of = if die(4) == 0 { &neighbour } else { &*before };
                if let (Some(old), true) = (of, die(3) == 0) {
                    let fresh = new.clone();
                    *new = old.clone();
                    match die(3) {
                        0 if !new.data.is_empty() => {
                            let n = new.data.len();
                            new.data[die(n as u64) as usize] = fresh.data.first().copied().unwrap_or(0.5);
                        }
                        1 => new.data.iter_mut().for_each(|v| *v = q(*v * 1.5)),
                        // the same values over another variable
                        _ => {
                            let n = new.axes.len();
                            let axis = &mut new.axes[die(n as u64) as usize];
                            if let Some(a) = fresh.axes.iter().find(|a| a.1.len() == axis.1.len()) {
                                *axis = a.clone();
                            }
                        }
                    }
                }
                *before = Some(new.clone());
                neighbour = before.clone();
            }
        }
        if let Some(s) = &mut p.steering {
            let mut neighbour = None;
            for (slot, before) in [&mut s.roll, &mut s.yaw, &mut s.pitch].into_iter().zip(&mut axes) {
                let Some(new) = slot else { continue };
                let of = if die(4) == 0 { &neighbour } else { &*before };
                if let (Some(old), true) = (of, die(3) == 0) {
                    *new = *old;
                    match die(5) {
                        3 if new.0 == Var::n("time") => new.0 = Var::n("time_since_event"),
                        3 => {}
                        4 => new.1 = new.1.map(|c| -c),
                        k => new.1[k as usize] = q(new.1[k as usize] * 0.5),
                    }
                }
                *before = Some(*new);
                neighbour = *before;
            }
        }
    }
}
