//! Table look-ups (C15) and the meaning of the variable names (C17).

use super::common::*;
use crate::cfg::*;
use crate::ensure;
use crate::gen::*;
use crate::refm::*;
use crate::runner::*;
use crate::st::*;
use crate::sut;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- C15

/// Where the grid of an axis lies, as seen from the value of its variable.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct GridGen {
    var: Var,
    gaps: Vec<f64>,
    /// index of a grid point and distance from it in units of the cell above
    /// (of the outermost cell outside of the grid)
    at: usize,
    frac: f64,
    scale: f64,
}

impl GridGen {
    /// The grid around this value.
    fn grid(&self, x: f64) -> Vec<f64> {
        let (lo, hi) = var_range(self.var);
        let unit = self.scale * (hi - lo).max(x.abs() * 1e-3) / 10.;
        let mut o = vec![0.];
        for g in &self.gaps {
            o.push(o.last().unwrap() + g);
        }
        let i = self.at.min(self.gaps.len());
        let cell = match (self.gaps.get(i), self.gaps.last()) {
            (Some(g), _) => *g,
            (None, Some(g)) => *g,
            _ => 1.,
        };
        let p = o[i] + self.frac * cell;
        o.iter().map(|o| x + (o - p) * unit).collect()
    }
}

fn grid_gen(max: usize) -> BoxedStrategy<GridGen> {
    (
        prop_oneof![
            3 => select(table_vars(true)),
            1 => select(vec![Var::n("alpha"), Var::n("mach_number"), Var::n("altitude"), Var::n("mass")]),
        ],
        prop_oneof![
            1 => Just(vec![]),
            8 => prop::collection::vec(logu(0.05, 20.), 1..max),
        ],
        any::<prop::sample::Index>(),
        prop_oneof![
            3 => Just(0.),
            5 => uni(0., 1.),
            1 => pick(&[1e-9, 1e-3, 0.5, 0.999]),
            // beyond the ends
            3 => uni(0.01, 4.).prop_map(|x| -x),
            3 => uni(1.01, 5.),
            1 => logu(5., 3000.),
            1 => logu(5., 3000.).prop_map(|x| -x),
        ],
        prop_oneof![7 => logu(0.01, 3.), 1 => logu(1e-4, 0.01)],
    )
        .prop_map(|(var, gaps, i, frac, scale)| {
            let n = gaps.len() + 1;
            let at = if frac < 0. {
                0
            } else if frac > 1. {
                n.saturating_sub(2)
            } else {
                i.index(n)
            };
            GridGen {
                var,
                gaps,
                at,
                frac,
                scale,
            }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lookup {
    base: Vec<Phase>,
    which: u8,
    axes: Vec<GridGen>,
    data: Vec<f64>,
    perm: u8,
}

fn lookup_case() -> BoxedStrategy<Lookup> {
    let axes = prop_oneof![
        3 => prop::collection::vec(grid_gen(12), 1..=1),
        1 => prop::collection::vec(grid_gen(150), 1..=1),
        4 => prop::collection::vec(grid_gen(7), 2..=2),
        5 => prop::collection::vec(grid_gen(5), 3..=3),
        // long in one direction
        1 => (2usize..=3, any::<prop::sample::Index>()).prop_flat_map(|(d, i)| {
            let long = i.index(d);
            (0..d).map(|k| grid_gen(if k == long { 70 } else { 3 })).collect::<Vec<_>>()
        }),
    ];
    (moment(false), 0u8..3, axes, 0u8..6)
        .prop_flat_map(|(base, which, axes, perm)| {
            let n: usize = axes.iter().map(|a| a.gaps.len() + 1).product();
            let v = prop_oneof![1 => Just(0.), 6 => uni(-10., 10.), 1 => uni(-1000., 1000.)];
            (
                Just((base, which, axes, perm)),
                prop::collection::vec(v, n),
            )
        })
        .prop_map(|((mut base, which, axes, perm), data)| {
            let p = &mut base[0];
            let a = p.atmo();
            a.enabled = Some(true);
            if a.wind.unwrap_or([0.; 3]) == [0.; 3] {
                a.wind = Some([30., 20., 10.]);
            }
            let i = p.init.as_mut().unwrap();
            i.altitude = i.altitude.min(150_000.);
            let v = p.veh();
            // too small to move anything
            v.reference_area = Some(1e-9);
            v.drag_coeff = None;
            v.lift_coeff = None;
            v.side_force_coeff = None;
            Lookup {
                base,
                which,
                axes,
                data,
                perm,
            }
        })
        .boxed()
}

/// Multilinear interpolation once more, one axis after the other.
fn lookup(axes: &[(Var, Vec<f64>)], xs: &[f64], data: &[f64]) -> f64 {
    let Some((_, g)) = axes.first() else {
        return data[0];
    };
    let n = data.len() / g.len();
    let part = |i: usize| lookup(&axes[1..], &xs[1..], &data[i * n..(i + 1) * n]);
    if g.len() == 1 {
        return part(0);
    }
    let i = g.iter().skip(1).take(g.len() - 2).filter(|p| **p <= xs[0]).count();
    let (a, b) = (part(i), part(i + 1));
    a + (b - a) * ((xs[0] - g[i]) / (g[i + 1] - g[i]))
}

fn permuted(t: &Table, p: &[usize]) -> Table {
    let n: Vec<usize> = t.axes.iter().map(|a| a.1.len()).collect();
    let axes: Vec<_> = p.iter().map(|&i| t.axes[i].clone()).collect();
    let mut data = vec![];
    let total: usize = n.iter().product();
    for k in 0..total {
        // index in the new order, last axis fastest
        let mut rest = k;
        let mut idx = vec![0; n.len()];
        for (j, &i) in p.iter().enumerate().rev() {
            idx[i] = rest % axes[j].1.len();
            rest /= axes[j].1.len();
        }
        let mut o = 0;
        for (i, len) in n.iter().enumerate() {
            o = o * len + idx[i];
        }
        data.push(t.data[o]);
    }
    Table { axes, data }
}

fn check_lookup(c: &Lookup, ctx: &mut Ctx) -> CheckResult {
    let probe = sut::fly_done(&c.base)?;
    if !(probe.q > 1e-200) {
        return Ok(Verdict::Skip("no air flow"));
    }
    let mut axes = vec![];
    let mut xs = vec![];
    let mut loss = 0f64;
    for a in &c.axes {
        let x = probe.var(a.var);
        if !x.is_finite() {
            return Ok(Verdict::Skip("not finite"));
        }
        let g = a.grid(x);
        if !g.windows(2).all(|w| w[1] - w[0] > 1e-9 * x.abs()) {
            return Ok(Verdict::Skip("grid too fine"));
        }
        for w in g.windows(2) {
            loss = loss.max(1e-15 * (x.abs() + w[0].abs()) / (w[1] - w[0]));
        }
        xs.push(x);
        axes.push((a.var, g));
    }
    let t = Table {
        axes,
        data: c.data.clone(),
    };
    let value = |t: &Table| -> Result<f64, String> {
        let mut ps = c.base.clone();
        let v = ps[0].veh();
        *[
            &mut v.drag_coeff,
            &mut v.lift_coeff,
            &mut v.side_force_coeff,
        ][c.which as usize] = Some(t.clone());
        let s = sut::fly_done(&ps)?;
        let (sa, ca) = s.alpha.sin_cos();
        let dir = match c.which {
            0 => [-ca, 0., -sa],
            1 => [sa, 0., -ca],
            _ => [0., 1., 0.],
        };
        let f = s.q * 1e-9;
        let v = dot(s.aero, dir) / f;
        close3(
            "force beside its direction",
            vsub(s.aero, mul(v * f, dir)),
            [0.; 3],
            1e-11 * (v * f).abs(),
        )?;
        Ok(v)
    };
    let want = lookup(&t.axes, &xs, &t.data);
    let scale = interp_scale(&t, &xs).max(want.abs());
    let tol = scale * (1e-11 + 8. * loss);
    let got = value(&t)?;
    close("coefficient", got, want, tol)?;
    // the same table in another order
    let d = t.axes.len();
    if d > 1 {
        let perms: Vec<Vec<usize>> = if d == 2 {
            vec![vec![1, 0]]
        } else {
            vec![
                vec![0, 2, 1],
                vec![1, 0, 2],
                vec![1, 2, 0],
                vec![2, 0, 1],
                vec![2, 1, 0],
            ]
        };
        let p = &perms[c.perm as usize % perms.len()];
        close("coefficient with exchanged axes", value(&permuted(&t, p))?, want, tol)?;
    }
    // a variable with a single value is as good as none
    let single: Vec<usize> = (0..d).filter(|&i| t.axes[i].1.len() == 1).collect();
    if !single.is_empty() && single.len() < d {
        let r = Table {
            axes: t.axes.iter().filter(|a| a.1.len() > 1).cloned().collect(),
            data: t.data.clone(),
        };
        close("coefficient without the single-valued axes", value(&r)?, want, tol)?;
        ctx.label("single-valued axis");
    }
    ctx.label(format!("{d}D"));
    let place = |i: usize| {
        let g = &t.axes[i].1;
        if g.len() == 1 {
            "single"
        } else if g.contains(&xs[i]) {
            "on a grid point"
        } else if xs[i] < g[0] {
            "below"
        } else if xs[i] > *g.last().unwrap() {
            "above"
        } else {
            "inside"
        }
    };
    let mut moving = false;
    for i in 0..d {
        ctx.label(place(i));
        moving |= t.axes[i].1.len() > 1;
    }
    ctx.metric("difference / tolerance", (got - want).abs() / tol.max(1e-300));
    Ok(if moving { Verdict::Pass } else { Verdict::Trivial })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NoData {
    mission: Vec<Phase>,
    /// Phase, coefficient and axes of each table without data.
    empty: Vec<(usize, u8, Vec<(Var, u8)>)>,
}

fn no_data() -> BoxedStrategy<NoData> {
    let axes = prop::collection::vec((any_var(), 0u8..4), 1..4);
    (
        timed_mission(MissionOpts {
            max_phases: 3,
            max_steps: 4,
            ..Default::default()
        }),
        prop::collection::vec((0usize..3, 0u8..3, axes, any::<prop::sample::Index>()), 1..4),
    )
        .prop_map(|(mission, e)| NoData {
            mission,
            empty: e
                .into_iter()
                .map(|(p, k, mut axes, i)| {
                    let i = i.index(axes.len());
                    axes[i].1 = 0;
                    (p, k, axes)
                })
                .collect(),
        })
        .boxed()
}

fn check_no_data(c: &NoData, ctx: &mut Ctx) -> CheckResult {
    let mut none = c.mission.clone();
    let mut zero = c.mission.clone();
    for (p, k, axes) in &c.empty {
        let p = p % none.len();
        let set = |m: &mut Vec<Phase>, t: Table| {
            let v = m[p].vehicle.get_or_insert_with(Default::default);
            *match k % 3 {
                0 => &mut v.drag_coeff,
                1 => &mut v.lift_coeff,
                _ => &mut v.side_force_coeff,
            } = Some(t);
        };
        let axes = axes
            .iter()
            .map(|(v, n)| (*v, (0..*n).map(|i| i as f64 * 2.5 - 1.).collect()))
            .collect();
        set(&mut none, Table { axes, data: vec![] });
        set(&mut zero, Table::constant(0.));
    }
    let (want, r) = match fly_timed(&zero)? {
        Flight::Undecided(v) => return Ok(v),
        Flight::Done(s, r) => (s, r),
    };
    let got = sut::fly(&none)?;
    let Some(b) = got.done() else {
        return Err(format!("simulation {} with tables without data", got.what()));
    };
    let alike = |x: f64, y: f64, scale: f64| (x - y).abs() <= 1e-12 * scale || x.is_nan() && y.is_nan();
    for (name, x, y) in [
        ("position", b.pos, want.pos),
        ("velocity", b.vel, want.vel),
        ("aerodynamic force", b.aero, want.aero),
    ] {
        let scale = norm(y) + 1e-9 * norm(want.pos);
        ensure!(
            (0..3).all(|k| alike(x[k], y[k], scale)),
            "{name} is {x:?} with tables without data, but {y:?} with ones of zeros"
        );
    }
    ctx.label(format!("{} tables", c.empty.len()));
    let felt = r.phases.iter().flatten().any(|s| norm(s.aero) > 0.);
    Ok(if felt { Verdict::Pass } else { Verdict::Trivial })
}

fn c15() -> Property {
    Property {
        id: "C15",
        subs: vec![part(
            "lookups",
            "a single drag, lift or side-force table of 1 to 3 dimensions whose grid is laid around \
             the actual values of its variables (on grid points, inside of every cell, up to four \
             cells outside), looked up in an arbitrary state, again with its axes exchanged, and \
             without its single-valued axes; non-trivial: some axis has several grid values",
            150_000,
            4_500_000,
            |_| lookup_case(),
            check_lookup,
        ),
        part(
            "no_data",
            "random missions, some of whose drag, lift and side-force tables (1 to 3 dimensions, up to 3 values in the \
             axes) have no data: they fly as with tables of zeros; non-trivial: there is an \
             aerodynamic force besides",
            25_000,
            700_000,
            |_| no_data(),
            check_no_data,
        )],
        assumptions: vec![
            "the value of a table is seen in the aerodynamic force (C14); its variables are those available when tables are looked up",
        ],
    }
}

// ---------------------------------------------------------------- C17

fn late(v: Var) -> bool {
    !steer_vars(true).contains(&v)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Steered {
    before: Vec<Phase>,
    axis: u8,
    var: Var,
    coeff: [f64; 3],
    h: f64,
    steps: f64,
}

fn history(max: u32) -> BoxedStrategy<Vec<Phase>> {
    timed_mission(MissionOpts {
        max_phases: 2,
        max_steps: max,
        limit: false,
        ..Default::default()
    })
}

fn any_var() -> BoxedStrategy<Var> {
    (0u8..NAMES.len() as u8).prop_map(Var).boxed()
}

fn steered_case() -> BoxedStrategy<Steered> {
    let c = prop_oneof![1 => Just(0.), 3 => uni(-60., 60.)].boxed();
    (
        history(4),
        0u8..3,
        any_var(),
        [c.clone(), c.clone(), c],
        uni(0.1, 3.),
        prop_oneof![1 => Just(0.), 2 => uni(0.5, 4.)],
    )
        .prop_map(|(before, axis, var, c, h, steps)| {
            let (lo, hi) = var_range(var);
            let s = lo.abs().max(hi.abs());
            Steered {
                before,
                axis,
                var,
                coeff: [
                    qn(c[0] / s, 6),
                    qn(c[1] / s / s, 6),
                    qn(c[2] / s / s / s, 6),
                ],
                h: qn(h, 5),
                steps,
            }
        })
        .boxed()
}

fn check_steered(c: &Steered, ctx: &mut Ctx) -> CheckResult {
    let mut ps = c.before.clone();
    let a = match fly_timed(&ps)? {
        Flight::Undecided(v) => return Ok(v),
        Flight::Done(s, _) => s,
    };
    let mut p = Phase {
        stepsize: Some(c.h),
        end_criterion: Some((Var::n("time_since_event"), qn(c.steps * c.h, 8))),
        ..Default::default()
    };
    let zero = Some((Var::n("time"), [0.; 3]));
    let s = p.steer();
    let axes = [&mut s.roll, &mut s.yaw, &mut s.pitch];
    for (i, x) in axes.into_iter().enumerate() {
        *x = if i == c.axis as usize {
            Some((c.var, c.coeff))
        } else {
            zero
        };
    }
    // what cannot be used for steering is as good as none
    let mut like = ps.clone();
    let mut p0 = p.clone();
    if late(c.var) {
        p0.steering = Some(Steering {
            roll: zero,
            yaw: zero,
            pitch: zero,
        });
    }
    like.push(p0);
    ps.push(p);
    if let Flight::Undecided(v) = fly_timed(&like)? {
        return Ok(v);
    }
    let r = sut::fly(&ps)?;
    let Some(b) = r.done() else {
        return Err(format!("simulation {}", r.what()));
    };
    let x = if late(c.var) { 0. } else { b.var(c.var) };
    if !x.is_finite() {
        return Ok(Verdict::Skip("not finite"));
    }
    let mut want = a.euler;
    let terms = [c.coeff[0] * x, c.coeff[1] * x * x, c.coeff[2] * x * x * x];
    want[c.axis as usize] += terms.iter().sum::<f64>().to_radians();
    let scale = terms.iter().map(|t| t.abs()).sum::<f64>() + norm(a.euler) + 1.;
    close3(
        &format!("euler angles when steered by {}", c.var.name()),
        b.euler,
        want,
        // (differences of large numbers like the air speed)
        1e-9 * scale,
    )?;
    ctx.label(c.var.name());
    Ok(if c.coeff == [0.; 3] {
        Verdict::Trivial
    } else {
        Verdict::Pass
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tabled {
    before: Vec<Phase>,
    var: Var,
    dim: u8,
    h: f64,
    steps: f64,
}

fn tabled_case() -> BoxedStrategy<Tabled> {
    (
        history(4),
        select(table_vars(true)),
        0u8..6,
        uni(0.1, 3.),
        prop_oneof![2 => Just(0.), 1 => uni(0.5, 4.)],
    )
        .prop_map(|(mut before, var, dim, h, steps)| {
            before[0].atmo().enabled = Some(true);
            for p in before.iter_mut().skip(1) {
                if let Some(a) = p.atmosphere.as_mut() {
                    a.enabled = None;
                }
            }
            Tabled {
                before,
                var,
                dim,
                h: qn(h, 5),
                steps,
            }
        })
        .boxed()
}

fn check_tabled(c: &Tabled, ctx: &mut Ctx) -> CheckResult {
    let a = match fly_timed(&c.before)? {
        Flight::Undecided(v) => return Ok(v),
        Flight::Done(s, _) => s,
    };
    // the variable itself, as a table of one to three dimensions
    let x = a.var(c.var);
    let unit = if x == 0. || !x.is_finite() { 1. } else { qn(x.abs(), 3) };
    let (g, d) = (vec![0., unit], vec![0., 1.]);
    let one = |n: &str| (Var::n(n), vec![0.]);
    let t = match c.dim {
        0 => Table { axes: vec![(c.var, g)], data: d },
        1 => Table { axes: vec![one("time"), (c.var, g)], data: d },
        2 => Table { axes: vec![(c.var, g), one("time")], data: d },
        3 => Table { axes: vec![(c.var, g), one("time"), one("altitude")], data: d },
        4 => Table { axes: vec![one("time"), (c.var, g), one("altitude")], data: d },
        _ => Table { axes: vec![one("altitude"), one("time"), (c.var, g)], data: d },
    };
    let mut p = Phase {
        stepsize: Some(c.h),
        end_criterion: Some((Var::n("time_since_event"), qn(c.steps * c.h, 8))),
        ..Default::default()
    };
    let v = p.veh();
    v.side_force_coeff = Some(t.clone());
    // not enough to disturb the flight
    let area = qn(1e-9 * a.mass, 3);
    v.reference_area = Some(area);
    let mut ps = c.before.clone();
    ps.push(p);
    let b = match fly_timed(&ps)? {
        Flight::Undecided(v) => return Ok(v),
        Flight::Done(s, _) => s,
    };
    let x = b.var(c.var);
    let f = b.q * area;
    if !(f > 1e-200) || !x.is_finite() {
        return Ok(Verdict::Skip("no air flow"));
    }
    close(
        &format!("{} as seen by a table", c.var.name()),
        b.aero[1] / f * unit,
        x,
        1e-9 * x.abs().max(unit * 1e-3),
    )?;
    ctx.label(c.var.name());
    Ok(if x == 0. { Verdict::Trivial } else { Verdict::Pass })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ended {
    before: Vec<Phase>,
    phase: Phase,
    var: Var,
    h: f64,
    steps: u8,
    at: u8,
}

fn ended_case() -> BoxedStrategy<Ended> {
    (
        history(3),
        any_var(),
        uni(0.1, 3.),
        (1u8..6, 0u8..6),
        [uni(-9., 9.), uni(-9., 9.), uni(-9., 9.)],
        maybe(60, vehicle_change(5000.)),
        (any::<bool>(), maybe(40, uni(3., 30.))),
    )
        .prop_map(|(before, var, h, (steps, at), rates, veh, (lim, acc))| {
            let tse = Var::n("time_since_event");
            let axis = |r: f64| Some((tse, [qn(r, 5), 0., 0.]));
            let name = var.name();
            let mut phase = Phase {
                steering: Some(Steering {
                    roll: axis(rates[0]),
                    yaw: axis(rates[1]),
                    pitch: axis(rates[2]),
                }),
                stepsize: Some(qn(h, 5)),
                vehicle: veh,
                // something which only moves with a limit
                max_acceleration: if lim || name == "throttle" || name == "massflow" {
                    acc
                } else {
                    None
                },
                ..Default::default()
            };
            if name == "mass" || name == "propellant_mass" {
                phase.max_acceleration = None;
            }
            Ended {
                before,
                phase,
                var,
                h: qn(h, 5),
                steps,
                at,
            }
        })
        .boxed()
}

/// A strong push upwards or throttled, in which everything moves.
fn push_case() -> BoxedStrategy<Ended> {
    let rare = [
        "throttle",
        "massflow",
        "gravity_acceleration1",
        "gravity_acceleration2",
        "gravity_acceleration3",
        "gravity_acceleration_norm",
        "density",
    ];
    (
        init(),
        prop_oneof![
            2 => select(rare.iter().map(|n| Var::n(n)).collect::<Vec<_>>()),
            1 => any_var(),
        ],
        (1u8..6, 0u8..6),
        uni(1.1, 8.),
        uni(0.1, 1.),
        uni(-0.3, 0.3),
        maybe(50, wind()),
    )
        .prop_map(|(mut i, var, (steps, at), a, k, inc, wind)| {
            let name = var.name();
            let thr = name == "throttle" || name == "massflow";
            let far = name.starts_with("gravity");
            i.altitude = if far { 1e5 } else { 5000. };
            // time for a visible change
            let h = qn(k * if thr { 15. } else if far { 60. } else { 5. }, 5);
            let mut start = Phase {
                init: Some(i),
                atmosphere: Some(Atmo {
                    enabled: Some(!far),
                    wind,
                }),
                planet_model: Some(Planet::Smithsonian),
                stepsize: Some(h),
                end_criterion: Some((Var::n("time_since_event"), 0.)),
                ..Default::default()
            };
            let v = start.veh();
            v.structure_mass = Some(1000.);
            v.propellant_mass = Some(if thr { 9000. } else { 1e5 });
            let m = 1000. + v.propellant_mass.unwrap();
            v.engines = Some(vec![Engine {
                incidence: [0., qn(inc, 5)],
                thrust_vac: qn(m * if thr { 10. * a } else { 30. * a }, 6),
                isp_vac: if thr { 300. } else { 1e5 },
                exit_area: 0.1,
            }]);
            let phase = Phase {
                max_acceleration: Some(if thr { 9. } else { -1. }),
                ..Default::default()
            };
            Ended {
                before: vec![start],
                phase,
                var,
                h,
                steps,
                at,
            }
        })
        .boxed()
}

fn check_ended(c: &Ended, ctx: &mut Ctx) -> CheckResult {
    match fly_timed(&c.before)? {
        Flight::Undecided(v) => return Ok(v),
        Flight::Done(..) => (),
    }
    let tse = Var::n("time_since_event");
    let with = |v: Var, x: f64| {
        let mut p = c.phase.clone();
        p.end_criterion = Some((v, x));
        let mut ps = c.before.clone();
        ps.push(p);
        ps
    };
    let probe = |t: f64| -> Result<Option<St>, String> {
        let r = sut::fly(&with(tse, qn(t, 12)))?;
        Ok(r.done().cloned())
    };
    let mut y = vec![];
    for k in 0..=c.steps {
        match probe(k as f64 * c.h)? {
            Some(s) if s.var(c.var).is_finite() && s.mass > 0. && s.prop > -1e-9 * s.mass => {
                y.push(s.var(c.var))
            }
            _ => return Ok(Verdict::Skip("undecided")),
        }
    }
    // a step in which the variable moves
    let n = c.steps as usize;
    let k = c.at as usize % n;
    let t0 = k as f64 * c.h;
    let m = match probe(t0 + c.h * 0.5)? {
        Some(s) => s.var(c.var),
        None => return Ok(Verdict::Skip("undecided")),
    };
    let d = y[k + 1] - y[k];
    if d.abs() < 0.01 || d.abs() < 1e-7 * y[k].abs() {
        return Ok(Verdict::Trivial);
    }
    if y[k].abs() > 1e8 || d.abs() / c.h * (1e3 + t0) > 1e10 {
        return Ok(Verdict::Skip("margin below rounding"));
    }
    if (m - (y[k] + y[k + 1]) / 2.).abs() > 0.05 * d.abs() {
        return Ok(Verdict::Skip("curved"));
    }
    let target = qn(m, 12);
    // passed for the first time, and far from the target before
    if (0..=k).any(|i| (y[i] - target) * d > -0.01 * d.abs()) {
        return Ok(Verdict::Skip("passed before"));
    }
    // within the step and the one after it, as seen by shorter steps
    let steady = || -> Result<bool, String> {
        for i in 1..=16 {
            let f = i as f64 / 8.;
            let Some(s) = probe(t0 + c.h * f)? else {
                return Ok(false);
            };
            let at = (s.var(c.var) - y[k]) / d;
            if !(at.is_finite() && if f <= 1. { (at - f).abs() < 0.1 } else { at > 0.7 }) {
                return Ok(false);
            }
            // and with steps of other lengths
            for n in [3., 8.] {
                let mut p = c.phase.clone();
                p.stepsize = Some(qn(c.h / n, 12));
                p.end_criterion = Some((tse, qn(t0 + c.h * f, 12)));
                let mut ps = c.before.clone();
                ps.push(p);
                match sut::fly(&ps)?.done() {
                    Some(x) if (x.var(c.var) - s.var(c.var)).abs() < 0.01 * d.abs() => (),
                    _ => return Ok(false),
                }
            }
        }
        Ok(true)
    };
    let r = sut::fly_opt(&with(c.var, target), 60_000, false)?;
    let Some(b) = r.done() else {
        if !steady()? {
            return Ok(Verdict::Skip("curved"));
        }
        return Err(format!(
            "{} passes {target} in step {} (from {} to {}), but the simulation {}",
            c.var.name(),
            k + 1,
            y[k],
            y[k + 1],
            r.what()
        ));
    };
    close(
        &format!("{} at the end of the phase", c.var.name()),
        b.var(c.var),
        target,
        1.0001e-3 + 1e-13 * target.abs(),
    )?;
    let near = 0.11 * c.h + c.h * 1e-3 / d.abs();
    if (b.tse - t0 - 0.5 * c.h).abs() > near {
        if !steady()? {
            return Ok(Verdict::Skip("curved"));
        }
        return Err(format!(
            "the phase ends at {}, but {} has the value {target} at {}",
            b.tse,
            c.var.name(),
            t0 + 0.5 * c.h
        ));
    }
    ctx.label(c.var.name());
    Ok(Verdict::Pass)
}

fn c17() -> Property {
    Property {
        id: "C17",
        subs: vec![
            part(
                "steering",
                "after a random history one axis is steered by a polynomial in any of the 56 \
                 variables: the Euler angle moves by the polynomial of that quantity of the \
                 resulting state, or of zero for quantities which do not exist yet; non-trivial: \
                 the polynomial does not vanish",
                40_000,
                1_200_000,
                |_| steered_case(),
                check_steered,
            ),
            part(
                "tables",
                "after a random history a side-force table of 1 to 3 dimensions returns one of its \
                 variables itself; non-trivial: the variable is not zero",
                40_000,
                1_200_000,
                |_| tabled_case(),
                check_tabled,
            ),
            part(
                "criteria",
                "after a random history a phase ends when any of the 56 variables reaches the value \
                 it has in the middle of a chosen step: it ends there; non-trivial: the variable \
                 moves in that step (by 0.01 or more, hardly curved, not passed before)",
                40_000,
                1_200_000,
                |_| prop_oneof![3 => ended_case(), 1 => push_case()].boxed(),
                check_ended,
            ),
        ],
        assumptions: vec![
            "quantities which are computed after the attitude (accelerations, forces, thrust, throttle, propellant flow, angle of attack, Euler angles) are not available for steering; those after the table look-up not for tables",
        ],
    }
}

pub fn properties() -> Vec<Property> {
    vec![c15(), c17()]
}
