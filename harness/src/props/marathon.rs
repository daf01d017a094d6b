//! Missions of very many steps. A constant thrust in free space has a closed
//! form, so that they need no reference run.

use super::common::*;
use super::output::parse;
use crate::cfg::*;
use crate::ensure;
use crate::gen::*;
use crate::refm::*;
use crate::runner::*;
use crate::sut;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Leg {
    steps: u32,
    /// How far into the next step the phase lasts.
    more: f64,
    h: f64,
    /// Propellant per step and specific impulse.
    flow: f64,
    isp: f64,
    /// Ends by the time, time since the event, mass or propellant mass.
    by: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Marathon {
    latitude: f64,
    longitude: f64,
    ratio: f64,
    legs: Vec<Leg>,
}

fn cases(max: f64) -> BoxedStrategy<Marathon> {
    let leg = (
        logu(2e3, max),
        prop_oneof![Just(0.), uni(0.3, 0.7)],
        prop_oneof![pick(&[1., 0.5, 0.1, 2., 10.]), uni(0.05, 3.)],
        uni(0.05, 1.),
        uni(100., 450.),
        0u8..4,
    )
        .prop_map(|(n, more, h, flow, isp, by)| Leg {
            steps: n as u32,
            more: qn(more, 6),
            h: qn(h, 5),
            flow: qn(flow, 5),
            isp: qn(isp, 5),
            by,
        });
    (latitude(), longitude(), uni(0.2, 3.), prop::collection::vec(leg, 1..3))
        .prop_map(|(latitude, longitude, ratio, legs)| Marathon {
            latitude,
            longitude,
            ratio,
            legs,
        })
        .boxed()
}

const RADIUS: f64 = 6e6;

/// Checks the whole flight; the records in detail if asked.
fn check(c: &Marathon, ctx: &mut Ctx, records: bool) -> CheckResult {
    let burnt: f64 = c.legs.iter().map(|l| l.flow * (l.steps as f64 + 1.)).sum();
    let structure = qn(burnt * c.ratio, 6);
    let propellant = qn(burnt * 1.01, 6);
    let m0 = structure + propellant;
    let (mut t, mut m, mut v, mut x) = (0., m0, 0., 1e5 + RADIUS);
    // how much later or earlier a phase may end within the tolerance
    let mut slack = 0.;
    let (mut dv, mut dx) = (0., 0.);
    let mut ps = vec![];
    let mut starts = vec![];
    for (i, l) in c.legs.iter().enumerate() {
        let n = l.steps as f64 + l.more;
        let dt = n * l.h;
        let dm = n * l.flow;
        let mut p = Phase {
            stepsize: Some(l.h),
            ..Default::default()
        };
        if i == 0 {
            p.init = Some(Init {
                latitude: c.latitude,
                longitude: c.longitude,
                azimuth: 0.,
                altitude: 1e5,
            });
            p.planet_model = Some(Planet::Custom {
                re: RADIUS,
                rp: RADIUS,
                g: [0.; 4],
                w: 0.,
            });
            p.veh().structure_mass = Some(structure);
            p.veh().propellant_mass = Some(propellant);
        }
        let rate = l.flow / l.h;
        p.veh().engines = Some(vec![Engine {
            incidence: [0.; 2],
            thrust_vac: rate * l.isp * G0,
            isp_vac: l.isp,
            exit_area: 0.,
        }]);
        starts.push(t);
        let ve = l.isp * G0;
        let m1 = m - dm;
        x += v * dt + ve * (dt + m1 / rate * (m1 / m).ln());
        dx += dv * dt + v * slack;
        v += ve * (m / m1).ln();
        t += dt;
        m = m1;
        slack += 1e-3 * (l.h / l.flow).max(1.) + 1e-10 * t;
        dv += slack * ve * rate / m1;
        dx += slack * v;
        let (name, target) = match l.by {
            0 => ("time", t),
            1 => ("time_since_event", dt),
            2 => ("mass", m),
            _ => ("propellant_mass", m - structure),
        };
        p.end_criterion = Some((Var::n(name), qn(target, 14)));
        ps.push(p);
    }
    let steps: u64 = c.legs.iter().map(|l| l.steps as u64).sum();
    let r = sut::fly_opt(&ps, 100_000 + 400 * steps, true)?;
    let Some(s) = r.done() else {
        return Err(format!("a flight of {steps} steps {}", r.what()));
    };
    let rel = |x: f64| 1e-9 * x.abs();
    close("time", s.time, t, slack)?;
    close("mass", s.mass, m, slack * burnt + rel(m0))?;
    close("propellant_mass", s.prop, s.mass - structure, rel(m0))?;
    let up = {
        let (a, b) = (c.latitude.to_radians(), c.longitude.to_radians());
        [a.cos() * b.cos(), a.cos() * b.sin(), a.sin()]
    };
    // the error of the integration grows with the mass ratio per step
    close3("velocity", s.vel, up.map(|c| c * v), dv + 1e-8 * v)?;
    close3("position", s.pos, up.map(|c| c * x), dx + 1e-8 * x)?;

    let phases = r.out.split("Starting Phase ").skip(1).map(|p| p.matches("Time:").count());
    for (i, (l, n)) in c.legs.iter().zip(phases).enumerate() {
        let least = l.steps as usize;
        ensure!(
            n >= least && n <= least + 30,
            "phase {} of {least} whole steps shows {n} records",
            i + 1
        );
    }
    if records {
        let got = parse(&r.out)?;
        ensure!(got.len() == ps.len(), "{} phases announced", got.len());
        for ((l, recs), t0) in c.legs.iter().zip(&got).zip(&starts) {
            // the last step may be the shortened one
            for (k, rec) in recs.iter().take(l.steps as usize - 1).enumerate() {
                let want = t0 + (k + 1) as f64 * l.h;
                ensure!(
                    (rec.time - want).abs() <= 0.5 + slack,
                    "record {} shows the time {}, expected {want}",
                    k + 1,
                    rec.time
                );
            }
            let last = recs.last().map(|r| r.time).unwrap_or(-1.);
            let end = t0 + (l.steps as f64 + l.more) * l.h;
            ensure!(
                (last - end).abs() <= 0.5 + slack,
                "the last record of a phase shows the time {last}, expected {end}"
            );
        }
    }
    ctx.label(match steps {
        0..=9_999 => "up to 10 000 steps",
        10_000..=99_999 => "up to 100 000 steps",
        _ => "more steps",
    });
    Ok(Verdict::Pass)
}

/// The same for every property it belongs to.
pub fn marathon(records: bool) -> Sub {
    part(
        "marathon",
        "one or two phases of 2 000 to 150 000 steps each (thorough: 400 000) under thrust in free space, ended by time or \
         mass: time, mass, speed and distance of the rocket equation and one record per step; every case counts",
        40,
        400,
        |t| cases(if matches!(t, Tier::Thorough) { 4e5 } else { 1.5e5 }),
        move |c: &Marathon, ctx: &mut Ctx| check(c, ctx, records),
    )
}
