//! Whole missions against the reference model.

use super::common::*;
use crate::cfg::*;
use crate::gen::*;
use crate::refm::*;
use crate::runner::*;
use crate::sut;
use proptest::prelude::*;

pub fn check_mission(ps: &[Phase], ctx: &mut Ctx) -> CheckResult {
    let max = 20_000;
    let r = fly_ref(ps, &Pert::default(), max);
    if r.too_long {
        return Ok(Verdict::Skip("too long"));
    }
    if r.mon.neg_alt {
        return Ok(Verdict::Skip("below the surface"));
    }
    if r.mon.nonfinite {
        return Ok(Verdict::Skip("not finite"));
    }
    if let Some(_k) = r.mon.knife {
        return Ok(Verdict::Skip("knife edge"));
    }
    let Some(sens) = sensitivity(ps, &r, max) else {
        return Ok(Verdict::Skip("sensitive"));
    };
    if sens > 1e-5 {
        return Ok(Verdict::Skip("sensitive"));
    }
    if r.abort_in_rejected {
        return Ok(Verdict::Skip("limit exceeded beyond the end"));
    }
    let steps: usize = r.phases.iter().map(|p| p.len()).sum();
    let got = sut::fly_opt(ps, 20_000 + 1500 * steps as u64, false)?;
    if r.abort.is_some() {
        ctx.label("aborts");
        return match got.end {
            sut::End::Panic(_) => Ok(Verdict::Pass),
            _ => Err(format!(
                "the acceleration limit cannot be kept, but the simulation {}",
                got.what()
            )),
        };
    }
    let Some(s) = got.done() else {
        return Err(format!("simulation {}", got.what()));
    };
    let tol = 1e-10 + 0.02 * sens;
    let e = r.effs.last().unwrap();
    let d = diff(s, r.last(), e, tol);
    ctx.metric("difference / tolerance", distance(s, r.last(), e) / tol);
    if !d.is_empty() {
        let txt: Vec<String> = d
            .iter()
            .map(|(n, a, b, r)| format!("{n}: {a:e}, expected {b:e} (off by {r:.1e})"))
            .collect();
        return Err(txt.join("; "));
    }
    if r.mon.throttled {
        ctx.label("throttled");
    }
    if r.mon.aero {
        ctx.label("aero");
    }
    if !e.engines.is_empty() {
        ctx.label("engines at the end");
    }
    ctx.label(format!("phases {}", ps.len().min(4)));
    if ps.iter().any(|p| matches!(p.planet_model, Some(Planet::Custom { .. }))) {
        ctx.label("custom planet");
    }
    if steps > 2 {
        Ok(Verdict::Pass)
    } else {
        Ok(Verdict::Trivial)
    }
}

pub fn property() -> Property {
    Property {
        id: "C01",
        subs: vec![
            part(
                "missions",
                "random missions of 1 to 5 phases (planets, winds, vehicles with usually 0-3 (up to 13) engines and 1-3D \
                 tables, cubic steering by any available variable, limits, changes between phases) \
                 ending at given times, all 25 quantities of the final state against the reference \
                 model within 1e-10 plus the reference's own response to relative changes of 2e-11; non-trivial: at \
                 least one full comparison after two or more evaluations, or an expected abort",
                120_000,
                4_000_000,
                |_| {
                    timed_mission(MissionOpts {
                        max_phases: 5,
                        max_steps: 8,
                        ..Default::default()
                    })
                },
                |c: &Vec<Phase>, ctx: &mut Ctx| check_mission(c, ctx),
            ),
            part(
                "many_phases",
                "the same with up to 30 phases",
                12_000,
                400_000,
                |_| {
                    timed_mission(MissionOpts {
                        max_phases: 30,
                        max_steps: 4,
                        ..Default::default()
                    })
                },
                |c: &Vec<Phase>, ctx: &mut Ctx| check_mission(c, ctx),
            ),
            part(
                "long",
                "the same with few phases of up to 300 steps each, rarely of thousands of short ones",
                5_000,
                200_000,
                |_| {
                    prop_oneof![
                        30 => timed_mission(MissionOpts {
                            max_phases: 2,
                            max_steps: 300,
                            high: true,
                            ..Default::default()
                        }),
                        1 => long_mission(),
                    ]
                    .boxed()
                },
                |c: &Vec<Phase>, ctx: &mut Ctx| check_mission(c, ctx),
            ),
            super::ascent::ascents(),
            super::marathon::marathon(false),
        ],
        assumptions: vec![
            "rounding differences are below 1e-10 plus the effect of relative perturbations of 2e-11",
            "missions below the surface are not decided (documented as unspecified)",
        ],
    }
}
