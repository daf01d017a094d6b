//! Shared parts of the checks.

use crate::cfg::*;
use crate::refm::*;
use crate::runner::*;
use crate::st::*;
use crate::sut;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !($c) {
            return Err(format!($($t)*));
        }
    };
}

/// Differences down here are rounding of numbers next to the smallest ones.
pub const UNDERFLOW: f64 = 1e-280;

pub fn close(name: &str, got: f64, want: f64, tol: f64) -> Result<(), String> {
    let tol = tol.max(UNDERFLOW);
    if (got - want).abs() <= tol || got == want {
        Ok(())
    } else {
        Err(format!(
            "{name} is {got:e}, expected {want:e} (difference {:.3e}, allowed {tol:.1e})",
            (got - want).abs()
        ))
    }
}
pub fn close3(name: &str, got: V3, want: V3, tol: f64) -> Result<(), String> {
    let d = norm(vsub(got, want));
    let tol = tol.max(UNDERFLOW);
    if d <= tol {
        Ok(())
    } else {
        Err(format!(
            "{name} is {got:?}, expected {want:?} (difference {d:.3e}, allowed {tol:.1e})"
        ))
    }
}

pub enum Flight {
    Undecided(Verdict),
    /// The real final state and the reference flight.
    Done(Box<St>, Box<RefRun>),
}

/// Flies a mission with time criteria for real. What the reference finds
/// undecidable is skipped; everything else has to finish, unless its
/// acceleration limit cannot be kept.
pub fn fly_timed(ps: &[Phase]) -> Result<Flight, String> {
    let r = fly_ref(ps, &Pert::default(), 20_000);
    let skip = |s| Ok(Flight::Undecided(Verdict::Skip(s)));
    if r.too_long {
        return skip("too long");
    }
    if r.mon.neg_alt {
        return skip("below the surface");
    }
    if r.mon.nonfinite {
        return skip("not finite");
    }
    if let Some(k) = r.mon.knife {
        return skip(k);
    }
    if r.abort.is_some() {
        return skip("limit cannot be kept");
    }
    let steps: usize = r.phases.iter().map(|p| p.len()).sum();
    let got = sut::fly_opt(ps, 20_000 + 1500 * steps as u64, false)?;
    match got.end {
        sut::End::Done(s) => Ok(Flight::Done(s, Box::new(r))),
        // a chaotic flight may end in anything
        _ if !sensitivity(ps, &r, 20_000).is_some_and(|s| s < 1e-5) => skip("sensitive"),
        _ => Err(format!("simulation {}", got.what())),
    }
}

/// How much a mission amplifies small changes: the largest relative change of
/// the final state for relative changes of 1e-9 of the initial one, and the
/// corresponding effect of rounding in the throttle.
pub fn sensitivity(ps: &[Phase], base: &RefRun, max_steps: usize) -> Option<f64> {
    // what was chaotic on the way may have ended elsewhere, even if those which
    // were looked at did not
    sensitivities(ps, base, max_steps).filter(|s| s.1 < 1e-5).map(|s| s.0)
}

/// The same for the final state, and for the worst state on the way.
pub fn sensitivities(ps: &[Phase], base: &RefRun, max_steps: usize) -> Option<(f64, f64)> {
    let d = 1e-9;
    let perts = [
        Pert {
            pos: [d, -d, d],
            ..Default::default()
        },
        Pert {
            vel: [d, d, -d],
            ..Default::default()
        },
        Pert {
            mass: d,
            angle: d * 57.,
            ..Default::default()
        },
    ];
    let mut worst = 0f64;
    let mut way = 0f64;
    for p in perts {
        let r = fly_ref(ps, &p, max_steps);
        if r.abort != base.abort || r.abort_in_rejected != base.abort_in_rejected {
            return None;
        }
        if r.abort.is_none() {
            worst = worst.max(distance(r.last(), base.last(), base.effs.last().unwrap()));
        }
        for (a, b) in r.phases.iter().flatten().zip(base.phases.iter().flatten()) {
            let x = norm(vsub(a.pos, b.pos)) / norm(b.pos)
                + norm(vsub(a.vel, b.vel)) / norm(b.vel).max(1.);
            way = if x.is_nan() { f64::INFINITY } else { way.max(x) };
        }
        // whether a chaotic flight has to be aborted is chance
        if base.abort.is_some() {
            if r.mon.evals != base.mon.evals {
                return None;
            }
            worst = worst.max(way);
        }
    }
    // counts as much as it would grow to
    let blurred = |x: f64| x + 50. * base.mon.blur * (x / d).max(1.);
    Some((blurred(worst), blurred(way.max(worst))))
}

/// Velocity scale against which rounding has to be seen.
pub fn vscale(s: &St, e: &Eff) -> f64 {
    norm(s.vel).max(e.planet.w.abs() * norm(s.pos)).max(norm(e.wind)).max(1.)
}

pub fn rel_gravity(s: &St, e: &Eff) -> Result<(), String> {
    let p = &e.planet;
    let r = norm(s.pos);
    let a = p.mu / r / r;
    let big = 1. + (2..5).map(|n| 10. * p.j[n - 2].abs() * (p.re / r).powi(n as i32)).sum::<f64>();
    close3(
        "gravity_acceleration",
        s.grav,
        p.gravity(s.pos),
        1e-12 * a * big,
    )?;
    // the gradient itself, numerically
    let h = r * 2e-4;
    let mut g = [0.; 3];
    for k in 0..3 {
        let u = |d: f64| {
            let mut x = s.pos;
            x[k] += d;
            p.potential(x)
        };
        g[k] = -(8. * (u(h) - u(-h)) - (u(2. * h) - u(-2. * h))) / (12. * h);
    }
    close3(
        "gravity_acceleration (numerical gradient)",
        s.grav,
        g,
        3e-9 * a * big,
    )
}

pub fn rel_air(s: &St, e: &Eff) -> Result<(), String> {
    if !e.atm {
        ensure!(
            s.temp == 0. && s.pres == 0. && s.dens == 0. && s.q == 0.,
            "without atmosphere: temperature {}, pressure {}, density {}, dynamic pressure {}",
            s.temp,
            s.pres,
            s.dens,
            s.q
        );
        return Ok(());
    }
    // rounding of the altitude
    let da = 1e-14 * norm(s.pos);
    let (t, p) = atmosphere(s.alt_geo);
    close("temperature", s.temp, t, 1e-10 * t + 0.05 * da)?;
    close("pressure", s.pres, p, 1e-9 * p + p * da / 1000.)?;
    close(
        "density",
        s.dens,
        s.pres / (R_AIR * s.temp),
        1e-10 * s.dens.abs(),
    )
}

pub fn rel_derived(s: &St, e: &Eff) -> Result<(), String> {
    let p = &e.planet;
    let r = norm(s.pos);
    let rot = 1e-13 + 4e-16 * (p.w * s.time).abs();
    close3(
        "position_planet",
        s.pos_planet,
        rotz(s.pos, -p.w * s.time),
        r * rot * 10.,
    )?;
    close("altitude", s.alt, p.altitude(s.pos), 1e-12 * r)?;
    close(
        "altitude_geopotential",
        s.alt_geo,
        p.geopotential(s.alt),
        1e-12 * (r + s.alt.abs()),
    )?;
    let vs = vscale(s, e);
    let vp = vsub(s.vel, cross([0., 0., p.w], s.pos));
    close3("velocity_planet", s.vel_planet, vp, 1e-13 * vs)?;
    close3(
        "velocity_atmosphere",
        s.vel_atm,
        vsub(s.vel_planet, e.wind),
        1e-13 * vs,
    )?;
    let v = norm(s.vel_atm);
    if e.atm {
        let c = (KAPPA * R_AIR * s.temp).sqrt();
        close("mach_number", s.mach, v / c, 1e-11 * v / c)?;
        close("dynamic_pressure", s.q, s.dens * v * v / 2., 1e-11 * s.q.abs())?;
    } else {
        close("dynamic_pressure", s.q, 0., 0.)?;
    }
    Ok(())
}

pub fn rel_attitude(s: &St, e: &Eff) -> Result<(), String> {
    let ib = mm(launch_to_body(s.euler), inertial_to_launch(e.launch));
    let f = mtv(ib, s.veh_acc);
    let scale = norm(s.veh_acc);
    let g = norm(s.grav);
    close3(
        "inertial acceleration without gravity",
        vsub(s.acc, s.grav),
        f,
        1e-11 * scale + 1e-13 * g,
    )
}

pub fn body_air(s: &St, e: &Eff) -> V3 {
    mv(
        mm(launch_to_body(s.euler), inertial_to_launch(e.launch)),
        s.vel_atm,
    )
}

pub fn full_thrust(e: &Eff, pressure: f64) -> (V3, f64, f64) {
    let mut full = [0.; 3];
    let mut flow = 0.;
    let mut scale = 0.;
    for en in &e.engines {
        let (sp, cp) = en.incidence[0].sin_cos();
        let (sy, cy) = en.incidence[1].sin_cos();
        let f = en.thrust_vac - en.exit_area * pressure;
        scale += en.thrust_vac.abs() + (en.exit_area * pressure).abs();
        full = add(full, mul(f, [cy * cp, sy, cy * sp]));
        flow -= en.thrust_vac / (en.isp_vac * G0);
    }
    (full, flow, scale)
}

pub fn rel_thrust(s: &St, e: &Eff) -> Result<(), String> {
    let (full, flow, scale) = full_thrust(e, s.pres);
    close3(
        "thrust_force_body",
        s.thrust,
        mul(s.throttle, full),
        1e-12 * scale,
    )?;
    close(
        "massflow",
        s.massflow,
        s.throttle * flow,
        1e-12 * flow.abs(),
    )?;
    close3(
        "vehicle_acceleration_body",
        s.veh_acc,
        mul(1. / s.mass, add(s.thrust, s.aero)),
        1e-12 * (norm(s.thrust) + norm(s.aero)) / s.mass,
    )
}

pub fn rel_throttle(s: &St, e: &Eff) -> Result<bool, String> {
    ensure!(
        (0. ..=1.).contains(&s.throttle),
        "throttle is {}",
        s.throttle
    );
    let (full, _, scale) = full_thrust(e, s.pres);
    if e.max_acc.is_infinite() {
        ensure!(
            s.throttle == 1.,
            "without limit the throttle is {}",
            s.throttle
        );
        return Ok(false);
    }
    let n = norm(s.veh_acc);
    ensure!(
        n <= e.max_acc * 1.001 * (1. + 1e-12),
        "sensed acceleration {n} exceeds the limit {}",
        e.max_acc
    );
    // sums of opposing engines may be rounding noise
    if norm(full) < 1e-9 * scale {
        return Ok(false);
    }
    let mut mon = Mon::default();
    let want = throttle(e.max_acc * s.mass, s.aero, full, &mut mon);
    if mon.knife.is_some() {
        return Ok(false);
    }
    ensure!(
        want.feasible,
        "no throttle keeps the limit, but a state was reported"
    );
    close("throttle", s.throttle, want.value, 2e-7)?;
    Ok(want.value > 0. && want.value < 1. || norm(s.aero) > e.max_acc * s.mass)
}

pub fn rel_aero(s: &St, e: &Eff) -> Result<bool, String> {
    // angle of attack: direction of the flow in the pitch plane
    let b = body_air(s, e);
    let n = b[0].hypot(b[2]);
    let vs = vscale(s, e);
    let ok = n > 1e-4 && n > 1e-9 * vs;
    if ok {
        let want = b[2].atan2(b[0]);
        let d = (s.alpha - want).abs();
        let d = d.min((d - 2. * std::f64::consts::PI).abs());
        ensure!(
            d <= 1e-11 + 1e-13 * vs / n && s.alpha.abs() <= std::f64::consts::PI + 1e-9,
            "alpha is {}, but the air comes from {} ({b:?})",
            s.alpha,
            want
        );
    }
    let f = s.q * e.area;
    let mut c = [0.; 3];
    let mut sc = 0f64;
    for i in 0..3 {
        let xs: Vec<f64> = e.tables[i].axes.iter().map(|a| s.var(a.0)).collect();
        if !e.tables[i].data.is_empty() {
            c[i] = interp(&e.tables[i], &xs);
            sc += interp_scale(&e.tables[i], &xs);
        }
    }
    if !c.iter().all(|x| x.is_finite()) {
        return Ok(false);
    }
    let (sa, ca) = s.alpha.sin_cos();
    let want = [
        f * (-c[0] * ca + c[1] * sa),
        f * c[2],
        f * (-c[0] * sa - c[1] * ca),
    ];
    close3(
        "aero_force_body",
        s.aero,
        want,
        1e-11 * f * sc.max(norm(c)) + 1e-300,
    )?;
    Ok(ok && f > 0. && norm(c) > 0.)
}

/// A planet without notable gravity, rotation or flattening.
pub fn void(w: f64) -> Planet {
    Planet::Custom {
        re: 1e7,
        rp: 1e7,
        g: [1e-6, 0., 0., 0.],
        w,
    }
}
