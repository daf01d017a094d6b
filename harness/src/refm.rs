//! An independent reference model of the documented equations of motion.
//!
//! It is written from the formulation (zonal-harmonic potential, elementary
//! rotations, corner-weight interpolation, quadratic throttle equation,
//! metric atmosphere), not from the code.

use crate::cfg::*;
use crate::st::*;

pub const FT: f64 = 0.3048;
pub const G0: f64 = 9.80665;
pub const R_AIR: f64 = 8.31432e3 / 28.9644;
pub const KAPPA: f64 = 1.4;

#[derive(Clone, Debug, PartialEq)]
pub struct PlanetP {
    pub re: f64,
    pub rp: f64,
    pub mu: f64,
    pub j: [f64; 3],
    pub w: f64,
}

pub fn planet_params(p: &Planet) -> PlanetP {
    let re = 20_925_741. * FT;
    let rp = 20_855_590. * FT;
    let w = 7.29211e-5;
    let ft3 = FT * FT * FT;
    match p {
        Planet::Spherical => PlanetP {
            re,
            rp: re,
            mu: 1.4076539e16 * ft3,
            j: [0.; 3],
            w,
        },
        Planet::Fisher => PlanetP {
            re,
            rp,
            mu: 1.4076539e16 * ft3,
            j: [1.0823e-3, 0., 0.],
            w,
        },
        Planet::Smithsonian => PlanetP {
            re,
            rp,
            mu: 1.407645794e16 * ft3,
            j: [1.082639e-3, -2.565e-6, -1.608e-6],
            w,
        },
        Planet::Custom { re, rp, g, w } => PlanetP {
            re: *re,
            rp: *rp,
            mu: g[0],
            j: [g[1], g[2], g[3]],
            w: *w,
        },
    }
}

impl PlanetP {
    /// Distance of the ellipsoid's surface from the centre in the direction
    /// of a geocentric latitude.
    pub fn surface(&self, sin_lat: f64) -> f64 {
        let s = sin_lat.clamp(-1., 1.);
        let c = (1. - s * s).max(0.).sqrt();
        self.re * self.rp / ((self.rp * c).powi(2) + (self.re * s).powi(2)).sqrt()
    }
    pub fn altitude(&self, r: V3) -> f64 {
        norm(r) - self.surface(r[2] / norm(r))
    }
    pub fn geopotential(&self, h: f64) -> f64 {
        let ra = (self.re + self.rp) / 2.;
        ra * h / (ra + h)
    }
    /// Gradient of U = mu/r (1 - sum J_n (R/r)^n P_n(sin phi))
    pub fn gravity(&self, p: V3) -> V3 {
        let r = norm(p);
        let s = p[2] / r;
        let c = (p[0].hypot(p[1])) / r;
        let pn = [
            (3. * s * s - 1.) / 2.,
            (5. * s * s * s - 3. * s) / 2.,
            (35. * s.powi(4) - 30. * s * s + 3.) / 8.,
        ];
        let dpn = [
            3. * s,
            (15. * s * s - 3.) / 2.,
            (140. * s.powi(3) - 60. * s) / 8.,
        ];
        let mut radial = 1.;
        let mut north = 0.;
        for n in 2..=4usize {
            let k = self.j[n - 2] * (self.re / r).powi(n as i32);
            radial -= (n as f64 + 1.) * k * pn[n - 2];
            north -= k * dpn[n - 2] * c;
        }
        let a = self.mu / r / r;
        let er = unit(p);
        // unit vector towards north
        let en = if c > 0. {
            let l = p[0].hypot(p[1]);
            [-s * p[0] / l, -s * p[1] / l, c]
        } else {
            [0.; 3]
        };
        add(mul(-a * radial, er), mul(a * north, en))
    }
    /// Potential energy per mass (negative).
    pub fn potential(&self, p: V3) -> f64 {
        let r = norm(p);
        let s = p[2] / r;
        let pn = [
            (3. * s * s - 1.) / 2.,
            (5. * s * s * s - 3. * s) / 2.,
            (35. * s.powi(4) - 30. * s * s + 3.) / 8.,
        ];
        let mut u = 1.;
        for n in 2..=4usize {
            u -= self.j[n - 2] * (self.re / r).powi(n as i32) * pn[n - 2];
        }
        -self.mu / r * u
    }
}

/// Base of each layer: geopotential altitude in ft, pressure in lb/ft^2 (from
/// the formulation manual), temperature in degree Rankine, gradient per ft.
pub const LAYERS: [[f64; 4]; 22] = [
    [0., 2116.2166, 518.67, -0.0035661600],
    [36089.239, 472.68050, 389.97, 0.],
    [65616.797, 114.34543, 389.97, 0.00054863995],
    [104986.87, 18.128948, 411.57, 0.0015361920],
    [154199.48, 2.3163263, 487.17, 0.],
    [170603.68, 1.2322603, 487.17, -0.0010972801],
    [200131.23, 0.38032532, 454.77, -0.0021945600],
    [259186.35, 0.021673064, 325.17, 0.],
    [291151.57, 0.0034333824, 325.17, 0.0016953850],
    [323002.74, 0.00062814785, 379.17, 0.0028345707],
    [354753.59, 0.00015361733, 469.17, 0.0056867005],
    [386406.39, 0.52676024e-4, 649.17, 0.011443751],
    [480781.04, 0.10586108e-4, 1729.17, 0.0086358208],
    [512046.16, 0.77263469e-5, 1999.17, 0.0057749093],
    [543215.48, 0.58405376e-5, 2179.17, 0.0040610461],
    [605268.45, 0.35246030e-5, 2431.17, 0.0029274135],
    [728243.91, 0.14559124e-5, 2791.17, 0.0023812804],
    [939894.74, 0.39418091e-6, 3295.17, 0.0020152600],
    [1234645.7, 0.84380249e-7, 3889.17, 0.0016354849],
    [1520799.4, 0.22945543e-7, 4357.17, 0.0011010085],
    [1798726.4, 0.72259271e-8, 4663.17, 0.00073319725],
    [2068776.5, 0.24958752e-8, 4861.17, 0.],
];

/// Temperature and pressure at a geopotential altitude in m.
pub fn atmosphere(h: f64) -> (f64, f64) {
    let hf = h / FT;
    let l = LAYERS.iter().rev().find(|l| l[0] <= hf).unwrap_or(&LAYERS[0]);
    let tb = l[2] / 1.8;
    let lb = l[3] / 1.8 / FT;
    let pb = l[1] * 4.535924e-1 * G0 / (FT * FT);
    let dh = h - l[0] * FT;
    let t = tb + lb * dh;
    let p = if lb == 0. {
        pb * (-G0 * dh / (R_AIR * tb)).exp()
    } else {
        pb * (-(G0 / (R_AIR * lb)) * (t / tb).ln()).exp()
    };
    (t, p)
}

/// Multilinear interpolation, continuing the outermost cells.
pub fn interp(t: &Table, xs: &[f64]) -> f64 {
    if t.data.is_empty() {
        return 0.;
    }
    // weights of the entries along each axis
    let w: Vec<Vec<(usize, f64)>> = t
        .axes
        .iter()
        .zip(xs)
        .map(|((_, g), &x)| {
            if g.len() == 1 {
                return vec![(0, 1.)];
            }
            let mut i = 0;
            while i + 2 < g.len() && x > g[i + 1] {
                i += 1;
            }
            let f = (x - g[i]) / (g[i + 1] - g[i]);
            vec![(i, 1. - f), (i + 1, f)]
        })
        .collect();
    let mut idx = vec![(0usize, 1f64)];
    for (axis, ws) in t.axes.iter().zip(&w) {
        let n = axis.1.len();
        idx = idx
            .iter()
            .flat_map(|(i, f)| ws.iter().map(move |(k, g)| (i * n + k, f * g)))
            .collect();
    }
    idx.iter().map(|(i, f)| t.data[*i] * f).sum()
}

/// Sum of the magnitudes which enter an interpolation (for tolerances).
pub fn interp_scale(t: &Table, xs: &[f64]) -> f64 {
    if t.data.is_empty() {
        return 0.;
    }
    let big = t.data.iter().fold(0f64, |a, b| a.max(b.abs()));
    let mut amp = 1.;
    for ((_, g), &x) in t.axes.iter().zip(xs) {
        if g.len() > 1 {
            let mut i = 0;
            while i + 2 < g.len() && x > g[i + 1] {
                i += 1;
            }
            let f = (x - g[i]) / (g[i + 1] - g[i]);
            amp *= (1. - f).abs() + f.abs();
        }
    }
    big * amp
}

/// Rows are the body axes expressed in the launch frame.
pub fn launch_to_body(e: V3) -> [V3; 3] {
    // body = Ry(pitch) Rz(yaw) Rx(roll)
    let (sr, cr) = e[0].sin_cos();
    let (sy, cy) = e[1].sin_cos();
    let (sp, cp) = e[2].sin_cos();
    let rx = [[1., 0., 0.], [0., cr, sr], [0., -sr, cr]];
    let rz = [[cy, sy, 0.], [-sy, cy, 0.], [0., 0., 1.]];
    let ry = [[cp, 0., -sp], [0., 1., 0.], [sp, 0., cp]];
    mm(ry, mm(rz, rx))
}
/// Rows are the launch axes expressed in the inertial frame.
pub fn inertial_to_launch(l: V3) -> [V3; 3] {
    let (sl, cl) = l[0].sin_cos();
    let (so, co) = l[1].sin_cos();
    let (sa, ca) = l[2].sin_cos();
    let up = [cl * co, cl * so, sl];
    let north = [-sl * co, -sl * so, cl];
    let east = [-so, co, 0.];
    let z = add(mul(ca, north), mul(sa, east));
    let y = cross(z, up);
    [up, y, z]
}
pub fn mm(a: [V3; 3], b: [V3; 3]) -> [V3; 3] {
    let mut r = [[0.; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = (0..3).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    r
}
pub fn mv(a: [V3; 3], v: V3) -> V3 {
    [dot(a[0], v), dot(a[1], v), dot(a[2], v)]
}
pub fn mtv(a: [V3; 3], v: V3) -> V3 {
    add(add(mul(v[0], a[0]), mul(v[1], a[1])), mul(v[2], a[2]))
}

/// All parameters in force in a phase.
#[derive(Clone, Debug)]
pub struct Eff {
    pub planet: PlanetP,
    pub atm: bool,
    pub wind: V3,
    pub sm: f64,
    pub area: f64,
    /// drag, lift, side force
    pub tables: [Table; 3],
    pub engines: Vec<Engine>,
    pub max_acc: f64,
    /// roll, yaw, pitch: variable and four coefficients in degrees
    pub steer: [(Var, [f64; 4]); 3],
    pub step: f64,
    pub crit: (Var, f64),
    pub launch: V3,
}

impl Eff {
    pub fn start() -> Eff {
        let none = (Var::n("time"), [0.; 4]);
        Eff {
            planet: planet_params(&Planet::Spherical),
            atm: false,
            wind: [0.; 3],
            sm: 0.,
            area: 0.,
            tables: [Table::empty(), Table::empty(), Table::empty()],
            engines: vec![],
            max_acc: f64::INFINITY,
            steer: [none; 3],
            step: 1.,
            crit: (Var::n("time_since_event"), 0.),
            launch: [0.; 3],
        }
    }

    /// Overrides what a phase specifies.
    pub fn apply(&mut self, p: &Phase) {
        if let Some(x) = &p.planet_model {
            self.planet = planet_params(x);
        }
        if let Some(a) = &p.atmosphere {
            if let Some(x) = a.enabled {
                self.atm = x;
            }
            if let Some(x) = a.wind {
                self.wind = x;
            }
        }
        if let Some(v) = &p.vehicle {
            if let Some(x) = v.structure_mass {
                self.sm = x;
            }
            if let Some(x) = v.reference_area {
                self.area = x;
            }
            for (i, t) in [&v.drag_coeff, &v.lift_coeff, &v.side_force_coeff]
                .iter()
                .enumerate()
            {
                if let Some(t) = t {
                    self.tables[i] = t.clone();
                }
            }
            if let Some(e) = &v.engines {
                self.engines = e.clone();
            }
        }
        if let Some(s) = &p.steering {
            for (i, x) in [s.roll, s.yaw, s.pitch].iter().enumerate() {
                if let Some((var, c)) = x {
                    self.steer[i].0 = *var;
                    self.steer[i].1[1..].copy_from_slice(c);
                }
            }
        }
        if let Some(x) = p.max_acceleration {
            self.max_acc = if x == -1. { f64::INFINITY } else { x };
        }
        if let Some(x) = p.stepsize {
            self.step = x;
        }
        if let Some(x) = p.end_criterion {
            self.crit = x;
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Abort {
    /// The acceleration limit cannot be kept.
    Accel,
}

/// What happened on the way: conditions under which two correct
/// implementations may differ noticeably.
#[derive(Clone, Debug, Default)]
pub struct Mon {
    pub knife: Option<&'static str>,
    pub neg_alt: bool,
    pub nonfinite: bool,
    pub evals: u64,
    pub throttled: bool,
    pub max_q: f64,
    pub aero: bool,
    /// Relative rounding error of the throttle: the documented triangle is
    /// hardly determined for nearly aligned forces.
    pub blur: f64,
}

impl Mon {
    fn knife(&mut self, s: &'static str) {
        if self.knife.is_none() {
            self.knife = Some(s);
        }
    }
}

pub struct Throttle {
    pub value: f64,
    pub feasible: bool,
}

/// The documented throttle: the highest (or if the aerodynamic force alone is
/// too much: the lowest) in [0, 1] with |aero + throttle * thrust| <= a.
pub fn throttle(a: f64, aero: V3, thrust: V3, mon: &mut Mon) -> Throttle {
    let b = norm(aero);
    let t = norm(thrust);
    if t == 0. || a.is_infinite() {
        if t == 0. && (b / a - 1.001).abs() < 1e-6 {
            mon.knife("limit");
        }
        return Throttle {
            value: 1.,
            feasible: a.is_infinite() || b <= a * 1.001,
        };
    }
    // |T|^2 x^2 + 2 A.T x + b^2 - a^2 = 0
    let e = unit(thrust);
    let proj = dot(aero, e);
    let perp2 = norm(vsub(aero, mul(proj, e))).powi(2);
    let disc = a * a - perp2;
    if b > 0. && b + t > 0.99 * a {
        mon.blur = mon.blur.max(2e-15 / (perp2.sqrt() / b).max(1.4e-8));
    }
    if (b - a).abs() < 1e-6 * a {
        mon.knife("aero = limit");
    }
    if b > a {
        // everything around the boundary of feasibility is delicate
        if disc.abs() < 1e-5 * a * a {
            mon.knife("tangent");
        }
        if disc < 0. {
            // no thrust is enough; full thrust is used, which still may be
            // within the 0.1 % margin
            let n = norm(add(aero, thrust));
            if (n / a - 1.001).abs() < 1e-5 {
                mon.knife("limit");
            }
            return Throttle {
                value: 1.,
                feasible: n <= 1.001 * a,
            };
        }
        let x = (-proj - disc.sqrt()) / t;
        if (x - 1.).abs() < 1e-6 || x.abs() < 1e-6 {
            mon.knife("throttle bounds");
        }
        let v = x.clamp(0., 1.);
        let n = norm(add(aero, mul(v, thrust)));
        if (n / a - 1.001).abs() < 1e-5 {
            mon.knife("limit");
        }
        return Throttle {
            value: v,
            feasible: n <= 1.001 * a,
        };
    }
    let x = (-proj + disc.max(0.).sqrt()) / t;
    if x < 1. {
        mon.throttled = true;
    }
    Throttle {
        value: x.clamp(0., 1.),
        feasible: true,
    }
}

/// Completes a state from its primary values.
pub fn derive(t: f64, tse: f64, r: V3, v: V3, m: f64, e: &Eff, mon: &mut Mon) -> Result<St, Abort> {
    mon.evals += 1;
    let p = &e.planet;
    if !(m > 1e-3 * e.sm) || m == 0. {
        mon.knife("no mass left");
    }
    let mut s = St {
        time: t,
        tse,
        pos: r,
        vel: v,
        mass: m,
        ..Default::default()
    };
    s.pos_planet = rotz(r, -p.w * t);
    s.vel_planet = [v[0] + p.w * r[1], v[1] - p.w * r[0], v[2]];
    s.alt = p.altitude(r);
    s.alt_geo = p.geopotential(s.alt);
    s.prop = m - e.sm;
    s.grav = p.gravity(r);
    s.vel_atm = vsub(s.vel_planet, e.wind);
    let speed = norm(s.vel_atm);
    if s.alt < -1e-3 {
        mon.neg_alt = true;
    }
    if e.atm {
        let (tt, pp) = atmosphere(s.alt_geo);
        s.temp = tt;
        s.pres = pp;
        s.dens = pp / (R_AIR * tt);
        s.mach = speed / (KAPPA * R_AIR * tt).sqrt();
        s.q = s.dens * speed * speed / 2.;
    } else {
        s.mach = f64::INFINITY;
    }
    mon.max_q = mon.max_q.max(s.q);

    // attitude
    let mut eu = [0.; 3];
    for i in 0..3 {
        let (var, c) = &e.steer[i];
        let y = s.var(*var);
        eu[i] = (((c[3] * y + c[2]) * y + c[1]) * y + c[0]).to_radians();
    }
    s.euler = eu;
    let ib = mm(launch_to_body(eu), inertial_to_launch(e.launch));

    // aerodynamics
    let air = mv(ib, s.vel_atm);
    let n = air[0].hypot(air[2]);
    if air[0].abs() < 1e-6 && air[2].abs() < 1e-6 {
        s.alpha = 0.;
    } else {
        s.alpha = air[2].atan2(air[0]);
    }
    if n > 1e-8 && n < 1e-4 && s.q > 0. {
        mon.knife("angle of attack");
    }
    if s.q * e.area != 0. && e.tables.iter().any(|t| !t.data.is_empty()) {
        mon.aero = true;
        let var = Var::n("alpha");
        if (s.alpha.abs() - std::f64::consts::PI).abs() < 1e-6
            && e.tables
                .iter()
                .any(|t| t.axes.iter().any(|a| a.0 == var && a.1.len() > 1))
        {
            mon.knife("alpha = 180 deg");
        }
    }
    if s.q > 0. {
        let c: Vec<f64> = e
            .tables
            .iter()
            .map(|t| {
                let xs: Vec<f64> = t.axes.iter().map(|a| s.var(a.0)).collect();
                interp(t, &xs)
            })
            .collect();
        // drag against the flow in the pitch plane, lift perpendicular
        let (sa, ca) = s.alpha.sin_cos();
        let f = s.q * e.area;
        s.aero = [
            f * (-c[0] * ca + c[1] * sa),
            f * c[2],
            f * (-c[0] * sa - c[1] * ca),
        ];
    }

    // thrust
    let mut full = [0.; 3];
    let mut flow = 0.;
    for en in &e.engines {
        let (sp, cp) = en.incidence[0].sin_cos();
        let (sy, cy) = en.incidence[1].sin_cos();
        let f = en.thrust_vac - en.exit_area * s.pres;
        full = add(full, mul(f, [cy * cp, sy, cy * sp]));
        flow -= en.thrust_vac / (en.isp_vac * G0);
    }
    let th = throttle(e.max_acc * m, s.aero, full, mon);
    s.throttle = th.value;
    s.thrust = mul(th.value, full);
    s.massflow = th.value * flow;
    s.veh_acc = mul(1. / m, add(s.aero, s.thrust));
    s.acc = add(mtv(ib, s.veh_acc), s.grav);
    if s.fields().iter().any(|f| !(f.1.abs() < 1e60) && f.0 != "mach_number") {
        mon.nonfinite = true;
    }
    // nothing is left of these but rounding noise
    if norm(s.vel) > 1e8 || s.euler.iter().any(|x| x.abs() > 1e6) {
        mon.nonfinite = true;
    }
    if !th.feasible {
        return Err(Abort::Accel);
    }
    Ok(s)
}

/// Initial position and velocity.
pub fn initial(i: &Init, p: &PlanetP) -> (V3, V3, V3) {
    let lat = i.latitude.to_radians();
    // tan(geocentric) = (rp/re)^2 tan(geodetic)
    let gc = (p.rp * p.rp * lat.sin()).atan2(p.re * p.re * lat.cos());
    let lon = i.longitude.to_radians();
    let d = p.surface(gc.sin()) + i.altitude;
    let r = [
        d * gc.cos() * lon.cos(),
        d * gc.cos() * lon.sin(),
        d * gc.sin(),
    ];
    let v = [-p.w * r[1], p.w * r[0], 0.];
    (r, v, [gc, lon, i.azimuth.to_radians()])
}

pub fn rk4(s: &St, h: f64, e: &Eff, mon: &mut Mon) -> Result<St, Abort> {
    let f = |s: &St| (s.vel, s.acc, s.massflow);
    let at = |k: &(V3, V3, f64), dt: f64, mon: &mut Mon| {
        derive(
            s.time + dt,
            s.tse + dt,
            add(s.pos, mul(dt, k.0)),
            add(s.vel, mul(dt, k.1)),
            s.mass + dt * k.2,
            e,
            mon,
        )
    };
    let k1 = f(s);
    let k2 = f(&at(&k1, h / 2., mon)?);
    let k3 = f(&at(&k2, h / 2., mon)?);
    let k4 = f(&at(&k3, h, mon)?);
    let comb3 = |a: V3, b: V3, c: V3, d: V3| {
        mul(1. / 6., add(add(a, mul(2., b)), add(mul(2., c), d)))
    };
    let k = (
        comb3(k1.0, k2.0, k3.0, k4.0),
        comb3(k1.1, k2.1, k3.1, k4.1),
        (k1.2 + 2. * k2.2 + 2. * k3.2 + k4.2) / 6.,
    );
    at(&k, h, mon)
}

/// A finished (or aborted) reference mission.
pub struct RefRun {
    /// The accepted states of each phase, beginning with the initial one.
    pub phases: Vec<Vec<St>>,
    pub effs: Vec<Eff>,
    pub abort: Option<Abort>,
    /// The abort happened in a step which would have been discarded.
    pub abort_in_rejected: bool,
    pub mon: Mon,
    pub too_long: bool,
}

impl RefRun {
    pub fn last(&self) -> &St {
        self.phases.last().unwrap().last().unwrap()
    }
}

#[derive(Clone, Copy, Default, PartialEq)]
pub enum Ends {
    #[default]
    Documented,
    OneStep,
    TwoSteps,
}

/// Small relative changes, used to find out how sensitive a mission is.
#[derive(Clone, Copy, Default)]
pub struct Pert {
    pub pos: V3,
    pub vel: V3,
    pub mass: f64,
    pub angle: f64,
    /// Moves the ends of phases by this part of their margin.
    pub target: f64,
    /// Goes to the ends of phases as documented, in one step, or in two steps.
    pub ends: Ends,
}

/// The step size which takes a variable to its target within a step, if the
/// variable moves steadily enough to find it.
fn to_target(s: &St, n: &St, e: &Eff, off: f64) -> Option<(f64, bool)> {
    let mut mon = Mon::default();
    let mut y = |h: f64| -> Option<f64> {
        let x = rk4(s, h, e, &mut mon).ok()?;
        Some(x.var(e.crit.0) - e.crit.1 - off)
    };
    let (y0, y1) = (s.var(e.crit.0) - e.crit.1 - off, n.var(e.crit.0) - e.crit.1 - off);
    let mut before = 0.;
    let mut linear = true;
    for k in 1..=6 {
        let part = (y(e.step * k as f64 / 6.)? - y0) / (y1 - y0);
        if part < before + 0.01 {
            return None;
        }
        before = part;
        linear &= (part - k as f64 / 6.).abs() < 1e-7;
    }
    let (mut a, mut b) = (0., e.step);
    let (mut ya, mut yb) = (y0, y1);
    let mut side = 0;
    for _ in 0..100 {
        // Illinois
        let h = (a * yb - b * ya) / (yb - ya);
        let yh = y(h)?;
        if yh == 0. || b - a < 1e-14 * e.step {
            return Some((h, linear));
        }
        if yh * yb > 0. {
            (b, yb) = (h, yh);
            if side == -1 {
                ya /= 2.;
            }
            side = -1;
        } else {
            (a, ya) = (h, yh);
            if side == 1 {
                yb /= 2.;
            }
            side = 1;
        }
        if yh.abs() < 1e-9 {
            return Some((h, linear));
        }
    }
    Some(((a + b) / 2., linear))
}

/// Flies a mission. Ends by other variables than times are undecidable unless
/// the variables move steadily.
pub fn fly_ref(ps: &[Phase], pert: &Pert, max_steps: usize) -> RefRun {
    let mut e = Eff::start();
    let mut mon = Mon::default();
    let mut out = RefRun {
        phases: vec![],
        effs: vec![],
        abort: None,
        abort_in_rejected: false,
        mon: Mon::default(),
        too_long: false,
    };
    let mut prop = 0.;
    let (mut r, mut v) = ([0.; 3], [0.; 3]);
    let mut t = 0.;
    let mut steps = 0;
    let time = Var::n("time");
    let tse_v = Var::n("time_since_event");
    for (i, p) in ps.iter().enumerate() {
        e.apply(p);
        if let Some(x) = p.vehicle.as_ref().and_then(|v| v.propellant_mass) {
            prop = x;
        }
        if i == 0 {
            let (a, b, l) = initial(&p.init.clone().unwrap_or_default(), &e.planet);
            r = a;
            v = b;
            e.launch = l;
            r = add(r, mul(norm(r), pert.pos));
            v = add(v, mul(norm(v).max(10.), pert.vel));
            for s in e.steer.iter_mut() {
                s.1[0] += pert.angle;
            }
        }
        let mut m = e.sm + prop;
        if i == 0 {
            m *= 1. + pert.mass;
        }
        let abs_time = e.crit.0 == time;
        let timed = abs_time || e.crit.0 == tse_v;
        out.effs.push(e.clone());
        let mut s = match derive(t, 0., r, v, m, &e, &mut mon) {
            Ok(s) => s,
            Err(a) => {
                out.abort = Some(a);
                out.mon = mon;
                return out;
            }
        };
        out.phases.push(vec![s.clone()]);
        let left = |s: &St| {
            if abs_time {
                e.crit.1 - s.time
            } else {
                e.crit.1 - s.tse
            }
        };
        loop {
            steps += 1;
            if steps > max_steps {
                out.too_long = true;
                out.mon = mon;
                return out;
            }
            if !timed {
                let n = match rk4(&s, e.step, &e, &mut mon) {
                    Ok(n) => n,
                    Err(a) => {
                        out.abort = Some(a);
                        // the step may have been one to discard
                        mon.knife("abort before an event");
                        out.mon = mon;
                        return out;
                    }
                };
                let (y0, y1) = (s.var(e.crit.0) - e.crit.1, n.var(e.crit.0) - e.crit.1);
                if (y1.abs() - 1e-3).abs() < 1e-6 || y0.abs() < 1e-3 {
                    mon.knife("end margin");
                }
                if y1.abs() < 1e-3 {
                    out.phases[i].push(n.clone());
                    s = n;
                    break;
                }
                if y0 * y1 >= 0. {
                    out.phases[i].push(n.clone());
                    s = n;
                    continue;
                }
                let Some((h, linear)) = to_target(&s, &n, &e, pert.target * 1e-3) else {
                    mon.knife("unsteady variable");
                    out.too_long = true;
                    out.mon = mon;
                    return out;
                };
                // the steps on the way there
                let mut todo = match pert.ends {
                    Ends::Documented => vec![],
                    Ends::OneStep => vec![h],
                    // which is found at once
                    _ if linear => vec![h],
                    Ends::TwoSteps => vec![h / 2., h / 2.],
                };
                let mut tries = 0;
                let mut step = e.step * y0 / (y0 - y1);
                loop {
                    let h = match pert.ends {
                        Ends::Documented => step,
                        _ => todo.pop().unwrap(),
                    };
                    let Ok(n) = rk4(&s, h, &e, &mut mon) else {
                        mon.knife("abort before an event");
                        out.too_long = true;
                        out.mon = mon;
                        return out;
                    };
                    if pert.ends != Ends::Documented {
                        s = n;
                        if todo.is_empty() {
                            break;
                        }
                        continue;
                    }
                    let (y0, y1) = (s.var(e.crit.0) - e.crit.1, n.var(e.crit.0) - e.crit.1);
                    tries += 1;
                    if (y1.abs() - 1e-3).abs() < 1e-7 || tries > 2000 || y0.abs() < 1e-3 {
                        mon.knife("end margin");
                        out.too_long = true;
                        out.mon = mon;
                        return out;
                    }
                    if y1.abs() < 1e-3 {
                        s = n;
                        break;
                    }
                    if y0 * y1 < 0. {
                        step *= y0 / (y0 - y1);
                        continue;
                    }
                    out.phases[i].push(n.clone());
                    s = n;
                }
                out.phases[i].push(s.clone());
                break;
            }
            let rem = left(&s);
            let full = rem - e.step;
            let mut h = e.step;
            if (full.abs() - 1e-3).abs() < 1e-9 {
                mon.knife("end margin");
            }
            if full <= -1e-3 {
                // this step goes too far: it is tried and discarded
                if let Err(a) = rk4(&s, h, &e, &mut mon) {
                    out.abort = Some(a);
                    out.abort_in_rejected = true;
                    out.mon = mon;
                    return out;
                }
                h = rem.max(0.);
            }
            match rk4(&s, h, &e, &mut mon) {
                Ok(n) => s = n,
                Err(a) => {
                    out.abort = Some(a);
                    out.mon = mon;
                    return out;
                }
            }
            out.phases[i].push(s.clone());
            if left(&s).abs() < 1e-3 {
                break;
            }
        }
        t = s.time;
        r = s.pos;
        v = s.vel;
        prop = s.prop;
        for k in 0..3 {
            e.steer[k].1[0] = s.euler[k].to_degrees();
        }
    }
    out.mon = mon;
    out
}

/// Absolute tolerances per field group, for comparing two states of the same
/// mission: `rel` times the natural magnitude of each quantity.
pub fn diff(a: &St, b: &St, e: &Eff, rel: f64) -> Vec<(String, f64, f64, f64)> {
    let mut out = vec![];
    let w = e.planet.w.abs() * norm(b.pos);
    let vs = norm(b.vel).max(w).max(1.);
    let acc = norm(b.acc).max(norm(b.grav)).max(norm(b.veh_acc)).max(1e-9);
    // rounding of the velocity relative to the air, as seen in its square
    let air = norm(b.vel_atm).max(1e-12);
    let amp = 1. + 2e-6 * vs / air;
    let f = norm(b.aero).max(norm(b.thrust));
    let put = |out: &mut Vec<(String, f64, f64, f64)>, n: &str, x: f64, y: f64, d: f64, scale: f64| {
        if !(d <= (rel * scale).max(1e-280)) {
            out.push((n.to_string(), x, y, d / scale));
        }
    };
    macro_rules! vec3 {
        ($n:expr, $x:expr, $y:expr, $s:expr $(,)?) => {
            put(&mut out, $n, norm($x), norm($y), norm(vsub($x, $y)), $s)
        };
    }
    macro_rules! sc {
        ($n:expr, $x:expr, $y:expr, $s:expr $(,)?) => {
            put(&mut out, $n, $x, $y, ($x - $y).abs(), $s)
        };
    }
    vec3!("position", a.pos, b.pos, norm(b.pos));
    vec3!("position_planet", a.pos_planet, b.pos_planet, norm(b.pos));
    vec3!("velocity", a.vel, b.vel, vs);
    vec3!("velocity_planet", a.vel_planet, b.vel_planet, vs);
    vec3!(
        "velocity_atmosphere",
        a.vel_atm,
        b.vel_atm,
        vs.max(norm(e.wind)),
    );
    vec3!("acceleration", a.acc, b.acc, acc * amp);
    vec3!("thrust_force_body", a.thrust, b.thrust, f.max(1e-9) * amp);
    vec3!("aero_force_body", a.aero, b.aero, f.max(1e-9) * amp);
    vec3!(
        "vehicle_acceleration_body",
        a.veh_acc,
        b.veh_acc,
        norm(b.veh_acc).max(1e-9) * amp,
    );
    vec3!("gravity_acceleration", a.grav, b.grav, norm(b.grav));
    sc!("time", a.time, b.time, b.time.abs().max(1.));
    sc!("time_since_event", a.tse, b.tse, b.time.abs().max(1.));
    sc!("altitude", a.alt, b.alt, norm(b.pos));
    sc!("altitude_geopotential", a.alt_geo, b.alt_geo, norm(b.pos));
    sc!("mass", a.mass, b.mass, b.mass.abs());
    sc!("propellant_mass", a.prop, b.prop, b.mass.abs());
    sc!(
        "massflow",
        a.massflow,
        b.massflow,
        b.massflow.abs().max(1e-9) * amp,
    );
    // a metre of rounding per gigametre matters for the exponential pressure
    let hs = 1. + norm(b.pos) / 5e6;
    sc!("temperature", a.temp, b.temp, b.temp * hs * 1.);
    sc!("pressure", a.pres, b.pres, b.pres * (1. + norm(b.pos) / 4e3 * 1e-3));
    sc!("density", a.dens, b.dens, b.dens * (1. + norm(b.pos) / 4e3 * 1e-3));
    if b.temp > 0. {
        sc!("mach_number", a.mach, b.mach, b.mach.abs().max(vs / 300. * 1e-6) * hs * amp);
    } else if a.mach.is_finite() {
        out.push(("mach_number".into(), a.mach, b.mach, f64::INFINITY));
    }
    sc!(
        "dynamic_pressure",
        a.q,
        b.q,
        b.q.max(1e-12) * amp * (1. + norm(b.pos) / 4e3 * 1e-3),
    );
    // angles are only defined up to the direction of the flow
    let da = (a.alpha - b.alpha).abs();
    let da = da.min((da - 2. * std::f64::consts::PI).abs());
    sc!("alpha", da, 0., 1. * amp);
    for k in 0..3 {
        sc!(
            ["euler_angles_roll", "euler_angles_yaw", "euler_angles_pitch"][k],
            a.euler[k],
            b.euler[k],
            b.euler[k].abs().max(1.),
        );
    }
    sc!("throttle", a.throttle, b.throttle, 1.);
    out
}

/// Largest relative difference between two states (same scales as `diff`).
pub fn distance(a: &St, b: &St, e: &Eff) -> f64 {
    diff(a, b, e, 0.)
        .iter()
        .map(|d| d.3)
        .fold(0., |x, y| if y.is_finite() || y.is_nan() { f64::max(x, y) } else { x })
}
