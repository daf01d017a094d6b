//! Typed configurations, as the user writes them, and their rendering to JSON.

use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};

/// Every selectable variable name, as the manual and the code document them.
pub const NAMES: [&str; 56] = [
    "time",
    "time_since_event",
    "position1",
    "position2",
    "position3",
    "position_norm",
    "position_planet1",
    "position_planet2",
    "position_planet3",
    "altitude",
    "altitude_geopotential",
    "velocity1",
    "velocity2",
    "velocity3",
    "velocity_norm",
    "velocity_planet1",
    "velocity_planet2",
    "velocity_planet3",
    "velocity_planet_norm",
    "velocity_atmosphere1",
    "velocity_atmosphere2",
    "velocity_atmosphere3",
    "velocity_atmosphere_norm",
    "acceleration1",
    "acceleration2",
    "acceleration3",
    "acceleration_norm",
    "thrust_force_body1",
    "thrust_force_body2",
    "thrust_force_body3",
    "thrust_force_body_norm",
    "aero_force_body1",
    "aero_force_body2",
    "aero_force_body3",
    "aero_force_body_norm",
    "vehicle_acceleration_body1",
    "vehicle_acceleration_body2",
    "vehicle_acceleration_body3",
    "vehicle_acceleration_body_norm",
    "gravity_acceleration1",
    "gravity_acceleration2",
    "gravity_acceleration3",
    "gravity_acceleration_norm",
    "mass",
    "propellant_mass",
    "massflow",
    "temperature",
    "pressure",
    "density",
    "mach_number",
    "dynamic_pressure",
    "alpha",
    "euler_angles_roll",
    "euler_angles_yaw",
    "euler_angles_pitch",
    "throttle",
];

/// A variable name, kept as the text which is written to the file.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Var(pub u8);

impl Var {
    pub fn n(name: &str) -> Var {
        Var(NAMES
            .iter()
            .position(|n| *n == name)
            .unwrap_or_else(|| panic!("no variable {name}")) as u8)
    }
    pub fn name(&self) -> &'static str {
        NAMES[self.0 as usize]
    }
}
impl std::fmt::Debug for Var {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.name())
    }
}
impl Serialize for Var {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(self.name())
    }
}
impl<'de> Deserialize<'de> for Var {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        NAMES
            .iter()
            .position(|n| *n == s)
            .map(|i| Var(i as u8))
            .ok_or_else(|| serde::de::Error::custom(format!("unknown variable {s}")))
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Planet {
    Spherical,
    Fisher,
    Smithsonian,
    Custom {
        re: f64,
        rp: f64,
        g: [f64; 4],
        w: f64,
    },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Init {
    pub latitude: f64,
    pub longitude: f64,
    pub azimuth: f64,
    pub altitude: f64,
}

/// A table: its axes and its data in row-major order (last axis fastest).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Table {
    pub axes: Vec<(Var, Vec<f64>)>,
    pub data: Vec<f64>,
}

impl Table {
    pub fn empty() -> Table {
        Table {
            axes: vec![(Var(0), vec![])],
            data: vec![],
        }
    }
    pub fn constant(v: f64) -> Table {
        Table {
            axes: vec![(Var(0), vec![0.])],
            data: vec![v],
        }
    }
    pub fn d1(var: Var, xs: &[f64], ys: &[f64]) -> Table {
        Table {
            axes: vec![(var, xs.to_vec())],
            data: ys.to_vec(),
        }
    }
    /// f(x) = x for one variable
    pub fn ident(var: Var) -> Table {
        Table::d1(var, &[0., 1.], &[0., 1.])
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Engine {
    pub incidence: [f64; 2],
    pub thrust_vac: f64,
    pub isp_vac: f64,
    pub exit_area: f64,
}

macro_rules! optional_struct {
    ($(#[$m:meta])* $name:ident { $($f:ident : $t:ty),* $(,)? }) => {
        $(#[$m])*
        #[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
        pub struct $name {
            $(#[serde(default, skip_serializing_if = "Option::is_none")] pub $f: Option<$t>,)*
        }
    };
}

optional_struct!(Vehicle {
    structure_mass: f64,
    propellant_mass: f64,
    reference_area: f64,
    drag_coeff: Table,
    lift_coeff: Table,
    side_force_coeff: Table,
    engines: Vec<Engine>,
});
optional_struct!(Steering {
    roll: (Var, [f64; 3]),
    yaw: (Var, [f64; 3]),
    pitch: (Var, [f64; 3]),
});
optional_struct!(Atmo {
    enabled: bool,
    wind: [f64; 3],
});
optional_struct!(Phase {
    init: Init,
    vehicle: Vehicle,
    steering: Steering,
    planet_model: Planet,
    atmosphere: Atmo,
    max_acceleration: f64,
    stepsize: f64,
    end_criterion: (Var, f64),
});

impl Phase {
    pub fn veh(&mut self) -> &mut Vehicle {
        self.vehicle.get_or_insert_with(Default::default)
    }
    pub fn steer(&mut self) -> &mut Steering {
        self.steering.get_or_insert_with(Default::default)
    }
    pub fn atmo(&mut self) -> &mut Atmo {
        self.atmosphere.get_or_insert_with(Default::default)
    }
    pub fn until(mut self, var: &str, target: f64) -> Phase {
        self.end_criterion = Some((Var::n(var), target));
        self
    }
    pub fn step(mut self, h: f64) -> Phase {
        self.stepsize = Some(h);
        self
    }
}

fn nest(shape: &[usize], data: &[f64]) -> Value {
    if shape.len() <= 1 {
        return json!(data);
    }
    let inner: usize = shape[1..].iter().product();
    Value::Array(
        (0..shape[0])
            .map(|i| nest(&shape[1..], &data[i * inner..(i + 1) * inner]))
            .collect(),
    )
}

pub fn table_json(t: &Table) -> Value {
    let mut m = Map::new();
    for (name, (var, xs)) in ["x", "y", "z"].iter().zip(&t.axes) {
        m.insert(name.to_string(), json!([var.name(), xs]));
    }
    let shape: Vec<usize> = t.axes.iter().map(|a| a.1.len()).collect();
    m.insert("data".into(), nest(&shape, &t.data));
    Value::Object(m)
}

pub fn planet_json(p: &Planet) -> Value {
    match p {
        Planet::Spherical => json!("spherical"),
        Planet::Fisher => json!("fisher_1960"),
        Planet::Smithsonian => json!("smithsonian"),
        Planet::Custom { re, rp, g, w } => json!({"custom": {
            "equatorial_radius": re, "polar_radius": rp,
            "gravitational_parameters": g, "rotation_rate": w}}),
    }
}

pub fn phase_json(p: &Phase) -> Value {
    let mut m = Map::new();
    if let Some(i) = &p.init {
        m.insert("init".into(), serde_json::to_value(i).unwrap());
    }
    if let Some(v) = &p.vehicle {
        let mut o = Map::new();
        for (k, x) in [
            ("structure_mass", v.structure_mass),
            ("propellant_mass", v.propellant_mass),
            ("reference_area", v.reference_area),
        ] {
            if let Some(x) = x {
                o.insert(k.into(), json!(x));
            }
        }
        for (k, x) in [
            ("drag_coeff", &v.drag_coeff),
            ("lift_coeff", &v.lift_coeff),
            ("side_force_coeff", &v.side_force_coeff),
        ] {
            if let Some(x) = x {
                o.insert(k.into(), table_json(x));
            }
        }
        if let Some(e) = &v.engines {
            o.insert("engines".into(), serde_json::to_value(e).unwrap());
        }
        m.insert("vehicle".into(), Value::Object(o));
    }
    if let Some(s) = &p.steering {
        m.insert("steering".into(), serde_json::to_value(s).unwrap());
    }
    if let Some(x) = &p.planet_model {
        m.insert("planet_model".into(), planet_json(x));
    }
    if let Some(x) = &p.atmosphere {
        m.insert("atmosphere".into(), serde_json::to_value(x).unwrap());
    }
    if let Some(x) = p.max_acceleration {
        m.insert("max_acceleration".into(), json!(x));
    }
    if let Some(x) = p.stepsize {
        m.insert("stepsize".into(), json!(x));
    }
    if let Some(x) = p.end_criterion {
        m.insert("end_criterion".into(), serde_json::to_value(x).unwrap());
    }
    Value::Object(m)
}

pub fn mission_value(ps: &[Phase]) -> Value {
    Value::Array(ps.iter().map(phase_json).collect())
}

pub fn mission_json(ps: &[Phase]) -> String {
    mission_value(ps).to_string()
}

/// Rounds to 10 significant digits. Such numbers survive printing and (every
/// kind of) parsing unchanged.
pub fn q(x: f64) -> f64 {
    if x == 0. || !x.is_finite() {
        return 0.;
    }
    format!("{x:.9e}").parse().unwrap()
}
pub fn qn(x: f64, digits: usize) -> f64 {
    if x == 0. || !x.is_finite() {
        return 0.;
    }
    format!("{:.*e}", digits - 1, x).parse().unwrap()
}
