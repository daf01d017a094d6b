//! The harness' own copy of a state, and the meaning of each variable name.

use crate::cfg::Var;
use serde::{Deserialize, Serialize};

pub type V3 = [f64; 3];

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct St {
    pub time: f64,
    pub tse: f64,
    pub pos: V3,
    pub pos_planet: V3,
    pub alt: f64,
    pub alt_geo: f64,
    pub vel: V3,
    pub vel_planet: V3,
    pub vel_atm: V3,
    pub acc: V3,
    pub thrust: V3,
    pub aero: V3,
    pub veh_acc: V3,
    pub grav: V3,
    pub mass: f64,
    pub prop: f64,
    pub massflow: f64,
    pub temp: f64,
    pub pres: f64,
    pub dens: f64,
    pub mach: f64,
    pub q: f64,
    pub alpha: f64,
    pub euler: V3,
    pub throttle: f64,
}

pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn norm(a: V3) -> f64 {
    dot(a, a).sqrt()
}
pub fn cross(a: V3, b: V3) -> V3 {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn vsub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn mul(s: f64, a: V3) -> V3 {
    [s * a[0], s * a[1], s * a[2]]
}
pub fn unit(a: V3) -> V3 {
    mul(1. / norm(a), a)
}
/// rotate a vector about z by an angle
pub fn rotz(a: V3, t: f64) -> V3 {
    let (s, c) = t.sin_cos();
    [c * a[0] - s * a[1], s * a[0] + c * a[1], a[2]]
}

impl St {
    /// The quantity which a variable name documents.
    pub fn var(&self, v: Var) -> f64 {
        let comp = |name: &str, v: V3| -> f64 {
            match name {
                "1" => v[0],
                "2" => v[1],
                "3" => v[2],
                "_norm" => norm(v),
                _ => unreachable!(),
            }
        };
        let n = v.name();
        for (prefix, vec) in [
            ("position_planet", self.pos_planet),
            ("position", self.pos),
            ("velocity_planet", self.vel_planet),
            ("velocity_atmosphere", self.vel_atm),
            ("velocity", self.vel),
            ("vehicle_acceleration_body", self.veh_acc),
            ("gravity_acceleration", self.grav),
            ("acceleration", self.acc),
            ("thrust_force_body", self.thrust),
            ("aero_force_body", self.aero),
        ] {
            if let Some(rest) = n.strip_prefix(prefix) {
                return comp(rest, vec);
            }
        }
        match n {
            "time" => self.time,
            "time_since_event" => self.tse,
            "altitude" => self.alt,
            "altitude_geopotential" => self.alt_geo,
            "mass" => self.mass,
            "propellant_mass" => self.prop,
            "massflow" => self.massflow,
            "temperature" => self.temp,
            "pressure" => self.pres,
            "density" => self.dens,
            "mach_number" => self.mach,
            "dynamic_pressure" => self.q,
            "alpha" => self.alpha,
            "euler_angles_roll" => self.euler[0],
            "euler_angles_yaw" => self.euler[1],
            "euler_angles_pitch" => self.euler[2],
            "throttle" => self.throttle,
            _ => unreachable!("{n}"),
        }
    }

    pub fn fields(&self) -> Vec<(&'static str, f64)> {
        let v = |n: [&'static str; 3], x: V3| [(n[0], x[0]), (n[1], x[1]), (n[2], x[2])];
        let mut out = Vec::with_capacity(47);
        out.push(("time", self.time));
        out.push(("time_since_event", self.tse));
        out.extend(v(["position1", "position2", "position3"], self.pos));
        out.extend(v(
            ["position_planet1", "position_planet2", "position_planet3"],
            self.pos_planet,
        ));
        out.push(("altitude", self.alt));
        out.push(("altitude_geopotential", self.alt_geo));
        out.extend(v(["velocity1", "velocity2", "velocity3"], self.vel));
        out.extend(v(
            ["velocity_planet1", "velocity_planet2", "velocity_planet3"],
            self.vel_planet,
        ));
        out.extend(v(
            [
                "velocity_atmosphere1",
                "velocity_atmosphere2",
                "velocity_atmosphere3",
            ],
            self.vel_atm,
        ));
        out.extend(v(["acceleration1", "acceleration2", "acceleration3"], self.acc));
        out.extend(v(
            ["thrust_force_body1", "thrust_force_body2", "thrust_force_body3"],
            self.thrust,
        ));
        out.extend(v(
            ["aero_force_body1", "aero_force_body2", "aero_force_body3"],
            self.aero,
        ));
        out.extend(v(
            [
                "vehicle_acceleration_body1",
                "vehicle_acceleration_body2",
                "vehicle_acceleration_body3",
            ],
            self.veh_acc,
        ));
        out.extend(v(
            [
                "gravity_acceleration1",
                "gravity_acceleration2",
                "gravity_acceleration3",
            ],
            self.grav,
        ));
        out.push(("mass", self.mass));
        out.push(("propellant_mass", self.prop));
        out.push(("massflow", self.massflow));
        out.push(("temperature", self.temp));
        out.push(("pressure", self.pres));
        out.push(("density", self.dens));
        out.push(("mach_number", self.mach));
        out.push(("dynamic_pressure", self.q));
        out.push(("alpha", self.alpha));
        out.extend(v(
            ["euler_angles_roll", "euler_angles_yaw", "euler_angles_pitch"],
            self.euler,
        ));
        out.push(("throttle", self.throttle));
        out
    }
}
