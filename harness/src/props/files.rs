//! Which files are accepted (C16), against a JSON reader and a description of
//! the format of our own.

use super::output::{any_mission, restyle, scratch};
use crate::cfg::*;
use crate::ensure;
use crate::gen::*;
use crate::runner::*;
use crate::sut;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------ JSON

/// A JSON text. Numbers keep their notation.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(n),
            J::Str(s) => o.push_str(&serde_json::to_string(s).unwrap()),
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push_str(&serde_json::to_string(k).unwrap());
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

/// Why a text is no JSON.
#[derive(Debug)]
enum Bad {
    Syntax,
    /// Nothing is claimed about such texts.
    Open,
}

struct Reader<'a> {
    b: &'a [u8],
    i: usize,
    depth: usize,
}

/// A strict reader (RFC 8259).
pub fn read(b: &[u8]) -> Result<Option<J>, ()> {
    let mut r = Reader { b, i: 0, depth: 0 };
    if b.starts_with(b"\xef\xbb\xbf") {
        return Ok(None);
    }
    let x = r.document();
    match x {
        Ok(v) => Ok(Some(v)),
        Err(Bad::Syntax) => Err(()),
        Err(Bad::Open) => Ok(None),
    }
}

impl Reader<'_> {
    fn document(&mut self) -> Result<J, Bad> {
        if std::str::from_utf8(self.b).is_err() {
            return Err(Bad::Syntax);
        }
        let v = self.value()?;
        self.space();
        if self.i < self.b.len() {
            return Err(Bad::Syntax);
        }
        Ok(v)
    }
    fn space(&mut self) {
        while matches!(self.b.get(self.i), Some(b' ' | b'\t' | b'\n' | b'\r')) {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.b.get(self.i).copied().unwrap_or(0)
    }
    fn word(&mut self, w: &str, v: J) -> Result<J, Bad> {
        if self.b[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Ok(v)
        } else {
            Err(Bad::Syntax)
        }
    }
    fn value(&mut self) -> Result<J, Bad> {
        self.space();
        match self.peek() {
            b'n' => self.word("null", J::Null),
            b't' => self.word("true", J::Bool(true)),
            b'f' => self.word("false", J::Bool(false)),
            b'"' => self.string().map(J::Str),
            b'-' | b'0'..=b'9' => self.number(),
            b'[' => {
                self.enter()?;
                let mut a = vec![];
                self.space();
                if self.peek() == b']' {
                    self.i += 1;
                } else {
                    loop {
                        a.push(self.value()?);
                        self.space();
                        let c = self.peek();
                        self.i += 1;
                        match c {
                            b',' => (),
                            b']' => break,
                            _ => return Err(Bad::Syntax),
                        }
                    }
                }
                self.depth -= 1;
                Ok(J::Arr(a))
            }
            b'{' => {
                self.enter()?;
                let mut m = vec![];
                self.space();
                if self.peek() == b'}' {
                    self.i += 1;
                } else {
                    loop {
                        self.space();
                        if self.peek() != b'"' {
                            return Err(Bad::Syntax);
                        }
                        let k = self.string()?;
                        self.space();
                        if self.peek() != b':' {
                            return Err(Bad::Syntax);
                        }
                        self.i += 1;
                        let v = self.value()?;
                        m.push((k, v));
                        self.space();
                        let c = self.peek();
                        self.i += 1;
                        match c {
                            b',' => (),
                            b'}' => break,
                            _ => return Err(Bad::Syntax),
                        }
                    }
                }
                self.depth -= 1;
                Ok(J::Obj(m))
            }
            _ => Err(Bad::Syntax),
        }
    }
    fn enter(&mut self) -> Result<(), Bad> {
        self.i += 1;
        self.depth += 1;
        // no configuration is as deep, whatever follows
        if self.depth > 100 {
            Err(Bad::Syntax)
        } else {
            Ok(())
        }
    }
    fn number(&mut self) -> Result<J, Bad> {
        let start = self.i;
        if self.peek() == b'-' {
            self.i += 1;
        }
        match self.peek() {
            b'0' => self.i += 1,
            b'1'..=b'9' => self.digits()?,
            _ => return Err(Bad::Syntax),
        }
        if self.peek() == b'.' {
            self.i += 1;
            self.digits()?;
        }
        if matches!(self.peek(), b'e' | b'E') {
            self.i += 1;
            if matches!(self.peek(), b'+' | b'-') {
                self.i += 1;
            }
            self.digits()?;
        }
        let t = std::str::from_utf8(&self.b[start..self.i]).unwrap();
        Ok(J::Num(t.to_string()))
    }
    fn digits(&mut self) -> Result<(), Bad> {
        if !self.peek().is_ascii_digit() {
            return Err(Bad::Syntax);
        }
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        Ok(())
    }
    fn hex(&mut self) -> Result<u32, Bad> {
        let h = self.b.get(self.i..self.i + 4).ok_or(Bad::Syntax)?;
        if !h.iter().all(|c| c.is_ascii_hexdigit()) {
            return Err(Bad::Syntax);
        }
        self.i += 4;
        Ok(u32::from_str_radix(std::str::from_utf8(h).unwrap(), 16).unwrap())
    }
    fn string(&mut self) -> Result<String, Bad> {
        self.i += 1;
        let mut o: Vec<u8> = vec![];
        let push = |o: &mut Vec<u8>, c: char| {
            let mut buf = [0; 4];
            o.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
        };
        loop {
            let c = *self.b.get(self.i).ok_or(Bad::Syntax)?;
            self.i += 1;
            match c {
                b'"' => break,
                0..=0x1f => return Err(Bad::Syntax),
                b'\\' => {
                    let c = self.peek();
                    self.i += 1;
                    match c {
                        b'"' | b'\\' | b'/' => o.push(c),
                        b'b' => o.push(8),
                        b'f' => o.push(12),
                        b'n' => o.push(10),
                        b'r' => o.push(13),
                        b't' => o.push(9),
                        b'u' => {
                            let mut n = self.hex()?;
                            if (0xd800..0xdc00).contains(&n) && self.b[self.i..].starts_with(b"\\u") {
                                self.i += 2;
                                let m = self.hex()?;
                                if (0xdc00..0xe000).contains(&m) {
                                    n = 0x10000 + ((n - 0xd800) << 10) + (m - 0xdc00);
                                } else {
                                    return Err(Bad::Syntax);
                                }
                            }
                            // half a pair is in no name whatsoever
                            push(&mut o, char::from_u32(n).ok_or(Bad::Syntax)?);
                        }
                        _ => return Err(Bad::Syntax),
                    }
                }
                _ => o.push(c),
            }
        }
        String::from_utf8(o).map_err(|_| Bad::Syntax)
    }
}

// ------------------------------------------------------------ the format

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Judge {
    Valid,
    Invalid,
    /// Other forms which the manual does not mention.
    Open,
}

impl Judge {
    fn and(self, o: Judge) -> Judge {
        match (self, o) {
            (Judge::Invalid, _) | (_, Judge::Invalid) => Judge::Invalid,
            (Judge::Open, _) | (_, Judge::Open) => Judge::Open,
            _ => Judge::Valid,
        }
    }
}
use Judge::*;

fn all(j: impl IntoIterator<Item = Judge>) -> Judge {
    j.into_iter().fold(Valid, |a, b| a.and(b))
}

fn number(j: &J) -> Judge {
    match j {
        // too big for a double
        J::Num(n) if !n.parse::<f64>().unwrap().is_finite() => Open,
        J::Num(_) => Valid,
        _ => Invalid,
    }
}
fn value(j: &J) -> f64 {
    match j {
        J::Num(n) => n.parse().unwrap(),
        _ => f64::NAN,
    }
}
fn numbers(j: &J, len: Option<usize>) -> Judge {
    match j {
        J::Arr(a) if len.is_none_or(|n| n == a.len()) => all(a.iter().map(number)),
        _ => Invalid,
    }
}
/// One of several names; `{"name": null}` is the same to the parser.
fn name(j: &J, names: &[&str]) -> Judge {
    match j {
        J::Str(s) if names.contains(&s.as_str()) => Valid,
        J::Obj(m) if m.len() == 1 && names.contains(&m[0].0.as_str()) && m[0].1 == J::Null => Open,
        _ => Invalid,
    }
}
fn var(j: &J) -> Judge {
    name(j, &NAMES)
}
fn pair(j: &J, second: impl Fn(&J) -> Judge) -> Judge {
    match j {
        J::Arr(a) if a.len() == 2 => var(&a[0]).and(second(&a[1])),
        _ => Invalid,
    }
}
fn option(j: &J, f: impl Fn(&J) -> Judge) -> Judge {
    if *j == J::Null {
        Valid
    } else {
        f(j)
    }
}

type Field<'a> = (&'a str, bool, &'a dyn Fn(&J) -> Judge);

/// An object with these fields (name, required, value).
fn object(j: &J, fields: &[Field]) -> Judge {
    let m = match j {
        J::Obj(m) => m,
        // values without their names, in order
        J::Arr(_) => return Open,
        _ => return Invalid,
    };
    let mut r = Valid;
    for (i, (k, v)) in m.iter().enumerate() {
        if m[..i].iter().any(|(l, _)| l == k) {
            r = r.and(Open);
        }
        match fields.iter().find(|f| f.0 == k) {
            Some(f) => r = r.and((f.2)(v)),
            None => return Invalid,
        }
    }
    for f in fields {
        if f.1 && !m.iter().any(|(k, _)| k == f.0) {
            return Invalid;
        }
    }
    r
}

fn table(j: &J) -> Judge {
    let m = match j {
        J::Obj(m) => m,
        J::Arr(_) => return Open,
        _ => return Invalid,
    };
    let axis = |j: &J| pair(j, |x| numbers(x, None));
    let get = |k: &str| m.iter().find(|(l, _)| l == k).map(|x| &x.1);
    let dims = 1 + usize::from(get("y").is_some()) + usize::from(get("z").is_some());
    let any = |_: &J| Valid;
    let interp = |j: &J| name(j, &["linear"]);
    let form = object(
        j,
        &[
            ("x", true, &axis),
            ("y", dims > 1, &axis),
            ("z", dims > 2, &axis),
            ("data", true, &any),
            ("interpolator", false, &interp),
        ],
    );
    if form == Invalid {
        return Invalid;
    }
    let mut shape = vec![];
    for k in &["x", "y", "z"][..dims] {
        let Some(J::Arr(a)) = get(k) else { return form.and(Invalid) };
        let J::Arr(xs) = &a[1] else { return Invalid };
        // the order of numbers which are no doubles is not claimed
        if number_axis(xs) == Invalid {
            return Invalid;
        }
        shape.push(xs.len());
    }
    form.and(grid(get("data").unwrap(), &shape))
}
fn number_axis(xs: &[J]) -> Judge {
    if xs.windows(2).all(|w| value(&w[0]) < value(&w[1])) {
        Valid
    } else {
        Invalid
    }
}
fn grid(j: &J, shape: &[usize]) -> Judge {
    match j {
        J::Arr(a) if a.len() == shape[0] => {
            if shape.len() == 1 {
                all(a.iter().map(number))
            } else {
                all(a.iter().map(|x| grid(x, &shape[1..])))
            }
        }
        _ => Invalid,
    }
}

fn planet(j: &J) -> Judge {
    let J::Obj(m) = j else {
        return name(j, &["spherical", "fisher_1960", "fisher1960", "smithsonian"]);
    };
    if m.len() == 1 && m[0].0 == "custom" {
        return object(
            &m[0].1,
            &[
                ("equatorial_radius", true, &number),
                ("polar_radius", true, &number),
                ("gravitational_parameters", true, &|j| numbers(j, Some(4))),
                ("rotation_rate", true, &number),
            ],
        );
    }
    name(j, &["spherical", "fisher_1960", "fisher1960", "smithsonian"])
}

fn engine(j: &J) -> Judge {
    object(
        j,
        &[
            ("incidence", true, &|j| numbers(j, Some(2))),
            ("thrust_vac", true, &number),
            ("isp_vac", true, &number),
            ("exit_area", true, &number),
        ],
    )
}

fn phase(j: &J) -> Judge {
    let num = |j: &J| option(j, number);
    let tab = |j: &J| option(j, table);
    let engines = |j: &J| {
        option(j, |j| match j {
            J::Arr(a) => all(a.iter().map(engine)),
            _ => Invalid,
        })
    };
    let vehicle = |j: &J| {
        option(j, |j| {
            object(
                j,
                &[
                    ("structure_mass", false, &num),
                    ("propellant_mass", false, &num),
                    ("reference_area", false, &num),
                    ("drag_coeff", false, &tab),
                    ("lift_coeff", false, &tab),
                    ("side_force_coeff", false, &tab),
                    ("engines", false, &engines),
                ],
            )
        })
    };
    let init = |j: &J| {
        option(j, |j| {
            object(
                j,
                &[
                    ("latitude", true, &number),
                    ("longitude", true, &number),
                    ("azimuth", true, &number),
                    ("altitude", true, &number),
                ],
            )
        })
    };
    let axis = |j: &J| option(j, |j| pair(j, |c| numbers(c, Some(3))));
    let steering = |j: &J| {
        option(j, |j| {
            object(
                j,
                &[
                    ("roll", false, &axis),
                    ("yaw", false, &axis),
                    ("pitch", false, &axis),
                ],
            )
        })
    };
    let enabled = |j: &J| {
        option(j, |j| match j {
            J::Bool(_) => Valid,
            _ => Invalid,
        })
    };
    let wind = |j: &J| option(j, |j| numbers(j, Some(3)));
    let atmosphere = |j: &J| {
        option(j, |j| {
            object(j, &[("enabled", false, &enabled), ("wind", false, &wind)])
        })
    };
    let model = |j: &J| option(j, planet);
    let criterion = |j: &J| option(j, |j| pair(j, number));
    object(
        j,
        &[
            ("init", false, &init),
            ("vehicle", false, &vehicle),
            ("steering", false, &steering),
            ("planet_model", false, &model),
            ("atmosphere", false, &atmosphere),
            ("max_acceleration", false, &num),
            ("stepsize", false, &num),
            ("end_criterion", false, &criterion),
        ],
    )
}

/// Whether a file is a well-formed configuration.
pub fn judge(b: &[u8]) -> Judge {
    match read(b) {
        Err(()) => Invalid,
        Ok(None) => Open,
        Ok(Some(J::Arr(a))) => all(a.iter().map(phase)),
        Ok(Some(_)) => Invalid,
    }
}

/// Loads a text and compares with the judgement.
fn decide(b: &[u8]) -> Result<Judge, String> {
    let want = judge(b);
    let shown = || {
        let t = String::from_utf8_lossy(b);
        match t.char_indices().nth(3000) {
            Some((i, _)) => format!("{}...", &t[..i]),
            None => t.to_string(),
        }
    };
    match (sut::load_bytes(b), want) {
        (Err(sut::LoadErr::Panic(m)), _) => Err(format!("loading panics: {m}\n{}", shown())),
        (Ok(_), Invalid) => Err(format!("accepted, but not well-formed:\n{}", shown())),
        (Err(sut::LoadErr::Err(m)), Valid) => {
            Err(format!("well-formed, but rejected: {m}\n{}", shown()))
        }
        _ => Ok(want),
    }
}

// ------------------------------------------------------------ structure

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mutation {
    group: u16,
    node: u16,
    kind: u8,
    arg: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mutant {
    mission: Vec<Phase>,
    style: u64,
    changes: Vec<Mutation>,
}

/// Missions with every kind of parameter.
fn rich_mission() -> BoxedStrategy<Vec<Phase>> {
    let full = (
        any_mission(),
        (coeff(2., true), coeff(2., true), coeff(2., true)),
    )
        .prop_flat_map(|(ps, _)| {
            let vars = || select(NAMES.iter().map(|n| Var::n(n)).collect::<Vec<_>>()).boxed();
            let t = |n| {
                prop_oneof![
                    12 => table_with(vars(), coeff(2., true), n),
                    1 => long_table(vars(), coeff(2., true)),
                ]
                .boxed()
            };
            (
                Just(ps),
                maybe(60, t(4)),
                maybe(60, t(3)),
                maybe(60, t(3)),
                maybe(50, steering(60)),
                maybe(50, crate::gen::planet()),
                maybe(50, wind()),
            )
        })
        .prop_map(|(mut ps, d, l, s, st, pl, w)| {
            let p = ps.last_mut().unwrap();
            if d.is_some() {
                p.veh().drag_coeff = d;
            }
            if l.is_some() {
                p.veh().lift_coeff = l;
            }
            if s.is_some() {
                p.veh().side_force_coeff = s;
            }
            if st.is_some() {
                p.steering = st;
            }
            if pl.is_some() {
                p.planet_model = pl;
            }
            if w.is_some() {
                p.atmo().wind = w;
            }
            ps
        });
    prop_oneof![3 => full, 1 => any_mission()].boxed()
}

fn mutation() -> BoxedStrategy<Mutation> {
    (any::<u16>(), any::<u16>(), 0u8..16, any::<u16>())
        .prop_map(|(group, node, kind, arg)| Mutation {
            group,
            node,
            kind,
            arg,
        })
        .boxed()
}

/// Every node with the kind of place where it is.
fn nodes(j: &J, place: &str, path: &mut Vec<usize>, out: &mut Vec<(String, Vec<usize>)>) {
    out.push((place.to_string(), path.clone()));
    match j {
        J::Arr(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(i);
                // the places within a tuple differ
                let p = match x {
                    J::Str(_) => format!("{place}/name"),
                    _ => format!("{place}[]"),
                };
                nodes(x, &p, path, out);
                path.pop();
            }
        }
        J::Obj(m) => {
            for (i, (k, x)) in m.iter().enumerate() {
                path.push(i);
                nodes(x, &format!("{place}/{k}"), path, out);
                path.pop();
            }
        }
        _ => (),
    }
}

fn at<'a>(j: &'a mut J, path: &[usize]) -> &'a mut J {
    match path.split_first() {
        None => j,
        Some((i, rest)) => match j {
            J::Arr(a) => at(&mut a[*i], rest),
            J::Obj(m) => at(&mut m[*i].1, rest),
            _ => unreachable!(),
        },
    }
}

const WORDS: [&str; 20] = [
    "init",
    "vehicle",
    "steering",
    "planet_model",
    "atmosphere",
    "engines",
    "latitude",
    "x",
    "y",
    "z",
    "data",
    "interpolator",
    "wind",
    "enabled",
    "custom",
    "linear",
    "time",
    "unit",
    "",
    "stepsize",
];

const NUMBERS: [&str; 16] = [
    "0",
    "-0",
    "-1",
    "1e3",
    "1E-3",
    "18446744073709551616",
    "-9223372036854775809",
    "1e308",
    "-1.7976931348623157e308",
    "5e-324",
    "1e-400",
    "0.1000000000000000055511151231257827021181583404541015625",
    "123456789012345678901234567890",
    "2.5e+0",
    "1e400",
    "0e999999999999",
];

/// Another value of any type.
fn other(arg: u16) -> J {
    let k = arg as usize / 16;
    match arg % 16 {
        0 | 1 => J::Null,
        2 => J::Bool(k % 2 == 0),
        3 | 4 | 5 => J::Num(NUMBERS[k % NUMBERS.len()].into()),
        6 => J::Str(WORDS[k % WORDS.len()].into()),
        7 => J::Str(NAMES[k % NAMES.len()].into()),
        8 => J::Arr(vec![]),
        9 => J::Arr(vec![J::Num("1".into()); 1 + k % 4]),
        10 => J::Obj(vec![]),
        11 => J::Obj(vec![(WORDS[k % WORDS.len()].into(), J::Null)]),
        12 => J::Arr(vec![J::Str(NAMES[k % NAMES.len()].into()), J::Num("1".into())]),
        13 => J::Arr(vec![
            J::Str(NAMES[k % NAMES.len()].into()),
            J::Arr(vec![J::Num("0".into()); k % 4]),
        ]),
        14 => J::Str("1".into()),
        _ => J::Str(["spherical", "fisher_1960", "fisher1960", "smithsonian"][k % 4].into()),
    }
}

fn misspell(s: &str, arg: u16) -> String {
    let k = arg as usize / 8;
    let mut c: Vec<char> = s.chars().collect();
    let i = if c.is_empty() { 0 } else { k % c.len() };
    match arg % 8 {
        0 => c.insert(i, 'x'),
        1 if !c.is_empty() => {
            c.remove(i);
        }
        2 if c.len() > 1 => {
            let j = (i + 1) % c.len();
            c.swap(i, j);
        }
        3 => return s.to_uppercase(),
        4 => c.push(' '),
        5 => c.push(['1', '4', 's', '_'][k % 4]),
        6 => return s.replace('_', ["", "-", " "][k % 3]),
        _ => {
            // like CamelCase
            let mut up = true;
            return s
                .chars()
                .filter_map(|ch| {
                    if ch == '_' {
                        up = true;
                        None
                    } else if up {
                        up = false;
                        Some(ch.to_ascii_uppercase())
                    } else {
                        Some(ch)
                    }
                })
                .collect();
        }
    }
    c.into_iter().collect()
}

fn mutate(j: &mut J, m: &Mutation) -> &'static str {
    let mut all = vec![];
    nodes(j, "", &mut vec![], &mut all);
    // kinds which need a certain node look for one
    let kind = m.kind;
    let fits = |j: &mut J, path: &[usize]| {
        let n = at(j, path);
        match kind {
            0..=2 => true,
            3..=6 => matches!(n, J::Obj(_)),
            7..=10 => matches!(n, J::Arr(_)),
            11 | 12 => matches!(n, J::Str(_)),
            13 => matches!(n, J::Num(_)),
            _ => matches!(n, J::Arr(a) if a.len() > 1 && a.iter().all(|x| matches!(x, J::Num(_)))),
        }
    };
    all.retain(|(_, p)| fits(j, p));
    if all.is_empty() {
        return "none";
    }
    let mut groups: Vec<String> = all.iter().map(|x| x.0.clone()).collect();
    groups.sort();
    groups.dedup();
    let g = &groups[m.group as usize % groups.len()];
    let of: Vec<_> = all.iter().filter(|x| x.0 == *g).collect();
    let n = at(j, &of[m.node as usize % of.len()].1);
    let arg = m.arg as usize;
    match (kind, n) {
        (0 | 1, n) => {
            *n = other(m.arg);
            "another value"
        }
        (2, n) => {
            *n = match arg % 3 {
                0 => J::Arr(vec![n.clone()]),
                1 => J::Obj(vec![(WORDS[arg / 3 % WORDS.len()].into(), n.clone())]),
                _ => match n {
                    J::Arr(a) if !a.is_empty() => a[0].clone(),
                    J::Obj(o) if !o.is_empty() => o[0].1.clone(),
                    _ => J::Str(match n {
                        J::Num(t) => t.clone(),
                        _ => "null".into(),
                    }),
                },
            };
            "nested"
        }
        (3, J::Obj(o)) => {
            if !o.is_empty() {
                let i = arg % o.len();
                o.remove(i);
            }
            "missing field"
        }
        (4, J::Obj(o)) => {
            let k = if arg % 2 == 0 {
                WORDS[arg / 2 % WORDS.len()].to_string()
            } else {
                misspell(WORDS[arg / 2 % WORDS.len()], m.group)
            };
            let i = arg / 2 % (o.len() + 1);
            o.insert(i, (k, if arg % 4 == 3 { J::Null } else { other(m.node) }));
            "further field"
        }
        (5 | 6, J::Obj(o)) => {
            if !o.is_empty() {
                let i = arg % o.len();
                o[i].0 = misspell(&o[i].0, m.node);
            }
            "misspelt field"
        }
        (7, J::Arr(a)) => {
            if !a.is_empty() {
                let i = arg % a.len();
                a.remove(i);
            }
            "shorter"
        }
        (8, J::Arr(a)) => {
            let x = a.last().cloned().unwrap_or(J::Num("1".into()));
            a.push(x);
            "longer"
        }
        (9, J::Arr(a)) => {
            if !a.is_empty() {
                let i = arg % a.len();
                let x = a[i].clone();
                a.insert(i, x);
            }
            "longer"
        }
        (10, J::Arr(a)) => {
            a.clear();
            "emptied"
        }
        (11 | 12, J::Str(s)) => {
            *s = if kind == 11 {
                misspell(s, m.arg)
            } else {
                NAMES[arg % NAMES.len()].to_string()
            };
            "another name"
        }
        (13, J::Num(t)) => {
            *t = NUMBERS[arg % NUMBERS.len()].into();
            "another number"
        }
        (14, J::Arr(a)) => {
            let i = arg % (a.len() - 1);
            a.swap(i, i + 1);
            "exchanged numbers"
        }
        (_, J::Arr(a)) => {
            let i = arg % (a.len() - 1);
            a[i + 1] = a[i].clone();
            "repeated number"
        }
        _ => "none",
    }
}

fn check_mutant(c: &Mutant, ctx: &mut Ctx) -> CheckResult {
    let text = restyle(&c.mission, c.style);
    if c.changes.is_empty() {
        let w = decide(text.as_bytes())?;
        assert_eq!(w, Valid, "{text}");
        ctx.label("unchanged");
        return Ok(Verdict::Pass);
    }
    let mut j = read(text.as_bytes()).expect("own text").expect("own text");
    let mut kinds = vec![];
    for m in &c.changes {
        kinds.push(mutate(&mut j, m));
    }
    let mut t = String::new();
    j.write(&mut t);
    let w = decide(t.as_bytes())?;
    ctx.label(format!("{w:?}"));
    if c.changes.len() == 1 && w != Open {
        ctx.label(format!("{w:?} {}", kinds[0]));
    }
    Ok(if w == Open { Verdict::Trivial } else { Verdict::Pass })
}

// ------------------------------------------------------------ bytes

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Set(u16, u8),
    Insert(u16, Vec<u8>),
    Token(u16, u8),
    Delete(u16, u16),
    Copy(u16, u16, u16),
    Cut(u16),
    Nest(u16, u8, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Garbled {
    mission: Option<Vec<Phase>>,
    style: u64,
    edits: Vec<Edit>,
}

const TOKENS: [&str; 40] = [
    "{", "}", "[", "]", ",", ":", "\"", "\\", "\\u0041", "\\ud800", "\\udc00", "\\ud83d\\ude00",
    "null", "true", "false", "nul", "NaN", "Infinity", "-", "+1", "01", "1.", ".5", "1e", "0x10",
    "1e9999", "//x\n", "/**/", "\u{feff}", "\u{0}", "\u{7f}", "\u{2028}", "'", "\"time\"", "[[]]",
    "{\"custom\":{}}", "\n\n", "\t", "\u{a0}", ",,",
];

fn edit() -> BoxedStrategy<Edit> {
    prop_oneof![
        3 => (any::<u16>(), any::<u8>()).prop_map(|(i, b)| Edit::Set(i, b)),
        2 => (any::<u16>(), prop::collection::vec(any::<u8>(), 1..5))
            .prop_map(|(i, b)| Edit::Insert(i, b)),
        4 => (any::<u16>(), 0..TOKENS.len() as u8).prop_map(|(i, k)| Edit::Token(i, k)),
        3 => (any::<u16>(), 1u16..12).prop_map(|(i, n)| Edit::Delete(i, n)),
        2 => (any::<u16>(), any::<u16>(), 1u16..40).prop_map(|(i, j, n)| Edit::Copy(i, j, n)),
        1 => any::<u16>().prop_map(Edit::Cut),
        1 => (any::<u16>(), 0u8..4, prop_oneof![8 => 1u32..300, 1 => 1000u32..200_000])
            .prop_map(|(i, k, n)| Edit::Nest(i, k, n)),
    ]
    .boxed()
}

fn garble(c: &Garbled) -> Vec<u8> {
    let mut b = match &c.mission {
        Some(m) => restyle(m, c.style).into_bytes(),
        None => vec![],
    };
    for e in &c.edits {
        let pos = |b: &[u8], i: u16| i as usize * (b.len() + 1) >> 16;
        match e {
            Edit::Set(i, x) => {
                let i = pos(&b, *i);
                if i < b.len() {
                    b[i] = *x;
                } else {
                    b.push(*x);
                }
            }
            Edit::Insert(i, x) => {
                let i = pos(&b, *i);
                b.splice(i..i, x.iter().copied());
            }
            Edit::Token(i, k) => {
                let i = pos(&b, *i);
                b.splice(i..i, TOKENS[*k as usize].bytes());
            }
            Edit::Delete(i, n) => {
                let i = pos(&b, *i);
                let j = (i + *n as usize).min(b.len());
                b.drain(i..j);
            }
            Edit::Copy(i, j, n) => {
                let i = pos(&b, *i);
                let e = (i + *n as usize).min(b.len());
                let x = b[i..e].to_vec();
                let j = pos(&b, *j);
                b.splice(j..j, x);
            }
            Edit::Cut(i) => {
                let i = pos(&b, *i);
                b.truncate(i);
            }
            Edit::Nest(i, k, n) => {
                let i = pos(&b, *i);
                let unit: &[u8] = match k {
                    0 => b"[",
                    1 => b"{\"vehicle\":",
                    2 => b"{\"x\":",
                    _ => b"[[],",
                };
                let mut x = Vec::with_capacity(unit.len() * *n as usize);
                for _ in 0..*n {
                    x.extend_from_slice(unit);
                }
                b.splice(i..i, x);
            }
        }
    }
    b
}

fn check_bytes(c: &Garbled, ctx: &mut Ctx) -> CheckResult {
    let b = garble(c);
    let w = decide(&b)?;
    let json = read(&b).is_ok();
    ctx.label(match (w, json) {
        (Valid, _) => "still valid",
        (Open, _) => "open",
        (Invalid, true) => "JSON, but no configuration",
        (Invalid, false) => "no JSON",
    });
    Ok(if w == Open || b.is_empty() {
        Verdict::Trivial
    } else {
        Verdict::Pass
    })
}

// ------------------------------------------------------------ tables

/// A table whose axes and data are random lists, mostly fitting.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Loose {
    axes: Vec<Vec<i8>>,
    /// The deviation of the length of each row, in order of writing.
    lengths: Vec<i8>,
    which: u8,
    style: u8,
}

fn loose() -> BoxedStrategy<Loose> {
    let axis = (
        0usize..5,
        prop_oneof![4 => Just(true), 1 => Just(false)],
        prop::collection::vec(-9i8..10, 5),
    )
        .prop_map(|(n, sorted, mut v)| {
            v.truncate(n);
            if sorted {
                v.sort();
                v.dedup();
            }
            v
        });
    (
        prop::collection::vec(axis, 1..=3),
        prop_oneof![
            1 => Just(vec![]),
            1 => prop::collection::vec(prop_oneof![9 => Just(0i8), 1 => -2i8..3], 0..30),
        ],
        0u8..3,
        any::<u8>(),
    )
        .prop_map(|(axes, lengths, which, style)| Loose {
            axes,
            lengths,
            which,
            style,
        })
        .boxed()
}

fn check_loose(c: &Loose, ctx: &mut Ctx) -> CheckResult {
    let mut next = 0;
    fn rows(c: &Loose, depth: usize, next: &mut usize) -> J {
        let d = c.lengths.get(*next).copied().unwrap_or(0);
        *next += 1;
        let n = (c.axes[depth].len() as i64 + d as i64).max(0) as usize;
        J::Arr(
            (0..n)
                .map(|_| {
                    if depth + 1 == c.axes.len() {
                        J::Num("0.5".into())
                    } else {
                        rows(c, depth + 1, next)
                    }
                })
                .collect(),
        )
    }
    let data = rows(c, 0, &mut next);
    let mut m = vec![];
    for (i, xs) in c.axes.iter().enumerate() {
        let name = NAMES[(c.style as usize + i * 7) % NAMES.len()];
        m.push((
            ["x", "y", "z"][i].to_string(),
            J::Arr(vec![
                J::Str(name.into()),
                J::Arr(xs.iter().map(|x| J::Num(format!("{x}"))).collect()),
            ]),
        ));
    }
    m.insert(c.style as usize % (m.len() + 1), ("data".into(), data));
    if c.style & 64 != 0 {
        m.insert(0, ("interpolator".into(), J::Str("linear".into())));
    }
    let key = ["drag_coeff", "lift_coeff", "side_force_coeff"][c.which as usize];
    let j = J::Arr(vec![J::Obj(vec![(
        "vehicle".into(),
        J::Obj(vec![(key.into(), J::Obj(m))]),
    )])]);
    let mut t = String::new();
    j.write(&mut t);
    let w = decide(t.as_bytes())?;
    ctx.label(format!("{w:?} {}D", c.axes.len()));
    Ok(Verdict::Pass)
}

// ------------------------------------------------------------ paths

fn check_path(c: &(u8, String), ctx: &mut Ctx) -> CheckResult {
    let dir = scratch();
    let name: String = c.1.chars().filter(|x| *x != '/' && *x != '\0').collect();
    let path = dir.join(if name.is_empty() || name.starts_with('.') { "_" } else { &name });
    let _ = std::fs::remove_file(&path);
    let mut ok = false;
    let target = match c.0 {
        0 => path.clone(),
        1 => dir.clone(),
        2 => path.join("below"),
        3 => {
            std::fs::write(&path, "").unwrap();
            path.clone()
        }
        4 => "".into(),
        _ => {
            std::fs::write(&path, " [\n] ").unwrap();
            ok = true;
            if c.0 == 5 {
                path.clone()
            } else {
                let other = dir.join("link");
                let _ = std::fs::remove_file(&other);
                std::os::unix::fs::symlink(&path, &other).unwrap();
                other
            }
        }
    };
    let r = sut::load_path(target.to_str().unwrap());
    let _ = std::fs::remove_file(&path);
    match r {
        Err(sut::LoadErr::Panic(m)) => return Err(format!("loading {target:?} panics: {m}")),
        Ok(_) => ensure!(ok, "loading {target:?} succeeds"),
        Err(sut::LoadErr::Err(m)) => ensure!(!ok, "an empty mission in {target:?} is rejected: {m}"),
    }
    ctx.label(["missing", "directory", "below", "empty", "no name", "file", "link"][c.0 as usize]);
    Ok(Verdict::Pass)
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C16",
        subs: vec![
            part(
                "structure",
                "random missions in random notation with 0 to 3 changes of their structure (values of \
                 another type, missing, further or misspelt fields, shorter, longer or emptied lists, \
                 unsorted axes, other names, odd numbers), against a reader and a description of the \
                 format of our own; non-trivial: the manual tells whether it is well-formed",
                160_000,
                4_800_000,
                |_| {
                    (
                        rich_mission(),
                        any::<u64>(),
                        prop_oneof![
                            1 => Just(0usize),
                            8 => Just(1usize),
                            2 => 2usize..4,
                        ]
                        .prop_flat_map(|n| prop::collection::vec(mutation(), n)),
                    )
                        .prop_map(|(mission, style, changes)| Mutant {
                            mission,
                            style,
                            changes,
                        })
                        .boxed()
                },
                check_mutant,
            ),
            part(
                "tables",
                "tables with 1 to 3 axes of 0 to 4 entries, sorted or not, and data whose rows are as \
                 long as the axes or not, at any depth; every case counts",
                200_000,
                6_000_000,
                |_| loose(),
                check_loose,
            ),
            part(
                "bytes",
                "missions with 1 to 5 edits of their bytes (bytes, tokens, deletions, copies, cuts, \
                 nesting up to 200000 deep), or such edits of an empty file; non-trivial: decided and \
                 not empty",
                120_000,
                3_600_000,
                |_| {
                    (
                        maybe(85, rich_mission()),
                        any::<u64>(),
                        prop::collection::vec(edit(), 1..6),
                    )
                        .prop_map(|(mission, style, edits)| Garbled {
                            mission,
                            style,
                            edits,
                        })
                        .boxed()
                },
                check_bytes,
            ),
            part(
                "paths",
                "missing files, directories, empty files and names, links; every case counts",
                2_000,
                20_000,
                |_| (0u8..7, "[ -~ä-ü]{0,12}").boxed(),
                check_path,
            ),
        ],
        assumptions: vec![
            "not judged, as the manual is silent: lists of values in place of objects, repeated keys, names written as objects, numbers beyond the range of doubles, a byte order mark",
        ],
    }]
}
