//! A case is everything one simulated execution depends on: parameters, operations and their faults.
//! It is generated from one seed, can be shrunk, and is stored as a text replay file.
use crate::flash::{Fault, FaultKind};

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: u8,
    pub a: [i64; 4],
    pub f: Vec<Fault>,
}

#[derive(Clone, Debug)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    pub params: Vec<(&'static str, i64)>,
    pub ops: Vec<Op>,
}

impl Case {
    pub fn p(&self, name: &str) -> i64 {
        self.params.iter().find(|(n, _)| *n == name).map_or(0, |(_, v)| *v)
    }
    pub fn set(&mut self, name: &'static str, v: i64) {
        match self.params.iter_mut().find(|(n, _)| *n == name) {
            Some(x) => x.1 = v,
            None => self.params.push((name, v)),
        }
    }
    pub fn with(&self, name: &'static str, v: i64) -> Case {
        let mut c = self.clone();
        c.set(name, v);
        c
    }
}

const KINDS: [(FaultKind, &str); 7] = [
    (FaultKind::Power, "power"),
    (FaultKind::Error, "error"),
    (FaultKind::Cancel, "cancel"),
    (FaultKind::Glitch, "glitch"),
    (FaultKind::Isr, "isr"),
    (FaultKind::MutError, "muterror"),
    (FaultKind::MutCancel, "mutcancel"),
];

pub fn kind_name(k: FaultKind) -> &'static str {
    KINDS.iter().find(|x| x.0 == k).unwrap().1
}

pub fn op_text(op: &Op, names: &[&str]) -> String {
    let mut s = format!("{} {} {} {} {}", names[op.k as usize], op.a[0], op.a[1], op.a[2], op.a[3]);
    for f in &op.f {
        s += &format!(" | {} {} {}", kind_name(f.kind), f.n, f.cut);
    }
    s
}

pub fn to_text(c: &Case, names: &[&str]) -> String {
    let mut s = String::new();
    s += &format!("prop {}\nseed {}\n", c.prop, c.seed);
    for (n, v) in &c.params {
        s += &format!("param {n} {v}\n");
    }
    for op in &c.ops {
        s += &format!("op {}\n", op_text(op, names));
    }
    s
}

pub fn from_text(t: &str, names: &[&str]) -> Result<Case, String> {
    let mut c = Case { prop: String::new(), seed: 0, params: vec![], ops: vec![] };
    for line in t.lines() {
        let line = line.trim();
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        let (h, rest) = line.split_once(' ').ok_or("bad line")?;
        match h {
            "prop" => c.prop = rest.to_string(),
            "seed" => c.seed = rest.parse().map_err(|_| "bad seed")?,
            "param" => {
                let (n, v) = rest.split_once(' ').ok_or("bad param")?;
                c.params.push((Box::leak(n.to_string().into_boxed_str()), v.parse().map_err(|_| "bad param")?));
            }
            "op" => {
                let mut parts = rest.split(" | ");
                let mut it = parts.next().unwrap().split(' ');
                let n = it.next().unwrap();
                let k = names.iter().position(|x| *x == n).ok_or(format!("unknown op {n}"))? as u8;
                let mut a = [0i64; 4];
                for (i, v) in it.enumerate() {
                    a[i] = v.parse().map_err(|_| "bad arg")?;
                }
                let mut f = vec![];
                for p in parts {
                    let x: Vec<&str> = p.split(' ').collect();
                    let kind = KINDS.iter().find(|k| k.1 == x[0]).ok_or("bad fault")?.0;
                    f.push(Fault {
                        kind,
                        n: x[1].parse().map_err(|_| "bad fault")?,
                        cut: x[2].parse().map_err(|_| "bad fault")?,
                    });
                }
                c.ops.push(Op { k, a, f });
            }
            _ => {}
        }
    }
    Ok(c)
}
