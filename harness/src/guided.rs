//! Coverage-guided search: cases, as data, are changed step by step, and those that make the library take new
//! ways are changed further. The numbers the library compares steer the changes.
use d7cov::Pair;
use serde_json::Value;
use std::collections::{HashMap, HashSet};

/// A small generator, so that a run is determined by its seed.
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
}

/// Fixed numbers of the code that were compared with something: in how many cases something was equal to them.
#[derive(Default)]
pub struct Known {
    cases: u64,
    met: HashMap<u64, u64>,
    both: HashSet<(u64, u64)>,
    aimed: HashMap<u64, u64>,
}
impl Known {
    /// Numbers that few cases meet.
    fn rare(&self, a: u64) -> bool {
        self.met.get(&a).is_none_or(|n| n * 60 < self.cases)
    }
    /// Does the case meet one, or two together, that no case before did?
    pub fn note(&mut self, pairs: &[Pair]) -> bool {
        self.cases += 1;
        let mut here: Vec<u64> = pairs.iter().filter(|p| p.fixed && p.a == p.b && p.a > 1).map(|p| p.a).collect();
        here.sort();
        here.dedup();
        for a in &here {
            *self.met.entry(*a).or_default() += 1;
        }
        here.retain(|a| self.rare(*a));
        let mut new = false;
        for (i, a) in here.iter().enumerate() {
            for b in &here[i..] {
                new |= self.both.len() < 3000 && self.both.insert((*a, *b));
            }
        }
        new
    }
    fn open(&self, p: &Pair) -> bool {
        p.fixed && p.a != p.b && self.rare(p.a)
    }
    /// Numbers that keep out of reach become less interesting.
    fn worth(&mut self, a: u64, r: &mut Rng) -> bool {
        let n = self.aimed.entry(a).or_default();
        *n += 1;
        *n < 40 || r.one_in(*n as usize / 20)
    }
}
/// The comparisons that a case led to.
#[derive(Clone, Default)]
pub struct Pool {
    list: Vec<(u64, u64)>,
    fixed: Vec<Pair>,
}
impl Pool {
    pub fn new(pairs: Vec<Pair>) -> Self {
        let mut list: Vec<(u64, u64)> = pairs.iter().filter(|p| p.a != p.b).map(|p| (p.b, p.a)).collect();
        list.sort();
        list.dedup();
        let mut fixed: Vec<Pair> = pairs.into_iter().filter(|p| p.fixed && p.a != p.b).collect();
        fixed.sort_by_key(|p| (p.a, p.b));
        fixed.dedup();
        Pool { list, fixed }
    }
    /// What stands in the case, and what to put in its place.
    fn pick(&self, r: &mut Rng) -> Option<(u64, u64)> {
        if self.list.is_empty() {
            return None;
        }
        let (a, b) = self.list[r.below(self.list.len())];
        Some(if r.one_in(6) { (b, a) } else { (a, b) })
    }
}
/// The case with a fixed number, which few cases meet, in a place of what it was compared with.
pub fn aim(v: &Value, pool: &Pool, known: &mut Known, r: &mut Rng) -> Option<Value> {
    let open: Vec<Pair> = pool.fixed.iter().filter(|p| known.open(p)).copied().collect();
    if open.is_empty() {
        return None;
    }
    let Pair { a: y, b: x, .. } = open[r.below(open.len())];
    if !known.worth(y, r) {
        return None;
    }
    let y = if r.one_in(4) { near(y, r) } else { y };
    let mut leaves = vec![];
    walk(v, &mut vec![], &mut String::new(), &mut |n, p, _| leaves.push((n.clone(), p.clone())));
    let mut out: Vec<(Path, Value)> = vec![];
    for (n, p) in &leaves {
        if n.as_u64() == Some(x) {
            out.push((p.clone(), y.into()));
        }
        let bytes = bytes_of(n);
        let back = |b: Vec<u8>| -> Value { if n.is_string() { crate::run::hex(&b).into() } else { b.into() } };
        if bytes.is_empty() {
            continue;
        }
        if bytes.len() as u64 == x && (y as usize) < MOST {
            let mut b = bytes.clone();
            b.resize(y as usize, r.next() as u8);
            out.push((p.clone(), back(b)));
        }
        let (fx, fy) = (forms(x), forms(y));
        for f in &fx {
            for i in 0..(bytes.len() + 1).saturating_sub(f.len()) {
                if &bytes[i..i + f.len()] == f.as_slice() {
                    let same: Vec<&Vec<u8>> = fy.iter().filter(|g| g.len() == f.len()).collect();
                    let g = if same.is_empty() || r.one_in(3) { &fy[r.below(fy.len())] } else { same[r.below(same.len())] };
                    let mut b = bytes.clone();
                    b.splice(i..i + f.len(), g.iter().copied());
                    out.push((p.clone(), back(b)));
                }
            }
        }
    }
    if out.is_empty() {
        return None;
    }
    let (p, new) = out.swap_remove(r.below(out.len()));
    let mut c = v.clone();
    *get(&mut c, &p) = new;
    Some(c)
}

fn is_bytes(v: &Value) -> bool {
    matches!(v, Value::Array(a) if !a.is_empty() && a.iter().all(|x| x.as_u64().is_some_and(|x| x < 256)))
}
fn is_hex(s: &str) -> bool {
    s.len() % 2 == 0 && s.bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b))
}
/// Where something can be changed: the way to it (names and positions) and what it looks like from outside.
type Path = Vec<usize>;
fn walk(v: &Value, at: &mut Path, shape: &mut String, f: &mut dyn FnMut(&Value, &Path, &str)) {
    f(v, at, shape);
    let len = shape.len();
    match v {
        Value::Array(a) if !is_bytes(v) => {
            shape.push_str("[]");
            for (i, x) in a.iter().enumerate() {
                at.push(i);
                walk(x, at, shape, f);
                at.pop();
            }
        }
        Value::Object(o) => {
            for (i, (k, x)) in o.iter().enumerate() {
                at.push(i);
                shape.truncate(len);
                shape.push('.');
                shape.push_str(k);
                walk(x, at, shape, f);
                at.pop();
            }
        }
        _ => {}
    }
    shape.truncate(len);
}
fn nodes(v: &Value) -> Vec<(Path, String)> {
    let mut out = vec![];
    walk(v, &mut vec![], &mut String::new(), &mut |_, p, s| out.push((p.clone(), s.to_string())));
    out
}
fn get<'a>(v: &'a mut Value, p: &[usize]) -> &'a mut Value {
    match p.split_first() {
        None => v,
        Some((i, rest)) => match v {
            Value::Array(a) => get(&mut a[*i], rest),
            Value::Object(o) => get(o.iter_mut().nth(*i).unwrap().1, rest),
            _ => unreachable!(),
        },
    }
}
/// The last name on the way, which says what kind of thing is there.
fn kind(shape: &str) -> &str {
    let s = &shape[shape.rfind('.').unwrap_or(0)..];
    s
}

/// A number as the protocol writes it: plain, or as a length.
fn forms(n: u64) -> Vec<Vec<u8>> {
    let be = n.to_be_bytes();
    let mut out = vec![];
    for w in [1usize, 2, 4, 8] {
        if w == 8 || n >> (8 * w) == 0 {
            out.push(be[8 - w..].to_vec());
        }
    }
    for w in 1..=4usize {
        if n >> (8 * w - 2) == 0 {
            let mut x = be[8 - w..].to_vec();
            x[0] |= (w as u8 - 1) << 6;
            out.push(x);
        }
    }
    out
}
fn near(n: u64, r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => n.wrapping_add(1),
        1 => n.wrapping_sub(1),
        _ => n,
    }
}
const MOST: usize = 6000;

fn change_bytes(b: &mut Vec<u8>, other: &[u8], pool: &Pool, r: &mut Rng) {
    let n = b.len();
    match r.below(11) {
        0 if n > 0 => b[r.below(n)] ^= 1 << r.below(8),
        1 if n > 0 => b[r.below(n)] = r.next() as u8,
        2 if n > 0 => {
            let i = r.below(n);
            b[i] = b[i].wrapping_add(r.below(5) as u8).wrapping_sub(2);
        }
        3 => {
            let i = r.below(n + 1);
            let most = if r.one_in(4) { 40 } else { 4 };
            let k = 1 + r.below(most);
            let fill = r.next() as u8;
            let same = r.one_in(2);
            let new: Vec<u8> = (0..k).map(|_| if same { fill } else { r.next() as u8 }).collect();
            b.splice(i..i, new);
        }
        4 if n > 0 => {
            let i = r.below(n);
            let k = (1 + r.below(6)).min(n - i);
            b.drain(i..i + k);
        }
        5 if n > 0 => b.truncate(r.below(n)),
        6 if n > 0 => {
            let (i, j) = (r.below(n), r.below(n + 1));
            let k = (1 + r.below(20)).min(n - i);
            let part = b[i..i + k].to_vec();
            b.splice(j..j, part);
        }
        7 if !other.is_empty() => {
            let (i, j) = (r.below(other.len()), r.below(n + 1));
            let k = 1 + r.below(other.len() - i);
            let part = other[i..i + k].to_vec();
            if r.one_in(2) {
                b.splice(j..j, part);
            } else {
                b.truncate(j);
                b.extend(part);
            }
        }
        _ => {
            let Some((x, y)) = pool.pick(r) else { return };
            let y = near(y, r);
            // in place of the same number, or of any, or as the number of bytes
            if x == n as u64 && (y as usize) < MOST && r.one_in(2) {
                b.resize(y as usize, r.next() as u8);
                return;
            }
            let (fx, fy) = (forms(x), forms(y));
            let mut places = vec![];
            for (k, f) in fx.iter().enumerate() {
                for i in 0..(n + 1).saturating_sub(f.len()) {
                    if &b[i..i + f.len()] == f.as_slice() {
                        places.push((k, i));
                    }
                }
            }
            if !places.is_empty() && !r.one_in(5) {
                let (k, i) = places[r.below(places.len())];
                let f = &fx[k];
                // of the same kind if there is one
                let same: Vec<&Vec<u8>> = fy.iter().filter(|g| g.len() == f.len()).collect();
                let g = if same.is_empty() || r.one_in(4) { &fy[r.below(fy.len())] } else { same[r.below(same.len())] };
                b.splice(i..i + f.len(), g.iter().copied());
            } else {
                let g = &fy[r.below(fy.len())];
                let i = r.below(n + 1);
                let end = if r.one_in(3) { i } else { (i + g.len()).min(n) };
                b.splice(i..end, g.iter().copied());
            }
        }
    }
    b.truncate(MOST);
}
fn change_number(x: u64, pool: &Pool, r: &mut Rng) -> u64 {
    match r.below(9) {
        0 => x ^ 1 << r.below(if x > 0xFFFF { 64 } else if x > 0xFF { 16 } else { 8 }),
        1 => x.wrapping_add(1),
        2 => x.wrapping_sub(1),
        3 => r.next() >> r.below(64),
        4 => (1u64 << r.below(33)).wrapping_sub(r.below(2) as u64),
        _ => pool.pick(r).map_or(x, |p| near(p.1, r)),
    }
}
fn text_bytes(s: &str) -> Vec<u8> {
    crate::run::unhex(s)
}
fn bytes_of(v: &Value) -> Vec<u8> {
    match v {
        Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect(),
        Value::String(s) if is_hex(s) => text_bytes(s),
        _ => vec![],
    }
}
fn numbers(v: &Value, n: u64) -> Vec<Path> {
    let mut out = vec![];
    walk(v, &mut vec![], &mut String::new(), &mut |x, p, _| {
        if x.as_u64() == Some(n) {
            out.push(p.clone());
        }
    });
    out
}

/// One change somewhere in a case; `other` is another case to take things from.
pub fn change(v: &mut Value, other: &Value, pool: &Pool, r: &mut Rng) {
    // a number the library compares, in place of what it was compared with
    if r.one_in(3) {
        if let Some((x, y)) = pool.pick(r) {
            let at = numbers(v, x);
            if !at.is_empty() {
                let p = &at[r.below(at.len())];
                *get(v, p) = near(y, r).into();
                return;
            }
        }
    }
    let all = nodes(v);
    // long lists of bytes are one node, as are numbers
    let (p, shape) = all[r.below(all.len())].clone();
    // something of the same kind from elsewhere
    if r.one_in(4) {
        let from: Vec<(Path, String)> = nodes(other).into_iter().filter(|(_, s)| kind(s) == kind(&shape)).collect();
        if !from.is_empty() {
            let mut o = other.clone();
            let new = get(&mut o, &from[r.below(from.len())].0).take();
            *get(v, &p) = new;
            return;
        }
    }
    let donor: Vec<u8> = {
        let mut o = vec![];
        walk(other, &mut vec![], &mut String::new(), &mut |x, _, s| {
            if kind(s) == kind(&shape) {
                o = bytes_of(x);
            }
        });
        o
    };
    let node = get(v, &p);
    match node {
        Value::Bool(b) => *b = !*b,
        Value::Number(n) => {
            if let Some(x) = n.as_u64() {
                *node = change_number(x, pool, r).into();
            } else if let Some(x) = n.as_i64() {
                *node = x.wrapping_add(r.below(7) as i64 - 3).into();
            }
        }
        Value::String(s) => {
            if is_hex(s) {
                let mut b = text_bytes(s);
                change_bytes(&mut b, &donor, pool, r);
                *node = crate::run::hex(&b).into();
            } else if !s.is_empty() {
                let mut c: Vec<char> = s.chars().collect();
                let i = r.below(c.len());
                match r.below(3) {
                    0 => {
                        c.remove(i);
                    }
                    1 => c.insert(i, char::from(32 + r.below(95) as u8)),
                    _ => c[i] = char::from(32 + r.below(95) as u8),
                }
                *node = c.into_iter().collect::<String>().into();
            }
        }
        Value::Array(a) if a.is_empty() => {
            if !donor.is_empty() {
                *node = donor.into();
            }
        }
        Value::Array(a) => {
            if is_bytes(&Value::Array(a.clone())) && !r.one_in(8) {
                let mut b: Vec<u8> = a.iter().map(|x| x.as_u64().unwrap() as u8).collect();
                change_bytes(&mut b, &donor, pool, r);
                *node = b.into();
            } else {
                let i = r.below(a.len());
                match r.below(4) {
                    0 => {
                        a.remove(i);
                    }
                    1 => a.insert(i, a[i].clone()),
                    2 => {
                        let j = r.below(a.len());
                        a.swap(i, j);
                    }
                    _ => {
                        let mut o = other.clone();
                        let from: Vec<Path> = nodes(other)
                            .into_iter()
                            .filter(|(q, s)| !q.is_empty() && *s == format!("{shape}[]"))
                            .map(|x| x.0)
                            .collect();
                        if !from.is_empty() && a.len() < 60 {
                            let new = get(&mut o, &from[r.below(from.len())]).take();
                            a.insert(i, new);
                        }
                    }
                }
            }
        }
        _ => {}
    }
}

/// Simpler cases, the boldest first.
pub fn simpler(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    let mut put = |p: &Path, new: Value| {
        let mut c = v.clone();
        *get(&mut c, p) = new;
        out.push(c);
    };
    let mut at = vec![];
    walk(v, &mut vec![], &mut String::new(), &mut |x, p, _| at.push((x.clone(), p.clone())));
    for (x, p) in &at {
        match x {
            Value::Array(a) => {
                let mut k = a.len();
                while k > 0 {
                    for i in (0..a.len()).step_by(k) {
                        let mut b = a.clone();
                        b.drain(i..(i + k).min(a.len()));
                        put(p, Value::Array(b));
                    }
                    k /= 2;
                }
                if is_bytes(x) && a.len() < 200 {
                    for i in 0..a.len() {
                        if a[i].as_u64() != Some(0) {
                            let mut b = a.clone();
                            b[i] = 0.into();
                            put(p, Value::Array(b));
                        }
                    }
                }
            }
            Value::String(s) if is_hex(s) => {
                let b = text_bytes(s);
                let mut k = b.len();
                while k > 0 {
                    for i in (0..b.len()).step_by(k) {
                        let mut c = b.clone();
                        c.drain(i..(i + k).min(b.len()));
                        put(p, crate::run::hex(&c).into());
                    }
                    k /= 2;
                }
                for i in 0..b.len().min(200) {
                    if b[i] != 0 {
                        let mut c = b.clone();
                        c[i] = 0;
                        put(p, crate::run::hex(&c).into());
                    }
                }
            }
            Value::Number(n) => {
                if let Some(n) = n.as_u64().filter(|n| *n > 0) {
                    put(p, 0.into());
                    put(p, (n / 2).into());
                    put(p, (n - 1).into());
                }
            }
            Value::Bool(true) => put(p, false.into()),
            _ => {}
        }
    }
    out
}
