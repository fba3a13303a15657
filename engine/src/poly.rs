//! Hash-consed polynomial normal forms over named atoms with coefficients in the
//! Goldilocks field.  A *raw element* is a u64: values below P are field constants,
//! values >= P denote polynomial number (raw - P).
use std::collections::HashMap;

pub const P: u64 = 0xFFFF_FFFF_0000_0001;

pub fn fadd(a: u64, b: u64) -> u64 {
    ((a as u128 + b as u128) % P as u128) as u64
}
pub fn fneg(a: u64) -> u64 {
    if a == 0 { 0 } else { P - a }
}
pub fn fmul(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) % P as u128) as u64
}
pub fn fpow(mut a: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = fmul(r, a);
        }
        a = fmul(a, a);
        e >>= 1;
    }
    r
}
pub fn finv(a: u64) -> u64 {
    fpow(a, P - 2)
}

#[derive(Clone)]
pub enum Res {
    Name(String),
    Const(u64),
}

#[derive(Default)]
pub struct Store {
    /// atoms that are uninterpreted functions of other values
    pub opaques: HashMap<u32, (String, Vec<u64>)>,
    /// final names of atoms, after renaming and substitution of equals
    pub resolved: Option<Vec<Res>>,
    /// names known to be 0 or 1
    pub bools: std::collections::HashSet<String>,
    pub atoms: Vec<String>,
    atom_ids: HashMap<String, u32>,
    monos: Vec<Vec<u32>>,
    mono_ids: HashMap<Vec<u32>, u32>,
    polys: Vec<Vec<(u32, u64)>>,
    poly_ids: HashMap<Vec<(u32, u64)>, u32>,
    mulmemo: HashMap<(u64, u64), u64>,
    pub ops: u64,
}

impl Store {
    pub fn new() -> Self {
        let mut s = Store::default();
        s.mono(vec![]);
        s
    }
    fn mono(&mut self, v: Vec<u32>) -> u32 {
        if let Some(&i) = self.mono_ids.get(&v) {
            return i;
        }
        let i = self.monos.len() as u32;
        self.monos.push(v.clone());
        self.mono_ids.insert(v, i);
        i
    }
    fn poly(&mut self, v: Vec<(u32, u64)>) -> u64 {
        if v.is_empty() {
            return 0;
        }
        if v.len() == 1 && v[0].0 == 0 {
            return v[0].1;
        }
        if let Some(&i) = self.poly_ids.get(&v) {
            return P + i as u64;
        }
        let i = self.polys.len() as u32;
        assert!((i as u64) < (1u64 << 32) - 2);
        self.polys.push(v.clone());
        self.poly_ids.insert(v, i);
        P + i as u64
    }
    pub fn get(&self, raw: u64) -> Vec<(u32, u64)> {
        if raw == 0 {
            vec![]
        } else if raw < P {
            vec![(0, raw)]
        } else {
            self.polys[(raw - P) as usize].clone()
        }
    }
    pub fn valid(&self, raw: u64) -> bool {
        raw < P || ((raw - P) as usize) < self.polys.len()
    }
    pub fn atom(&mut self, name: &str) -> u64 {
        let id = match self.atom_ids.get(name) {
            Some(&i) => i,
            None => {
                let i = self.atoms.len() as u32;
                self.atoms.push(name.to_string());
                self.atom_ids.insert(name.to_string(), i);
                i
            }
        };
        let m = self.mono(vec![id]);
        self.poly(vec![(m, 1)])
    }
    pub fn add(&mut self, a: u64, b: u64) -> u64 {
        self.lin(a, 1, b)
    }
    pub fn sub(&mut self, a: u64, b: u64) -> u64 {
        self.lin(a, P - 1, b)
    }
    pub fn neg(&mut self, a: u64) -> u64 {
        self.lin(0, P - 1, a)
    }
    /// a + c*b
    pub fn lin(&mut self, a: u64, c: u64, b: u64) -> u64 {
        self.ops += 1;
        if a < P && b < P {
            return fadd(a, fmul(c, b));
        }
        let pa = self.get(a);
        let pb = self.get(b);
        let (mut i, mut j) = (0, 0);
        let mut out = Vec::with_capacity(pa.len() + pb.len());
        while i < pa.len() || j < pb.len() {
            if j == pb.len() || (i < pa.len() && pa[i].0 < pb[j].0) {
                out.push(pa[i]);
                i += 1;
            } else if i == pa.len() || pb[j].0 < pa[i].0 {
                let v = fmul(c, pb[j].1);
                if v != 0 {
                    out.push((pb[j].0, v));
                }
                j += 1;
            } else {
                let v = fadd(pa[i].1, fmul(c, pb[j].1));
                if v != 0 {
                    out.push((pa[i].0, v));
                }
                i += 1;
                j += 1;
            }
        }
        self.poly(out)
    }
    pub fn mul(&mut self, a: u64, b: u64) -> u64 {
        self.ops += 1;
        if a < P && b < P {
            return fmul(a, b);
        }
        if a == 0 || b == 0 {
            return 0;
        }
        if a == 1 {
            return b;
        }
        if b == 1 {
            return a;
        }
        if a < P {
            return self.lin(0, a, b);
        }
        if b < P {
            return self.lin(0, b, a);
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.mulmemo.get(&key) {
            return r;
        }
        let pa = self.get(a);
        let pb = self.get(b);
        let mut acc: HashMap<u32, u64> = HashMap::new();
        for &(m1, c1) in &pa {
            for &(m2, c2) in &pb {
                let m = if m1 == 0 {
                    m2
                } else if m2 == 0 {
                    m1
                } else {
                    let mut v = self.monos[m1 as usize].clone();
                    v.extend_from_slice(&self.monos[m2 as usize]);
                    v.sort_unstable();
                    self.mono(v)
                };
                let e = acc.entry(m).or_insert(0);
                *e = fadd(*e, fmul(c1, c2));
            }
        }
        let mut out: Vec<(u32, u64)> = acc.into_iter().filter(|x| x.1 != 0).collect();
        out.sort_unstable();
        let r = self.poly(out);
        self.mulmemo.insert(key, r);
        r
    }
    pub fn pow(&mut self, a: u64, mut e: u64) -> u64 {
        if a < P {
            return fpow(a, e);
        }
        let mut r = 1;
        let mut b = a;
        while e > 0 {
            if e & 1 == 1 {
                r = self.mul(r, b);
            }
            e >>= 1;
            if e > 0 {
                b = self.mul(b, b);
            }
        }
        r
    }
    /// opaque function of elements, as a fresh named atom
    pub fn opaque(&mut self, f: &str, args: &[u64]) -> u64 {
        let s = format!("{}({})", f, args.iter().map(|a| a.to_string()).collect::<Vec<_>>().join("; "));
        let a = self.atom(&s);
        let id = self.atom_ids[&s];
        self.opaques.insert(id, (f.to_string(), args.to_vec()));
        a
    }
    pub fn atom_id(&self, raw: u64) -> Option<u32> {
        let t = self.get(raw);
        if t.len() == 1 && t[0].1 == 1 && self.monos[t[0].0 as usize].len() == 1 {
            return Some(self.monos[t[0].0 as usize][0]);
        }
        None
    }
    pub fn mono_atoms(&self, m: u32) -> &[u32] {
        &self.monos[m as usize]
    }
    /// Fixes final atom names: `names` renames atoms, `eqs` are values known to be zero; equalities
    /// between two atoms, or an atom and a constant, are substituted everywhere else.
    /// Returns the equality classes and the indices of the equations used for them.
    pub fn resolve(&mut self, names: &HashMap<u32, String>, eqs: &[u64]) -> (Vec<Vec<String>>, Vec<usize>, Vec<String>) {
        let r = self.resolve_once(names, eqs);
        // x = x^2 makes x boolean; powers of it are then reduced everywhere
        let mut bools = std::collections::HashSet::new();
        for &e in eqs {
            let t = self.terms_res(e);
            if t.len() == 2 && t[0].0.len() == 1 && t[1].0.len() == 2 && t[1].0[0] == t[0].0[0] && t[1].0[1] == t[0].0[0] && fadd(t[0].1, t[1].1) == 0 {
                bools.insert(t[0].0[0].clone());
            }
        }
        if bools.is_empty() {
            return r;
        }
        self.bools = bools;
        self.resolve_once(names, eqs)
    }
    fn resolve_once(&mut self, names: &HashMap<u32, String>, eqs: &[u64]) -> (Vec<Vec<String>>, Vec<usize>, Vec<String>) {
        let n = self.atoms.len();
        let mut uf: Vec<u32> = (0..n as u32).collect();
        fn find(uf: &mut Vec<u32>, mut x: u32) -> u32 {
            while uf[x as usize] != x {
                uf[x as usize] = uf[uf[x as usize] as usize];
                x = uf[x as usize];
            }
            x
        }
        let mut consts: Vec<(u32, u64)> = vec![];
        let mut used = vec![];
        let mut bad = vec![];
        for (i, &e) in eqs.iter().enumerate() {
            let t = self.get(e);
            let lin = |k: usize| -> Option<u32> {
                let m = &self.monos[t[k].0 as usize];
                if m.len() == 1 { Some(m[0]) } else { None }
            };
            if t.len() == 1 {
                if let Some(a) = lin(0) {
                    consts.push((a, 0));
                    used.push(i);
                }
            } else if t.len() == 2 && t[0].0 == 0 {
                if let Some(a) = lin(1) {
                    consts.push((a, fmul(fneg(t[0].1), finv(t[1].1))));
                    used.push(i);
                }
            } else if t.len() == 2 && fadd(t[0].1, t[1].1) == 0 {
                if let (Some(a), Some(b)) = (lin(0), lin(1)) {
                    let (x, y) = (find(&mut uf, a), find(&mut uf, b));
                    uf[x as usize] = y;
                    used.push(i);
                }
            }
        }
        let mut cval: HashMap<u32, u64> = HashMap::new();
        for (a, c) in consts {
            let r = find(&mut uf, a);
            if let Some(o) = cval.insert(r, c) {
                if o != c {
                    bad.push(format!("{} equated to {} and {}", self.atoms[a as usize], o, c));
                }
            }
        }
        let mut members: HashMap<u32, Vec<u32>> = HashMap::new();
        for i in 0..n as u32 {
            let r = find(&mut uf, i);
            members.entry(r).or_default().push(i);
        }
        let mut rep: Vec<u32> = (0..n as u32).collect();
        for (_, ms) in members.iter() {
            let best = ms
                .iter()
                .copied()
                .min_by_key(|&a| {
                    let rn = names.get(&a);
                    let pr = if rn.is_some() {
                        0
                    } else if self.opaques.contains_key(&a) {
                        2
                    } else if self.atoms[a as usize].starts_with("v#") {
                        3
                    } else {
                        1
                    };
                    (pr, rn.cloned().unwrap_or_default(), a)
                })
                .unwrap();
            for &m in ms {
                rep[m as usize] = best;
            }
        }
        let mut out: Vec<Option<Res>> = vec![None; n];
        let mut own: Vec<Option<String>> = vec![None; n];
        let mut busy = vec![false; n];
        for i in 0..n as u32 {
            self.res_name(i, names, &rep, &cval, &mut uf, &mut out, &mut own, &mut busy);
        }
        self.resolved = Some(out.into_iter().map(|x| x.unwrap()).collect());
        let mut classes = vec![];
        for (r, ms) in members {
            let c = cval.get(&r);
            if ms.len() == 1 && c.is_none() {
                continue;
            }
            let mut v: Vec<String> = ms
                .iter()
                .filter(|&&m| names.contains_key(&m) || !self.atoms[m as usize].starts_with("v#"))
                .map(|&m| match names.get(&m) {
                    Some(x) => x.clone(),
                    None => match self.opaques.get(&m) {
                        Some((f, a)) => short(format!("{}({})", f, a.iter().map(|&x| self.show(x)).collect::<Vec<_>>().join("; "))),
                        None => self.atoms[m as usize].clone(),
                    },
                })
                .collect();
            v.sort();
            v.dedup();
            if let Some(c) = c {
                v.insert(0, format!("={}", Self::coeff(*c)));
            }
            if v.len() >= 2 {
                classes.push(v);
            }
        }
        classes.sort();
        (classes, used, bad)
    }
    fn res_name(
        &self,
        i: u32,
        names: &HashMap<u32, String>,
        rep: &[u32],
        cval: &HashMap<u32, u64>,
        uf: &mut Vec<u32>,
        out: &mut Vec<Option<Res>>,
        own: &mut Vec<Option<String>>,
        busy: &mut Vec<bool>,
    ) -> Res {
        if let Some(r) = &out[i as usize] {
            return r.clone();
        }
        let mut root = i;
        while uf[root as usize] != root {
            root = uf[root as usize];
        }
        let r = if let Some(&c) = cval.get(&root) {
            Res::Const(c)
        } else {
            let b = rep[i as usize];
            if b != i {
                self.res_name(b, names, rep, cval, uf, out, own, busy)
            } else if let Some(nm) = names.get(&b) {
                Res::Name(nm.clone())
            } else if let Some((f, args)) = self.opaques.get(&b) {
                if busy[b as usize] {
                    Res::Name(format!("{f}(cycle)"))
                } else {
                    busy[b as usize] = true;
                    let mut parts = vec![];
                    for &a in args {
                        for &(m, _) in &self.get(a) {
                            for &x in &self.monos[m as usize] {
                                self.res_name(x, names, rep, cval, uf, out, own, busy);
                            }
                        }
                        let t = self.terms_with(a, &|x| out[x as usize].clone().unwrap());
                        parts.push(self.show_terms_s(&t));
                    }
                    Res::Name(short(format!("{}({})", f, parts.join("; "))))
                }
            } else {
                Res::Name(self.atoms[b as usize].clone())
            }
        };
        out[i as usize] = Some(r.clone());
        r
    }
    fn terms_with(&self, raw: u64, f: &dyn Fn(u32) -> Res) -> Vec<(Vec<String>, u64)> {
        let mut acc: std::collections::BTreeMap<Vec<String>, u64> = Default::default();
        for (m, mut c) in self.get(raw) {
            let mut names = vec![];
            for &a in &self.monos[m as usize] {
                match f(a) {
                    Res::Name(s) => names.push(s),
                    Res::Const(k) => c = fmul(c, k),
                }
            }
            names.sort_unstable();
            if names.len() > 1 && !self.bools.is_empty() {
                names.dedup_by(|a, b| a == b && self.bools.contains(a.as_str()));
            }
            let e = acc.entry(names).or_insert(0);
            *e = fadd(*e, c);
        }
        acc.into_iter().filter(|x| x.1 != 0).collect()
    }
    fn show_terms_s(&self, t: &[(Vec<String>, u64)]) -> String {
        let v: Vec<(Vec<&str>, u64)> = t.iter().map(|x| (x.0.iter().map(|s| s.as_str()).collect(), x.1)).collect();
        self.show_terms(&v)
    }
    /// terms after resolution
    pub fn terms_res(&self, raw: u64) -> Vec<(Vec<String>, u64)> {
        match &self.resolved {
            Some(r) => self.terms_with(raw, &|x| match r.get(x as usize) {
                Some(v) => v.clone(),
                None => Res::Name(self.atoms[x as usize].clone()),
            }),
            None => self.terms(raw).into_iter().map(|(v, c)| (v.into_iter().map(|s| s.to_string()).collect(), c)).collect(),
        }
    }
    fn coeff(c: u64) -> String {
        if c > P / 2 { format!("-{}", P - c) } else { format!("{}", c) }
    }
    /// terms as (sorted atom names, coeff) sorted by name
    pub fn terms(&self, raw: u64) -> Vec<(Vec<&str>, u64)> {
        let mut v: Vec<(Vec<&str>, u64)> = self
            .get(raw)
            .iter()
            .map(|&(m, c)| {
                let mut names: Vec<&str> =
                    self.monos[m as usize].iter().map(|&a| self.atoms[a as usize].as_str()).collect();
                names.sort_unstable();
                (names, c)
            })
            .collect();
        v.sort();
        v
    }
    /// names occurring in a value whose printed form is abbreviated
    pub fn cells(&self, raw: u64) -> Vec<String> {
        let t = self.get(raw);
        if t.len() < 4 || t.len() > 4000 {
            return vec![];
        }
        let mut ids: Vec<_> = t.iter().flat_map(|x| self.monos[x.0 as usize].iter().copied()).collect();
        ids.sort_unstable();
        ids.dedup();
        ids.into_iter().map(|a| self.atoms[a as usize].clone()).collect()
    }
    pub fn show(&self, raw: u64) -> String {
        self.show_terms_s(&self.terms_res(raw))
    }
    fn show_terms(&self, t: &[(Vec<&str>, u64)]) -> String {
        if t.is_empty() {
            return "0".into();
        }
        let mut s = String::new();
        for (i, (names, c)) in t.iter().enumerate() {
            let cs = Self::coeff(*c);
            if i > 0 {
                s.push_str(if cs.starts_with('-') { " - " } else { " + " });
            } else if cs.starts_with('-') {
                s.push('-');
            }
            let cs = cs.trim_start_matches('-');
            if names.is_empty() {
                s.push_str(cs);
            } else {
                if cs != "1" {
                    s.push_str(cs);
                    s.push('*');
                }
                s.push_str(&names.join("*"));
            }
        }
        s
    }
    /// printed normal form, abbreviated to a prefix and a 128-bit digest when long
    pub fn show_norm_short(&self, raw: u64) -> String {
        let t = self.show_norm(raw);
        short(t)
    }
    /// normalised (leading coefficient 1) printed form of `raw = 0`
    pub fn show_norm(&self, raw: u64) -> String {
        let mut t = self.terms_res(raw);
        if t.is_empty() {
            return "0".into();
        }
        // normalise on the first non-constant term
        let k = t.iter().position(|x| !x.0.is_empty()).unwrap_or(0);
        let inv = finv(t[k].1);
        for x in t.iter_mut() {
            x.1 = fmul(x.1, inv);
        }
        self.show_terms_s(&t)
    }
}

/// printed forms longer than this are abbreviated
pub static SHORT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(480);

pub fn short(t: String) -> String {
    static FULL: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    if *FULL.get_or_init(|| std::env::var("VERIF_FULL").is_ok()) {
        return t;
    }
    if t.len() <= SHORT.load(std::sync::atomic::Ordering::Relaxed) {
        return t;
    }
    let (mut a, mut b) = (0xcbf29ce484222325u64, 0x9e3779b97f4a7c15u64);
    for c in t.bytes() {
        a = (a ^ c as u64).wrapping_mul(0x100000001b3);
        b = (b.rotate_left(5) ^ c as u64).wrapping_mul(0xff51afd7ed558ccd);
        b ^= b >> 29;
    }
    let cut = t.char_indices().nth(160).map(|x| x.0).unwrap_or(t.len());
    format!("{} ...[{} chars #{:016x}{:016x}]", &t[..cut], t.len(), a, b)
}
