//! Requests for a configuration: the ones it names, and many it does not.

use crate::app::hex;
use crate::cfg::*;
use crate::rng::Rng;
use crate::ty;

#[derive(Clone, Debug)]
pub struct Req {
    pub path: Vec<u8>,
    pub method: Vec<u8>,
    pub kind: &'static str,
    /// the request this one is a slash variant of
    pub base: Option<usize>,
}

impl Req {
    pub fn line(&self) -> String {
        format!("M {} {}", hex(&self.path), hex(&self.method))
    }
    pub fn show(&self) -> String {
        format!("{} {:?}", self.method.escape_ascii(), self.path.escape_ascii().to_string())
    }
}

const ODD_METHODS: [&[u8]; 16] = [
    b"get", b"Get", b"PATCH", b"HEAD", b"OPTIONS", b"", b"GE", b"GETX", b"XGET", b"POS", b"POSTS", b"PU", b"DELET",
    b"DELETE ", b"\xff", b"TRACE",
];

/// Not one of the four methods, but often nearly.
fn odd_method(r: &mut Rng) -> Vec<u8> {
    loop {
        let mut m = METHODS[r.below(4)].as_bytes().to_vec();
        let k = r.below(m.len());
        match r.below(9) {
            0 => m.truncate(k + 1),
            1 => {
                m.remove(k);
            }
            2 => m[k] = b'A' + r.below(26) as u8,
            3 => m[k] = m[k].to_ascii_lowercase(),
            4 => m.insert(k, b'A' + r.below(26) as u8),
            5 => m.drain(..k).for_each(drop),
            6 => m.push(*r.pick(&[b' ', b'S', b'\0', b'\r', b'/', b'E', b'T', 0xff])),
            _ => m = r.pick(&ODD_METHODS).to_vec(),
        }
        if METHODS.iter().all(|x| x.as_bytes() != &m[..]) {
            return m;
        }
    }
}

/// Fill a template with texts.
pub fn fill(path: &[&Seg], r: &mut Rng, bad: Option<usize>) -> Vec<Vec<u8>> {
    let mut n = 0;
    path.iter()
        .map(|s| match s {
            Seg::Lit(l) => l.clone().into_bytes(),
            Seg::Par(p) => {
                n += 1;
                if bad == Some(n - 1) {
                    ty::hostile(&p.ty, r).replace('/', "|").into_bytes()
                } else {
                    ty::valid(&p.ty, r).replace('/', "|").into_bytes()
                }
            }
        })
        .collect()
}

pub fn join(segs: &[Vec<u8>], lead: bool, trail: bool) -> Vec<u8> {
    let mut v = vec![];
    if lead {
        v.push(b'/');
    }
    v.extend(segs.join(&b'/'));
    if trail && !segs.is_empty() {
        v.push(b'/');
    }
    v
}

fn mutate_seg(s: &[u8], r: &mut Rng, lits: &[String]) -> Vec<u8> {
    let mut v = s.to_vec();
    match r.below(15) {
        0 => {
            v.pop();
        }
        1 => {
            v.push(*r.pick(b"abs0_-.~%"));
        }
        2 if !v.is_empty() => {
            let k = r.below(v.len());
            v[k] = *r.pick(b"abcxyz019_-.~AZ\x00\x7f");
        }
        3 if !v.is_empty() => {
            v.remove(0);
        }
        4 => v.insert(0, *r.pick(b"abs0_-.~")),
        5 => {
            for c in v.iter_mut() {
                *c ^= if c.is_ascii_alphabetic() { 0x20 } else { 0 };
            }
        }
        6 if !lits.is_empty() => v = r.pick(lits).clone().into_bytes(),
        7 if !lits.is_empty() => {
            v = r.pick(lits).clone().into_bytes();
            v.push(*r.pick(b"sx0-"));
        }
        8 if !lits.is_empty() => {
            v = r.pick(lits).clone().into_bytes();
            v.pop();
        }
        9 => {
            let w = v.clone();
            v.extend(w);
        }
        10 => v = b"x".to_vec(),
        11 => v.extend_from_slice("\u{e9}\u{65e5}".as_bytes()),
        12 if v.len() > 1 => {
            let k = r.range(1, v.len() - 1);
            v.insert(k, b'/');
        }
        13 if v.len() > 1 => {
            let k = r.below(v.len() - 1);
            v.swap(k, k + 1);
        }
        _ => {
            let n = r.range(1, 6);
            v = (0..n).map(|_| *r.pick(b"abcdeABC0123_-.")).collect();
        }
    }
    v
}

pub struct Plan {
    pub per_entry: usize,
    pub mutants: usize,
    pub bytes: usize, // hostile byte strings
    pub cap: usize,
}

impl Default for Plan {
    fn default() -> Plan {
        Plan { per_entry: 2, mutants: 60, bytes: 12, cap: 700 }
    }
}

pub fn requests(c: &Cfg, r: &mut Rng, plan: &Plan) -> Vec<Req> {
    let mut out: Vec<Req> = vec![];
    let entries = c.entries();
    let nodes = c.nodes();
    let mut lits: Vec<String> = vec![];
    for (_, n) in &nodes {
        for (s, _) in &n.kids {
            if let Seg::Lit(l) = s {
                if !lits.contains(l) {
                    lits.push(l.clone());
                }
            }
        }
    }
    let mut bases: Vec<(Vec<Vec<u8>>, usize)> = vec![];
    let push = |out: &mut Vec<Req>, path: Vec<u8>, method: &[u8], kind: &'static str, base: Option<usize>| -> usize {
        out.push(Req { path, method: method.to_vec(), kind, base });
        out.len() - 1
    };
    // every resource, with its own method
    for e in &entries {
        let np = e.params().len();
        for _ in 0..if np == 0 { 1 } else { plan.per_entry } {
            let segs = fill(&e.path, r, None);
            let m = METHODS[e.res.method].as_bytes();
            let b = push(&mut out, join(&segs, true, false), m, "exact", None);
            push(&mut out, join(&segs, false, false), m, "slash", Some(b));
            push(&mut out, join(&segs, true, true), m, "slash", Some(b));
            push(&mut out, join(&segs, false, true), m, "slash", Some(b));
            // nearly the same, with the same method
            if plan.mutants > 0 && !segs.is_empty() && r.pct(35) {
                let mut near = segs.clone();
                let k = r.below(near.len());
                match r.below(4) {
                    0 => near[k].make_ascii_lowercase(),
                    1 => near[k].make_ascii_uppercase(),
                    2 => near.extend(vec![vec![]; r.range(1, 2)]), // slashes at the end
                    _ => near[k] = mutate_seg(&near[k], r, &lits),
                }
                push(&mut out, join(&near, true, false), m, "mutant", None);
            }
            bases.push((segs, e.res.method));
        }
        for k in 0..np {
            for _ in 0..plan.per_entry {
                let segs = fill(&e.path, r, Some(k));
                let m = METHODS[e.res.method].as_bytes();
                let b = push(&mut out, join(&segs, true, false), m, "badparam", None);
                if r.pct(30) {
                    push(&mut out, join(&segs, r.pct(50), true), m, "slash", Some(b));
                }
                if r.pct(30) {
                    push(&mut out, join(&segs, true, false), b"PATCH", "badparam", None);
                }
            }
        }
    }
    // every place, with every method
    for (path, _) in &nodes {
        let segs = fill(path, r, None);
        for m in METHODS {
            let b = push(&mut out, join(&segs, true, false), m.as_bytes(), "method", None);
            if r.pct(25) {
                push(&mut out, join(&segs, r.pct(50), true), m.as_bytes(), "slash", Some(b));
            }
        }
        for _ in 0..2 {
            push(&mut out, join(&segs, r.pct(80), r.pct(20)), &odd_method(r), "method", None);
        }
        bases.push((segs, r.below(4)));
    }
    // near misses
    for _ in 0..plan.mutants {
        let (mut segs, method) = r.pick(&bases).clone();
        for _ in 0..r.range(1, 2) {
            match r.below(8) {
                0 => {
                    segs.pop();
                }
                1 => {
                    let s = if !lits.is_empty() && r.pct(60) {
                        r.pick(&lits).clone().into_bytes()
                    } else {
                        mutate_seg(b"zz", r, &lits)
                    };
                    segs.push(s)
                }
                2 => {
                    let k = r.below(segs.len() + 1);
                    let s = mutate_seg(b"zz", r, &lits);
                    segs.insert(k, s);
                }
                3 if segs.len() > 1 => {
                    let k = r.below(segs.len() - 1);
                    segs.swap(k, k + 1);
                }
                4 => {
                    let k = r.below(segs.len() + 1);
                    segs.insert(k, vec![]); // a doubled slash
                }
                _ if !segs.is_empty() => {
                    let k = r.below(segs.len());
                    segs[k] = mutate_seg(&segs[k], r, &lits);
                }
                _ => {}
            }
        }
        let m: &[u8] = match r.below(10) {
            0..=5 => METHODS[method].as_bytes(),
            6..=8 => METHODS[r.below(4)].as_bytes(),
            _ => &odd_method(r),
        };
        let b = push(&mut out, join(&segs, true, false), m, "mutant", None);
        // (a segment may have got slashes of its own)
        let plain = !segs.is_empty() && segs.iter().all(|s| !s.is_empty() && !s.starts_with(b"/") && !s.ends_with(b"/"));
        if r.pct(20) && plain {
            push(&mut out, join(&segs, r.pct(50), r.pct(50)), m, "slash", Some(b));
        }
        if r.pct(10) {
            let mut p = join(&segs, true, false);
            let k = r.below(p.len() + 1);
            p.truncate(k);
            push(&mut out, p, m, "mutant", None);
        }
    }
    // hostile bytes
    for k in 0..plan.bytes {
        let (segs, method) = r.pick(&bases).clone();
        let mut p = join(&segs, r.pct(90), r.pct(20));
        match r.below(8) {
            0 => {
                let i = r.below(p.len() + 1);
                p.insert(i, 0xff);
            }
            1 => {
                let i = r.below(p.len() + 1);
                p.insert(i, 0xc3);
            }
            2 => p.extend_from_slice(b"\xe6\x97"),
            3 => p.extend_from_slice(b"/\xf0\x9f\x98"),
            4 => p = b"//".to_vec(),
            5 => {
                p.extend_from_slice(b"//");
            }
            6 => {
                let n = if k % 4 == 0 { 20_000 } else { 300 };
                let c = *r.pick(b"a0/\xff");
                p.extend(std::iter::repeat(c).take(n));
            }
            _ => {
                let n = r.below(20);
                p = (0..n).map(|_| r.next() as u8).collect();
            }
        }
        let m: &[u8] = match r.below(10) {
            0..=4 => METHODS[method].as_bytes(),
            5..=7 => METHODS[r.below(4)].as_bytes(),
            _ => &odd_method(r),
        };
        push(&mut out, p, m, "bytes", None);
    }
    for p in [&b""[..], b"/", b"//", b"///", b"\xff", b"/\x00"] {
        push(&mut out, p.to_vec(), METHODS[r.below(4)].as_bytes(), "bytes", None);
    }
    if out.len() > plan.cap {
        // keep bases of kept variants: sample base groups
        let mut keep = vec![false; out.len()];
        let mut order: Vec<usize> = (0..out.len()).filter(|i| out[*i].base.is_none()).collect();
        r.shuffle(&mut order);
        let mut left = plan.cap;
        for i in order {
            if left == 0 {
                break;
            }
            keep[i] = true;
            left -= 1;
            let mut j = i + 1;
            while j < out.len() && out[j].base.is_some() {
                if out[j].base == Some(i) && left > 0 {
                    keep[j] = true;
                    left -= 1;
                }
                j += 1;
            }
        }
        let mut map = vec![0usize; out.len()];
        let mut kept = vec![];
        for (i, q) in out.into_iter().enumerate() {
            if keep[i] {
                map[i] = kept.len();
                kept.push(q);
            }
        }
        for q in kept.iter_mut() {
            q.base = q.base.map(|b| map[b]);
        }
        out = kept;
    }
    out
}

/// A request built by hand from a handler's struct: `B e nt t.. q..`
#[derive(Clone, Debug)]
pub struct Build {
    pub entry: usize,
    pub texts: Vec<String>,
    pub queries: Vec<Option<String>>,
}

impl Build {
    pub fn line(&self) -> String {
        let mut s = format!("B {} {}", self.entry, self.texts.len());
        for t in &self.texts {
            s.push(' ');
            s.push_str(&hex(t.as_bytes()));
        }
        for q in &self.queries {
            s.push(' ');
            match q {
                None => s.push('-'),
                Some(t) => s.push_str(&hex(t.as_bytes())),
            }
        }
        s
    }
}

pub fn builds(c: &Cfg, r: &mut Rng, per: usize) -> Vec<Build> {
    let mut out = vec![];
    for (i, e) in c.entries().iter().enumerate() {
        if e.res.redirect {
            continue;
        }
        let ps = e.params();
        let qs = e.queries();
        let n = if ps.is_empty() && qs.is_empty() { 1 } else { per };
        for _ in 0..n {
            let texts = ps.iter().map(|p| ty::valid(&p.ty, r)).collect();
            let queries =
                qs.iter().map(|p| if r.pct(40) { Some(ty::valid(&p.ty, r)) } else { None }).collect();
            out.push(Build { entry: i, texts, queries });
        }
    }
    out
}
