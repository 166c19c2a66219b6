//! The monitor's own reader of route files (the plain style only), so that
//! the repository's own configurations can be judged without its parser.

use crate::cfg::*;

fn level(l: &str) -> usize {
    (l.len() - l.trim_start_matches(' ').len()) / 2
}

fn par(s: &str) -> P {
    let mut it = s.splitn(2, ':');
    P { name: it.next().unwrap().trim().to_string(), ty: it.next().unwrap_or("").trim().to_string() }
}

fn block(ls: &[&str], i: &mut usize, lvl: usize) -> Result<Node, String> {
    let mut n = Node::default();
    while *i < ls.len() && level(ls[*i]) == lvl {
        let t = ls[*i].trim();
        *i += 1;
        if t.starts_with('[') {
            n.query.push(par(t.trim_matches(|c| c == '[' || c == ']')));
            continue;
        }
        let mut w = t.splitn(2, ' ');
        let verb = w.next().unwrap().to_uppercase();
        let m = METHODS.iter().position(|m| *m == verb);
        match (m, w.next()) {
            (Some(method), Some(rest)) => {
                let rest = rest.trim();
                let redirect = rest.starts_with("->");
                let h = rest.trim_start_matches("->").trim();
                let mut parts: Vec<String> = h.split("::").map(|s| s.to_string()).collect();
                let name = parts.pop().ok_or("no name")?;
                let mut query = vec![];
                while *i < ls.len() && level(ls[*i]) == lvl + 1 && ls[*i].trim().starts_with('[') {
                    query.push(par(ls[*i].trim().trim_matches(|c| c == '[' || c == ']')));
                    *i += 1;
                }
                n.res.push(Res { method, modules: parts, name, redirect, query });
            }
            _ => {
                let seg = if t.starts_with('{') {
                    Seg::Par(par(t.trim_matches(|c| c == '{' || c == '}')))
                } else {
                    Seg::Lit(t.to_string())
                };
                let k = block(ls, i, lvl + 1)?;
                n.kids.push((seg, k));
            }
        }
    }
    Ok(n)
}

pub fn read(text: &str) -> Result<Cfg, String> {
    let ls: Vec<&str> = text.lines().filter(|l| !l.is_empty()).collect();
    let mut c = Cfg::default();
    let mut i = 0;
    while i < ls.len() && ls[i] != "/" {
        c.headers.push(ls[i].to_string());
        i += 1;
    }
    i += 1;
    c.root = block(&ls, &mut i, 1)?;
    if i != ls.len() {
        return Err(format!("line {:?}", ls.get(i)));
    }
    Ok(c)
}
