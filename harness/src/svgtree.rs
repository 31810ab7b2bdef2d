//! A small XML reader and just enough SVG semantics (paths, circles, transforms, defs/use) to tell
//! where a drawing puts its shapes.

use crate::geom::*;
use std::collections::BTreeMap;

#[derive(Debug, Default)]
pub struct Node {
    pub name: String,
    pub attrs: BTreeMap<String, String>,
    pub children: Vec<Node>,
}

impl Node {
    pub fn attr(&self, k: &str) -> Option<&str> {
        self.attrs.get(k).map(|s| s.as_str())
    }
    pub fn find(&self, id: &str) -> Option<&Node> {
        if self.attr("id") == Some(id) {
            return Some(self);
        }
        self.children.iter().find_map(|c| c.find(id))
    }
    pub fn walk<'a>(&'a self, f: &mut impl FnMut(&'a Node)) {
        f(self);
        for c in &self.children {
            c.walk(f);
        }
    }
}

pub fn parse_xml(text: &str) -> Result<Node, String> {
    let b = text.as_bytes();
    let mut stack: Vec<Node> = vec![Node::default()];
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'<' {
            i += 1;
            continue;
        }
        let end = {
            // the closing '>' outside of quotes
            let mut k = i + 1;
            let mut quote = 0u8;
            loop {
                if k >= b.len() {
                    return Err("unterminated tag".into());
                }
                if quote != 0 {
                    if b[k] == quote {
                        quote = 0;
                    }
                } else if b[k] == b'"' || b[k] == b'\'' {
                    quote = b[k];
                } else if b[k] == b'>' {
                    break;
                }
                k += 1;
            }
            k
        };
        let tag = &text[i + 1..end];
        i = end + 1;
        if tag.starts_with('?') || tag.starts_with('!') {
            continue;
        }
        if let Some(n) = tag.strip_prefix('/') {
            let node = stack.pop().ok_or("unbalanced")?;
            if node.name != n.trim() {
                return Err(format!("</{n}> closes <{}>", node.name));
            }
            stack.last_mut().ok_or("unbalanced")?.children.push(node);
            continue;
        }
        let (tag, closed) = match tag.strip_suffix('/') {
            Some(t) => (t, true),
            None => (tag, false),
        };
        let mut node = Node::default();
        let tag = tag.trim();
        let ne = tag.find(char::is_whitespace).unwrap_or(tag.len());
        node.name = tag[..ne].to_string();
        let mut rest = tag[ne..].trim_start();
        while !rest.is_empty() {
            let eq = rest.find('=').ok_or_else(|| format!("attribute in <{tag}>"))?;
            let key = rest[..eq].trim().to_string();
            let r = rest[eq + 1..].trim_start();
            let q = r.chars().next().ok_or("attribute value")?;
            if q != '"' && q != '\'' {
                return Err(format!("unquoted attribute {key}"));
            }
            let r = &r[1..];
            let e = r.find(q).ok_or("attribute value")?;
            node.attrs.insert(key, r[..e].to_string());
            rest = r[e + 1..].trim_start();
        }
        if closed {
            stack.last_mut().ok_or("unbalanced")?.children.push(node);
        } else {
            stack.push(node);
        }
    }
    if stack.len() != 1 {
        return Err("unclosed element".into());
    }
    let root = stack.pop().unwrap();
    root.children.into_iter().find(|c| c.name == "svg").ok_or_else(|| "no svg element".into())
}

/// affine map, column major like SVG's matrix(a b c d e f)
#[derive(Clone, Copy, Debug)]
pub struct Aff(pub [f64; 6]);
impl Aff {
    pub fn id() -> Aff {
        Aff([1., 0., 0., 1., 0., 0.])
    }
    pub fn apply(&self, p: P) -> P {
        let m = self.0;
        (m[0] * p.0 + m[2] * p.1 + m[4], m[1] * p.0 + m[3] * p.1 + m[5])
    }
    /// self after other
    pub fn then_inner(&self, o: &Aff) -> Aff {
        let (a, b) = (self.0, o.0);
        Aff([
            a[0] * b[0] + a[2] * b[1],
            a[1] * b[0] + a[3] * b[1],
            a[0] * b[2] + a[2] * b[3],
            a[1] * b[2] + a[3] * b[3],
            a[0] * b[4] + a[2] * b[5] + a[4],
            a[1] * b[4] + a[3] * b[5] + a[5],
        ])
    }
    pub fn scale(&self) -> f64 {
        let m = self.0;
        (m[0] * m[3] - m[1] * m[2]).abs().sqrt()
    }
}

pub fn numbers(t: &str) -> Result<Vec<f64>, String> {
    t.split(|c: char| c == ',' || c.is_whitespace())
        .filter(|x| !x.is_empty())
        .map(|x| x.parse::<f64>().map_err(|e| format!("number {x}: {e}")))
        .collect()
}

pub fn parse_transform(t: &str) -> Result<Aff, String> {
    let mut m = Aff::id();
    let mut rest = t.trim();
    while !rest.is_empty() {
        let o = rest.find('(').ok_or_else(|| format!("transform {t}"))?;
        let e = rest.find(')').ok_or_else(|| format!("transform {t}"))?;
        let name = rest[..o].trim_matches(|c: char| c == ',' || c.is_whitespace());
        let a = numbers(&rest[o + 1..e])?;
        let g = |i: usize| a.get(i).copied().unwrap_or(0.0);
        let step = match name {
            "translate" => Aff([1., 0., 0., 1., g(0), g(1)]),
            "rotate" => {
                let (s, c) = g(0).to_radians().sin_cos();
                let r = Aff([c, s, -s, c, 0., 0.]);
                if a.len() == 3 {
                    Aff([1., 0., 0., 1., a[1], a[2]]).then_inner(&r).then_inner(&Aff([1., 0., 0., 1., -a[1], -a[2]]))
                } else {
                    r
                }
            }
            "scale" => Aff([g(0), 0., 0., if a.len() > 1 { a[1] } else { g(0) }, 0., 0.]),
            "matrix" if a.len() == 6 => Aff([a[0], a[1], a[2], a[3], a[4], a[5]]),
            _ => return Err(format!("transform {t}")),
        };
        m = m.then_inner(&step);
        rest = rest[e + 1..].trim_matches(|c: char| c == ',' || c.is_whitespace());
    }
    Ok(m)
}

/// the closed or open polylines of a path
pub fn parse_path(d: &str) -> Result<Vec<Poly>, String> {
    let mut toks: Vec<(char, String)> = vec![];
    for ch in d.chars() {
        if ch.is_ascii_alphabetic() && ch != 'e' && ch != 'E' {
            toks.push((ch, String::new()));
        } else if let Some(t) = toks.last_mut() {
            t.1.push(ch);
        } else if !ch.is_whitespace() {
            return Err(format!("path {d}"));
        }
    }
    let mut out: Vec<Poly> = vec![];
    let mut cur = (0.0, 0.0);
    let mut start = cur;
    for (cmd, args) in toks {
        let a = numbers(&args)?;
        let rel = cmd.is_ascii_lowercase();
        let base = |c: P| if rel { c } else { (0.0, 0.0) };
        match cmd.to_ascii_uppercase() {
            'M' | 'L' => {
                for (k, q) in a.chunks(2).enumerate() {
                    if q.len() != 2 {
                        return Err(format!("path {d}"));
                    }
                    let o = base(cur);
                    cur = (o.0 + q[0], o.1 + q[1]);
                    if cmd.to_ascii_uppercase() == 'M' && k == 0 {
                        out.push(vec![cur]);
                        start = cur;
                    } else {
                        out.last_mut().ok_or("path without start")?.push(cur);
                    }
                }
            }
            'H' => {
                for x in a {
                    cur.0 = base(cur).0 + x;
                    out.last_mut().ok_or("path without start")?.push(cur);
                }
            }
            'V' => {
                for y in a {
                    cur.1 = base(cur).1 + y;
                    out.last_mut().ok_or("path without start")?.push(cur);
                }
            }
            'Z' => cur = start,
            _ => return Err(format!("path command {cmd}")),
        }
    }
    for p in out.iter_mut() {
        if p.len() > 1 && p[0] == p[p.len() - 1] {
            p.pop();
        }
    }
    Ok(out)
}

pub struct Drawing<'a> {
    root: &'a Node,
    pub view_box: (f64, f64, f64, f64),
}

fn own_transform(n: &Node) -> Result<Aff, String> {
    match n.attr("transform") {
        Some(t) => parse_transform(t),
        None => Ok(Aff::id()),
    }
}

fn collect(n: &Node, m: Aff, f: &mut impl FnMut(&Node, Aff) -> Result<(), String>) -> Result<(), String> {
    if n.name == "defs" {
        return Ok(());
    }
    let m = m.then_inner(&own_transform(n)?);
    f(n, m)?;
    for c in &n.children {
        collect(c, m, f)?;
    }
    Ok(())
}

fn outline_of(n: &Node, m: Aff) -> Result<Vec<Poly>, String> {
    let ps = match n.name.as_str() {
        "path" => parse_path(n.attr("d").ok_or("path without data")?)?,
        "polygon" | "polyline" => {
            let v = numbers(n.attr("points").ok_or("polygon without points")?)?;
            vec![v.chunks(2).map(|c| (c[0], c[1])).collect()]
        }
        _ => vec![],
    };
    Ok(ps.into_iter().map(|p| p.into_iter().map(|q| m.apply(q)).collect()).collect())
}

impl<'a> Drawing<'a> {
    pub fn read(root: &'a Node) -> Result<Self, String> {
        let v = numbers(root.attr("viewBox").ok_or("no viewBox")?)?;
        if v.len() != 4 {
            return Err("viewBox".into());
        }
        Ok(Drawing { root, view_box: (v[0], v[1], v[2], v[3]) })
    }

    /// the group with the given id and the transform of everything around it
    fn located(&self, id: &str) -> Result<(&'a Node, Aff), String> {
        fn go<'b>(n: &'b Node, m: Aff, id: &str) -> Result<Option<(&'b Node, Aff)>, String> {
            if n.attr("id") == Some(id) {
                return Ok(Some((n, m)));
            }
            let m = m.then_inner(&own_transform(n)?);
            for c in &n.children {
                if let Some(r) = go(c, m, id)? {
                    return Ok(Some(r));
                }
            }
            Ok(None)
        }
        go(self.root, Aff::id(), id)?.ok_or_else(|| format!("nothing drawn with id {id}"))
    }

    pub fn group_outlines(&self, id: &str) -> Result<Vec<Poly>, String> {
        Ok(self.filled_outlines(id)?.into_iter().map(|x| x.1).collect())
    }

    pub fn filled_outlines(&self, id: &str) -> Result<Vec<(String, Poly)>, String> {
        let (n, m) = self.located(id)?;
        let mut v = vec![];
        collect(n, m, &mut |n, m| {
            for p in outline_of(n, m)? {
                v.push((n.attr("fill").unwrap_or("").to_string(), p));
            }
            Ok(())
        })?;
        Ok(v)
    }

    pub fn circles(&self, id: &str) -> Result<Vec<(P, f64)>, String> {
        let (n, m) = self.located(id)?;
        circles_in(n, m)
    }

    fn use_nodes(&self, id: &str) -> Result<Vec<(String, &'a Node, Aff)>, String> {
        let (n, m) = self.located(id)?;
        let mut v = vec![];
        let mut refs = vec![];
        collect(n, m, &mut |n, m| {
            if n.name == "use" {
                let h = n.attr("xlink:href").or(n.attr("href")).ok_or("use without reference")?;
                refs.push((h.trim_start_matches('#').to_string(), m));
            }
            Ok(())
        })?;
        for (h, m) in refs {
            let mut defs = vec![];
            self.root.walk(&mut |n| {
                if n.attr("id") == Some(&h) {
                    defs.push(n);
                }
            });
            if defs.len() != 1 {
                return Err(format!("{} definitions of {h}", defs.len()));
            }
            v.push((h, defs[0], m));
        }
        Ok(v)
    }

    pub fn uses(&self, id: &str) -> Result<Vec<(String, Vec<Poly>)>, String> {
        self.use_nodes(id)?
            .into_iter()
            .map(|(h, d, m)| {
                let mut v = vec![];
                collect(d, m, &mut |n, m| {
                    v.extend(outline_of(n, m)?);
                    Ok(())
                })?;
                Ok((h, v))
            })
            .collect()
    }

    pub fn use_circles(&self, id: &str) -> Result<Vec<(String, Vec<(P, f64)>)>, String> {
        self.use_nodes(id)?.into_iter().map(|(h, d, m)| Ok((h, circles_in(d, m)?))).collect()
    }
}

fn circles_in(n: &Node, m: Aff) -> Result<Vec<(P, f64)>, String> {
    let mut v = vec![];
    collect(n, m, &mut |n, m| {
        if n.name == "circle" {
            let g = |k: &str| n.attr(k).and_then(|x| x.parse::<f64>().ok()).ok_or_else(|| format!("circle {k}"));
            v.push((m.apply((g("cx")?, g("cy")?)), g("r")? * m.scale()));
        }
        Ok(())
    })?;
    Ok(v)
}
