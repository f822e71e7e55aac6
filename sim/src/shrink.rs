//! Generic minimisation of a scenario (as JSON) and of its schedule.

use serde_json::Value;

/// Candidates for a smaller scenario, the boldest first.
pub fn candidates(v: &Value) -> Vec<Value> {
    let mut out = Vec::new();
    let mut paths = Vec::new();
    collect(v, &mut Vec::new(), &mut paths);
    // Bold moves on shallow parts first.
    paths.sort_by_key(|p| p.len());
    for p in &paths {
        let node = get(v, p);
        if let Value::Array(a) = node {
            let n = a.len();
            let mut size = n;
            while size >= 1 {
                let mut i = 0;
                while i < n {
                    let mut b = a.clone();
                    b.drain(i..(i + size).min(n));
                    out.push(set(v, p, Value::Array(b)));
                    i += size;
                }
                size /= 2;
            }
        }
    }
    for p in &paths {
        match get(v, p) {
            Value::Bool(true) => out.push(set(v, p, Value::Bool(false))),
            Value::Object(_) if !p.is_empty() => out.push(set(v, p, Value::Null)),
            Value::Number(n) => {
                if let Some(n) = n.as_u64() {
                    out.push(set(v, p, Value::Null));
                    for m in [0, n / 2, n.saturating_sub(1)] {
                        if m < n {
                            out.push(set(v, p, m.into()));
                        }
                    }
                }
            }
            Value::String(s) if s.len() > 1 => {
                let c: Vec<char> = s.chars().collect();
                out.push(set(v, p, c[..c.len() / 2].iter().collect::<String>().into()));
                out.push(set(v, p, c[c.len() / 2..].iter().collect::<String>().into()));
                if c.len() <= 12 {
                    for i in 0..c.len() {
                        let mut d = c.clone();
                        d.remove(i);
                        out.push(set(v, p, d.iter().collect::<String>().into()));
                    }
                }
            }
            _ => {}
        }
    }
    out
}

fn collect(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                collect(x, at, out);
                at.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                at.push(k.clone());
                collect(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}

fn get<'a>(v: &'a Value, p: &[String]) -> &'a Value {
    p.iter().fold(v, |v, k| match v {
        Value::Array(a) => &a[k.parse::<usize>().unwrap()],
        Value::Object(o) => &o[k],
        _ => unreachable!(),
    })
}

fn set(v: &Value, p: &[String], x: Value) -> Value {
    let mut r = v.clone();
    let mut at = &mut r;
    for k in p {
        at = match at {
            Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
            Value::Object(o) => o.get_mut(k).unwrap(),
            _ => unreachable!(),
        };
    }
    *at = x;
    r
}

pub type Lists = Vec<Vec<(u64, u8)>>;

/// Candidates for a schedule with fewer decisions.
pub fn schedules(d: &Lists) -> Vec<Lists> {
    let mut out = Vec::new();
    for (r, list) in d.iter().enumerate() {
        let n = list.len();
        let mut size = n;
        while size >= 1 {
            let mut i = 0;
            while i < n {
                let mut c = d.clone();
                c[r].drain(i..(i + size).min(n));
                out.push(c);
                i += size;
            }
            size /= 2;
        }
    }
    out
}
