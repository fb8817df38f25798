//! Texts for the JSON reading checks.
use crate::json::Doc;

/// all sequences of `n` of the tokens, of which the first ones are given
pub fn sequences(tokens: &[&[u8]], prefix: &[usize], n: usize, f: &mut dyn FnMut(&[u8]) -> Result<(), String>) -> Result<(), String> {
    fn go(tokens: &[&[u8]], buf: &mut Vec<u8>, n: usize, f: &mut dyn FnMut(&[u8]) -> Result<(), String>) -> Result<(), String> {
        if n == 0 {
            return f(buf);
        }
        for t in tokens {
            let l = buf.len();
            buf.extend_from_slice(t);
            go(tokens, buf, n - 1, f)?;
            buf.truncate(l);
        }
        Ok(())
    }
    let mut buf: Vec<u8> = prefix.iter().flat_map(|i| tokens[*i].iter().copied()).collect();
    go(tokens, &mut buf, n, f)
}

/// style 0: compact, 1: spaces everywhere, 2: other white space and unusual escapes
pub fn text(d: &Doc, style: u8, out: &mut Vec<u8>) {
    let ws: &[u8] = match style {
        0 => b"",
        1 => b" ",
        _ => b"\r\n\t ",
    };
    out.extend(ws);
    match d {
        Doc::Null => out.extend(b"null"),
        Doc::Bool(b) => out.extend(b.to_string().bytes()),
        Doc::Num(n) => out.extend(n.bytes()),
        Doc::Str(s) => string(s, style, out),
        Doc::Arr(v) => {
            out.push(b'[');
            for (i, d) in v.iter().enumerate() {
                if i > 0 {
                    out.push(b',');
                }
                text(d, style, out);
            }
            out.extend(ws);
            out.push(b']');
        }
        Doc::Obj(m) => {
            out.push(b'{');
            for (i, (k, d)) in m.iter().enumerate() {
                if i > 0 {
                    out.push(b',');
                }
                out.extend(ws);
                string(k, style, out);
                out.extend(ws);
                out.push(b':');
                text(d, style, out);
            }
            out.extend(ws);
            out.push(b'}');
        }
    }
    out.extend(ws);
}
pub fn string(s: &str, style: u8, out: &mut Vec<u8>) {
    out.push(b'"');
    for (i, c) in s.chars().enumerate() {
        if c == '"' || c == '\\' {
            out.extend(format!("\\{c}").bytes());
        } else if c < ' ' || (style == 2 && i % 2 == 0) {
            let mut u = [0; 2];
            for x in c.encode_utf16(&mut u) {
                out.extend(format!("\\u{:04X}", x).bytes());
            }
        } else if c == '/' && style == 1 {
            out.extend(b"\\/");
        } else {
            out.extend(c.to_string().bytes());
        }
    }
    out.push(b'"');
}
pub fn render(d: &Doc, style: u8) -> Vec<u8> {
    let mut v = vec![];
    text(d, style, &mut v);
    v
}

/// bytes that matter to JSON, and some that don't belong
pub const BYTES: &[u8] = b"{}[]:,\"\\/ \n\t019-+.eEntfulsax\0\x1f\x7f\xc3\xa9\xff";

/// every truncation, deletion, substitution, insertion of one byte, swap and duplication of spans
pub fn mutate(s: &[u8], f: &mut dyn FnMut(&[u8]) -> Result<(), String>) -> Result<(), String> {
    for i in 0..=s.len() {
        f(&s[..i])?;
        f(&s[i..])?;
        for b in BYTES {
            let mut t = s.to_vec();
            t.insert(i, *b);
            f(&t)?;
            if i < s.len() {
                let mut t = s.to_vec();
                t[i] = *b;
                f(&t)?;
            }
        }
        for w in 1..=4 {
            if i + w <= s.len() {
                let mut t = s.to_vec();
                t.drain(i..i + w);
                f(&t)?;
                // the span twice
                let mut t = s[..i + w].to_vec();
                t.extend(&s[i..]);
                f(&t)?;
            }
        }
    }
    for i in 1..s.len() {
        let mut t = s.to_vec();
        t.swap(i - 1, i);
        f(&t)?;
    }
    Ok(())
}

/// all documents of a depth: scalars, arrays to 2, objects of up to 2 members
pub fn docs(depth: usize, keys: &[&str], scalars: &[Doc], width: usize) -> Vec<Doc> {
    let mut out: Vec<Doc> = scalars.to_vec();
    out.extend([Doc::Arr(vec![]), Doc::Obj(vec![])]);
    if depth == 0 {
        return out;
    }
    let sub = docs(depth - 1, keys, scalars, width);
    for a in &sub {
        out.push(Doc::Arr(vec![a.clone()]));
        for k in keys {
            out.push(Doc::Obj(vec![(k.to_string(), a.clone())]));
        }
    }
    if width >= 2 {
        for a in &sub {
            for b in &sub {
                out.push(Doc::Arr(vec![a.clone(), b.clone()]));
                for k in keys {
                    for l in keys {
                        out.push(Doc::Obj(vec![(k.to_string(), a.clone()), (l.to_string(), b.clone())]));
                    }
                }
            }
        }
    }
    out
}

/// every nesting of objects and arrays to a depth, with further elements before, after, both, or none
pub fn nests(depth: usize) -> Vec<Doc> {
    let num = |s: &str| Doc::Num(s.into());
    let mut out = vec![];
    let mut level = vec![num("1"), Doc::Arr(vec![]), Doc::Obj(vec![])];
    for d in 0..depth {
        let mut next = vec![];
        for x in &level {
            for more in 0..4 {
                if d > 2 && more != (d + next.len() / 8) % 4 {
                    continue;
                }
                let mut a = vec![x.clone()];
                let mut o = vec![("a".to_string(), x.clone())];
                if more & 1 != 0 {
                    a.insert(0, Doc::Str("]".into()));
                    o.insert(0, ("b\"}".into(), Doc::Null));
                }
                if more & 2 != 0 {
                    a.push(num("-2e1"));
                    o.push(("".into(), Doc::Str("\\".into())));
                }
                next.push(Doc::Arr(a));
                next.push(Doc::Obj(o));
            }
        }
        out.extend(next.iter().cloned());
        level = next;
    }
    out
}
