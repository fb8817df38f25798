use facet_json::JsonErrorKind;
use mc::fmt::*;
use mc::json;
use mc::jsonfault::*;
use mc::jsongen::*;
use mc::native::*;
use mc::universe::*;
use mc::*;

fn main() {
    mc::main(Check {
        id: "J06",
        level: "model_checking",
        rule: "for each target type: every value over small domains, written in three spellings, with every node replaced by every value of other kinds, every member left out, renamed or repeated, unknown members anywhere; every truncation and single-byte change of such a text; the error must be of the kind, point into the part of the text, name the path, the field, the number or the character that an independent reader finds first at fault",
        assumptions: "what's at fault within a string or number, and which of several missing fields is named, are left open, as is whether a fault between two values belongs to the value or what it's in; places are read from the error's display",
        run,
    });
}
/// path, line and column
fn place(text: &str) -> Option<(String, usize, usize)> {
    let mut plain = String::new();
    let mut esc = false;
    for c in text.chars() {
        match c {
            '\x1b' => esc = true,
            'm' if esc => esc = false,
            c if !esc => plain.push(c),
            _ => {}
        }
    }
    let path = plain.split("Error at ").nth(1)?.lines().next()?.trim().to_string();
    let place: String = plain.split("json:").nth(1)?.chars().take_while(|c| c.is_ascii_digit() || *c == ':').collect();
    let (l, c) = place.split_once(':')?;
    Some((path, l.parse().ok()?, c.parse().ok()?))
}
fn at(s: &str, i: usize) -> (usize, usize) {
    let before = &s[..s.floor_char_boundary_(i)];
    let line = before.rsplit('\n').next().unwrap();
    (1 + before.matches('\n').count(), 1 + line.chars().count())
}
trait Floor {
    fn floor_char_boundary_(&self, i: usize) -> usize;
}
impl Floor for str {
    fn floor_char_boundary_(&self, mut i: usize) -> usize {
        while !self.is_char_boundary(i) {
            i -= 1
        }
        i
    }
}
/// 0: nothing to say, 1: an error that's right
fn one(t: &'static Ty, s: &[u8]) -> Result<u64, String> {
    let Ok(text) = std::str::from_utf8(s) else { return Ok(0) };
    let f = match fault(t, s, attrs) {
        Err(Stop::Fault(f)) => f,
        _ => return Ok(0),
    };
    let fail = |what: String| Err(format!("{text:?} as {}: {what}; at fault is {f:?}", t.name));
    let e = match catching(|| facet_json::from_slice_wip(facet_reflect::Wip::alloc_shape((t.shape)()), s)) {
        Ok(Err(e)) => e,
        Ok(Ok(_)) => return fail("accepted".into()),
        Err(m) => return fail(format!("panic: {m}")),
    };
    let shown = e.to_string();
    let Some((path, line, col)) = place(&shown) else { return fail(format!("no place: {shown}")) };
    let is = path.replace(".some", "");
    if !f.paths.contains(&is) {
        return fail(format!("names the path {path}"));
    }
    let (lo, hi) = (at(text, f.lo), at(text, f.hi));
    // the end of a text that ends with a new line
    let last = f.hi == s.len() && text.ends_with('\n');
    if (line, col) < lo && !(last && line + 1 >= lo.0) || (line, col) > hi && !last {
        return fail(format!("points at {line}:{col}, not between {lo:?} and {hi:?}"));
    }
    let message = e.message();
    if !shown.contains(&message.lines().next().unwrap_or("").chars().take_while(|c| *c >= ' ').collect::<String>()) {
        return fail(format!("{message:?} isn't shown"));
    }
    let num = |s: &str| s.parse::<f64>().unwrap();
    let fits = match (&e.kind, &f.what) {
        (JsonErrorKind::MissingField(n), What::Missing(m)) => m.contains(n) && message.contains(n),
        (JsonErrorKind::UnknownField(n), What::Unknown(k)) => n == k && message.contains(n.as_str()),
        (_, What::Missing(_) | What::Unknown(_)) => false,
        (JsonErrorKind::NumberOutOfRange(n), What::Number { text, .. }) => *n == num(text),
        (JsonErrorKind::StringAsNumber(n), What::Number { text, string: true }) => n == text && message.contains(n.as_str()),
        (_, What::Number { .. }) => false,
        (JsonErrorKind::UnexpectedEof(_), What::Syntax(b)) => *b == s.len(),
        (JsonErrorKind::UnexpectedCharacter(c), What::Syntax(b)) => *b == s.len() || s[f.lo..=*b].contains(&(*c as u32 as u8)),
        (JsonErrorKind::UnexpectedCharacter(c), What::Misfit) => s[f.lo] == *c as u32 as u8,
        (JsonErrorKind::ReflectError(_), What::Misfit) => s[f.lo] == b'"',
        _ => false,
    };
    if !fits {
        return fail(format!("says {message:?}"));
    }
    Ok(1)
}
/// all documents differing from `d` in one place
fn variants(d: &json::Doc, misfits: &[json::Doc], f: &mut dyn FnMut(&json::Doc) -> Result<(), String>) -> Result<(), String> {
    use json::Doc::*;
    for m in misfits {
        f(m)?;
    }
    match d {
        Arr(v) => {
            for i in 0..v.len() {
                variants(&v[i], misfits, &mut |x| {
                    let mut v = v.clone();
                    v[i] = x.clone();
                    f(&Arr(v))
                })?;
            }
        }
        Obj(ms) => {
            for i in 0..ms.len() {
                variants(&ms[i].1, misfits, &mut |x| {
                    let mut ms = ms.clone();
                    ms[i].1 = x.clone();
                    f(&Obj(ms))
                })?;
                let mut w = ms.clone();
                w.remove(i);
                f(&Obj(w))?;
                let mut w = ms.clone();
                w[i].0.push('x');
                f(&Obj(w))?;
                let mut w = ms.clone();
                w.push(ms[i].clone());
                f(&Obj(w))?;
                let mut w = ms.clone();
                w.rotate_left(i);
                f(&Obj(w))?;
            }
            for i in 0..=ms.len() {
                for (k, x) in [("zz", &misfits[0]), ("é\"\n", &misfits[misfits.len() - 1])] {
                    let mut w = ms.clone();
                    w.insert(i, (k.into(), x.clone()));
                    f(&Obj(w))?;
                }
            }
        }
        _ => {}
    }
    Ok(())
}
fn spell(d: &json::Doc, style: u8) -> Vec<u8> {
    let mut s = render(d, style);
    s.retain(|c| *c != b'\r');
    s
}
fn run(ctx: &mut Ctx) {
    use json::Doc::*;
    let st = |s: &str| Str(s.into());
    let num = |s: &str| Num(s.into());
    let misfits = [
        Null, Bool(true), Bool(false), num("1"), num("-7.25e1"), num("300"), num("1e999"), num("123456789012345678901234567890"), st(""), st("x"), st("é\"\\\u{1f600}"), Arr(vec![]), Arr(vec![num("1"), st("a"), Null]), Obj(vec![]),
        Obj(vec![("a".into(), num("1"))]), Obj(vec![("zz".into(), Arr(vec![Obj(vec![("a".into(), Null)])]))]),
    ];
    let mut all = both_ways();
    all.extend([SE::ty(), <std::collections::HashMap<String, u8>>::ty(), <Vec<E>>::ty(), <[u8; 2]>::ty(), <std::sync::Arc<u8>>::ty(), mc::universe::Arr::ty(), <Vec<char>>::ty(), <Vec<Nest>>::ty(), <Option<Option<Vec<Deny>>>>::ty()]);
    let limit = ctx.pick(6, 40);
    for t in &all {
        for (i, v) in domain::values(t, 1, 5, limit * 7).into_iter().step_by(7).enumerate() {
            let Some(d) = json::document(t, &v, attrs) else { continue };
            for style in 0..3 {
                let s = spell(&d, style);
                if s.len() > 1000 {
                    continue;
                }
                ctx.case(&format!("values {}", t.name), &|| format!("{i} {}", String::from_utf8_lossy(&s)), || {
                    let (mut n, mut faulty) = (0, 0);
                    variants(&d, &misfits, &mut |x| {
                        n += 1;
                        faulty += one(t, &spell(x, style))?;
                        Ok(())
                    })?;
                    Ok(CaseOut { class: faulty, states: n, transitions: n })
                });
                if s.len() > 200 {
                    continue;
                }
                ctx.case(&format!("bytes {}", t.name), &|| format!("{i} {}", String::from_utf8_lossy(&s)), || {
                    let (mut n, mut faulty) = (0, 0);
                    mutate(&s, &mut |x| {
                        n += 1;
                        if x.iter().any(|c| [b'\x0b', b'\x0c', b'\r'].contains(c)) {
                            return Ok(());
                        }
                        faulty += one(t, x)?;
                        Ok(())
                    })?;
                    Ok(CaseOut { class: faulty, states: n, transitions: n })
                });
            }
        }
    }
}
