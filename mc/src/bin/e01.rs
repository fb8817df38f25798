//! What the errors of refused documents tell.
use facet_msgpack::DecodeError;
use mc::blame::*;
use mc::jsongen::sequences;
use mc::msgpack::*;
use mc::native::*;
use mc::toml::{Choices, Target, Toml, last_error};
use mc::universe::*;
use mc::yaml::Yaml;
use mc::*;

fn main() {
    mc::main(Check {
        id: "E01",
        level: "model_checking",
        rule: "TOML, YAML, forms: into every target type, the documents of values over small domains with every member left out, renamed, replaced by a value of every kind, or added, at every depth; two of these at once (pairs of places, in full in the thorough tier); boundary numbers and texts into every scalar; all sequences of form pairs to a length; MessagePack: every value of every kind and width into every type, every truncation, single-byte change and left-out member of valid encodings, all byte strings to a length. Where a reference finds the document at fault, the error must tell one of its faults (MessagePack: the first one) by name, kind or number",
        assumptions: "in texts only the telling parts are looked for, in whatever case",
        run,
    });
}
fn out(n: u64, refused: u64) -> CaseResult {
    Ok(CaseOut { class: 1 + refused.min(1), states: n, transitions: n })
}
/// Reads `s`, whose faults are given: refused with one of them, or read if there are none.
fn told(t: &Target, s: &str, faults: Vec<Fault>) -> Result<u64, String> {
    let bad = |m: String| Err(format!("{s:?} as {}: {m}", t.ty.name));
    match (t.read)(s) {
        Err(m) => bad(m),
        Ok(Some(_)) if faults.is_empty() => Ok(0),
        Ok(Some(v)) => bad(format!("read as {v:?} in spite of {faults:?}")),
        Ok(None) if faults.is_empty() => bad(format!("refused without a fault: {}", last_error())),
        Ok(None) => tells(&last_error(), &faults).map(|_| 1).or_else(bad),
    }
}
// ---- TOML ----
fn toml_one(t: &Target, m: &[(String, Toml)], lex: u8) -> Result<u64, String> {
    let s = mc::toml::text(m, lex, &mut Choices::default());
    let d = Toml::Table(m.to_vec());
    let mut faults = vec![];
    toml(t.ty, &d, &mut faults);
    if faults.is_empty() != mc::toml::denote(t.ty, &d).is_some() {
        return Err(format!("harness: {d:?} as {} has the faults {faults:?}", t.ty.name));
    }
    told(t, &s, faults)
}
/// every change of one member, at any depth
fn toml_changes(d: &Toml, foreign: &[Toml]) -> Vec<Toml> {
    let mut v = vec![];
    match d {
        Toml::Table(m) => {
            for f in foreign {
                let mut e = m.clone();
                if e.iter().any(|x| x.0 == "zz") {
                    break;
                }
                e.push(("zz".into(), f.clone()));
                v.push(Toml::Table(e));
            }
            for i in 0..m.len() {
                let mut e = m.clone();
                e.remove(i);
                v.push(Toml::Table(e));
                let mut e = m.clone();
                e[i].0 = if m.iter().any(|x| x.0 == "Zz z") { "Zz".into() } else { "Zz z".into() };
                v.push(Toml::Table(e));
                for x in foreign.iter().cloned().chain(toml_changes(&m[i].1, foreign)) {
                    let mut e = m.clone();
                    e[i].1 = x;
                    v.push(Toml::Table(e));
                }
            }
        }
        Toml::Arr(a) => {
            for f in foreign {
                v.push(Toml::Arr(a.iter().cloned().chain([f.clone()]).collect()));
            }
            for i in 0..a.len() {
                for x in toml_changes(&a[i], foreign) {
                    let mut e = a.clone();
                    e[i] = x;
                    v.push(Toml::Arr(e));
                }
            }
        }
        _ => {}
    }
    v
}
fn st(s: &str) -> Toml {
    Toml::Str(s.into())
}
fn run_toml(ctx: &mut Ctx) {
    let f = |x: f64| Toml::Float(x.to_bits());
    let foreign = [st("zz"), st(""), Toml::Int(1), Toml::Int(-1), Toml::Int(1 << 40), f(1.5), f(1e300), Toml::Bool(true), Toml::Date("1979-05-27".into()), Toml::Arr(vec![]), Toml::Arr(vec![Toml::Int(1)]), Toml::Arr(vec![Toml::Table(vec![("a".into(), Toml::Int(1))])]), Toml::Table(vec![]), Toml::Table(vec![("Nope".into(), Toml::Int(1))]), Toml::Table(vec![("a".into(), Toml::Int(1)), ("b".into(), st("x"))])];
    let (limit, twice) = (ctx.pick(12, 150), ctx.pick(60, 1000));
    for t in mc::toml::targets() {
        for v in domain::values(t.ty, 1, 6, limit) {
            ctx.case(&format!("toml {}", t.ty.name), &|| format!("{v:?}"), || {
                let (mut n, mut refused) = (0, 0);
                let Some(d) = mc::toml::document(t.ty, &v, &mut Choices::default()) else { return out(0, 0) };
                let changes = toml_changes(&d, &foreign);
                let step = (changes.len() / twice).max(1);
                for (i, c) in changes.iter().enumerate() {
                    let more = if i % step == 0 { toml_changes(c, &foreign[..4]) } else { vec![] };
                    for c in more.iter().step_by(step).chain([c]) {
                        if let Toml::Table(m) = c {
                            refused += toml_one(&t, m, i as u8 % 4)?;
                            n += 1;
                        }
                    }
                }
                out(n, refused)
            });
        }
        // numbers, texts and names of variants
        let place: Vec<&str> = match &t.ty.kind {
            Kind::Map(..) => vec!["n"],
            Kind::Struct(fs) => fs.iter().map(|f| f.0.trim_start_matches('_')).collect(),
            _ => vec![],
        };
        ctx.case("toml scalars", &|| t.ty.name.clone(), || {
            let (mut n, mut refused) = (0, 0);
            let mut xs: Vec<Toml> = vec![];
            for bits in [0, 7, 8, 15, 16, 31, 32, 62, 63] {
                for d in -1i128..=1 {
                    for s in [1, -1] {
                        let i = s * ((1i128 << bits) + d);
                        xs.extend(i64::try_from(i).ok().map(Toml::Int));
                        xs.extend([f(i as f64), f(i as f64 + 0.5)]);
                    }
                }
            }
            xs.extend([f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 3.5e38, -3.5e38, 1e300].map(f));
            xs.extend(["1", "é", "1.2.3.256", "1.2.3.4:65536", "::g", "A", "Nope", "a b", "'", "B", "::1", "{}"].map(st));
            for x in xs {
                for p in &place {
                    refused += toml_one(&t, &[(p.to_string(), x.clone())], 0)?;
                    for y in [Toml::Arr(vec![x.clone()]), Toml::Table(vec![("B".into(), x.clone())])] {
                        refused += toml_one(&t, &[(p.to_string(), y)], 0)?;
                    }
                    n += 3;
                }
            }
            out(n, refused)
        });
        // not TOML
        ctx.case("toml malformed", &|| t.ty.name.clone(), || {
            let (mut n, mut refused) = (0, 0);
            for s in ["a", "a=", "a=1\nb", "a=1\na=2", "[a", "a=[1,,]", "a='x\n'", "a=\"\\q\"", "=1", "a=01", "\n\n  é"] {
                let Err(e) = s.parse::<toml_edit::DocumentMut>() else { return Err(format!("harness: {s:?} is TOML")) };
                refused += told(&t, s, vec![vec![has(e.to_string())]])?;
                n += 1;
            }
            out(n, refused)
        });
    }
}
// ---- YAML ----
fn yaml_one(t: &Target, d: &Yaml, lex: u8) -> Result<u64, String> {
    let s = mc::yaml::text(d, lex, &mut Choices::default());
    let mut faults = vec![];
    match mc::yaml::parse(&s) {
        Some(p) if p == *d => yaml(t.ty, d, &mut faults),
        Some(p) => return Err(format!("harness: {s:?} is {p:?}, meant {d:?}")),
        // repeated keys
        None => faults.push(vec![has(yaml_rust2::YamlLoader::load_from_str(&s).unwrap_err().to_string())]),
    }
    if mc::yaml::parse(&s).is_some() && faults.is_empty() != mc::yaml::denote(t.ty, d).is_some() {
        return Err(format!("harness: {d:?} as {} has the faults {faults:?}", t.ty.name));
    }
    told(t, &s, faults)
}
fn yaml_changes(d: &Yaml, foreign: &[Yaml], keys: &[Yaml]) -> Vec<Yaml> {
    let mut v = foreign.to_vec();
    match d {
        Yaml::Map(m) => {
            for k in keys {
                let mut e = m.clone();
                e.push((k.clone(), Yaml::Int(1)));
                v.push(Yaml::Map(e));
                let mut e = m.clone();
                e.insert(0, (k.clone(), Yaml::Null));
                v.push(Yaml::Map(e));
            }
            for i in 0..m.len() {
                let mut e = m.clone();
                e.remove(i);
                v.push(Yaml::Map(e));
                for k in keys {
                    let mut e = m.clone();
                    e[i].0 = k.clone();
                    v.push(Yaml::Map(e));
                }
                for x in yaml_changes(&m[i].1, foreign, keys) {
                    let mut e = m.clone();
                    e[i].1 = x;
                    v.push(Yaml::Map(e));
                }
            }
        }
        Yaml::Arr(a) => {
            for i in 0..a.len() {
                for x in yaml_changes(&a[i], foreign, keys) {
                    let mut e = a.clone();
                    e[i] = x;
                    v.push(Yaml::Arr(e));
                }
            }
        }
        _ => {}
    }
    v
}
fn run_yaml(ctx: &mut Ctx) {
    use mc::yaml::st;
    let foreign = [st("x"), Yaml::Int(1), Yaml::Int(-1), Yaml::Int(i64::MIN), Yaml::Bool(true), Yaml::Null, Yaml::Real("1.5".into()), Yaml::Real("18446744073709551616".into()), st("17"), st(""), Yaml::Map(vec![]), Yaml::Arr(vec![]), Yaml::Arr(vec![Yaml::Int(1)]), Yaml::Map(vec![(st("a"), Yaml::Int(1)), (st("b"), st("x"))])];
    let keys = [st("zz"), st("a"), st("A"), st("it's"), Yaml::Int(1), Yaml::Null, Yaml::Bool(true), Yaml::Arr(vec![st("a")]), Yaml::Map(vec![(st("a"), Yaml::Int(1))])];
    let (limit, twice) = (ctx.pick(12, 60), ctx.pick(60, 2000));
    for t in mc::yaml::targets() {
        for v in domain::values(t.ty, 1, 6, limit) {
            ctx.case(&format!("yaml {}", t.ty.name), &|| format!("{v:?}"), || {
                let (mut n, mut refused) = (0, 0);
                let changes = yaml_changes(&mc::yaml::any_document(t.ty, &v), &foreign, &keys);
                let step = (changes.len() / twice).max(1);
                for (i, c) in changes.iter().enumerate() {
                    let more = if i % step == 0 { yaml_changes(c, &foreign[..4], &keys[..2]) } else { vec![] };
                    for c in more.iter().step_by(step).chain([c]) {
                        refused += yaml_one(&t, c, i as u8 % 4)?;
                        n += 1;
                    }
                }
                out(n, refused)
            });
        }
        ctx.case("yaml malformed", &|| t.ty.name.clone(), || {
            let (mut n, mut refused) = (0, 0);
            for s in ["a: [", "a: b: c", "\"x", "a: 1\na: 2", "? [", "&a *b", "{a: 1", "a: 'b"] {
                let Err(e) = yaml_rust2::YamlLoader::load_from_str(s) else { return Err(format!("harness: {s:?} is YAML")) };
                refused += told(&t, s, vec![vec![has(e.to_string())]])?;
                n += 1;
            }
            for s in ["", "# x", "a: 1\n---\na: 1", "---\n---\n", "1\n---\n2\n---\n3"] {
                refused += told(&t, s, vec![vec![has("document"), has("one")]])?;
                n += 1;
            }
            out(n, refused)
        });
    }
}
// ---- forms ----
fn form_one(t: &Target, s: &str) -> Result<u64, String> {
    let mut faults = vec![];
    form(t.ty, s, &mut faults);
    if faults.is_empty() != mc::form::denote(t.ty, s).is_some() {
        return Err(format!("harness: {s:?} as {} has the faults {faults:?}", t.ty.name));
    }
    told(t, s, faults)
}
fn run_forms(ctx: &mut Ctx) {
    let values = ["x", "1", "", "-1", "18446744073709551616", "%20", "a'b"];
    let limit = ctx.pick(4, 24);
    for t in mc::form::targets() {
        for v in domain::values(t.ty, 2, 6, limit) {
            ctx.case(&format!("form {}", t.ty.name), &|| format!("{v:?}"), || {
                let (mut n, mut refused) = (0, 0);
                let mut ps = vec![];
                mc::form::document(t.ty, &v, "", &mut ps);
                let keys: Vec<String> = ["zz", "a", "b", "c", "a[a]", "c[a]", "c[c]", "zz[a]", "e"].map(String::from).into_iter().chain(ps.iter().flat_map(|p| [p.0.clone(), format!("{}[x]", p.0)])).collect();
                let write = |ps: &[(String, String)]| ps.iter().map(|(k, v)| format!("{k}={}", mc::form::encode(v, 0).replace("%2520", "%20"))).collect::<Vec<_>>().join("&");
                let mut changed: Vec<Vec<(String, String)>> = vec![ps.clone(), vec![]];
                let change = |ps: &Vec<(String, String)>| {
                    let mut v = vec![];
                    for i in 0..=ps.len() {
                        for x in values {
                            for k in &keys {
                                let mut q = ps.clone();
                                q.insert(i, (k.clone(), x.into()));
                                v.push(q);
                            }
                            if i < ps.len() {
                                let mut q = ps.clone();
                                q[i].1 = x.into();
                                v.push(q);
                            }
                        }
                        if i < ps.len() {
                            let mut q = ps.clone();
                            q.remove(i);
                            v.push(q);
                        }
                    }
                    v
                };
                changed.extend(change(&ps));
                let step = (changed.len() / 60).max(1);
                for (i, q) in changed.iter().enumerate() {
                    refused += form_one(&t, &write(q))?;
                    n += 1;
                    if i % step == 0 {
                        for q in change(q).iter().step_by(7) {
                            refused += form_one(&t, &write(q))?;
                            n += 1;
                        }
                    }
                }
                out(n, refused)
            });
        }
    }
    let keys = ["a", "b", "c", "c[a]", "c[b]", "a[a]", "a[b]", "c[a][a]", "c[a][b]", "c[c][0]", "c[c][1]", "b[a]", "c[", "zz", "zz[a]", "0", "1[a]"];
    let all: Vec<String> = keys.iter().flat_map(|k| ["1", "x"].map(|v| format!("{k}={v}&"))).collect();
    let tokens: Vec<&[u8]> = all.iter().map(|s| s.as_bytes()).collect();
    let len = ctx.pick(3, 4);
    for t in mc::form::targets() {
        if !["Y2", "Y3", "YIn", "YTup", "UTup", "UHold", "UNest", "UKeys"].contains(&t.ty.name.as_str()) {
            continue;
        }
        for i in 0..tokens.len() {
            ctx.case(&format!("sequences of pairs {}", t.ty.name), &|| all[i].to_string(), || {
                let (mut n, mut refused) = (0, 0);
                for k in 0..len {
                    sequences(&tokens, &[i], k, &mut |s| {
                        refused += form_one(&t, std::str::from_utf8(s).unwrap())?;
                        n += 1;
                        Ok(())
                    })?;
                }
                out(n, refused)
            });
        }
    }
}
// ---- MessagePack ----
fn mp_one(t: &'static Ty, b: &[u8]) -> Result<u64, String> {
    mc::at(b);
    let bad = |m: String| Err(format!("{:x?} as {}: {m}", &b[..b.len().min(200)], t.name));
    let r = catching(|| facet_msgpack::from_slice_value(facet_reflect::Wip::alloc_shape((t.shape)()), b).map(|_| ()));
    let e = match r {
        Err(m) => return bad(format!("panic: {m}")),
        Ok(Ok(())) => {
            return match msgpack(t, b) {
                Ok(f) if f.is_empty() => Ok(0),
                f => bad(format!("decoded in spite of {f:?}")),
            };
        }
        Ok(Err(e)) => e,
    };
    let text = e.to_string();
    let want = match msgpack(t, b) {
        Ok(f) if f.is_empty() => return bad(format!("refused without a fault: {text}")),
        Ok(f) => {
            return match tells(&text, &f) {
                Err(m) => bad(m),
                Ok(()) => Ok(1),
            };
        }
        Err(f) => f,
    };
    let got = match &e {
        DecodeError::UnexpectedType => MpFault::Kind,
        DecodeError::InsufficientData => MpFault::CutOff,
        DecodeError::InvalidData => MpFault::Malformed,
        DecodeError::IntegerOverflow => MpFault::Range,
        DecodeError::UnsupportedShape(_) | DecodeError::UnsupportedType(_) => MpFault::Unsupported,
        _ => return bad(format!("{e:?} instead of {want:?}")),
    };
    let words = match want {
        MpFault::CutOff => "insufficient",
        MpFault::Kind => "unexpected",
        MpFault::Range => "too large",
        MpFault::Malformed => "invalid",
        MpFault::Unsupported => "unsupported",
    };
    if got != want || !text.to_lowercase().contains(words) {
        return bad(format!("{e:?} ({text}) instead of {want:?}"));
    }
    Ok(1)
}
fn kinds() -> Vec<Mp> {
    let mut v = vec![Mp::Nil, Mp::Bool(true), Mp::F32(1), Mp::F64(2), Mp::Str(vec![]), Mp::Str(b"a".to_vec()), Mp::Str(vec![0xff]), Mp::Str(vec![b'x'; 40]), Mp::Str([vec![b'x'; 300], vec![0xc3]].concat())];
    for bits in [0, 5, 7, 8, 15, 16, 31, 32, 63] {
        for d in -1..=1 {
            for s in [1, -1] {
                v.push(Mp::Int((s * ((1i128 << bits) + d)).max(i64::MIN as i128)));
            }
        }
    }
    v.extend([Mp::Int(u64::MAX as i128), Mp::Bin(vec![1; 3]), Mp::Ext(5, vec![1; 4]), Mp::Ext(5, vec![1; 5]), Mp::Arr(vec![]), Mp::Arr(vec![Mp::Int(1); 16]), Mp::Map(vec![]), Mp::Map(vec![(Mp::Int(1), Mp::Nil)]), Mp::Map(vec![(Mp::Str(b"a".to_vec()), Mp::Int(1))])]);
    v
}
fn mp_changes(m: &Mp, kinds: &[Mp]) -> Vec<Mp> {
    let mut v = kinds.to_vec();
    if let Mp::Map(ms) = m {
        for i in 0..ms.len() {
            let mut e = ms.clone();
            e.remove(i);
            v.push(Mp::Map(e));
            for k in kinds {
                let mut e = ms.clone();
                e[i].0 = k.clone();
                v.push(Mp::Map(e));
                let mut e = ms.clone();
                e.insert(i, (Mp::Str(b"zz".to_vec()), k.clone()));
                v.push(Mp::Map(e));
            }
            for x in mp_changes(&ms[i].1, kinds) {
                let mut e = ms.clone();
                e[i].1 = x;
                v.push(Mp::Map(e));
            }
        }
    }
    v
}
fn run_msgpack(ctx: &mut Ctx) {
    macro_rules! table { ($($t:ty),* $(,)?) => { vec![$(<$t>::ty()),*] } }
    let mut types: Vec<&'static Ty> = msgpack_types!(table);
    types.extend([SE::ty(), <Vec<u8>>::ty(), <Option<u8>>::ty(), f64::ty(), E::ty(), <()>::ty(), char::ty(), usize::ty(), SD::ty(), <std::sync::Arc<String>>::ty()]);
    let kinds = kinds();
    let few: Vec<Mp> = kinds.iter().step_by(5).cloned().collect();
    for t in &types {
        ctx.case("msgpack kinds", &|| t.name.clone(), || {
            let (mut n, mut refused) = (0, 0);
            for k in &kinds {
                for wide in 0..9 {
                    let b = bytes(k, wide);
                    for cut in (0..=b.len().min(20)).chain([b.len()]) {
                        refused += mp_one(t, &b[..cut])?;
                        n += 1;
                    }
                }
            }
            out(n, refused)
        });
        let small = t.name != "Big" && t.name != "MNames";
        for v in domain::values(t, 1, 6, if small { ctx.pick(3, 20) } else { 1 }) {
            let Some(m) = encode(t, &v) else { continue };
            ctx.case(&format!("msgpack {}", t.name), &|| format!("{v:?}"), || {
                let (mut n, mut refused) = (0, 0);
                for c in mp_changes(&m, if small { &kinds } else { &few }) {
                    for wide in [0, 1, 2, 4, 8] {
                        refused += mp_one(t, &bytes(&c, wide))?;
                        n += 1;
                    }
                }
                let b = bytes(&m, 0);
                let mut go = |b: &[u8]| -> Result<(), String> {
                    refused += mp_one(t, b)?;
                    n += 1;
                    Ok(())
                };
                for i in 0..b.len() {
                    go(&b[..i])?;
                    for x in if small { (0..=255).collect::<Vec<u8>>() } else { vec![0, 0x7f, 0x81, 0x90, 0xa1, 0xc0, 0xc1, 0xc3, 0xc4, 0xcc, 0xd0, 0xd9, 0xde, 0xff] } {
                        let mut c = b.clone();
                        c[i] = x;
                        go(&c)?;
                        c.insert(i, x);
                        go(&c)?;
                    }
                    let mut c = b.clone();
                    c.remove(i);
                    go(&c)?;
                }
                out(n, refused)
            });
        }
    }
    let few = [u8::ty(), i64::ty(), bool::ty(), String::ty(), MOne::ty(), MTwo::ty(), MNest::ty(), UnitLike::ty(), <Vec<u8>>::ty(), f64::ty()];
    for a in 0..=255u8 {
        ctx.case("msgpack bytes", &|| format!("{a:#x} .."), || {
            let (mut n, mut refused) = (0, 0);
            for t in few {
                for start in [&b""[..], b"\x82\xa1a\x07\xa1z", b"\x81", b"\x81\xa1a", b"\x82\xa1z", b"\x81\xa1p\x81\xa1b"] {
                    for b in 0..=255u8 {
                        for c in [0u8, 1, 0x80, 0xa1, 0xc1, 0xff] {
                            refused += mp_one(t, &[start, &[a, b, c]].concat())?;
                            n += 1;
                        }
                        refused += mp_one(t, &[start, &[a, b]].concat())?;
                        n += 1;
                    }
                }
            }
            out(n, refused)
        });
    }
}
fn run(ctx: &mut Ctx) {
    run_toml(ctx);
    run_yaml(ctx);
    run_forms(ctx);
    run_msgpack(ctx);
}
