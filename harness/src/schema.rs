//! C27: the schemas the program prints against the messages it reads and writes.
use crate::cli::{run, strs};
use crate::common::*;
use crate::msgs::gen_content;
use over_there::core::{Content, Reply, Request};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::Duration;

type Schemas = BTreeMap<String, Value>;

// ------------------------------------------------------------ validation
/// A JSON schema (draft 7, without the keywords for strings' and arrays'
/// shapes). Err = not valid and why; a keyword that is not known is reported
/// through `odd` and taken as satisfied.
struct Check<'a> {
    root: &'a Value,
    odd: Vec<String>,
}
impl<'a> Check<'a> {
    fn kind(v: &Value) -> &'static str {
        match v {
            Value::Null => "null",
            Value::Bool(_) => "boolean",
            Value::Number(n) if n.is_f64() => "number",
            Value::Number(_) => "integer",
            Value::String(_) => "string",
            Value::Array(_) => "array",
            Value::Object(_) => "object",
        }
    }
    fn valid(&mut self, s: &Value, v: &Value, depth: u32) -> Result<(), String> {
        if depth > 300 {
            self.odd.push("too deep".into());
            return Ok(());
        }
        let s = match s {
            Value::Bool(true) => return Ok(()),
            Value::Bool(false) => return Err("nothing is allowed here".into()),
            Value::Object(s) => s,
            x => {
                self.odd.push(truncate(&x.to_string(), 40));
                return Ok(());
            }
        };
        for (k, x) in s {
            match k.as_str() {
                "$ref" => {
                    let to = x.as_str().and_then(|p| p.strip_prefix('#')).and_then(|p| self.root.pointer(p));
                    match to {
                        Some(to) => self.valid(to, v, depth + 1)?,
                        None => return Err(format!("the reference {} leads nowhere", x)),
                    }
                }
                "type" => {
                    let is = Self::kind(v);
                    let fits = |t: &Value| t.as_str().map(|t| t == is || t == "number" && is == "integer").unwrap_or(false);
                    if !(fits(x) || x.as_array().map(|a| a.iter().any(fits)).unwrap_or(false)) {
                        return Err(format!("{} instead of {}", is, x));
                    }
                }
                "enum" => {
                    if !x.as_array().map(|a| a.contains(v)).unwrap_or(false) {
                        return Err(format!("{} is not one of {}", truncate(&v.to_string(), 80), truncate(&x.to_string(), 200)));
                    }
                }
                "const" => {
                    if x != v {
                        return Err(format!("{} is not {}", truncate(&v.to_string(), 80), x));
                    }
                }
                "minimum" => {
                    if let (Some(m), Some(n)) = (x.as_f64(), v.as_f64()) {
                        if n < m {
                            return Err(format!("{} is below {}", n, m));
                        }
                    }
                }
                "maximum" => {
                    if let (Some(m), Some(n)) = (x.as_f64(), v.as_f64()) {
                        if n > m {
                            return Err(format!("{} is above {}", n, m));
                        }
                    }
                }
                "required" => {
                    if let Some(o) = v.as_object() {
                        for f in x.as_array().into_iter().flatten().filter_map(|f| f.as_str()) {
                            if !o.contains_key(f) {
                                return Err(format!("{} is missing", f));
                            }
                        }
                    }
                }
                "properties" => {
                    if let (Some(o), Some(p)) = (v.as_object(), x.as_object()) {
                        for (f, fs) in p {
                            if let Some(fv) = o.get(f) {
                                self.valid(fs, fv, depth + 1).map_err(|e| format!("{}: {}", f, e))?;
                            }
                        }
                    }
                }
                "additionalProperties" => {
                    if let Some(o) = v.as_object() {
                        let known = s.get("properties").and_then(|p| p.as_object());
                        for (f, fv) in o {
                            if !known.map(|p| p.contains_key(f)).unwrap_or(false) {
                                self.valid(x, fv, depth + 1).map_err(|e| format!("{}: {}", f, e))?;
                            }
                        }
                    }
                }
                "items" => {
                    if let Some(a) = v.as_array() {
                        for (i, y) in a.iter().enumerate() {
                            let one = match x {
                                Value::Array(t) => t.get(i),
                                t => Some(t),
                            };
                            if let Some(one) = one {
                                self.valid(one, y, depth + 1).map_err(|e| format!("[{}]: {}", i, e))?;
                            }
                        }
                    }
                }
                "minItems" | "maxItems" => {
                    if let (Some(a), Some(n)) = (v.as_array(), x.as_u64()) {
                        let n = n as usize;
                        if k == "minItems" && a.len() < n || k == "maxItems" && a.len() > n {
                            return Err(format!("{} items ({} {})", a.len(), k, n));
                        }
                    }
                }
                "allOf" => {
                    for y in x.as_array().into_iter().flatten() {
                        self.valid(y, v, depth + 1)?;
                    }
                }
                "anyOf" | "oneOf" => {
                    let all: Vec<Value> = x.as_array().cloned().unwrap_or_default();
                    // the reason given is the one of the alternative that has the right tag
                    let mut why = None;
                    let mut fit = 0;
                    for y in &all {
                        match self.valid(y, v, depth + 1) {
                            Ok(()) => fit += 1,
                            Err(e) => {
                                if why.is_none() || !e.contains("is not one of") {
                                    why = Some(e)
                                }
                            }
                        }
                        if fit > 0 && k == "anyOf" {
                            break;
                        }
                    }
                    if fit == 0 {
                        return Err(format!("none of {} alternatives fits: {}", all.len(), why.unwrap_or_default()));
                    }
                    if fit > 1 && k == "oneOf" {
                        return Err(format!("{} of {} alternatives fit", fit, all.len()));
                    }
                }
                "not" => {
                    if self.valid(x, v, depth + 1).is_ok() {
                        return Err("is what it must not be".into());
                    }
                }
                "$schema" | "$id" | "$comment" | "title" | "description" | "default" | "examples" | "format" | "definitions"
                | "readOnly" | "writeOnly" => (),
                k => self.odd.push(k.to_string()),
            }
        }
        Ok(())
    }
}
/// None: cannot tell.
fn valid(c: &Ctx, schema: &Value, v: &Value) -> Option<Result<(), String>> {
    let mut k = Check { root: schema, odd: vec![] };
    let r = k.valid(schema, v, 0);
    if k.odd.is_empty() {
        Some(r)
    } else {
        for o in k.odd.iter().take(3) {
            c.inconclusive(&format!("schema keyword not understood: {}", o));
        }
        None
    }
}

// ------------------------------------------------------------ alterations
/// Paths of everything in a value.
fn places(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                at.push(k.clone());
                places(x, at, out);
                at.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate().take(20) {
                at.push(i.to_string());
                places(x, at, out);
                at.pop();
            }
        }
        _ => (),
    }
}
fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut v = v;
    for k in p {
        v = match v {
            Value::Object(o) => o.get_mut(k)?,
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(v)
}
/// Leaves a field out, or makes a value one of another kind. What is written is
/// of kinds about whose validity a schema and a parser have to agree (numbers
/// within their range, no lists for objects).
fn alter(v: &Value, r: &mut StdRng) -> Option<(Value, String)> {
    let mut all = vec![];
    places(v, &mut vec![], &mut all);
    all.retain(|p| !p.is_empty());
    let p = all.choose(r)?.clone();
    let (last, parent) = p.split_last()?;
    let mut w = v.clone();
    let parent = at(&mut w, parent)?;
    if r.gen_bool(0.5) {
        let gone = parent.as_object_mut()?.remove(last)?;
        return Some((w, format!("without {} ({})", p.join("."), truncate(&gone.to_string(), 60))));
    }
    let x = at(&mut w, &p)?;
    let was = x.clone();
    // what is text by its type is not always anything that text can be
    let new = match (&was, r.gen_range(0, 4)) {
        (Value::String(_), 0) => json!(5),
        (Value::String(_), 1) => json!(true),
        (Value::String(_), 2) => Value::Null,
        (Value::String(_), _) if last == "type" || last == "error_kind" => json!("nothing_of_the_kind"),
        (Value::String(_), _) => json!(["text"]),
        (Value::Number(_), 0) => json!("5"),
        (Value::Number(_), 1) => json!(true),
        (Value::Number(_), 2) => json!({}),
        (Value::Number(_), _) => json!(0.5),
        (Value::Bool(_), 0) => json!(1),
        (Value::Bool(_), 1) => json!("true"),
        (Value::Bool(_), 2) => Value::Null,
        (Value::Bool(b), _) => json!(!b),
        (Value::Array(_), 0) => json!("[]"),
        (Value::Array(_), 1) => json!({}),
        (Value::Array(_), 2) => json!([]),
        (Value::Array(_), _) => Value::Null,
        (Value::Object(_), 0) => json!("{}"),
        (Value::Object(_), 1) => json!({}),
        (Value::Object(_), 2) => json!(1),
        (Value::Object(_), _) => Value::Null,
        (Value::Null, 0) => json!(7),
        (Value::Null, 1) => json!({}),
        (Value::Null, 2) => json!("text"),
        (Value::Null, _) => json!([]),
    };
    *x = new.clone();
    Some((w, format!("with {} instead of {} at {}", new, truncate(&was.to_string(), 60), p.join("."))))
}

// ------------------------------------------------------------ the check
fn load(c: &Ctx) -> Option<Schemas> {
    let limit = Duration::from_secs(30);
    let list = run(&strs(&["schema", "list"]), b"", limit);
    let names: Vec<String> = list.stdout().lines().map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect();
    c.eval();
    if names.len() < 3 || !list.err.is_empty() {
        c.violation("list", &format!("schema list gave {:?} {:?}", list.stdout(), list.stderr()), json!({}));
        return None;
    }
    let mut out = Schemas::new();
    for n in names {
        let got = run(&strs(&["schema", "info", &n]), b"", limit);
        c.eval();
        c.count("schemas", 1);
        match serde_json::from_slice::<Value>(&got.out) {
            Ok(v) if v.is_object() && got.err.is_empty() => {
                if out.insert(n.clone(), v).is_some() {
                    c.violation("listed-twice", &format!("{} is listed twice", n), json!({}));
                }
            }
            x => c.violation("info", &format!("schema info {} gave {:?}, {:?}", n, x, truncate(&got.stderr(), 300)), json!({})),
        }
    }
    // a name that is not listed is refused
    let got = run(&strs(&["schema", "info", "nothing_of_the_kind"]), b"", limit);
    c.eval();
    if !got.out.is_empty() || got.err.is_empty() {
        c.violation("info-unlisted", &format!("schema info for an unlisted type gave {:?}", got.stdout()), json!({}));
    }
    Some(out)
}

fn one(c: &Ctx, all: &Schemas, name: &str, v: &Value, i: u64, whole: &Value) -> bool {
    let s = match all.get(name) {
        Some(s) => s,
        None => {
            c.violation("unlisted", &format!("{} is a type of message but not listed", name), json!({"case": i, "message": whole}));
            return false;
        }
    };
    match valid(c, s, v) {
        Some(Err(e)) => {
            c.violation(
                &format!("invalid-{}", name),
                &format!("a message of type {} is not valid by its schema {}: {}", whole["type"], name, e),
                json!({"case": i, "schema": name, "message": whole, "value": v}),
            );
            false
        }
        Some(Ok(())) => {
            c.count("valid", 1);
            true
        }
        None => true,
    }
}

pub fn c27(ctx: &Ctx) -> i32 {
    if let Some(all) = load(ctx) {
        let all = std::sync::Arc::new(all);
        let c = ctx.clone();
        par_cases(ctx, ctx.pick(60_000, 1_500_000), Duration::from_secs(ctx.pick(60, 600)), move |i| {
            let mut r = c.rng("schema", i);
            let content = gen_content(&mut r, i);
            let v = match serde_json::to_value(&content) {
                Ok(v) => v,
                // C20's business
                Err(_) => return c.inconclusive("not representable"),
            };
            c.eval();
            let name = v["type"].as_str().unwrap_or("").to_string();
            let side = if let Content::Request(_) = content { "request" } else { "reply" };
            let mut ok = one(&c, &all, "content", &v, i, &v) && one(&c, &all, side, &v, i, &v);
            let payload = v.get("payload").cloned().unwrap_or(Value::Null);
            ok = ok && one(&c, &all, &name, &payload, i, &v);
            if let (true, Content::Reply(Reply::Error(_))) = (ok, &content) {
                // listed with or without the _error of its tag
                let tag = payload["type"].as_str().unwrap_or("").to_string();
                let kind = if all.contains_key(&tag) { tag } else { tag.trim_end_matches("_error").to_string() };
                ok = one(&c, &all, &kind, &payload, i, &v);
            }
            if !ok {
                return;
            }
            c.count(&format!("type {}", name), 1);
            c.distinct(&v.to_string());
            // the other side's schema is about other messages
            let other = if side == "request" { "reply" } else { "request" };
            if let Some(Ok(())) = valid(&c, &all[other], &v) {
                return c.violation("wrong-side", &format!("{} is valid as a {} too", name, other), json!({"case": i, "message": v}));
            }
            // what the program cannot read is not valid, what it can is
            for _ in 0..6 {
                let (w, how) = match alter(&v, &mut r) {
                    Some(x) => x,
                    None => continue,
                };
                let read = match side {
                    "request" => serde_json::from_value::<Request>(w.clone()).map(Content::from).map_err(|e| e.to_string()),
                    _ => serde_json::from_value::<Reply>(w.clone()).map(Content::from).map_err(|e| e.to_string()),
                };
                for (s, strict) in &[(side, true), ("content", false)] {
                    let verdict = match valid(&c, &all[*s], &w) {
                        Some(x) => x,
                        None => continue,
                    };
                    let wit = || json!({"case": i, "schema": s, "altered": w, "message": v, "read": format!("{:?}", read), "valid": format!("{:?}", verdict)});
                    match (&read, &verdict) {
                        (Ok(_), Ok(())) => c.count("altered_valid_and_read", 1),
                        (Err(_), Err(_)) => c.count("altered_invalid_and_refused", 1),
                        (Ok(_), Err(e)) => {
                            return c.violation("too-strict", &format!("a {} {} can be read but is not valid by {}: {}", name, how, s, e), wit())
                        }
                        (Err(e), Ok(())) if *strict => {
                            return c.violation("too-loose", &format!("a {} {} is valid by {} but cannot be read: {}", name, how, s, e), wit())
                        }
                        _ => (),
                    }
                }
            }
            if i % 997 == 0 {
                c.sample(json!({"message": truncate(&v.to_string(), 300)}));
            }
        });
    }
    ctx.report_panics("schemas were printed");
    ctx.finish(
        "every type the program lists and the schema it prints for it, against seeded messages of every kind written \
         as JSON: each must be valid by the schemas for its type, its side and for all content; six alterations of each \
         (a field left out, a value of another kind) must be valid exactly if the program reads them; distinct by message",
        5_000,
        &["alterations keep numbers in range and replace no object by a list"],
    )
}
