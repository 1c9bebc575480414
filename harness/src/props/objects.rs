//! C16 objects and arrays against a list model, C22 structural equality.

use super::rnd;
use crate::common::*;
use crate::engine::{expecting_panic, fail, show_bytes, Ctx, Fail, Gen, Target, R};
use crate::gens::{self, MStr, MVal};
use crate::refjson::{self, Config, Tree};
use crate::{check, same};
use justjson::doc::{Document, HeaplessDocument, Node};
use justjson::parser::{Token, Tokenizer};
use justjson::{Entry, JsonNumber, JsonString, Object, Value};

// ---------------------------------------------------------------------- C16

/// The model: strings by their decoded text, numbers by their spelling.
#[derive(Clone, Debug, PartialEq)]
enum M {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<M>),
    Obj(Vec<(String, M)>),
}
impl M {
    fn of(v: &MVal) -> M {
        match v {
            MVal::Null => M::Null,
            MVal::Bool(b) => M::Bool(*b),
            MVal::Num(n) => M::Num(n.clone()),
            MVal::Str(s) => M::Str(s.dec.clone()),
            MVal::Arr(v) => M::Arr(v.iter().map(M::of).collect()),
            MVal::Obj(v) => M::Obj(v.iter().map(|(k, x)| (k.dec.clone(), M::of(x))).collect()),
        }
    }
    fn of_tree(t: &Tree, src: &[u8]) -> M {
        let dec = |s: &refjson::Span| refjson::decode(s.text(src), gens::b_char());
        match t {
            Tree::Null => M::Null,
            Tree::Bool(b) => M::Bool(*b),
            Tree::Num(s) => M::Num(s.text(src).to_string()),
            Tree::Str(s) => M::Str(dec(s)),
            Tree::Arr(v) => M::Arr(v.iter().map(|x| M::of_tree(x, src)).collect()),
            Tree::Obj(v) => M::Obj(v.iter().map(|(k, x)| (dec(k), M::of_tree(x, src))).collect()),
        }
    }
    fn size(&self) -> usize {
        match self {
            M::Arr(v) => 1 + v.iter().map(M::size).sum::<usize>(),
            M::Obj(v) => 1 + v.iter().map(|(_, x)| 1 + x.size()).sum::<usize>(),
            _ => 1,
        }
    }
    fn depth(&self) -> usize {
        match self {
            M::Arr(v) => 1 + v.iter().map(M::depth).max().unwrap_or(0),
            M::Obj(v) => 1 + v.iter().map(|(_, x)| x.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
}

fn means(v: &Value<'_>, m: &M) -> R {
    match (v, m) {
        (Value::Null, M::Null) => Ok(()),
        (Value::Boolean(a), M::Bool(b)) if a == b => Ok(()),
        (Value::Number(n), M::Num(t)) if n.source() == t => Ok(()),
        (Value::String(s), M::Str(t)) if s.decoded().eq(t.chars()) => Ok(()),
        (Value::Array(a), M::Arr(b)) => {
            same!(a.len(), b.len(), "array length");
            a.iter().zip(b).try_for_each(|(x, y)| means(x, y))
        }
        (Value::Object(a), M::Obj(b)) => {
            same!(a.len(), b.len(), "object length");
            for (x, (k, y)) in a.iter().zip(b) {
                check!(x.key.decoded().eq(k.chars()), "key {:?} where {k:?} was expected", x.key);
                means(&x.value, y)?;
            }
            Ok(())
        }
        _ => fail(format!("value {v:?} where {m:?} was expected")),
    }
}

/// Material for new values: texts that outlive the value under test.
struct Pool {
    texts: Vec<(MVal, String)>,
    keys: Vec<MStr>,
}

const KEYS: [&str; 14] = [
    "a", "b", "", "ab", "A", "\u{e9}", "\"", "\\", "a\nb", "\u{1f600}", "\u{7}", "\u{8}", "\u{0}", "a\\u0062",
];

fn pool(g: &mut Gen<'_>) -> Pool {
    let n = 2 + g.below(4);
    let mut keys: Vec<MStr> = Vec::new();
    for _ in 0..1 + g.below(6) {
        let dec = if g.chance(1, 6) { gens::text(g, 12) } else { g.pick(&KEYS).to_string() };
        // often the same key in another spelling
        let style = g.below(4);
        keys.push(gens::spell(g, &dec, style));
        if g.bool() {
            let style = g.below(4);
            keys.push(gens::spell(g, &dec, style));
        }
    }
    let mut texts = Vec::new();
    for _ in 0..n {
        let w = gens::value(g, 3);
        let v = rekey(g, w, &keys);
        let style = gens::ws_style(g);
        let (t, _) = gens::emit(g, &v, style, false);
        texts.push((v, t.s));
    }
    Pool { texts, keys }
}

/// Gives most members keys from the pool, so that duplicates abound.
fn rekey(g: &mut Gen<'_>, v: MVal, keys: &[MStr]) -> MVal {
    match v {
        MVal::Arr(v) => MVal::Arr(v.into_iter().take(40).map(|x| rekey(g, x, keys)).collect()),
        MVal::Obj(v) => MVal::Obj(
            v.into_iter()
                .take(40)
                .map(|(k, x)| {
                    let k = if g.chance(3, 4) { g.pick(keys).clone() } else { k };
                    (k, rekey(g, x, keys))
                })
                .collect(),
        ),
        v => v,
    }
}

fn new_key<'p>(g: &mut Gen<'_>, p: &'p Pool) -> (JsonString<'p>, String) {
    let k = g.pick(&p.keys);
    let how = g.below(3);
    (build_str(k, how), k.dec.clone())
}

fn new_value<'p>(g: &mut Gen<'_>, p: &'p Pool, small: bool) -> (Value<'p>, M) {
    let k = if small { g.below(6) } else { g.below(10) };
    match k {
        0 => (Value::Null, M::Null),
        1 => {
            let b = g.bool();
            (Value::from(b), M::Bool(b))
        }
        2 => {
            let s = &g.pick(&p.keys).dec;
            (Value::from(s.as_str()), M::Str(s.clone()))
        }
        3 => {
            let s = gens::text(g, 8);
            (Value::from(s.clone()), M::Str(s))
        }
        4 => (Value::Array(Vec::new()), M::Arr(vec![])),
        5 => (Value::Object(Object::default()), M::Obj(vec![])),
        6 => {
            let (k1, m1) = new_key(g, p);
            let (v1, n1) = new_value(g, p, true);
            let mut o = Object::new();
            o.push(Entry::new(k1, v1));
            (Value::from(o), M::Obj(vec![(m1, n1)]))
        }
        _ => {
            let (m, t) = g.pick(&p.texts);
            (Value::from_json(t).expect("pool text parses"), M::of(m))
        }
    }
}

#[derive(Clone, Debug)]
enum Step {
    Index(usize, usize),
    Key(String, usize),
    Nth(usize, usize),
}

fn first(m: &[(String, M)], key: &str) -> Option<usize> {
    m.iter().position(|(k, _)| k == key)
}

/// A way to a node of the model.
fn path(g: &mut Gen<'_>, m: &M) -> Vec<Step> {
    let mut out = Vec::new();
    let mut at = m;
    while g.chance(3, 5) {
        match at {
            M::Arr(v) if !v.is_empty() => {
                let i = g.below(v.len());
                out.push(Step::Index(i, g.below(4)));
                at = &v[i];
            }
            M::Obj(v) if !v.is_empty() => {
                let i = g.below(v.len());
                let key = &v[i].0;
                if first(v, key) == Some(i) && g.chance(3, 4) {
                    out.push(Step::Key(key.clone(), g.below(6)));
                } else {
                    out.push(Step::Nth(i, g.below(3)));
                }
                at = &v[i].1;
            }
            _ => break,
        }
    }
    out
}

fn model_at<'m>(m: &'m mut M, path: &[Step]) -> &'m mut M {
    let mut at = m;
    for s in path {
        at = match (at, s) {
            (M::Arr(v), Step::Index(i, _)) => &mut v[*i],
            (M::Obj(v), Step::Nth(i, _)) => &mut v[*i].1,
            (M::Obj(v), Step::Key(k, _)) => {
                let i = first(v, k).expect("HARNESS: path");
                &mut v[i].1
            }
            _ => panic!("HARNESS: path"),
        };
    }
    at
}

fn value_at<'v, 'a>(v: &'v Value<'a>, path: &[Step]) -> Result<&'v Value<'a>, Fail> {
    let mut at = v;
    for s in path {
        let next = match s {
            Step::Index(i, 0) => at.get_index(*i),
            Step::Index(i, 1) => expecting_panic(|| &at[*i]),
            Step::Index(i, _) => at.as_array().and_then(|a| a.get(*i)),
            Step::Key(k, 0) => at.get(k),
            Step::Key(k, 1) => expecting_panic(|| &at[k.as_str()]),
            Step::Key(k, 2) => at.as_object().and_then(|o| o.get(k)),
            Step::Key(k, _) => at.as_object().and_then(|o| o.iter().find(|e| e.key == k.as_str()).map(|e| &e.value)),
            Step::Nth(i, 0) => at.as_object().map(|o| &o[*i].value),
            Step::Nth(i, _) => at.as_object().and_then(|o| o.iter().nth(*i)).map(|e| &e.value),
        };
        let Some(next) = next else { return fail(format!("{s:?} finds nothing in {at:?}")) };
        at = next;
    }
    Ok(at)
}

fn value_at_mut<'v, 'a>(v: &'v mut Value<'a>, path: &[Step]) -> Result<&'v mut Value<'a>, Fail> {
    let mut at = v;
    for s in path {
        let next = match s {
            Step::Index(i, 0) => at.get_index_mut(*i),
            Step::Index(i, 1) => expecting_panic(|| &mut at[*i]),
            Step::Index(i, _) => at.as_array_mut().and_then(|a| a.get_mut(*i)),
            Step::Key(k, 0) => at.get_mut(k),
            Step::Key(k, 1) => expecting_panic(|| &mut at[k.as_str()]),
            Step::Key(k, 2) => at.as_object_mut().and_then(|o| o.get_mut(k)),
            Step::Key(k, 3) => at.as_object_mut().and_then(|o| o.get_entry_mut(k)).map(|e| &mut e.value),
            Step::Key(k, _) => {
                at.as_object_mut().and_then(|o| o.iter_mut().find(|e| e.key == *k.as_str())).map(|e| &mut e.value)
            }
            Step::Nth(i, 0) => at.as_object_mut().map(|o| &mut o[*i].value),
            Step::Nth(i, _) => at.as_object_mut().and_then(|o| o.iter_mut().nth(*i)).map(|e| &mut e.value),
        };
        let Some(next) = next else { return fail(format!("{s:?} finds nothing (mutably)")) };
        at = next;
    }
    Ok(at)
}

/// Every read-only way of looking at the node.
fn looks(v: &Value<'_>, m: &M) -> R {
    same!(v.is_null(), matches!(m, M::Null), "is_null of {m:?}");
    same!(v.as_bool(), if let M::Bool(b) = m { Some(*b) } else { None }, "as_bool of {m:?}");
    match (v.as_number(), m) {
        (Some(n), M::Num(t)) => same!(n.source(), t, "number"),
        (None, M::Num(_)) | (Some(_), _) => return fail(format!("as_number of {m:?} is {:?}", v.as_number())),
        _ => {}
    }
    match (v.as_string(), m) {
        (Some(s), M::Str(t)) => check!(s.decoded().eq(t.chars()), "as_string of {m:?} is {s:?}"),
        (None, M::Str(_)) | (Some(_), _) => return fail(format!("as_string of {m:?} is {:?}", v.as_string())),
        _ => {}
    }
    if let Some(s) = v.as_str() {
        check!(matches!(m, M::Str(t) if t == s), "as_str of {m:?} is {s:?}");
    }
    match (v.as_array(), m) {
        (Some(a), M::Arr(b)) => same!(a.len(), b.len(), "as_array length"),
        (None, M::Arr(_)) | (Some(_), _) => return fail(format!("as_array of {m:?} is {:?}", v.as_array())),
        _ => {}
    }
    match (v.as_object(), m) {
        (Some(a), M::Obj(b)) => same!(a.len(), b.len(), "as_object length"),
        (None, M::Obj(_)) | (Some(_), _) => return fail(format!("as_object of {m:?} is {:?}", v.as_object())),
        _ => {}
    }
    Ok(())
}

/// Lookups by key: they find the first matching entry, itself and not a copy.
fn lookup_key(v: &mut Value<'_>, m: &M, key: &str) -> R {
    let want = if let M::Obj(e) = m { first(e, key) } else { None };
    let addr = match (want, &*v) {
        (Some(i), Value::Object(o)) => Some(std::ptr::from_ref(&o[i].value) as usize),
        _ => None,
    };
    let at = |r: Option<&Value<'_>>| r.map(|x| std::ptr::from_ref(x) as usize);
    macro_rules! ask {
        ($name:literal, $e:expr) => {
            let got = $e;
            check!(
                got == addr,
                "{} with {key:?} finds {} where the first matching entry is {want:?}",
                $name,
                if got.is_some() { "something" } else { "nothing" }
            );
        };
    }
    ask!("Value::get", at(v.get(key)));
    ask!("Value[key]", at(expecting_panic(|| &v[key])));
    ask!("Value::get_mut", at(v.get_mut(key).map(|x| &*x)));
    ask!("Value[key] (mutable)", {
        let r: Option<&mut Value<'_>> = expecting_panic(|| &mut v[key]);
        at(r.map(|x| &*x))
    });
    if let Some(o) = v.as_object() {
        ask!("Object::get", at(o.get(key)));
    }
    if let Some(o) = v.as_object_mut() {
        ask!("Object::get_mut", at(o.get_mut(key).map(|x| &*x)));
        ask!("Object::get_entry_mut", at(o.get_entry_mut(key).map(|e| &e.value)));
    }
    Ok(())
}

fn lookup_index(v: &mut Value<'_>, m: &M, i: usize) -> R {
    let addr = match (m, &*v) {
        (M::Arr(e), Value::Array(a)) if i < e.len() => Some(std::ptr::from_ref(&a[i]) as usize),
        _ => None,
    };
    let at = |r: Option<&Value<'_>>| r.map(|x| std::ptr::from_ref(x) as usize);
    macro_rules! ask {
        ($name:literal, $e:expr) => {
            let got = $e;
            check!(
                got == addr,
                "{} with {i} finds {} in {m:?}",
                $name,
                if got.is_some() { "something else" } else { "nothing" }
            );
        };
    }
    ask!("get_index", at(v.get_index(i)));
    ask!("Value[index]", at(expecting_panic(|| &v[i])));
    ask!("get_index_mut", at(v.get_index_mut(i).map(|x| &*x)));
    ask!("Value[index] (mutable)", {
        let r: Option<&mut Value<'_>> = expecting_panic(|| &mut v[i]);
        at(r.map(|x| &*x))
    });
    Ok(())
}

fn some_key(g: &mut Gen<'_>, p: &Pool, m: &M) -> String {
    let existing = if let M::Obj(e) = m { e } else { &Vec::new()[..] };
    match g.below(6) {
        0 | 1 if !existing.is_empty() => g.pick(existing).0.clone(),
        2 if !existing.is_empty() => {
            // nearly a key
            let mut k = g.pick(existing).0.clone();
            match g.below(4) {
                0 => {
                    k.pop();
                }
                1 => k.push('a'),
                2 => k = k.to_uppercase(),
                _ => k.insert(0, 'a'),
            }
            k
        }
        3 => g.pick(&p.keys).body().to_string(),
        4 => g.pick(&KEYS).to_string(),
        _ => g.pick(&p.keys).dec.clone(),
    }
}

fn mutate_object<'p>(g: &mut Gen<'_>, p: &'p Pool, o: &mut Object<'p>, m: &mut Vec<(String, M)>, small: bool) -> Result<&'static str, Fail> {
    let op = g.below(16);
    let n = m.len();
    Ok(match op {
        0 | 1 => {
            let (k, mk) = new_key(g, p);
            let (v, mv) = new_value(g, p, small);
            o.push(Entry::new(k, v));
            m.push((mk, mv));
            "push"
        }
        2 => {
            let (k, mk) = new_key(g, p);
            let (v, mv) = new_value(g, p, small);
            let i = g.range(0, n);
            o.insert(i, Entry { key: k, value: v });
            m.insert(i, (mk, mv));
            "insert"
        }
        3 if n > 0 => {
            let i = g.below(n);
            let e = o.remove(i);
            let (mk, mv) = m.remove(i);
            check!(e.key == mk.as_str(), "removed key {:?}", e.key);
            means(&e.value, &mv)?;
            "remove"
        }
        4 => {
            same!(o.pop().is_some(), m.pop().is_some(), "pop");
            "pop"
        }
        5 if n > 1 => {
            let (i, j) = (g.below(n), g.below(n));
            o.swap(i, j);
            m.swap(i, j);
            "swap"
        }
        6 => {
            // change the value under a key
            let key = some_key(g, p, &M::Obj(m.clone()));
            let (v, mv) = new_value(g, p, small);
            let i = first(m, &key);
            match (o.get_mut(&key), i) {
                (Some(x), Some(i)) => {
                    *x = v;
                    m[i].1 = mv;
                }
                (None, None) => {}
                (x, _) => return fail(format!("get_mut({key:?}) gives {x:?} with first match {i:?}")),
            }
            "set through get_mut"
        }
        7 => {
            // rename
            let key = some_key(g, p, &M::Obj(m.clone()));
            let (k, mk) = new_key(g, p);
            let i = first(m, &key);
            match (o.get_entry_mut(&key), i) {
                (Some(e), Some(i)) => {
                    e.key = k;
                    m[i].0 = mk;
                }
                (None, None) => {}
                (x, _) => return fail(format!("get_entry_mut({key:?}) gives {x:?} with first match {i:?}")),
            }
            "rename through get_entry_mut"
        }
        8 => {
            let at = g.range(0, n);
            o.truncate(at);
            m.truncate(at);
            "truncate"
        }
        9 => {
            o.reverse();
            m.reverse();
            "reverse"
        }
        10 => {
            o.sort_by(|a, b| a.key.cmp(&b.key));
            m.sort_by(|a, b| a.0.cmp(&b.0));
            "sort by key"
        }
        11 => {
            let key = some_key(g, p, &M::Obj(m.clone()));
            o.retain(|e| e.key != *key.as_str());
            m.retain(|(k, _)| *k != key);
            "retain other keys"
        }
        12 => {
            // through FromIterator of entries
            let taken = std::mem::take(o);
            let mut rest: Vec<Entry<'p>> = Vec::new();
            let mut taken = taken;
            rest.append(&mut taken);
            check!(taken.is_empty(), "append leaves entries behind");
            *o = rest.into_iter().collect();
            "collect from entries"
        }
        13 => {
            let mut taken = std::mem::take(o);
            *o = taken.drain(..).map(|e| (e.key, e.value)).collect();
            "collect from pairs"
        }
        14 => {
            let (k1, mk1) = new_key(g, p);
            let (k2, mk2) = new_key(g, p);
            let b = g.bool();
            o.extend([Entry::new(k1, b), Entry::new(k2, mk1.clone())]);
            m.push((mk1.clone(), M::Bool(b)));
            m.push((mk2, M::Str(mk1)));
            "extend"
        }
        _ => {
            let mut fresh = Object::with_capacity(n);
            check!(fresh.is_empty(), "an object made with a capacity is not empty");
            let start = fresh.as_ptr();
            fresh.append(o);
            check!(
                n == 0 || fresh.as_ptr() == start,
                "an object made for {n} entries was reallocated to hold them"
            );
            check!(o.is_empty(), "append leaves entries behind");
            *o = fresh;
            "move to a new object"
        }
    })
}

fn mutate_array<'p>(g: &mut Gen<'_>, p: &'p Pool, a: &mut Vec<Value<'p>>, m: &mut Vec<M>, small: bool) -> Result<&'static str, Fail> {
    let n = m.len();
    Ok(match g.below(8) {
        0 | 1 => {
            let (v, mv) = new_value(g, p, small);
            a.push(v);
            m.push(mv);
            "push"
        }
        2 => {
            let i = g.range(0, n);
            let (v, mv) = new_value(g, p, small);
            a.insert(i, v);
            m.insert(i, mv);
            "insert"
        }
        3 if n > 0 => {
            let i = g.below(n);
            means(&a.remove(i), &m.remove(i))?;
            "remove"
        }
        4 if n > 1 => {
            let (i, j) = (g.below(n), g.below(n));
            a.swap(i, j);
            m.swap(i, j);
            "swap"
        }
        5 => {
            let at = g.range(0, n);
            a.truncate(at);
            m.truncate(at);
            "truncate"
        }
        6 => {
            a.reverse();
            m.reverse();
            "reverse"
        }
        _ => {
            same!(a.pop().is_some(), m.pop().is_some(), "pop");
            "pop"
        }
    })
}

fn c16_history(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let p = pool(g);
    ctx.describe(|| {
        format!(
            "texts {:?}, keys {:?}",
            p.texts.iter().map(|t| &t.1).collect::<Vec<_>>(),
            p.keys.iter().map(|k| &k.quoted).collect::<Vec<_>>()
        )
    });
    let (mut v, mut m) = if g.chance(3, 4) {
        let (mv, t) = &p.texts[0];
        (
            Value::from_json(t).map_err(|e| Fail { msg: format!("{t} rejected: {e:?}") })?,
            M::of(mv),
        )
    } else {
        new_value(g, &p, false)
    };
    let mut trail: Vec<String> = Vec::new();
    let steps = 2 + g.size(40);
    let mut changes = 0usize;
    let mut dups = false;
    for _ in 0..steps {
        let small = m.size() > 300 || m.depth() > 8;
        let path = path(g, &m);
        let target = model_at(&mut m, &path);
        if let M::Obj(e) = &*target {
            dups |= e.iter().enumerate().any(|(i, (k, _))| first(e, k) != Some(i));
        }
        let r: Result<String, Fail> = (|| {
            Ok(match g.weighted(&[3, 3, 2, 8, 2]) {
                0 => {
                    let got = value_at(&v, &path)?;
                    looks(got, target)?;
                    String::from("look")
                }
                1 => {
                    let key = some_key(g, &p, target);
                    let got = value_at_mut(&mut v, &path)?;
                    lookup_key(got, target, &key)?;
                    format!("lookup {key:?}")
                }
                2 => {
                    let n = match &*target {
                        M::Arr(x) => x.len(),
                        M::Obj(x) => x.len(),
                        _ => 1,
                    };
                    let i = if g.chance(1, 20) { usize::MAX } else { g.range(0, n + 1) };
                    let got = value_at_mut(&mut v, &path)?;
                    lookup_index(got, target, i)?;
                    format!("lookup {i}")
                }
                3 => {
                    changes += 1;
                    let got = value_at_mut(&mut v, &path)?;
                    let what = match (target, got.as_object_mut().is_some(), got.as_array_mut().is_some()) {
                        (M::Obj(m), true, false) => {
                            mutate_object(g, &p, got.as_object_mut().unwrap(), m, small)?
                        }
                        (M::Arr(m), false, true) => {
                            mutate_array(g, &p, got.as_array_mut().unwrap(), m, small)?
                        }
                        (M::Arr(_) | M::Obj(_), o, a) | (_, o @ true, a) | (_, o, a @ true) => {
                            return fail(format!("as_object_mut is {o}, as_array_mut is {a}"))
                        }
                        (target, false, false) => {
                            let (x, mx) = new_value(g, &p, small);
                            *got = x;
                            *target = mx;
                            "assign"
                        }
                    };
                    what.to_string()
                }
                _ => {
                    changes += 1;
                    let (x, mx) = new_value(g, &p, small);
                    *value_at_mut(&mut v, &path)? = x;
                    *target = mx;
                    String::from("replace")
                }
            })
        })();
        if ctx.show {
            trail.push(format!("{path:?}.{}", r.as_deref().unwrap_or("?")));
        }
        match r {
            Ok(_) => {
                if g.chance(1, 4) {
                    means(&v, &m).map_err(|e| Fail { msg: format!("{} [history: {}]", e.msg, trail.join("; ")) })?;
                }
            }
            Err(e) => return fail(format!("{} [history: {}]", e.msg, trail.join("; "))),
        }
    }
    ctx.describe(|| format!("history: {}", trail.join("; ")));
    ctx.label_if(dups, "duplicate keys");
    if changes >= 3 {
        ctx.nontrivial(format!("{m:?}").as_bytes());
    }
    means(&v, &m)?;
    // what is printed is the model
    for pretty in [false, true] {
        let out = if pretty { v.to_json_pretty() } else { v.to_json() };
        let parsed = refjson::parse(out.as_bytes(), Config { limit: None, ..Config::DEFAULT });
        check!(parsed.fault.is_none(), "printed text is not valid: {}", show_bytes(out.as_bytes()));
        let got = M::of_tree(&refjson::tree(&parsed.events), out.as_bytes());
        check!(got == m, "printed {} for {m:?}", show_bytes(out.as_bytes()));
    }
    Ok(())
}

/// An object (or array) of `n` members, made in one of several ways, looked up
/// and changed at places all over it.
pub(super) fn crowd(g: &mut Gen<'_>, ctx: &mut Ctx, n: usize) -> R {
    let p = pool(g);
    let names = g.below(4);
    let name = |i: usize| match names {
        0 => i.to_string(),
        1 => format!("{:08x}", i.wrapping_mul(0x9E37_79B9) as u32),
        2 => format!("k\u{e9}\n{}", i ^ 0x55),
        _ => "a".repeat(1 + i % 7) + &(i / 7).to_string(),
    };
    // a few keys occur again
    let mut keys: Vec<String> = (0..n).map(name).collect();
    for _ in 0..g.below(4) {
        if n > 1 {
            let (i, j) = (g.below(n), g.below(n));
            keys[i.max(j)] = keys[i.min(j)].clone();
        }
    }
    let model: Vec<(String, M)> = keys.iter().enumerate().map(|(i, k)| (k.clone(), M::Num(i.to_string()))).collect();
    let text = {
        let mut t = String::from("{");
        for (i, k) in keys.iter().enumerate() {
            if i > 0 {
                t.push(',');
            }
            let style = if i % 97 == 5 { 2 } else { 0 };
            t.push_str(&gens::spell(&mut Gen::replay(&[]), k, style).quoted);
            t.push(':');
            t.push_str(&i.to_string());
        }
        t.push('}');
        t
    };
    let how = g.below(6);
    ctx.describe(|| format!("{n} members, keys like {:?}, made in way {how}", name(n / 2)));
    ctx.label(["parsed", "pushed", "collected from pairs", "collected from entries", "with a capacity", "collected without a size hint"][how]);
    ctx.nontrivial(&[n.to_le_bytes().as_slice(), &[names as u8, how as u8]].concat());
    let perr = |e: justjson::Error| Fail { msg: format!("rejected: {e:?}") };
    let nums: Vec<String> = (0..n).map(|i| i.to_string()).collect();
    let number = |i: usize| JsonNumber::from_json(&nums[i]).map(Value::Number).map_err(perr);
    let values = (0..n).map(number).collect::<Result<Vec<_>, _>>()?;
    let parsed = Value::from_json(&text).map_err(perr)?;
    let mut o: Object<'_> = match how {
        0 => match Value::from_json_bytes(text.as_bytes()).map_err(perr)? {
            Value::Object(o) => o,
            v => return fail(format!("{v:?} is no object")),
        },
        1 => {
            let mut o = Object::new();
            for (k, v) in keys.iter().zip(values) {
                o.push(Entry::new(k.as_str(), v));
            }
            o
        }
        2 => keys.iter().zip(values).map(|(k, v)| (JsonString::from(k.as_str()), v)).collect(),
        3 => keys.iter().zip(values).map(|(k, v)| Entry::new(k.clone(), v)).collect(),
        4 => {
            let mut o = Object::with_capacity(n);
            o.extend(keys.iter().zip(values).map(|(k, v)| Entry::new(k.as_str(), v)));
            o
        }
        _ => {
            let mut it = keys.iter().zip(values);
            std::iter::from_fn(|| it.next().map(|(k, v)| (JsonString::from(k.as_str()), v))).collect()
        }
    };
    // an array of the same size
    let mut m = M::Obj(model.clone());
    let mut arr = M::Arr(model.into_iter().map(|(_, v)| v).collect());
    let mut array: Value<'_> = Value::Array((0..n).map(number).collect::<Result<_, _>>()?);
    means(&array, &arr)?;
    let mut v = Value::from(std::mem::take(&mut o));
    means(&v, &m)?;
    check!(v == parsed && parsed == v, "made and parsed objects differ");
    let mut places = vec![0, 1, n / 2, n.saturating_sub(2), n.saturating_sub(1), n, n + 1, usize::MAX];
    for _ in 0..8 {
        places.push(g.below(n.max(1)));
    }
    for &i in &places {
        lookup_index(&mut array, &arr, i)?;
        if let Some(k) = keys.get(i) {
            lookup_key(&mut v, &m, k)?;
            lookup_key(&mut v, &m, &format!("{k}x"))?;
            lookup_key(&mut v, &m, &k[..k.len() - k.chars().next_back().map_or(0, char::len_utf8)])?;
        }
    }
    for _ in 0..6 {
        if let (M::Obj(m), Some(o)) = (&mut m, v.as_object_mut()) {
            if m.len() < n / 2 {
                break;
            }
            let what = mutate_object(g, &p, o, m, true)?;
            for i in [0, m.len() / 3, m.len().saturating_sub(1)] {
                if let Some((k, _)) = m.get(i) {
                    let k = k.clone();
                    let want = first(m, &k);
                    let at = o.iter().position(|e| e.key == k.as_str());
                    same!(at, want, "first entry {k:?} after {what}");
                    let got = o.get(&k).map(|x| std::ptr::from_ref(x));
                    same!(got, want.map(|i| std::ptr::from_ref(&o[i].value)), "get({k:?}) after {what}");
                }
            }
        }
        if let (M::Arr(m), Some(a)) = (&mut arr, array.as_array_mut()) {
            mutate_array(g, &p, a, m, true)?;
        }
    }
    means(&v, &m)?;
    means(&array, &arr)?;
    let out = v.to_json();
    let back = refjson::parse(out.as_bytes(), Config { limit: None, ..Config::DEFAULT });
    check!(back.fault.is_none(), "printed text is not valid");
    check!(M::of_tree(&refjson::tree(&back.events), out.as_bytes()) == m, "what is printed is not the object");
    Ok(())
}

/// Accessors over single values of every kind, indices and keys on all kinds.
fn c16_kinds(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let p = pool(g);
    let (mut v, m) = new_value(g, &p, false);
    ctx.describe(|| format!("{m:?}"));
    ctx.nontrivial(format!("{m:?}").as_bytes());
    looks(&v, &m)?;
    let mut keys: Vec<String> = KEYS.iter().map(|s| s.to_string()).collect();
    keys.extend(p.keys.iter().map(|k| k.dec.clone()));
    keys.extend(p.keys.iter().map(|k| k.body().to_string()));
    if let M::Obj(e) = &m {
        keys.extend(e.iter().map(|(k, _)| k.clone()));
    }
    keys.sort();
    keys.dedup();
    for k in keys {
        lookup_key(&mut v, &m, &k)?;
    }
    for i in [0, 1, 2, 3, 10, usize::MAX] {
        lookup_index(&mut v, &m, i)?;
    }
    // the mutable accessors exist for their own kind only
    same!(v.as_object_mut().is_some(), matches!(m, M::Obj(_)), "as_object_mut");
    same!(v.as_array_mut().is_some(), matches!(m, M::Arr(_)), "as_array_mut");
    Ok(())
}

pub fn c16() -> Vec<Target> {
    vec![
        rnd("c16.slices", c16_slices, 20_000, 400_000, "keys looked up by parts of their source; non-trivial: at least two are found"),
        rnd(
            "c16.history",
            c16_history,
            250_000,
            2_500_000,
            "values with colliding keys under random histories of lookups and changes at random places; \
             non-trivial: at least 3 changes",
        ),
        rnd("c16.kinds", c16_kinds, 100_000, 1_000_000, "every accessor and lookup on values of every kind"),
    ]
}

// ---------------------------------------------------------------------- C22

/// The same value spelled afresh.
fn respell(g: &mut Gen<'_>, v: &MVal) -> MVal {
    match v {
        MVal::Str(s) => {
            let style = g.below(4);
            MVal::Str(gens::spell(g, &s.dec, style))
        }
        MVal::Arr(x) => MVal::Arr(x.iter().map(|x| respell(g, x)).collect()),
        MVal::Obj(x) => MVal::Obj(
            x.iter()
                .map(|(k, x)| {
                    let style = g.below(4);
                    (gens::spell(g, &k.dec, style), respell(g, x))
                })
                .collect(),
        ),
        v => v.clone(),
    }
}

fn tweak_text(g: &mut Gen<'_>, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    match g.below(6) {
        0 => c.push('a'),
        1 => {
            c.pop();
        }
        2 if !c.is_empty() => {
            let i = g.below(c.len());
            c[i] = gens::char_of(g, gens::Chars::Any);
        }
        3 if !c.is_empty() => {
            let i = g.below(c.len());
            let flipped: Vec<char> = if c[i].is_uppercase() { c[i].to_lowercase().collect() } else { c[i].to_uppercase().collect() };
            c.splice(i..=i, flipped);
        }
        4 if c.len() > 1 => {
            let i = g.below(c.len() - 1);
            c.swap(i, i + 1);
        }
        _ => {
            // the text of an escape instead of what it denotes
            return s.escape_default().to_string();
        }
    }
    c.into_iter().collect()
}

/// Changes one place a little.
fn tweak(g: &mut Gen<'_>, at: &mut MVal) {
    // walk down to a random node
    let stop = g.chance(1, 3);
    match at {
        MVal::Arr(x) if !x.is_empty() && !stop => {
            let i = g.below(x.len());
            return tweak(g, &mut x[i]);
        }
        MVal::Obj(x) if !x.is_empty() && !stop => {
            let i = g.below(x.len());
            if g.chance(1, 4) {
                let t = tweak_text(g, &x[i].0.dec);
                let style = g.below(4);
                x[i].0 = gens::spell(g, &t, style);
                return;
            }
            return tweak(g, &mut x[i].1);
        }
        _ => {}
    }
    let pool: [MVal; 9] = [
        MVal::Null,
        MVal::Bool(true),
        MVal::Bool(false),
        MVal::Num("0".into()),
        MVal::Str(MStr::from_body("")),
        MVal::Str(MStr::from_body("null")),
        MVal::Str(MStr::from_body("0")),
        MVal::Arr(vec![]),
        MVal::Obj(vec![]),
    ];
    if g.chance(1, 3) {
        *at = g.pick(&pool).clone();
        return;
    }
    match at {
        MVal::Null => *at = g.pick(&pool).clone(),
        MVal::Bool(b) => *b = !*b,
        MVal::Num(n) => {
            // another spelling of the same or of another number
            match g.below(6) {
                0 => n.push('0'),
                1 => {
                    *n = match n.strip_prefix('-') {
                        Some(r) => r.to_string(),
                        None => format!("-{n}"),
                    }
                }
                2 if !n.contains(['.', 'e', 'E']) => n.push_str(".0"),
                3 if !n.contains(['e', 'E']) => n.push_str("e0"),
                4 => *n = n.to_uppercase(),
                _ => *n = gens::number(g),
            }
            if !refjson::accepts(n.as_bytes(), Config::DEFAULT) {
                *n = "1".into();
            }
        }
        MVal::Str(s) => {
            let t = tweak_text(g, &s.dec);
            let style = g.below(4);
            *s = gens::spell(g, &t, style);
        }
        MVal::Arr(x) => match g.below(5) {
            0 => x.push(MVal::Null),
            1 => {
                x.pop();
            }
            2 if x.len() > 1 => {
                let i = g.below(x.len() - 1);
                x.swap(i, i + 1);
            }
            3 if !x.is_empty() => {
                let i = g.below(x.len());
                let d = x[i].clone();
                x.insert(i, d);
            }
            _ => {
                let old = std::mem::replace(at, MVal::Null);
                *at = MVal::Arr(vec![old]);
            }
        },
        MVal::Obj(x) => match g.below(5) {
            0 => x.push((MStr::from_body("a"), MVal::Null)),
            1 => {
                x.pop();
            }
            2 if x.len() > 1 => {
                let i = g.below(x.len() - 1);
                x.swap(i, i + 1);
            }
            3 if !x.is_empty() => {
                let i = g.below(x.len());
                let d = x[i].clone();
                x.insert(i, d);
            }
            _ => {
                // the same content as an array
                let items = x.iter().map(|(_, v)| v.clone()).collect();
                *at = MVal::Arr(items);
            }
        },
    }
}

fn value_pair(g: &mut Gen<'_>) -> (MVal, MVal, &'static str) {
    let small = g.chance(2, 3);
    let a = if small {
        // few possibilities, so that accidental near-misses are common
        let n = g.below(4);
        let mk = |g: &mut Gen<'_>| match g.below(6) {
            0 => MVal::Null,
            1 => MVal::Bool(g.bool()),
            2 => MVal::Num((*g.pick(&["0", "1", "-0", "1.0"])).into()),
            3 => MVal::Str(gens::spell(g, "a", 0)),
            4 => MVal::Arr(vec![]),
            _ => MVal::Obj(vec![]),
        };
        if g.bool() {
            MVal::Arr((0..n).map(|_| mk(g)).collect())
        } else {
            MVal::Obj((0..n).map(|i| (MStr::from_body(["a", "b", "a", ""][i]), mk(g))).collect())
        }
    } else {
        gens::value(g, 6)
    };
    match g.below(4) {
        0 => {
            let b = respell(g, &a);
            (a, b, "respelled")
        }
        1 | 2 => {
            let mut b = respell(g, &a);
            for _ in 0..1 + g.below(2) {
                tweak(g, &mut b);
            }
            (a, b, "tweaked")
        }
        _ => {
            let b = gens::value(g, 2);
            (a, b, "independent")
        }
    }
}

fn entry_eq(a: &(String, M), b: &(String, M)) -> bool {
    a.0 == b.0 && a.1 == b.1
}

macro_rules! equal {
    ($a:expr, $b:expr, $want:expr, $($what:tt)*) => {{
        let (a, b, want) = (&$a, &$b, $want);
        let what = || format!($($what)*);
        check!((a == b) == want, "{}: == gives {} for {:?} and {:?}", what(), !want, a, b);
        check!((b == a) == want, "{}: == (flipped) gives {} for {:?} and {:?}", what(), !want, b, a);
        check!((a != b) != want, "{}: != gives {} for {:?} and {:?}", what(), want, a, b);
    }};
}

fn tokens(s: &str) -> Result<Vec<Token<'_>>, Fail> {
    Tokenizer::for_json(s)
        .collect::<Result<Vec<_>, _>>()
        .map_err(|e| Fail { msg: format!("{s} does not tokenize: {e:?}") })
}

fn c22_values(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let (ma, mb, how) = value_pair(g);
    ctx.label(how);
    equality(g, ctx, &ma, &mb)
}

/// Everything C22 says about two values.
pub(super) fn equality(g: &mut Gen<'_>, ctx: &mut Ctx, ma: &MVal, mb: &MVal) -> R {
    let (a, b) = (M::of(ma), M::of(mb));
    let want = a == b;
    let (sa, sb) = (gens::ws_style(g), gens::ws_style(g));
    let (ta, _) = gens::emit(g, ma, sa, false);
    let (tb, _) = gens::emit(g, mb, sb, false);
    ctx.describe(|| format!("{} and {}", show_bytes(ta.s.as_bytes()), show_bytes(tb.s.as_bytes())));
    ctx.label(if want { "equal" } else { "different" });
    if ma.is_container() && ta.s != tb.s {
        let mut id = ta.s.clone();
        id.push('|');
        id.push_str(&tb.s);
        ctx.nontrivial(id.as_bytes());
    }
    let perr = |e: justjson::Error| Fail { msg: format!("rejected: {e:?}") };
    let va = Value::from_json(&ta.s).map_err(perr)?;
    let vb = if g.bool() { Value::from_json_bytes(tb.s.as_bytes()).map_err(perr)? } else { build(g, mb, false) };
    let vc = build(g, ma, true);
    equal!(va, vb, want, "values");
    equal!(vc, vb, want, "a built value");
    equal!(va, vc, true, "parsed and built");
    equal!(va, va, true, "a value and itself");

    // objects and entries
    if let (Value::Object(x), Value::Object(y)) = (&va, &vb) {
        equal!(*x, *y, want, "objects");
    }
    if let (M::Obj(x), Value::Object(ox)) = (&a, &va) {
        let other = match (&b, &vb) {
            (M::Obj(y), Value::Object(oy)) => Some((y, oy)),
            _ => None,
        };
        for (i, ex) in ox.iter().enumerate().take(6) {
            for (j, ey) in ox.iter().enumerate().take(6) {
                equal!(*ex, *ey, entry_eq(&x[i], &x[j]), "entries of one object");
            }
            if let Some((y, oy)) = other {
                for (j, ey) in oy.iter().enumerate().take(6) {
                    equal!(*ex, *ey, entry_eq(&x[i], &y[j]), "entries");
                    equal!(ex.value, ey.value, x[i].1 == y[j].1, "member values");
                }
            }
        }
    }
    if let (M::Arr(x), Value::Array(vx)) = (&a, &va) {
        for i in 0..x.len().min(6) {
            for j in 0..x.len().min(6) {
                equal!(vx[i], vx[j], x[i] == x[j], "elements");
            }
        }
    }

    // documents and their nodes
    let da = Document::from_json(&ta.s).map_err(perr)?;
    let db = Document::from_json_bytes(tb.s.as_bytes()).map_err(perr)?;
    equal!(da, db, want, "documents");
    equal!(da, da, true, "a document and itself");
    let (na, nb): (Vec<Node<'_>>, Vec<Node<'_>>) = (da.iter().collect(), db.iter().collect());
    same!(na == nb, want, "node lists");
    let (mut la, mut lb) = (Vec::new(), Vec::new());
    preorder(ma, &mut la);
    preorder(mb, &mut lb);
    let mnode = |x: &MNode<'_>, y: &MNode<'_>| match (x, y) {
        (MNode::Null, MNode::Null) => true,
        (MNode::Bool(a), MNode::Bool(b)) => a == b,
        (MNode::Num(a), MNode::Num(b)) => a == b,
        (MNode::Str(a), MNode::Str(b)) => a.dec == b.dec,
        (MNode::Obj(a), MNode::Obj(b)) => a == b,
        (MNode::Arr(a), MNode::Arr(b)) => a == b,
        _ => false,
    };
    for (i, x) in na.iter().enumerate().take(8) {
        for (j, y) in nb.iter().enumerate().take(8) {
            equal!(*x, *y, mnode(&la[i], &lb[j]), "nodes");
        }
    }
    if na.len() <= 16 && nb.len() <= 16 {
        let ha = HeaplessDocument::<16>::from_json(&ta.s).map_err(perr)?;
        let hb = HeaplessDocument::<16>::from_json(&tb.s).map_err(perr)?;
        equal!(ha, hb, want, "bounded documents");
    }

    // tokens
    let (ka, kb) = (tokens(&ta.s)?, tokens(&tb.s)?);
    same!(ka == kb, want, "token lists");
    let tok_eq = |x: &Token<'_>, y: &Token<'_>| match (x, y) {
        (Token::String(s), Token::String(t)) => s.decoded().eq(t.decoded()),
        (Token::Number(s), Token::Number(t)) => s.source() == t.source(),
        (Token::Bool(s), Token::Bool(t)) => s == t,
        (x, y) => std::mem::discriminant(x) == std::mem::discriminant(y),
    };
    for x in ka.iter().take(8) {
        for y in kb.iter().take(8) {
            equal!(*x, *y, tok_eq(x, y), "tokens");
        }
    }
    Ok(())
}

/// Looking members up by parts of the source they were parsed from.
fn c16_slices(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let t = gens::text(g, 6);
    let mut members = Vec::new();
    for k in 0..g.range(1, 5) {
        // keys that begin alike
        let n = g.below(t.chars().count() + 1);
        let mut key: String = t.chars().take(n).collect();
        if g.chance(1, 3) {
            key += &gens::text(g, 2);
        }
        let style = g.below(4);
        members.push((gens::spell(g, &key, style), MVal::Num(k.to_string())));
    }
    let ws = gens::ws_style(g);
    let (e, _) = gens::emit(g, &MVal::Obj(members.clone()), ws, false);
    let s = &e.s;
    ctx.describe(|| s.clone());
    let mut v = Value::from_json(s).map_err(|e| Fail { msg: format!("{s}: rejected: {e:?}") })?;
    let ends: Vec<usize> = s.char_indices().map(|(k, _)| k).chain([s.len()]).collect();
    let mut found = 0;
    for (i, a) in ends.iter().enumerate() {
        for b in ends[i..].iter().take(12) {
            let key = &s[*a..*b];
            let want = members.iter().find(|(k, _)| k.dec == key).map(|(_, v)| match v {
                MVal::Num(n) => n.clone(),
                _ => String::new(),
            });
            found += u64::from(want.is_some());
            let text = |v: Option<&Value<'_>>| v.and_then(Value::as_number).map(|n| n.source().to_string());
            same!(text(v.get(key)), want, "get({key:?}), a part of {s}");
            same!(text(v.get_mut(key).map(|v| &*v)), want, "get_mut({key:?}), a part of {s}");
            if want.is_some() {
                same!(text(Some(&v[key])), want, "the value at {key:?}, a part of {s}");
            }
        }
    }
    if found > 1 {
        ctx.nontrivial(s.as_bytes());
    }
    Ok(())
}

/// Numbers that share their bytes.
fn c22_overlap(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let t = if g.bool() { gens::number(g) } else { gens::number(g) + &gens::number(g) };
    ctx.describe(|| t.clone());
    let mut all: Vec<(usize, usize)> = Vec::new();
    for i in 0..t.len().min(12) {
        for j in i + 1..=t.len().min(i + 12) {
            if refjson::accepts(t[i..j].as_bytes(), Config::DEFAULT) {
                all.push((i, j));
            }
        }
    }
    if all.len() > 2 {
        ctx.nontrivial(t.as_bytes());
    }
    let perr = |e: justjson::Error| Fail { msg: format!("a part of {t} is rejected: {e:?}") };
    for _ in 0..12 {
        if all.is_empty() {
            break;
        }
        let (i, j) = *g.pick(&all);
        let alike: Vec<(usize, usize)> = all.iter().copied().filter(|p| p.0 == i).collect();
        let (k, l) = if g.bool() { *g.pick(&alike) } else { *g.pick(&all) };
        let (a, b) = (&t[i..j], &t[k..l]);
        let (x, y) = (JsonNumber::from_json(a).map_err(perr)?, JsonNumber::from_json(b).map_err(perr)?);
        equal!(x, y, a == b, "numbers of one text");
        equal!(Value::from_json(a).map_err(perr)?, Value::from_json(b).map_err(perr)?, a == b, "values of one text");
        equal!(Document::from_json(a).map_err(perr)?, Document::from_json(b).map_err(perr)?, a == b, "documents of one text");
        equal!(Node::Number(x.clone()), Node::Number(y.clone()), a == b, "nodes of one text");
        equal!(Token::Number(x), Token::Number(y), a == b, "tokens of one text");
    }
    Ok(())
}

/// Numbers are equal by spelling; scalars of different kinds never.
fn c22_scalars(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let a = gens::number(g);
    let b = {
        let mut v = MVal::Num(a.clone());
        if g.chance(3, 4) {
            for _ in 0..8 {
                tweak(g, &mut v);
                if matches!(v, MVal::Num(_)) {
                    break;
                }
            }
        }
        match v {
            MVal::Num(n) => n,
            _ => gens::number(g),
        }
    };
    ctx.describe(|| format!("{a} and {b}"));
    if a != b {
        ctx.nontrivial(format!("{a}|{b}").as_bytes());
    }
    let perr = |e: justjson::Error| Fail { msg: format!("rejected: {e:?}") };
    let padded = format!(" {b} ");
    let (na, nb) = (JsonNumber::from_json(&a).map_err(perr)?, JsonNumber::from_json(&padded).map_err(perr)?);
    equal!(na, nb, a == b, "numbers");
    equal!(Value::Number(na.clone()), Value::Number(nb.clone()), a == b, "number values");
    equal!(Node::Number(na.clone()), Node::Number(nb.clone()), a == b, "number nodes");
    equal!(Token::Number(na.clone()), Token::Number(nb), a == b, "number tokens");
    // the same text as a string is something else
    equal!(Value::Number(na.clone()), Value::from(a.as_str()), false, "number and string");
    equal!(Node::Number(na), Node::String(JsonString::from(a.as_str())), false, "number and string nodes");
    Ok(())
}

pub fn c22() -> Vec<Target> {
    vec![
        rnd(
            "c22.values",
            c22_values,
            400_000,
            4_000_000,
            "pairs of values: respelled, minimally changed, independent; as values, objects, entries, documents, \
             nodes and tokens; non-trivial: containers with different texts",
        ),
        rnd("c22.overlap", c22_overlap, 60_000, 1_000_000, "numbers that share their bytes; non-trivial: more than two"),
        rnd("c22.scalars", c22_scalars, 200_000, 2_000_000, "pairs of numbers; non-trivial: different spellings"),
    ]
}
