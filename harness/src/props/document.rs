//! C10 documents as preorder listings, C11 bounded documents.

use super::{all, rnd};
use crate::common::*;
use crate::engine::{fail, show_bytes, Ctx, Gen, Target, R};
use crate::gens::{self, MVal};
use crate::refjson::{self, Config, Ev, Span};
use crate::{check, same};
use justjson::doc::{Document, DocumentIter, GenericDocument, HeaplessDocument, Node, NodeCollection};
use justjson::{Error, ErrorKind, Value};
use std::cell::RefCell;

// ---------------------------------------------------------------------- C10

/// A position of the listing: the node, the value that starts there (None for
/// a key) and where that value (or key) ends.
struct Pos<'m> {
    node: MNode<'m>,
    value: Option<&'m MVal>,
    end: usize,
}

fn positions<'m>(m: &'m MVal, out: &mut Vec<Pos<'m>>) {
    let at = out.len();
    let node = match m {
        MVal::Null => MNode::Null,
        MVal::Bool(b) => MNode::Bool(*b),
        MVal::Num(n) => MNode::Num(n),
        MVal::Str(s) => MNode::Str(s),
        MVal::Arr(v) => MNode::Arr(v.len()),
        MVal::Obj(v) => MNode::Obj(v.len()),
    };
    out.push(Pos { node, value: Some(m), end: 0 });
    match m {
        MVal::Arr(v) => v.iter().for_each(|x| positions(x, out)),
        MVal::Obj(v) => {
            for (k, x) in v {
                let end = out.len() + 1;
                out.push(Pos { node: MNode::Str(k), value: None, end });
                positions(x, out);
            }
        }
        _ => {}
    }
    out[at].end = out.len();
}

/// The remaining nodes of an iterator are those from `at` on.
fn remaining<'a>(it: impl Iterator<Item = Node<'a>>, pos: &[Pos<'_>], at: usize) -> R {
    let mut i = at;
    for n in it {
        check!(i < pos.len(), "node {n:?} beyond the end of the document ({} nodes)", pos.len());
        node_matches(&n, &pos[i].node).map_err(|e| crate::engine::Fail {
            msg: format!("node {i}: {}", e.msg),
        })?;
        i += 1;
    }
    same!(i, pos.len(), "nodes listed");
    Ok(())
}

fn history<'d, 'a>(
    g: &mut Gen<'_>,
    ctx: &mut Ctx,
    fresh: &dyn Fn(usize) -> DocumentIter<'d, 'a>,
    pos: &[Pos<'_>],
) -> R {
    let nodes: Vec<Node<'a>> = fresh(0).collect();
    adaptors(g, fresh(0), &nodes, "nodes")?;
    let mut pool: Vec<(DocumentIter<'d, 'a>, usize)> = vec![(fresh(0), 0)];
    let steps = g.size(60) + 3;
    let mut trail: Vec<String> = Vec::new();
    // walk mostly forwards: long containers are crossed by reads and skips
    for _ in 0..steps {
        let which = g.below(pool.len());
        let op = g.weighted(&[10, 5, 5, 3, 1, 1, 1, 1]);
        let mut added: Option<(DocumentIter<'d, 'a>, usize)> = None;
        let (it, at) = &mut pool[which];
        let show = ctx.show;
        let here = *at;
        let mut note = |s: &str| {
            if show {
                trail.push(format!("iter{which}@{here}.{s}"));
            }
        };
        let r: R = (|| {
            match op {
                0 => {
                    note("next");
                    let got = it.next();
                    match (got, pos.get(*at)) {
                        (None, None) => {}
                        (Some(n), Some(p)) => {
                            node_matches(&n, &p.node)?;
                            *at += 1;
                        }
                        (got, p) => {
                            return fail(format!("next gives {got:?} where {:?} was expected", p.map(|p| p.node)))
                        }
                    }
                }
                1 => {
                    note("next_value");
                    let got = it.next_value();
                    match (got, pos.get(*at)) {
                        (None, None) => {}
                        (Some(v), Some(p)) => {
                            match p.value {
                                Some(m) => value_matches(&v, m)?,
                                None => match (&v, &p.node) {
                                    (Value::String(s), MNode::Str(k)) => str_matches(s, k)?,
                                    _ => return fail(format!("next_value gives {v:?} for the key {:?}", p.node)),
                                },
                            }
                            *at = p.end;
                        }
                        (got, p) => {
                            return fail(format!(
                                "next_value gives {got:?} where {:?} was expected",
                                p.map(|p| p.node)
                            ))
                        }
                    }
                }
                2 => {
                    note("skip_next_value");
                    it.skip_next_value();
                    if let Some(p) = pos.get(*at) {
                        *at = p.end;
                    }
                }
                3 => {
                    note("clone");
                    added = Some((it.clone(), *at));
                }
                4 => {
                    note("collect a clone");
                    remaining(it.clone(), pos, *at)?;
                }
                5 => {
                    let n = g.below(6);
                    note(&format!("nth({n})"));
                    let got = it.nth(n);
                    let want = pos.get(*at + n);
                    match (got, want) {
                        (None, None) => {}
                        (Some(x), Some(p)) => node_matches(&x, &p.node)?,
                        (got, p) => return fail(format!("nth({n}) gives {got:?}, expected {:?}", p.map(|p| p.node))),
                    }
                    *at = (*at + n + 1).min(pos.len());
                }
                6 => {
                    note("count and size_hint of a clone");
                    let left = pos.len() - *at;
                    let (lo, hi) = it.size_hint();
                    check!(
                        lo <= left && hi.is_none_or(|h| h >= left),
                        "size_hint ({lo}, {hi:?}) with {left} nodes remaining"
                    );
                    same!(it.clone().count(), left, "count");
                }
                _ => {
                    note("fresh");
                    let from = g.below(2);
                    added = Some((fresh(from), 0));
                }
            }
            Ok(())
        })();
        if let Err(e) = r {
            return fail(format!("{} [history: {}]", e.msg, trail.join(", ")));
        }
        if let Some(c) = added {
            if pool.len() < 6 {
                pool.push(c);
            } else {
                let k = g.below(pool.len());
                pool[k] = c;
            }
        }
    }
    ctx.describe(|| format!("history: {}", trail.join(", ")));
    // everybody is still in step
    for (it, at) in pool {
        remaining(it, pos, at).map_err(|e| crate::engine::Fail {
            msg: format!("after the history: {} [history: {}]", e.msg, trail.join(", ")),
        })?;
    }
    Ok(())
}

fn c10_history(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let depth = if g.chance(1, 10) { 128 } else { 12 };
    let v = gens::value(g, depth);
    let style = gens::ws_style(g);
    let commas = g.chance(1, 6);
    let (t, _) = gens::emit(g, &v, style, commas);
    ctx.describe(|| format!("text {}", show_bytes(t.s.as_bytes())));
    listing(g, ctx, &v, &t.s, commas)
}

/// Everything C10 says about one text and its value.
pub(super) fn listing(g: &mut Gen<'_>, ctx: &mut Ctx, v: &MVal, src: &str, commas: bool) -> R {
    let mut pos = Vec::new();
    positions(v, &mut pos);
    check!(pos.len() == v.nodes(), "HARNESS: preorder listing of {v:?}");
    let cfg = lib_config(Config {
        trailing_commas: commas,
        limit: if g.bool() { Some(v.depth().max(1)) } else { Some(200) },
        any_root: true,
    });
    let bytes = g.bool();
    let plain = !commas && g.bool();
    let doc: Document<'_> = match (bytes, plain) {
        (false, false) => Document::from_json_with_config(src, cfg),
        (true, false) => Document::from_json_bytes_with_config(src.as_bytes(), cfg),
        (false, true) => Document::from_json(src),
        (true, true) => Document::from_json_bytes(src.as_bytes()),
    }
    .map_err(|e| crate::engine::Fail { msg: format!("the document parser rejects it: {e:?}") })?;

    let (mut objs, mut arrs) = (0, 0);
    v.visit(&mut |x| match x {
        MVal::Obj(m) if !m.is_empty() => objs += 1,
        MVal::Arr(m) if !m.is_empty() => arrs += 1,
        _ => {}
    });
    ctx.label_if(v.depth() > 60, "deep");
    ctx.label_if(v.nodes() > 300, "large");
    ctx.label_if(objs > 0 && arrs > 0, "objects and arrays");
    if v.depth() >= 2 {
        ctx.nontrivial(src.as_bytes());
    }

    remaining(doc.iter(), &pos, 0)?;
    remaining((&doc).into_iter(), &pos, 0)?;
    let fresh = |how: usize| if how == 0 { doc.iter() } else { (&doc).into_iter() };
    history(g, ctx, &fresh, &pos)?;

    // a whole conversion
    let from_iter = doc.iter().next_value();
    let Some(from_iter) = from_iter else { return fail(String::from("next_value gives nothing at the start")) };
    value_matches(&from_iter, v)?;
    let direct = Value::from_json_with_config(src, cfg).map_err(|e| crate::engine::Fail {
        msg: format!("the value parser rejects it: {e:?}"),
    })?;
    check!(from_iter == direct, "the document's value differs from the parsed value");
    let converted = Value::from(doc);
    value_matches(&converted, v)?;
    check!(converted == direct, "the converted document differs from the parsed value");
    Ok(())
}

/// All small shapes: every tree of at most four nodes of arrays, objects and
/// scalars, with every split of its listing into steps, reads and skips.
fn shapes(max_nodes: usize) -> Vec<MVal> {
    fn forests(n: usize, memo: &mut Vec<Option<Vec<Vec<MVal>>>>) -> Vec<Vec<MVal>> {
        // lists of array elements with n nodes in total
        if let Some(Some(x)) = memo.get(n) {
            return x.clone();
        }
        let mut out = Vec::new();
        if n == 0 {
            out.push(Vec::new());
        } else {
            for first in 1..=n {
                let heads = trees(first, memo);
                for rest in forests(n - first, memo) {
                    for h in &heads {
                        let mut v = vec![h.clone()];
                        v.extend(rest.iter().cloned());
                        out.push(v);
                    }
                }
            }
        }
        if memo.len() <= n {
            memo.resize(n + 1, None);
        }
        memo[n] = Some(out.clone());
        out
    }
    fn members(n: usize, memo: &mut Vec<Option<Vec<Vec<MVal>>>>) -> Vec<Vec<MVal>> {
        // lists of member values; each costs its nodes plus one for the key
        let mut out = Vec::new();
        if n == 0 {
            out.push(Vec::new());
        } else {
            for first in 2..=n {
                let heads = trees(first - 1, memo);
                for rest in members(n - first, memo) {
                    for h in &heads {
                        let mut v = vec![h.clone()];
                        v.extend(rest.iter().cloned());
                        out.push(v);
                    }
                }
            }
        }
        out
    }
    fn trees(n: usize, memo: &mut Vec<Option<Vec<Vec<MVal>>>>) -> Vec<MVal> {
        let mut out = Vec::new();
        if n == 1 {
            out.push(MVal::Null);
            out.push(MVal::Str(gens::MStr::from_body("s")));
        }
        for f in forests(n - 1, memo) {
            out.push(MVal::Arr(f));
        }
        for f in members(n - 1, memo) {
            out.push(MVal::Obj(
                f.into_iter()
                    .enumerate()
                    .map(|(i, v)| (gens::MStr::from_body(&format!("k{i}")), v))
                    .collect(),
            ));
        }
        out
    }
    let mut memo = Vec::new();
    (1..=max_nodes).flat_map(|n| trees(n, &mut memo)).collect()
}

fn shape_list() -> &'static [MVal] {
    static L: std::sync::OnceLock<Vec<MVal>> = std::sync::OnceLock::new();
    L.get_or_init(|| shapes(6))
}

fn plain_text(v: &MVal) -> String {
    let mut g = Gen::replay(&[]);
    gens::emit(&mut g, v, gens::Ws::None, false).0.s
}

/// Every walk: at each position step, read or skip, to the end.
fn walks<'d, 'a>(it: &DocumentIter<'d, 'a>, at: usize, pos: &[Pos<'_>]) -> R {
    let mut a = it.clone();
    let Some(p) = pos.get(at) else {
        check!(a.next().is_none() && a.next_value().is_none(), "something after the end");
        a.skip_next_value();
        check!(a.next().is_none(), "something after skipping at the end");
        return Ok(());
    };
    let Some(n) = a.next() else { return fail(format!("nothing at position {at}")) };
    node_matches(&n, &p.node)?;
    walks(&a, at + 1, pos)?;
    let mut b = it.clone();
    b.skip_next_value();
    let mut c = it.clone();
    let Some(v) = c.next_value() else { return fail(format!("no value at position {at}")) };
    match p.value {
        Some(m) => value_matches(&v, m)?,
        None => check!(matches!(v, Value::String(_)), "key position {at} reads as {v:?}"),
    }
    if p.end == at + 1 {
        // same continuation as stepping; a glance is enough
        let rest = |it: &DocumentIter<'d, 'a>| it.clone().count();
        same!(rest(&b), pos.len() - p.end, "nodes left after skipping at {at}");
        same!(rest(&c), pos.len() - p.end, "nodes left after reading at {at}");
        return Ok(());
    }
    walks(&b, p.end, pos)?;
    walks(&c, p.end, pos)
}

fn c10_shapes(i: u64, ctx: &mut Ctx) -> R {
    let v = &shape_list()[i as usize];
    let src = plain_text(v);
    ctx.describe(|| src.clone());
    let mut pos = Vec::new();
    positions(v, &mut pos);
    let doc = Document::from_json(&src).map_err(|e| crate::engine::Fail { msg: format!("{src} rejected: {e:?}") })?;
    if v.nodes() > 2 {
        ctx.nontrivial(src.as_bytes());
    }
    walks(&doc.iter(), 0, &pos).map_err(|e| crate::engine::Fail { msg: format!("{src}: {}", e.msg) })
}

/// Nesting far beyond the default limit: listing, skipping and reading at
/// every depth.
fn c10_nesting(i: u64, ctx: &mut Ctx) -> R {
    let Some((depth, shape, s)) = nesting_case(i, 1100) else { return Ok(()) };
    ctx.describe(|| format!("nesting of {depth}, shape {shape}"));
    if depth > 1 {
        ctx.nontrivial(s.as_bytes());
    }
    let rcfg = Config { trailing_commas: true, limit: None, any_root: true };
    let cfg = lib_config(rcfg);
    let at = |msg: String| crate::engine::Fail { msg: format!("nesting of {depth}, shape {shape}: {msg}") };
    let doc = Document::from_json_with_config(&s, cfg).map_err(|e| at(format!("rejected: {e:?}")))?;
    let direct = Value::from_json_with_config(&s, cfg).map_err(|e| at(format!("rejected: {e:?}")))?;
    // the listing, from the value, without recursion
    enum Item<'v, 'a> {
        Key(&'v justjson::JsonString<'a>),
        Val(&'v Value<'a>),
    }
    let mut todo = vec![Item::Val(&direct)];
    let mut nodes = doc.iter();
    // (position, nodes after the value that starts there) of containers
    let mut open: Vec<usize> = Vec::new();
    let mut position = 0;
    while let Some(x) = todo.pop() {
        let n = nodes.next();
        let ok = match (&x, &n) {
            (Item::Key(k), Some(Node::String(t))) => *k == t,
            (Item::Val(Value::Object(o)), Some(Node::Object { length })) => o.len() == *length,
            (Item::Val(Value::Array(o)), Some(Node::Array { length })) => o.len() == *length,
            (Item::Val(Value::Number(x)), Some(Node::Number(y))) => x == y,
            _ => false,
        };
        check!(ok, "nesting of {depth}, shape {shape}: node {position} is {n:?}");
        match x {
            Item::Val(Value::Object(o)) => {
                open.push(position);
                for e in o.iter().rev() {
                    todo.push(Item::Val(&e.value));
                    todo.push(Item::Key(&e.key));
                }
            }
            Item::Val(Value::Array(o)) => {
                open.push(position);
                todo.extend(o.iter().rev().map(Item::Val));
            }
            _ => {}
        }
        position += 1;
    }
    check!(nodes.next().is_none(), "nesting of {depth}, shape {shape}: nodes beyond the listing");
    // from every container near the ends and some between
    for (k, at) in open.iter().enumerate() {
        if k > 8 && k + 8 < open.len() && k % 97 != 0 {
            continue;
        }
        let mut skip = doc.iter();
        let mut read = doc.iter();
        for _ in 0..*at {
            skip.next();
            read.next();
        }
        let mut inner = skip.clone();
        skip.skip_next_value();
        let v = read.next_value();
        let (a, b) = (skip.count(), read.count());
        check!(v.is_some() && a == b, "nesting of {depth}, shape {shape}: after position {at}, {a} nodes are left by skipping and {b} by reading");
        // the container and all it holds
        let mut left = 1usize;
        let mut used = 0usize;
        while left > 0 {
            left -= 1;
            used += 1;
            left += match inner.next() {
                Some(Node::Object { length }) => 2 * length,
                Some(Node::Array { length }) => length,
                _ => 0,
            };
        }
        check!(position - at - used == a, "nesting of {depth}, shape {shape}: position {at} holds {used} nodes, skipping leaves {a} of {position}");
    }
    let converted = Value::from(doc);
    check!(converted == direct, "nesting of {depth}, shape {shape}: the converted document differs from the parsed value");
    Ok(())
}

pub fn c10() -> Vec<Target> {
    let n = shape_list().len() as u64;
    vec![
        all(
            "c10.nesting",
            c10_nesting,
            nesting_cases(),
            nesting_cases(),
            "40 depths (up to 1025) x 8 shapes without a limit, reading and skipping at containers of every depth; \
             non-trivial: nesting of at least 2",
        ),
        rnd(
            "c10.history",
            c10_history,
            400_000,
            4_000_000,
            "generated tree spelled, parsed as a document, random history of next/next_value/skip/nth/clone; \
             non-trivial: nesting of at least 2",
        ),
        all(
            "c10.shapes",
            c10_shapes,
            n,
            n,
            "every tree of up to six nodes, every walk of steps, reads and skips; non-trivial: more than 2 nodes",
        ),
    ]
}

// ---------------------------------------------------------------------- C11

/// How many nodes the text stores before its fault, in the reference.
fn stored_nodes(p: &refjson::Parsed) -> usize {
    p.events.iter().filter(|e| is_node(e)).count()
}
fn is_node(e: &Ev) -> bool {
    matches!(
        e,
        Ev::Null | Ev::Bool(_) | Ev::Num(_) | Ev::Str(_) | Ev::BeginObject | Ev::BeginArray | Ev::Key(_)
    )
}

/// Is the fault the first thing the text shows after its last stored node?
/// Then either of the two may be noticed first.
fn fault_follows(p: &refjson::Parsed) -> bool {
    p.fault.is_some() && p.events.last().is_some_and(is_node)
}

type Got<'a> = Result<Vec<Node<'a>>, Error>;
type Bounded = for<'a> fn(&'a [u8], usize, justjson::parser::ParseConfig) -> Option<Got<'a>>;

fn heapless_run<const N: usize>(b: &[u8], how: usize, cfg: justjson::parser::ParseConfig) -> Option<Got<'_>> {
    let r: Result<HeaplessDocument<'_, N>, Error> = match how {
        0 => HeaplessDocument::from_json_with_config(std::str::from_utf8(b).ok()?, cfg),
        1 => HeaplessDocument::from_json_bytes_with_config(b, cfg),
        2 => HeaplessDocument::from_json(std::str::from_utf8(b).ok()?),
        _ => HeaplessDocument::from_json_bytes(b),
    };
    Some(r.map(|d| {
        let v: Vec<Node<'_>> = d.iter().collect();
        v
    }))
}

macro_rules! capacities {
    ($($n:literal)*) => {
        const CAPACITIES: &[(usize, Bounded)] = &[$(($n, heapless_run::<$n>)),*];
    };
}
capacities!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 40 50 63 64 65 100 128 200 256 400);

fn nodes_eq(a: &[Node<'_>], b: &[Node<'_>]) -> R {
    same!(a.len(), b.len(), "number of nodes");
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        let ok = match (x, y) {
            (Node::String(s), Node::String(t)) => {
                s.as_json_str().map(|a| a.as_str()) == t.as_json_str().map(|a| a.as_str())
            }
            (Node::Number(s), Node::Number(t)) => s.source() == t.source(),
            _ => x == y,
        };
        check!(ok, "node {i}: got {x:?}, expected {y:?}");
    }
    Ok(())
}

fn c11_heapless(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let (b, cfg) = match g.below(4) {
        0 => {
            let (b, _) = gens::any_input(g, 12);
            (b, gen_cfg(g, 6))
        }
        _ => {
            let (_, t) = gens::valid_text(g, 12);
            (t.s.into_bytes(), Config::DEFAULT)
        }
    };
    bounded_case(g, ctx, &b, cfg)
}

fn bounded_case(g: &mut Gen<'_>, ctx: &mut Ctx, b: &[u8], cfg: Config) -> R {
    let p = refjson::parse(b, cfg);
    let n = stored_nodes(&p);
    // aim around the node count
    let (cap, run) = {
        let near: Vec<&(usize, Bounded)> = CAPACITIES.iter().filter(|(c, _)| c.abs_diff(n) <= 2).collect();
        if !near.is_empty() && g.chance(4, 5) {
            **g.pick(&near)
        } else {
            *g.pick(CAPACITIES)
        }
    };
    let lc = lib_config(cfg);
    let utf8 = std::str::from_utf8(b).is_ok();
    let plain = cfg == Config::DEFAULT && g.bool();
    let text = utf8 && g.bool();
    let how = match (plain, text) {
        (false, true) => 0,
        (false, false) => 1,
        (true, true) => 2,
        (true, false) => 3,
    };
    ctx.describe(|| format!("capacity {cap}, {n} nodes, {} [{}] entry {how}", show_bytes(b), show_config(&cfg)));
    let unbounded: Got<'_> = if text {
        Document::from_json_with_config(std::str::from_utf8(b).unwrap(), lc).map(|d| d.iter().collect())
    } else {
        Document::from_json_bytes_with_config(b, lc).map(|d| d.iter().collect())
    };
    let Some(got) = run(b, how, lc) else { return Ok(()) };
    ctx.label_if(n == cap, "exactly full");
    ctx.label_if(n == cap + 1, "one too many");
    ctx.label_if(p.fault.is_some(), "invalid text");
    if n > 1 && cap > 0 && n.abs_diff(cap) <= 2 {
        let mut id = b.to_vec();
        id.extend_from_slice(&cap.to_le_bytes());
        ctx.nontrivial(&id);
    }
    let fits = n <= cap;
    match got {
        Ok(nodes) => {
            check!(p.fault.is_none(), "capacity {cap} accepts the invalid text {}", show_bytes(b));
            check!(fits, "capacity {cap} accepts {n} nodes");
            let Ok(want) = unbounded else {
                return fail(String::from("the unbounded document rejects what the bounded one accepts"));
            };
            nodes_eq(&nodes, &want)
        }
        Err(e) => {
            check!(e.offset() <= b.len(), "offset {} beyond the source ({})", e.offset(), b.len());
            if fits {
                let Err(want) = unbounded else {
                    return fail(format!("capacity {cap} rejects a document of {n} nodes: {e:?}"));
                };
                same!(err_pair(&e), err_pair(&want), "error of the bounded document");
                Ok(())
            } else if *e.kind() == ErrorKind::PaylodTooLarge {
                Ok(())
            } else if n == cap + 1 && fault_follows(&p) {
                let Err(want) = unbounded else {
                    return fail(format!("{e:?} for a payload that is too large"));
                };
                same!(err_pair(&e), err_pair(&want), "error of the bounded document");
                Ok(())
            } else {
                fail(format!("error {:?} instead of PaylodTooLarge ({n} nodes, capacity {cap})", e.kind()))
            }
        }
    }
}

/// Every small text against every small capacity.
fn c11_small(i: u64, ctx: &mut Ctx) -> R {
    let v = &shape_list()[(i / 9) as usize];
    let cap = (i % 9) as usize;
    let src = plain_text(v);
    let n = v.nodes();
    ctx.describe(|| format!("capacity {cap}, {src}"));
    if n > 1 {
        ctx.nontrivial(&i.to_le_bytes());
    }
    for how in 0..4 {
        let (_, run) = CAPACITIES[cap];
        let got = run(src.as_bytes(), how, justjson::parser::ParseConfig::new()).unwrap();
        match got {
            Ok(nodes) => {
                check!(n <= cap, "capacity {cap} accepts {src} ({n} nodes)");
                let mut want = Vec::new();
                preorder(v, &mut want);
                same!(nodes.len(), want.len(), "number of nodes of {src}");
                for (a, b) in nodes.iter().zip(&want) {
                    node_matches(a, b)?;
                }
            }
            Err(e) => {
                check!(n > cap, "capacity {cap} rejects {src} ({n} nodes): {e:?}");
                same!(*e.kind(), ErrorKind::PaylodTooLarge, "error kind for {src} in capacity {cap}");
                check!(e.offset() <= src.len(), "offset {} for {src}", e.offset());
            }
        }
    }
    Ok(())
}

// a collection with a plan

#[derive(Clone, Debug, PartialEq)]
enum Print {
    Null,
    Bool(bool),
    Str(Span),
    Num(Span),
    Obj,
    Arr,
}

#[derive(Default)]
struct Plan {
    base: usize,
    len: usize,
    fail_at: Option<usize>,
    kind: Option<ErrorKind>,
    /// Whether the node is stored although it is refused.
    keeps: bool,
    offered: Vec<Option<Print>>,
    after_failure: usize,
}
thread_local! {
    static PLAN: RefCell<Plan> = RefCell::new(Plan::default());
}

#[derive(Debug, Default, PartialEq)]
struct Planned<'a>(Vec<Node<'a>>);
impl<'a> AsRef<[Node<'a>]> for Planned<'a> {
    fn as_ref(&self) -> &[Node<'a>] {
        &self.0
    }
}
impl<'a> AsMut<[Node<'a>]> for Planned<'a> {
    fn as_mut(&mut self) -> &mut [Node<'a>] {
        &mut self.0
    }
}
impl<'a> IntoIterator for Planned<'a> {
    type Item = Node<'a>;
    type IntoIter = std::vec::IntoIter<Node<'a>>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a> NodeCollection<'a> for Planned<'a> {
    fn push(&mut self, node: Node<'a>) -> Result<(), ErrorKind> {
        PLAN.with(|p| {
            let mut p = p.borrow_mut();
            let at = |s: &str| {
                let lo = (s.as_ptr() as usize).wrapping_sub(p.base);
                if lo <= p.len && lo + s.len() <= p.len {
                    Some(Span { lo, hi: lo + s.len() })
                } else {
                    None
                }
            };
            let print = match &node {
                Node::Null => Some(Print::Null),
                Node::Boolean(b) => Some(Print::Bool(*b)),
                Node::String(s) => s.as_json_str().and_then(|s| at(s.as_str())).map(Print::Str),
                Node::Number(n) => at(n.source()).map(Print::Num),
                Node::Object { length: 0 } => Some(Print::Obj),
                Node::Array { length: 0 } => Some(Print::Arr),
                _ => None,
            };
            if p.fail_at.is_some_and(|k| p.offered.len() > k) {
                p.after_failure += 1;
            }
            let now = p.offered.len();
            p.offered.push(print);
            if p.fail_at == Some(now) {
                if p.keeps {
                    self.0.push(node);
                }
                return Err(p.kind.clone().unwrap());
            }
            self.0.push(node);
            Ok(())
        })
    }
}

fn any_kind(g: &mut Gen<'_>) -> ErrorKind {
    let b = g.below(256) as u8;
    let kinds = [
        ErrorKind::PaylodTooLarge,
        ErrorKind::UnexpectedEof,
        ErrorKind::Utf8,
        ErrorKind::ExpectedObjectKey,
        ErrorKind::ExpectedColon,
        ErrorKind::ExpectedValue,
        ErrorKind::ExpectedCommaOrEndOfObject,
        ErrorKind::ExpectedCommaOrEndOfArray,
        ErrorKind::IllegalTrailingComma,
        ErrorKind::Unexpected(b),
        ErrorKind::TrailingNonWhitespace,
        ErrorKind::ObjectKeysMustBeStrings,
        ErrorKind::ExpectedExponent,
        ErrorKind::ExpectedDecimalDigit,
        ErrorKind::ExpectedDigit,
        ErrorKind::InvalidHexadecimal,
        ErrorKind::InvalidEscape,
        ErrorKind::UnclosedObject,
        ErrorKind::UnclosedArray,
        ErrorKind::UnclosedString,
        ErrorKind::ExpectedString,
        ErrorKind::ExpectedNumber,
        ErrorKind::RecursionLimitReached,
        ErrorKind::PayloadsShouldBeObjectOrArray,
    ];
    g.pick(&kinds).clone()
}

fn c11_planned(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let (b, cfg) = match g.below(5) {
        0 => {
            let (b, _) = gens::any_input(g, 12);
            (b, gen_cfg(g, 6))
        }
        _ => {
            let v = gens::value(g, 12);
            let style = gens::ws_style(g);
            let commas = g.chance(1, 5);
            let (t, _) = gens::emit(g, &v, style, commas);
            (t.s.into_bytes(), Config { trailing_commas: commas, ..Config::DEFAULT })
        }
    };
    planned(g, ctx, &b, cfg)
}

pub(super) fn planned(g: &mut Gen<'_>, ctx: &mut Ctx, b: &[u8], cfg: Config) -> R {
    let p = refjson::parse(b, cfg);
    let n = stored_nodes(&p);
    let text = std::str::from_utf8(b).is_ok() && g.bool();
    let kind = any_kind(g);
    let keeps = g.chance(1, 3);
    ctx.label_if(keeps, "refused nodes are stored");
    // every position on small documents, a few on large ones
    let ks: Vec<Option<usize>> = if n <= 24 {
        (0..n).map(Some).chain([None, Some(n)]).collect()
    } else {
        (0..12).map(|_| Some(g.below(n))).chain([None, Some(n - 1), Some(n)]).collect()
    };
    ctx.describe(|| format!("{kind:?} at every k, {n} nodes, {} [{}]", show_bytes(b), show_config(&cfg)));
    ctx.label_if(p.fault.is_some(), "invalid text");
    if n > 1 {
        ctx.nontrivial(b);
    }
    let want: Vec<Print> = p
        .events
        .iter()
        .filter_map(|e| match *e {
            Ev::Null => Some(Print::Null),
            Ev::Bool(b) => Some(Print::Bool(b)),
            Ev::Num(s) => Some(Print::Num(s)),
            Ev::Str(s) | Ev::Key(s) => Some(Print::Str(s)),
            Ev::BeginObject => Some(Print::Obj),
            Ev::BeginArray => Some(Print::Arr),
            _ => None,
        })
        .collect();
    let lc = lib_config(cfg);
    for k in ks {
        ctx.count("parses with a planned collection", 1);
        PLAN.with(|p| {
            *p.borrow_mut() = Plan {
                base: b.as_ptr() as usize,
                len: b.len(),
                fail_at: k,
                kind: Some(kind.clone()),
                keeps,
                ..Plan::default()
            }
        });
        let got: Result<GenericDocument<'_, Planned<'_>>, Error> = if text {
            GenericDocument::from_json_with_config(std::str::from_utf8(b).unwrap(), lc)
        } else {
            GenericDocument::from_json_bytes_with_config(b, lc)
        };
        let (offered, after) = PLAN.with(|p| {
            let mut p = p.borrow_mut();
            (std::mem::take(&mut p.offered), p.after_failure)
        });
        check!(after == 0, "{after} nodes are stored after the collection failed at node {k:?}");
        let prefix = match k {
            Some(k) if k < n => k + 1,
            _ => n,
        };
        let slack = usize::from(fault_follows(&p) && prefix == n);
        check!(
            offered.len() == prefix || offered.len() + slack == prefix,
            "{} nodes are offered to the collection, expected {prefix} (failing at {k:?})",
            offered.len()
        );
        for (i, o) in offered.iter().enumerate() {
            same!(o.as_ref(), Some(&want[i]), "node {i} offered to the collection");
        }
        let fails = k.is_some_and(|k| k < n);
        match got {
            Ok(doc) => {
                check!(!fails, "parsing succeeds although the collection failed at node {k:?}");
                check!(p.fault.is_none(), "the invalid text is accepted");
                let all: Vec<Node<'_>> = doc.iter().collect();
                let unb = Document::from_json_bytes_with_config(b, lc)
                    .map_err(|e| crate::engine::Fail { msg: format!("Vec document rejects: {e:?}") })?;
                let u: Vec<Node<'_>> = unb.iter().collect();
                nodes_eq(&all, &u)?;
                check!(Value::from(doc) == Value::from(unb), "the converted documents differ");
            }
            Err(e) => {
                check!(e.offset() <= b.len(), "offset {} beyond the source", e.offset());
                if fails && (offered.len() == prefix) {
                    same!(e.kind(), &kind, "error kind when the collection fails at node {k:?}");
                } else {
                    check!(p.fault.is_some(), "rejected although the collection did not fail: {e:?}");
                    let text_err = if text {
                        Document::from_json_with_config(std::str::from_utf8(b).unwrap(), lc).err()
                    } else {
                        Document::from_json_bytes_with_config(b, lc).err()
                    };
                    same!(Some(err_pair(&e)), text_err.as_ref().map(err_pair), "error of the text itself");
                }
            }
        }
    }
    Ok(())
}

pub fn c11() -> Vec<Target> {
    let n = shape_list().len() as u64 * 9;
    vec![
        rnd(
            "c11.heapless",
            c11_heapless,
            600_000,
            6_000_000,
            "valid and invalid texts against heapless capacities around the node count; non-trivial: more than one \
             node and a capacity within 2 of the count",
        ),
        rnd(
            "c11.planned",
            c11_planned,
            150_000,
            1_500_000,
            "custom collection failing with an arbitrary kind at each node; non-trivial: more than one node",
        ),
        all(
            "c11.small",
            c11_small,
            n,
            n,
            "every tree of up to six nodes against every capacity 0..8; non-trivial: more than one node",
        ),
    ]
}
