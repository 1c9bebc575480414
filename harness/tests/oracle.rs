//! The reference the checks judge justjson by, against an unrelated
//! implementation. No check depends on this file: `cargo test --offline
//! --release` in /verif/harness runs it.

use jjcheck::engine::Gen;
use jjcheck::refjson::{self, Config, Tree};
use jjcheck::gens;

const PLAIN: Config = Config { trailing_commas: false, limit: None, any_root: true };

fn same(t: &Tree, b: &[u8], v: &serde_json::Value) -> bool {
    match (t, v) {
        (Tree::Null, serde_json::Value::Null) => true,
        (Tree::Bool(x), serde_json::Value::Bool(y)) => x == y,
        (Tree::Num(s), serde_json::Value::Number(n)) => {
            let norm = |s: &str| s.to_ascii_lowercase().replace('+', "");
            norm(s.text(b)) == norm(&n.to_string())
        }
        (Tree::Str(s), serde_json::Value::String(y)) => refjson::decode(s.text(b), '\u{8}') == *y,
        (Tree::Arr(xs), serde_json::Value::Array(ys)) => {
            xs.len() == ys.len() && xs.iter().zip(ys).all(|(x, y)| same(x, b, y))
        }
        (Tree::Obj(xs), serde_json::Value::Object(ys)) => {
            // serde keeps the place of the first and the value of the last
            let mut kept: Vec<(String, &Tree)> = Vec::new();
            for (k, v) in xs {
                let k = refjson::decode(k.text(b), '\u{8}');
                match kept.iter_mut().find(|(o, _)| *o == k) {
                    Some(e) => e.1 = v,
                    None => kept.push((k, v)),
                }
            }
            kept.len() == ys.len()
                && kept.iter().zip(ys).all(|((k, v), (l, w))| k == l && same(v, b, w))
        }
        _ => false,
    }
}

fn compare(b: &[u8], counts: &mut [usize; 3]) {
    let ours = refjson::parse(b, PLAIN);
    let theirs: Result<serde_json::Value, _> = serde_json::from_slice(b);
    let show = String::from_utf8_lossy(b);
    match (&ours.fault, &theirs) {
        (None, Ok(v)) => {
            counts[0] += 1;
            assert!(same(&refjson::tree(&ours.events), b, v), "trees differ: {show:?} {v:?}");
        }
        (None, Err(e)) if e.to_string().starts_with("recursion limit") => {}
        (Some(f), Err(_)) => {
            counts[1] += 1;
            // the text is the beginning of a valid one up to `lo` and not up to
            // `at`; serde takes the four digits of an escape at once
            if b.is_ascii() {
                counts[2] += 1;
                let eof = |b: &[u8]| match serde_json::from_slice::<serde_json::Value>(b) {
                    Ok(_) => true,
                    Err(e) => e.is_eof() || e.to_string().starts_with("recursion limit"),
                };
                assert!(eof(&b[..f.lo]), "{show:?}: {f:?} but serde fails earlier");
                if f.kinds.contains(&refjson::FK::Hex) {
                } else if f.at < b.len() {
                    let r = serde_json::from_slice::<serde_json::Value>(&b[..=f.at]);
                    let deep = matches!(&r, Err(e) if e.to_string().starts_with("recursion limit"));
                    assert!(deep || matches!(&r, Err(e) if !e.is_eof()), "{show:?}: {f:?} but serde: {r:?}");
                } else {
                    assert!(f.eof, "{show:?}: {f:?}");
                }
            }
        }
        (a, t) => panic!("{show:?}: {a:?} against {t:?}"),
    }
}

#[test]
fn generated() {
    let mut counts = [0; 3];
    for i in 0..400_000u64 {
        let mut g = Gen::random(jjcheck::engine::mix(i));
        let b = match i % 4 {
            0 => gens::valid_text(&mut g, 6).1.s.into_bytes(),
            1 => gens::soup(&mut g),
            _ => gens::any_input(&mut g, 5).0,
        };
        compare(&b, &mut counts);
    }
    println!("{counts:?}");
    assert!(counts.iter().all(|c| *c > 50_000), "{counts:?}");
}

#[test]
fn enumerated() {
    let mut counts = [0; 3];
    for (alphabet, len) in [
        (&b"{}[],:1\" "[..], 6),
        (&b"0123-+.eE"[..], 6),
        (&b"\"\\u01dDfFbn8"[..], 5),
        (&b"truefalsn,["[..], 5),
        (&b"\"a\\u00\x1f\x7f\xc3\xa9\xed\xa0\x80\xf0\x9f\x98\xf4\x90"[..], 4),
    ] {
        for n in 0..=len {
            for mut i in 0..alphabet.len().pow(n) {
                let mut b = Vec::new();
                for _ in 0..n {
                    b.push(alphabet[i % alphabet.len()]);
                    i /= alphabet.len();
                }
                compare(&b, &mut counts);
            }
        }
    }
    // string bodies: every pair of escapes' leading digits
    for hi in 0xD700..=0xE100u32 {
        for lo in [0x41, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDEAD, 0xDFFF, 0xE000] {
            compare(format!("\"\\u{hi:04X}\\u{lo:04x}\"").as_bytes(), &mut counts);
        }
        compare(format!("\"\\u{hi:04x}\"").as_bytes(), &mut counts);
        compare(format!("\"\\u{hi:04x}A\"").as_bytes(), &mut counts);
    }
    println!("{counts:?}");
}
