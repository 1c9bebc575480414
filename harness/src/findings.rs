//! The committed list of known findings.

use std::sync::OnceLock;

static LISTED: OnceLock<Vec<(String, String)>> = OnceLock::new();

/// Reads `known: property=<id> key=<key> ...` lines.
pub fn load(text: &str) {
    let mut v = Vec::new();
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("known:") {
            let mut prop = None;
            let mut key = None;
            for w in rest.split_whitespace() {
                if let Some(p) = w.strip_prefix("property=") {
                    prop.get_or_insert(p.to_string());
                } else if let Some(k) = w.strip_prefix("key=") {
                    key.get_or_insert(k.to_string());
                }
            }
            if let (Some(p), Some(k)) = (prop, key) {
                v.push((p, k));
            }
        }
    }
    let _ = LISTED.set(v);
}

pub fn listed(prop: &str, key: &str) -> bool {
    LISTED
        .get()
        .is_some_and(|l| l.iter().any(|(p, k)| p == prop && k == key))
}

/// `"\b"` decodes to U+0007 (listed under C05).
pub fn short_escape_b() -> bool {
    listed("C05", "short-escape-b")
        && std::panic::catch_unwind(|| {
            justjson::JsonString::from_json("\"\\b\"")
                .ok()
                .is_some_and(|s| s.decoded().collect::<String>() == "\u{7}")
        })
        .unwrap_or(false)
}

/// U+0007 is written as `\b` (listed under C06).
pub fn bel_as_b() -> bool {
    listed("C06", "bel-as-b")
        && std::panic::catch_unwind(|| {
            justjson::JsonString::from("\u{7}").as_json().collect::<String>() == "\\b"
        })
        .unwrap_or(false)
}

/// The findings of a property that show on this tree.
pub fn showing(prop: &str) -> Vec<String> {
    let mut out = Vec::new();
    if prop == "C05" && short_escape_b() {
        out.push(String::from(
            "the short escape \\b decodes to U+0007 instead of U+0008",
        ));
    }
    if prop == "C06" && bel_as_b() {
        out.push(String::from(
            "U+0007 is written as \\b, which denotes U+0008",
        ));
    }
    out
}
