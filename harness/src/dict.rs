//! The literals written in the source under test: numbers, characters and
//! strings. A bug that needs a particular length, count, character or word to
//! show mostly names it, so these are fed to the generators beside everything
//! else. They only steer the search: no verdict depends on them, and any tree
//! may have any. A replay file carries the dictionary it was found with.

use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub ints: Vec<u128>,
    pub strings: Vec<String>,
    /// All of it as fragments of a text.
    pub pieces: Vec<&'static str>,
    pub chars: Vec<char>,
    /// What lengths and counts may be.
    pub lengths: Vec<usize>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn get() -> &'static Dict {
    DICT.get_or_init(|| {
        let (mut ints, mut strings) = (BTreeSet::new(), BTreeSet::new());
        // what people write without its being in the code by chance
        let repo = std::env::var("JJ_REPO").unwrap_or_else(|_| "/repo".into());
        let mut files = Vec::new();
        walk(&Path::new(&repo).join("src"), &mut files);
        files.sort();
        for f in files {
            if let Ok(text) = std::fs::read_to_string(&f) {
                scan(&text, &mut ints, &mut strings);
            }
        }
        make(ints, strings)
    })
}

fn walk(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(all) = std::fs::read_dir(dir) else { return };
    for e in all.flatten() {
        let p = e.path();
        let name = e.file_name();
        let name = name.to_string_lossy();
        if p.is_dir() {
            if name != "tests" {
                walk(&p, out);
            }
        } else if name.ends_with(".rs") && name != "tests.rs" {
            out.push(p);
        }
    }
}

fn make(ints: BTreeSet<u128>, strings: BTreeSet<String>) -> Dict {
    let mut d = Dict { ints: ints.iter().copied().take(600).collect(), strings: strings.into_iter().take(400).collect(), ..Dict::default() };
    let mut chars: BTreeSet<char> = d.strings.iter().filter(|s| s.chars().count() == 1).flat_map(|s| s.chars()).collect();
    let mut lengths = BTreeSet::new();
    for n in &d.ints {
        for m in [n.saturating_sub(1), *n, n + 1] {
            if let Some(c) = u32::try_from(m).ok().and_then(char::from_u32) {
                chars.insert(c);
            }
        }
        for m in n.saturating_sub(2)..=n + 1 {
            if (1..=20_000).contains(&m) || m == *n && m <= 200_000 {
                lengths.insert(m as usize);
            }
        }
    }
    d.chars = chars.into_iter().collect();
    // a table of numbers must not make the sizes endless
    let (small, large): (Vec<usize>, Vec<usize>) = lengths.into_iter().partition(|n| *n <= 2_100);
    d.lengths = small.into_iter().take(600).chain(large.into_iter().take(16)).collect();
    let mut pieces: BTreeSet<String> = d.strings.iter().filter(|s| s.len() <= 24).take(150).cloned().collect();
    for n in d.ints.iter().take(60) {
        pieces.insert(n.to_string());
    }
    d.pieces = pieces.into_iter().map(|s| &*s.leak()).collect();
    d
}

/// For the replay file.
pub fn to_text() -> String {
    let d = get();
    let ints: Vec<String> = d.ints.iter().map(u128::to_string).collect();
    let strings: Vec<String> = d.strings.iter().map(|s| s.bytes().map(|b| format!("{b:02x}")).collect()).collect();
    format!("{};{}", ints.join(","), strings.join(","))
}

/// From a replay file, before anything asks for the dictionary.
pub fn load(text: &str) {
    let (a, b) = text.trim().split_once(';').unwrap_or((text.trim(), ""));
    let ints = a.split(',').filter_map(|x| x.parse().ok()).collect();
    let strings = b
        .split(',')
        .filter_map(|h| {
            let bytes: Option<Vec<u8>> = (0..h.len() / 2).map(|i| u8::from_str_radix(h.get(2 * i..2 * i + 2)?, 16).ok()).collect();
            String::from_utf8(bytes?).ok().filter(|s| !s.is_empty())
        })
        .collect();
    let _ = DICT.set(make(ints, strings));
}

/// Literals of Rust source text; comments are passed over.
fn scan(text: &str, ints: &mut BTreeSet<u128>, strings: &mut BTreeSet<String>) {
    let b: Vec<char> = text.chars().collect();
    let at = |i: usize| b.get(i).copied().unwrap_or('\0');
    let ident = |c: char| c.is_alphanumeric() || c == '_';
    let mut i = 0;
    // the last two numbers and what stands between them, for `1 << 12`
    let mut last: Option<(u128, usize)> = None;
    while i < b.len() {
        let c = b[i];
        if c == '/' && at(i + 1) == '/' {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && at(i + 1) == '*' {
            let mut deep = 1;
            i += 2;
            while i < b.len() && deep > 0 {
                if b[i] == '/' && at(i + 1) == '*' {
                    deep += 1;
                    i += 2;
                } else if b[i] == '*' && at(i + 1) == '/' {
                    deep -= 1;
                    i += 2;
                } else {
                    i += 1;
                }
            }
        } else if c == '"' {
            let (s, next) = quoted(&b, i + 1, '"');
            if !s.is_empty() && s.len() <= 200 {
                strings.insert(s);
            }
            i = next;
        } else if c == 'r' && (at(i + 1) == '"' || at(i + 1) == '#') && (i == 0 || !ident(b[i - 1]) || b[i - 1] == 'b') {
            let mut n = 0;
            while at(i + 1 + n) == '#' {
                n += 1;
            }
            if at(i + 1 + n) != '"' {
                i += 1;
                continue;
            }
            let start = i + 2 + n;
            let mut j = start;
            while j < b.len() && !(b[j] == '"' && (0..n).all(|k| at(j + 1 + k) == '#')) {
                j += 1;
            }
            let s: String = b[start..j.min(b.len())].iter().collect();
            if !s.is_empty() && s.len() <= 200 {
                strings.insert(s);
            }
            i = j + 1 + n;
        } else if c == '\'' {
            // a character, or a lifetime
            if at(i + 1) == '\\' || (at(i + 2) == '\'' && at(i + 1) != '\'') {
                let (s, next) = quoted(&b, i + 1, '\'');
                if s.chars().count() == 1 {
                    strings.insert(s);
                }
                i = next;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() && (i == 0 || !ident(b[i - 1])) {
            let start = i;
            while ident(at(i)) {
                i += 1;
            }
            let word: String = b[start..i].iter().filter(|c| **c != '_').collect();
            if let Some(n) = number(&word) {
                ints.insert(n);
                if let Some((m, end)) = last {
                    let between: String = b[end..start].iter().filter(|c| !c.is_whitespace()).collect();
                    let joined = match between.as_str() {
                        "<<" if n < 100 => m.checked_shl(n as u32).filter(|x| x >> n == m),
                        "*" => m.checked_mul(n),
                        "+" => m.checked_add(n),
                        "-" => m.checked_sub(n),
                        _ => None,
                    };
                    if let Some(x) = joined {
                        ints.insert(x);
                        last = Some((x, i));
                        continue;
                    }
                }
                last = Some((n, i));
            }
        } else if ident(c) {
            while ident(at(i)) && !(at(i) == 'r' && at(i + 1) == '"') {
                i += 1;
            }
            if at(i) == 'r' && at(i + 1) == '"' && i > 0 && ident(b[i - 1]) {
                // `br"..."`
                continue;
            }
        } else {
            i += 1;
        }
    }
}

fn number(word: &str) -> Option<u128> {
    let (radix, digits) = match word.get(..2) {
        Some("0x") => (16, &word[2..]),
        Some("0b") => (2, &word[2..]),
        Some("0o") => (8, &word[2..]),
        _ => (10, word),
    };
    let cut = digits.find(|c: char| if radix == 16 { matches!(c, 'u' | 'i') } else { !c.is_ascii_digit() }).unwrap_or(digits.len());
    u128::from_str_radix(&digits[..cut], radix).ok().filter(|n| *n < 1 << 127)
}

/// The content of a literal from `i` to its closing mark.
fn quoted(b: &[char], mut i: usize, end: char) -> (String, usize) {
    let mut s = String::new();
    while i < b.len() && b[i] != end {
        if b[i] != '\\' {
            s.push(b[i]);
            i += 1;
            continue;
        }
        let c = b.get(i + 1).copied().unwrap_or('\0');
        i += 2;
        match c {
            'n' => s.push('\n'),
            'r' => s.push('\r'),
            't' => s.push('\t'),
            '0' => s.push('\0'),
            'x' => {
                let h: String = b[i.min(b.len())..(i + 2).min(b.len())].iter().collect();
                if let Ok(v) = u8::from_str_radix(&h, 16) {
                    s.push(v as char);
                }
                i += 2;
            }
            'u' => {
                let h: String = b[i.min(b.len())..].iter().skip(1).take_while(|c| **c != '}').take(8).collect();
                i += h.len() + 2;
                if let Some(c) = u32::from_str_radix(&h.replace('_', ""), 16).ok().and_then(char::from_u32) {
                    s.push(c);
                }
            }
            '\n' => {
                while i < b.len() && b[i].is_whitespace() {
                    i += 1;
                }
            }
            c => s.push(c),
        }
    }
    (s, i + 1)
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn literals() {
        let (mut ints, mut strings) = (BTreeSet::new(), BTreeSet::new());
        scan(
            "// \"no\" 9\nfn a<'a>(x: &'a str) { b\"ab\\\"c\\x41\\u{e9}\"; 'q'; '\\''; b'\\\\'; r#\"w\"\"#; br\"z\"; 1 << 12; 0xFF_u8; 10_000usize; x1 + 3 * 5; 1.5; /* 77 */ 0..31 }",
            &mut ints,
            &mut strings,
        );
        let ints: Vec<u128> = ints.into_iter().collect();
        assert_eq!(ints, [0, 1, 3, 5, 12, 15, 31, 255, 4096, 10_000]);
        let strings: Vec<String> = strings.into_iter().collect();
        assert_eq!(strings, ["'", "\\", "ab\"cA\u{e9}", "q", "w\"", "z"]);
    }
}
