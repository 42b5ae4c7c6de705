//! Independent decoder for Rust literal tokens, and generators of literal spellings.
use crate::rng::Rng;

#[derive(Clone, PartialEq, Debug)]
pub enum LV { Bool(bool), Byte(u8), Int(i64), Uint(u64), Float(u64), Char(char), Str(String), Bytes(Vec<u8>) }

/// What a literal token denotes.
#[derive(Clone, PartialEq, Debug)]
pub enum Den {
    /// magnitude; None if it does not fit in 128 bits
    Int(Option<u128>),
    Float(f64),
    Byte(u8),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    /// C strings and anything else
    Other,
}

pub fn norm(s: &str) -> String {
    match denote(s) {
        Den::Float(f) => format!("F{:016x}", f.to_bits()),
        Den::Other => s.to_string(),
        d => format!("{:?}", d),
    }
}

pub fn denote(s: &str) -> Den {
    let b = s.as_bytes();
    match b {
        [b'0'..=b'9', ..] => number(s),
        [b'"', ..] => unescape_str(s).map_or(Den::Other, Den::Str),
        [b'r', b'"' | b'#', ..] => raw(&s[1..]).map_or(Den::Other, Den::Str),
        [b'b', b'"', ..] => unescape_bytes(&s[1..]).map_or(Den::Other, Den::Bytes),
        [b'b', b'r', ..] => raw(&s[2..]).map_or(Den::Other, |t| Den::Bytes(t.into_bytes())),
        [b'b', b'\'', ..] => match unescape_bytes(&s[1..]).as_deref() { Some([x]) => Den::Byte(*x), _ => Den::Other },
        [b'\'', ..] => match unescape_str(s) { Some(t) if t.chars().count() == 1 => Den::Char(t.chars().next().unwrap()), _ => Den::Other },
        _ => Den::Other,
    }
}

fn number(s: &str) -> Den {
    let (radix, body) = match s.get(..2) {
        Some("0x") => (16, &s[2..]),
        Some("0o") => (8, &s[2..]),
        Some("0b") => (2, &s[2..]),
        _ => (10, s),
    };
    if radix == 10 {
        // digits [. digits] [e [+-] digits] suffix
        let mut i = 0;
        let b = s.as_bytes();
        let digs = |mut i: usize| { while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'_') { i += 1 } i };
        i = digs(i);
        let mut float = false;
        if i < b.len() && b[i] == b'.' { float = true; i = digs(i + 1); }
        if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
            let mut j = i + 1;
            // an underscore may precede the sign-less exponent digits
            if j < b.len() && (b[j] == b'+' || b[j] == b'-') { j += 1 }
            let k = digs(j);
            if s[j..k].bytes().any(|c| c.is_ascii_digit()) { float = true; i = k; }
        }
        if float {
            let clean: String = s[..i].chars().filter(|c| *c != '_').collect();
            return clean.parse::<f64>().map_or(Den::Other, Den::Float);
        }
        if matches!(&s[i..], "f32" | "f64") { return Den::Other; }
        return int(&s[..i], 10);
    }
    let end = body.find(|c: char| !(c == '_' || c.is_digit(radix))).unwrap_or(body.len());
    int(&body[..end], radix)
}

fn int(digits: &str, radix: u32) -> Den {
    let mut v: Option<u128> = Some(0);
    for c in digits.chars().filter(|c| *c != '_') {
        let d = c.to_digit(radix).unwrap_or(0);
        v = v.and_then(|v| v.checked_mul(u128::from(radix))).and_then(|v| v.checked_add(u128::from(d)));
    }
    Den::Int(v)
}

/// contents of r"..." / r#"..."#, starting at the hashes or the quote
fn raw(s: &str) -> Option<String> {
    let n = s.bytes().take_while(|b| *b == b'#').count();
    let s = s[n..].strip_prefix('"')?;
    let end = s.rfind('"')?;
    Some(s[..end].to_string())
}

fn unescape_str(s: &str) -> Option<String> {
    let q = s.chars().next()?;
    let end = s.rfind(q)?;
    let mut it = s[1..end].chars().peekable();
    let mut out = String::new();
    while let Some(c) = it.next() {
        if c == '\r' && it.peek() == Some(&'\n') { continue }
        if c != '\\' { out.push(c); continue }
        match it.next()? {
            'n' => out.push('\n'), 'r' => out.push('\r'), 't' => out.push('\t'), '0' => out.push('\0'),
            '\\' => out.push('\\'), '\'' => out.push('\''), '"' => out.push('"'),
            'x' => { let h = it.next()?.to_digit(16)?; let l = it.next()?.to_digit(16)?; out.push(char::from_u32(h * 16 + l)?); }
            'u' => {
                if it.next()? != '{' { return None }
                let mut v = 0u32;
                loop { match it.next()? { '}' => break, '_' => {}, c => v = v.checked_mul(16)?.checked_add(c.to_digit(16)?)? } }
                out.push(char::from_u32(v)?);
            }
            '\n' => while it.peek().map_or(false, |c| matches!(c, ' ' | '\t' | '\n' | '\r')) { it.next(); },
            '\r' => while it.peek().map_or(false, |c| matches!(c, ' ' | '\t' | '\n' | '\r')) { it.next(); },
            _ => return None,
        }
    }
    Some(out)
}

fn unescape_bytes(s: &str) -> Option<Vec<u8>> {
    let q = s.bytes().next()?;
    let end = s.rfind(q as char)?;
    let mut it = s[1..end].bytes().peekable();
    let mut out = vec![];
    while let Some(c) = it.next() {
        if c == b'\r' && it.peek() == Some(&b'\n') { continue }
        if c != b'\\' { out.push(c); continue }
        match it.next()? {
            b'n' => out.push(b'\n'), b'r' => out.push(b'\r'), b't' => out.push(b'\t'), b'0' => out.push(0),
            b'\\' => out.push(b'\\'), b'\'' => out.push(b'\''), b'"' => out.push(b'"'),
            b'x' => { let h = (it.next()? as char).to_digit(16)?; let l = (it.next()? as char).to_digit(16)?; out.push((h * 16 + l) as u8); }
            b'\n' | b'\r' => while it.peek().map_or(false, |c| matches!(c, b' ' | b'\t' | b'\n' | b'\r')) { it.next(); },
            _ => return None,
        }
    }
    Some(out)
}

// ---------------------------------------------------------------- generators

pub fn char_any(r: &mut Rng) -> char {
    loop {
        let c = match r.below(12) {
            0 | 1 => char::from_u32(r.range(0x20, 0x7e) as u32),
            2 => char::from_u32(r.range(0, 0x1f) as u32),
            3 => char::from_u32(r.range(0x7f, 0x2ff) as u32),
            4 => char::from_u32(r.range(0x300, 0x36f) as u32),
            5 => char::from_u32(r.range(0x2000, 0x206f) as u32),
            6 => char::from_u32(r.range(0xd000, 0xffff) as u32),
            7 => char::from_u32(r.range(0x1f300, 0x1f9ff) as u32),
            8 => Some(*r.pick(&['\'', '"', '\\', '\n', '\r', '\t', '\0', '{', '}', '#', '\u{7f}', '\u{feff}', '\u{10ffff}', '\u{200e}', '\u{2028}', '\u{85}', '\u{a0}', 'é', 'ű'])),
            9 => char::from_u32(if r.chance(1, 2) { r.range(0xe0000, 0xe01ff) } else { r.range(0x10_fff0, 0x10_ffff) } as u32),
            // what is special for display: format, surrogate neighbours, private use, non-characters
            10 => Some(*r.pick(&['\u{ad}', '\u{34f}', '\u{61c}', '\u{180e}', '\u{200b}', '\u{200c}', '\u{200d}', '\u{202e}', '\u{2029}', '\u{2060}', '\u{2066}', '\u{3000}', '\u{d7ff}', '\u{e000}', '\u{f8ff}', '\u{fdd0}', '\u{fe0f}', '\u{fff9}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{10000}', '\u{1d173}', '\u{1f468}', '\u{e0001}', '\u{e0041}', '\u{f0000}', '\u{10fffe}', '\u{301}', '\u{80}', '\u{9f}', '\u{1b}', '\u{7}'])),
            _ => char::from_u32(r.below(0x11_0000) as u32),
        };
        if let Some(c) = c { return c }
    }
}

/// A length: small mostly, now and then around the sizes at which things may change.
fn length(r: &mut Rng) -> usize {
    if !r.chance(1, 250) { return r.len(6, 40) }
    if r.chance(1, 30) { return *r.pick(&[4095, 4096, 4097, 65_535, 65_536, 65_537]) }
    let n: usize = *r.pick(&[64, 100, 128, 200, 256, 512, 1000, 1024, 2000]);
    n + r.below(4) - 1
}

pub fn string_any(r: &mut Rng) -> String {
    let n = length(r);
    if n > 3000 { let c = char_any(r); return std::iter::repeat(c).take(n).collect() }
    (0..n).map(|_| char_any(r)).collect()
}

pub fn bytes_any(r: &mut Rng) -> Vec<u8> {
    let n = length(r);
    (0..n).map(|_| match r.below(4) { 0 => r.below(256) as u8, 1 => *r.pick(b"\0\n\r\t\\\"'0179af\x7f\x80\xff"), _ => r.range(0x20, 0x7e) as u8 }).collect()
}

pub fn u64_any(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => *r.pick(&[0, 1, 2, 9, 10, 255, 256, u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1, i64::MAX as u64 + 2, u32::MAX as u64, 1 << 32, 1 << 53, (1 << 53) + 1]),
        1 => { let k = r.below(64); (1u64 << k).wrapping_add(r.below(3) as u64).wrapping_sub(1) }
        2 => { let mut p = 1u64; for _ in 0..r.below(20) { p = p.saturating_mul(10) } p.wrapping_add(r.below(3) as u64).wrapping_sub(1) }
        3 | 4 => r.below(1000) as u64,
        _ => r.u64() >> r.below(64),
    }
}

pub fn i64_any(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => *r.pick(&[0, -1, 1, i64::MIN, i64::MIN + 1, i64::MAX, -10, -255, -256]),
        _ => { let v = u64_any(r) as i64; if r.chance(1, 2) { v.wrapping_neg() } else { v } }
    }
}

pub fn f64_any(r: &mut Rng) -> f64 {
    loop {
        let f = match r.below(8) {
            0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 1e16, 1e17, 1e21, 1e22, 123456789012345680.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, f64::EPSILON, 9007199254740993.0, 1e-7, 1e300, 2.2250738585072011e-308]),
            1 => r.below(100_000) as f64 / 8.0,
            2 => r.u64() as f64,
            3 => { let e = r.range(0, 600) as i32 - 300; (r.below(10_000) as f64) * 10f64.powi(e) }
            _ => f64::from_bits(r.u64()),
        };
        if f.is_finite() { return f }
    }
}

fn underscores(r: &mut Rng, s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if i > 0 && r.chance(1, 6) { o.push('_'); if r.chance(1, 4) { o.push('_') } }
        o.push(c);
    }
    if r.chance(1, 10) { o.push('_') }
    o
}

const INT_SUF: [&str; 12] = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];

/// A spelling of an integer of this magnitude.
pub fn spell_int(r: &mut Rng, v: u128, fancy: bool) -> String {
    if !fancy { return v.to_string() }
    let zeros = |r: &mut Rng| "0".repeat(if r.chance(1, 6) { r.range(1, 25) } else { 0 });
    let z = zeros(r);
    let mut s = match r.below(5) {
        0 => { let d = format!("{}{:x}", z, v); let d: String = d.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(); format!("0x{}{}", if r.chance(1, 8) { "_" } else { "" }, underscores(r, &d)) }
        1 => format!("0o{}{}", if r.chance(1, 8) { "_" } else { "" }, underscores(r, &format!("{}{:o}", z, v))),
        2 => format!("0b{}{}", if r.chance(1, 8) { "_" } else { "" }, underscores(r, &format!("{}{:b}", z, v))),
        _ => underscores(r, &format!("{}{}", z, v)),
    };
    if r.chance(1, 4) { s.push_str(*r.pick(&INT_SUF)) }
    s
}

/// A spelling of a float literal (not necessarily in range).
pub fn spell_float(r: &mut Rng) -> String {
    let suf = |r: &mut Rng| if r.chance(1, 5) { *r.pick(&["f32", "f64"]) } else { "" };
    match r.below(8) {
        6 | 7 => {
            // any spelling the lexer's grammar has
            fn some(r: &mut Rng, n: usize) -> String { (0..n).map(|_| r.below(10).to_string()).collect() }
            let n = r.len(4, 30) + 1;
            let mut s = some(r, n);
            if r.chance(1, 2) { s = underscores(r, &s) }
            if r.chance(2, 3) { s.push('.'); let n = r.len(4, 30) + 1; let d = some(r, n); s += &(if r.chance(1, 2) { underscores(r, &d) } else { d }) }
            if !s.contains('.') || r.chance(1, 2) {
                s.push_str(*r.pick(&["e", "E", "e+", "E-", "e-", "e_", "E__"]));
                let n = r.below(3) + 1;
                let d = some(r, n);
                s += &(if r.chance(1, 2) { underscores(r, &d) } else { d });
                if r.chance(1, 6) { s.push('_') }
            }
            s + *r.pick(&["", "", "", "f64", "f32", "_f64", "_f32"])
        }
        0 => { let f = f64_any(r).abs(); let s = format!("{:?}", f); if s.contains('e') || s.contains('.') { s } else { format!("{}.0", s) } }
        1 => { let f = f64_any(r).abs(); format!("{:e}", f).replace('e', if r.chance(1, 2) { "e" } else { "E" }) }
        2 => { let f = f64_any(r).abs(); let s = format!("{}", f); let s = if s.contains('.') { s } else { format!("{}.0", s) }; underscores_float(r, &s) + suf(r) }
        3 => {
            let a = u64_any(r); let b = u64_any(r);
            underscores_float(r, &format!("{}.{}", a, b)) + suf(r)
        }
        4 => {
            let a = u64_any(r); let e = r.below(330);
            format!("{}{}e{}{}", a, if r.chance(1, 2) { format!(".{}", r.below(100_000)) } else { String::new() }, *r.pick(&["", "+", "-"]), e) + suf(r)
        }
        _ => (*r.pick(&["0.0", "1.0", "1e308", "1.7976931348623157e308", "1.7976931348623159e308", "1.8e308", "1e309", "1e400", "9e99999", "1e-400", "4.9e-324", "2e-324", "3e-324", "0e999", "0.0e999", "1e0", "1E5", "1e+5", "179769313486231580793728971405301.5e276", "0.1", "123456.789e3", "1_0.0_1e1_0", "340282350000000000000000000000000000000.0f32"])).to_string(),
    }
}

fn underscores_float(r: &mut Rng, s: &str) -> String {
    match s.split_once('.') {
        Some((a, b)) => format!("{}.{}", underscores(r, a), if b.bytes().all(|c| c.is_ascii_digit()) { underscores(r, b) } else { b.to_string() }),
        None => s.to_string(),
    }
}

fn spell_char_in(r: &mut Rng, c: char, quote: char, fancy: bool) -> String {
    let must = c == '\\' || c == quote || matches!(c, '\r') || (quote == '\'' && matches!(c, '\n' | '\t'));
    let esc = must || (fancy && r.chance(1, 4));
    if !esc { return c.to_string() }
    let mut opts: Vec<String> = vec![];
    match c { '\n' => opts.push("\\n".into()), '\r' => opts.push("\\r".into()), '\t' => opts.push("\\t".into()), '\\' => opts.push("\\\\".into()), '\0' => opts.push("\\0".into()), '\'' => opts.push("\\'".into()), '"' => opts.push("\\\"".into()), _ => {} }
    if (c as u32) < 0x80 { opts.push(format!("\\x{:02x}", c as u32)); opts.push(format!("\\x{:02X}", c as u32)) }
    opts.push(format!("\\u{{{:x}}}", c as u32));
    opts.push(format!("\\u{{{:06X}}}", c as u32));
    if (c as u32) > 0xff { let h = format!("{:x}", c as u32); opts.push(format!("\\u{{{}_{}}}", &h[..1], &h[1..])) }
    if !fancy { opts.truncate(1) }
    r.pick(&opts).clone()
}

pub fn spell_char(r: &mut Rng, c: char, fancy: bool) -> String {
    format!("'{}'", spell_char_in(r, c, '\'', fancy))
}

pub fn spell_str(r: &mut Rng, s: &str, fancy: bool) -> String {
    if fancy && r.chance(1, 4) && !s.contains('\r') {
        let n = (0..).find(|n| !s.contains(&format!("\"{}", "#".repeat(*n)))).unwrap() + if r.chance(1, 4) { 1 } else { 0 };
        let n = if n == 0 && s.contains('"') { 1 } else { n };
        let h = "#".repeat(n);
        return format!("r{h}\"{s}\"{h}");
    }
    let cs: Vec<char> = s.chars().collect();
    let mut o = String::from("\"");
    for (i, c) in cs.iter().enumerate() {
        o.push_str(&spell_char_in(r, *c, '"', fancy));
        // a line continuation: swallowed together with the whitespace that follows it
        if fancy && r.chance(1, 25) && !cs.get(i + 1).map_or(false, |c| c.is_whitespace()) { o.push_str(*r.pick(&["\\\n", "\\\n   \t", "\\\n\n  "])) }
    }
    o.push('"');
    o
}

fn spell_byte_in(r: &mut Rng, b: u8, quote: u8, fancy: bool) -> String {
    let must = b == b'\\' || b == quote || b == b'\r' || b >= 0x80 || (quote == b'\'' && matches!(b, b'\n' | b'\t'));
    if !must && !(fancy && r.chance(1, 4)) { return (b as char).to_string() }
    let mut opts: Vec<String> = vec![];
    match b { b'\n' => opts.push("\\n".into()), b'\r' => opts.push("\\r".into()), b'\t' => opts.push("\\t".into()), b'\\' => opts.push("\\\\".into()), 0 => opts.push("\\0".into()), b'\'' => opts.push("\\'".into()), b'"' => opts.push("\\\"".into()), _ => {} }
    opts.push(format!("\\x{:02x}", b));
    opts.push(format!("\\x{:02X}", b));
    if !fancy { opts.truncate(1) }
    r.pick(&opts).clone()
}

pub fn spell_byte(r: &mut Rng, b: u8, fancy: bool) -> String {
    format!("b'{}'", spell_byte_in(r, b, b'\'', fancy))
}

pub fn spell_bytes(r: &mut Rng, s: &[u8], fancy: bool) -> String {
    if fancy && r.chance(1, 4) && s.iter().all(|b| *b < 0x80 && *b != b'\r') {
        let t = String::from_utf8(s.to_vec()).unwrap();
        let n = (1..).find(|n| !t.contains(&format!("\"{}", "#".repeat(*n)))).unwrap();
        let h = "#".repeat(n);
        return format!("br{h}\"{t}\"{h}");
    }
    let mut o = String::from("b\"");
    for b in s { o.push_str(&spell_byte_in(r, *b, b'"', fancy)) }
    o.push('"');
    o
}
