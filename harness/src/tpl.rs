//! Document templates.
//!
//! `{a|b|c}` is a choice made by a symbolic integer (nested, may contain anything);
//! `@c` with a class letter is a symbolic number, `@c3` the same number wherever it occurs:
//!   i  integer -16..16        p  integer 1..16       n  integer 0..16
//!   k  integer -6..6         j  integer -3..3
//!   q  quarters -8..8         Q  quarters 0..8       r  quarters 0.25..8
//!   o  opacity, eighths -0.5..1.5            O  eighths 0..1       u  eighths 0.125..0.875
//!   s  scale, halves -4..4    S  halves 0.5..4       t  {-2,-1,1,2} (as integer, non-zero)
//!   f, F 4096ths -0.2..0.2, above 0         h, H 2^-20ths -40..40, 1..40
//!   w  wide integer -1000..1000               z  any of 0,1
//! `[[` and `]]` are literal braces.
//! The text is parsed by the real parser with a unique literal in the place of every
//! symbolic number, and the literals are then replaced in the attribute values.
use crate::sym;
use svgdom::*;

pub const MAGIC: f64 = 40001.0;

static mut WIDE: bool = false;
pub fn set_wide(w: bool) { unsafe { WIDE = w } }

static mut VARIANT: usize = 0;
pub fn set_variant(v: usize) { unsafe { VARIANT = v } }

/// What the whole document (everything inside of its root) is wrapped into, and what its
/// groups and `defs` become: the same documents in another surrounding.
static WRAPS: &[(&str, &str)] = &[
    ("<g fill='blue' stroke='lime' stroke-width='3' fill-rule='evenodd' clip-rule='evenodd' color='#123' font-family='x'>", "</g>"),
    ("<g stroke-dasharray='3 1' stroke-opacity='0.5' fill-opacity='0.25' visibility='hidden' font-size='30' display='inline'><a>", "</a></g>"),
    ("<g transform='matrix(0 2 -2 0 1 3)' opacity='0.5'>", "</g>"),
    ("<symbol id='zz'>", "</symbol><use xlink:href='#zz' fill='blue' stroke='lime'/>"),
    ("<g id='zz'>", "</g><use xlink:href='#zz' y='5' fill='blue' stroke='lime' stroke-width='2' font-size='20'/>"),
    ("<defs fill='blue'><g id='zz' stroke='lime'>", "</g></defs><use xlink:href='#zz' transform='scale(2)'/><use xlink:href='#zz' visibility='hidden' fill='none'/>"),
    ("<mask id='zz' fill='blue'>", "</mask><rect width='9' height='9' mask='url(#zz)'/>"),
    ("<pattern id='zz' width='9' height='9' stroke='lime'>", "</pattern><rect width='99' height='99' fill='url(#zz)'/>"),
    ("<switch><g>", "</g></switch>"),
    ("<svg x='1' width='50' height='50' overflow='visible' fill='blue'>", "</svg>"),
];
pub const VARIANTS: usize = 7 + 10;

fn vary(v: usize, s: &mut String) {
    const RENAME: &[(&str, &str)] = &[("<g ", "<a "), ("<g>", "<a>"), ("<g/>", "<a/>"), ("</g>", "</a>")];
    fn tags(s: &str, name: &str, before: &str, after: &str) -> String {
        let mut r = String::new();
        let mut rest = s;
        let open = format!("<{}", name);
        while let Some(i) = rest.find(&open) {
            let b = rest.as_bytes();
            let j = i + open.len();
            let e = match rest[i..].find('>') { Some(e) => i + e, None => break };
            let is = b[j] == b' ' || b[j] == b'>';
            let own = is && b[e - 1] != b'/';
            r.push_str(&rest[..i]);
            if own { r.push_str(before); }
            r.push_str(&rest[i..e + 1]);
            if own { r.push_str(after); }
            rest = &rest[e + 1..];
        }
        r.push_str(rest);
        r
    }
    match v {
        0 => {}
        1 => for &(a, b) in RENAME { *s = s.replace(a, b); },
        // groups in groups
        2 => { *s = tags(s, "g", "", "<g>"); *s = s.replace("</g>", "</g></g>"); }
        3 => { *s = s.replace("</g>", "</g></g>"); *s = tags(s, "g", "<g>", ""); }
        4 => { *s = tags(s, "g", "", "<a>"); *s = s.replace("</g>", "</a></g>"); }
        // definitions in groups
        5 => { *s = tags(s, "defs", "", "<g>"); *s = s.replace("</defs>", "</g></defs>"); }
        6 => { *s = tags(s, "defs", "<g><title/>", ""); *s = s.replace("</defs>", "</defs></g>"); }
        // nodes that are not drawn between all others
        7 => { *s = s.replace("><", "><!--c--><"); }
        _ => {
            let (a, b) = WRAPS[v - 8];
            let i = match s.find("<svg") { Some(i) => i, None => return };
            let e = match s[i..].find('>') { Some(e) => i + e, None => return };
            let z = match s.rfind("</svg>") { Some(z) => z, None => return };
            if s.as_bytes()[e - 1] == b'/' || z < e { return; }
            s.insert_str(z, b);
            s.insert_str(e + 1, a);
        }
    }
}

/// the thorough tier takes wider ranges
fn class(c: char) -> (i64, i64, i64) {
    let (lo, hi, k) = class0(c);
    let f = if unsafe { WIDE } { match c { 'i' | 'n' | 'p' => 4, 'k' | 'j' => 2, 'q' | 'Q' | 'r' | 's' | 'S' => 2, 'f' | 'h' => 3, _ => 1 } } else { 1 };
    (if lo < 0 { lo * f } else { lo }, hi * f, k)
}

fn class0(c: char) -> (i64, i64, i64) {
    match c {
        'i' => (-16, 16, 0),
        'p' => (1, 16, 0),
        'n' => (0, 16, 0),
        'k' => (-6, 6, 0),
        'j' => (-3, 3, 0),
        'q' => (-32, 32, 2),
        'Q' => (0, 32, 2),
        'r' => (1, 32, 2),
        'o' => (-4, 12, 3),
        'O' => (0, 8, 3),
        'u' => (1, 7, 3),
        's' => (-8, 8, 1),
        'S' => (1, 8, 1),
        't' => (-2, 2, 0),
        'w' => (-1000, 1000, 0),
        'z' => (0, 1, 0),
        'f' => (-800, 800, 12),
        'F' => (1, 800, 12),
        'h' => (-40, 40, 20),
        'H' => (1, 40, 20),
        _ => sym::fail("template: unknown class"),
    }
}

pub struct Tpl {
    pub text: String,
    pub vars: Vec<f64>,
    frac: Vec<bool>,
    names: Vec<String>,
}

/// resolve the choices, innermost last: only the chosen branch makes further choices
pub fn choose(t: &str, out: &mut String, lab: &mut [Option<usize>; 10]) {
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'{' {
            let mut depth = 1;
            // `{3:` a choice made once for all choices with this label
            let label = if b[i + 1] >= b'0' && b[i + 1] <= b'9' && b[i + 2] == b':' { Some((b[i + 1] - b'0') as usize) } else { None };
            let mut j = i + if label.is_some() { 3 } else { 1 };
            let mut start = j;
            let mut parts: Vec<&str> = Vec::new();
            while j < b.len() {
                match b[j] {
                    b'{' => depth += 1,
                    b'}' => {
                        depth -= 1;
                        if depth == 0 { break; }
                    }
                    b'|' if depth == 1 => {
                        parts.push(&t[start..j]);
                        start = j + 1;
                    }
                    _ => {}
                }
                j += 1;
            }
            parts.push(&t[start..j]);
            let k = match label {
                Some(l) => {
                    let k = match lab[l] { Some(k) => k, None => sym::pick("alt", parts.len()) };
                    lab[l] = Some(k);
                    k
                }
                None => sym::pick("alt", parts.len()),
            };
            // a label with fewer alternatives than before: the rest are empty
            if k < parts.len() { choose(parts[k], out, lab); }
            i = j + 1;
        } else {
            let s = i;
            while i < b.len() && b[i] != b'{' { i += 1; }
            out.push_str(&t[s..i]);
        }
    }
}

fn push_int(out: &mut String, mut n: usize) {
    let mut d = [0u8; 12];
    let mut k = 0;
    loop {
        d[k] = b'0' + (n % 10) as u8;
        k += 1;
        n /= 10;
        if n == 0 { break; }
    }
    while k > 0 {
        k -= 1;
        out.push(d[k] as char);
    }
}

/// 0.25 + idx/64, exactly
fn push_frac(out: &mut String, idx: usize) {
    let mut n = 250000 + idx * 15625;
    out.push_str("0.");
    let mut d = 100000;
    while d > 0 {
        out.push((b'0' + (n / d) as u8) as char);
        n %= d;
        d /= 10;
    }
}

pub fn expand(t: &str) -> Tpl {
    let mut s = String::new();
    choose(t, &mut s, &mut [None; 10]);
    vary(unsafe { VARIANT }, &mut s);
    if t.contains("[[") { s = s.replace("[[", "{").replace("]]", "}"); }
    let mut r = Tpl { text: String::new(), vars: Vec::new(), frac: Vec::new(), names: Vec::new() };
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'@' {
            let c = b[i + 1] as char;
            i += 2;
            let mut key = String::new();
            key.push(c);
            while i < b.len() && b[i] >= b'0' && b[i] <= b'9' {
                key.push(b[i] as char);
                i += 1;
            }
            let idx = match r.names.iter().position(|n| key.len() > 1 && *n == key) {
                Some(x) => x,
                None => {
                    let (lo, hi, k) = class(c);
                    let v = sym::num(&key, lo, hi, k);
                    if c == 't' { sym::assume(!sym::feq(v, 0.0)); }
                    r.vars.push(v);
                    r.frac.push(is_frac(c));
                    r.names.push(key);
                    r.vars.len() - 1
                }
            };
            if is_frac(c) {
                // the parser clamps opacities and offsets
                push_frac(&mut r.text, idx);
            } else {
                push_int(&mut r.text, MAGIC as usize + idx);
            }
        } else {
            let s0 = i;
            while i < b.len() && b[i] != b'@' { i += 1; }
            r.text.push_str(&s[s0..i]);
        }
    }
    r
}

fn is_frac(c: char) -> bool { matches!(c, 'O' | 'u' | 'o' | 'F' | 'H') }

fn subst(v: &mut f64, vars: &[f64], fr: &[bool], used: &mut [bool]) {
    let a = if *v < 0.0 { -*v } else { *v };
    if a >= MAGIC && a < MAGIC + vars.len() as f64 {
        let k = (a - MAGIC) as usize;
        if MAGIC + k as f64 != a { sym::fail("template: magic number was changed by the parser"); }
        used[k] = true;
        let neg = *v < 0.0;
        *v = if neg { -vars[k] } else { vars[k] };
        return;
    }
    let f = (a - 0.25) * 64.0;
    let k = f as usize;
    if f >= 0.0 && k < vars.len() && k as f64 == f && fr[k] {
        used[k] = true;
        *v = if *v < 0.0 { -vars[k] } else { vars[k] };
    }
}

pub fn subst_path(p: &mut path::Path, f: &mut dyn FnMut(&mut f64)) {
    use svgdom::path::SegmentData as D;
    for s in p.d.iter_mut() {
        match *s.data_mut() {
            D::MoveTo { ref mut x, ref mut y } | D::LineTo { ref mut x, ref mut y } | D::SmoothQuadratic { ref mut x, ref mut y } => { f(x); f(y) }
            D::HorizontalLineTo { ref mut x } => f(x),
            D::VerticalLineTo { ref mut y } => f(y),
            D::CurveTo { ref mut x1, ref mut y1, ref mut x2, ref mut y2, ref mut x, ref mut y } => { f(x1); f(y1); f(x2); f(y2); f(x); f(y) }
            D::SmoothCurveTo { ref mut x2, ref mut y2, ref mut x, ref mut y } => { f(x2); f(y2); f(x); f(y) }
            D::Quadratic { ref mut x1, ref mut y1, ref mut x, ref mut y } => { f(x1); f(y1); f(x); f(y) }
            D::EllipticalArc { ref mut rx, ref mut ry, ref mut x_axis_rotation, ref mut x, ref mut y, .. } => { f(rx); f(ry); f(x_axis_rotation); f(x); f(y) }
            D::ClosePath => {}
        }
    }
}

pub fn for_numbers(v: &mut AttributeValue, f: &mut dyn FnMut(&mut f64)) {
    match *v {
        AttributeValue::Length(ref mut l) => f(&mut l.num),
        AttributeValue::LengthList(ref mut l) => for x in l.iter_mut() { f(&mut x.num) },
        AttributeValue::Number(ref mut n) => f(n),
        AttributeValue::NumberList(ref mut l) => for x in l.iter_mut() { f(x) },
        AttributeValue::Path(ref mut p) => subst_path(p, f),
        AttributeValue::Transform(ref mut t) => { f(&mut t.a); f(&mut t.b); f(&mut t.c); f(&mut t.d); f(&mut t.e); f(&mut t.f) }
        _ => {}
    }
}

/// parse with the library's own defaults for cleaning (what `parse_data` is given by the tool)
pub fn parse_opts() -> ParseOptions {
    let mut o = ParseOptions::default();
    o.parse_px_unit = false;
    o
}

impl Tpl {
    /// the document, with the literals replaced by the symbolic numbers
    pub fn doc(&self) -> Document {
        sym::note(&self.text);
        let mut doc = match svgcleaner::cleaner::parse_data(&self.text, &parse_opts()) {
            Ok(d) => d,
            Err(_) => sym::fail("template does not parse"),
        };
        self.fill(&mut doc);
        doc
    }
    pub fn fill(&self, doc: &mut Document) { self.fill_(doc, true) }
    /// where a part with symbolic numbers may be left out
    pub fn fill_some(&self, doc: &mut Document) { self.fill_(doc, false) }
    fn fill_(&self, doc: &mut Document, all: bool) {
        let mut used = vec![false; self.vars.len()];
        for mut n in doc.descendants() {
            if n.node_type() != NodeType::Element { continue; }
            let mut attrs = n.attributes_mut();
            for a in attrs.iter_mut() {
                for_numbers(&mut a.value, &mut |x| subst(x, &self.vars, &self.frac, &mut used));
            }
        }
        for u in used {
            if all && !u { sym::fail("template: symbolic number not found in the document"); }
        }
    }
}

pub fn doc(t: &str) -> Document {
    expand(t).doc()
}
/// None: the parser refuses it
pub fn try_doc(t: &str) -> Option<Document> {
    let t = expand(t);
    sym::note(&t.text);
    match svgcleaner::cleaner::parse_data(&t.text, &parse_opts()) {
        Ok(mut d) => { t.fill(&mut d); Some(d) }
        Err(_) => None,
    }
}

/// the attributes of every element
pub fn copy(doc: &Document) -> Vec<Vec<(Name<AttributeId>, AttributeValue)>> {
    doc.root().descendants().filter(|n| n.node_type() == NodeType::Element)
        .map(|n| n.attributes().iter().map(|a| (a.name.clone(), a.value.clone())).collect()).collect()
}
