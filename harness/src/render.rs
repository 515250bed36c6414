//! The oracle: an independent, small model of what an SVG document draws.
//!
//! `render` turns a document into a tree of drawn items with geometry in canvas coordinates,
//! computed properties and group effects; `same` compares two of them.  It is written from the
//! SVG 1.1 rules and shares no code with the cleaner (only the DOM access of svgdom).
use crate::sym::{self, feq, fle, ite};
use svgdom::{AttributeId as AId, AttributeValue, Color, Document, ElementId as EId, LengthUnit, Node, NodeType, Transform, ValueId};

// ------------------------------------------------------------------ values
#[derive(Clone)]
pub enum V {
    None_,
    Kw(ValueId),
    Col(u8, u8, u8),
    Num(f64),
    Unit(f64, LengthUnit),
    List(Vec<(f64, LengthUnit)>),
    Str(String),
    Ref(Node),
    Path(Vec<S>),
    Other,
}

fn of_len(n: f64, u: LengthUnit) -> V {
    match u {
        LengthUnit::None | LengthUnit::Px => V::Num(n),
        u => V::Unit(n, u),
    }
}

pub fn val(v: &AttributeValue) -> V {
    match *v {
        AttributeValue::Color(ref c) => V::Col(c.red, c.green, c.blue),
        AttributeValue::Length(ref l) => of_len(l.num, l.unit),
        AttributeValue::LengthList(ref l) => V::List(l.iter().map(|x| (x.num, if x.unit == LengthUnit::Px { LengthUnit::None } else { x.unit })).collect()),
        AttributeValue::Number(n) => V::Num(n),
        AttributeValue::NumberList(ref l) => V::List(l.iter().map(|x| (*x, LengthUnit::None)).collect()),
        AttributeValue::PredefValue(k) => V::Kw(k),
        AttributeValue::String(ref s) => V::Str(s.clone()),
        AttributeValue::Link(ref n) | AttributeValue::FuncLink(ref n) => V::Ref(n.clone()),
        AttributeValue::Path(ref p) => V::Path(path_segs(p)),
        AttributeValue::Transform(_) => V::Other,
    }
}

pub fn attr(n: &Node, a: AId) -> Option<V> {
    let at = n.attributes();
    match at.get(a) {
        Some(x) if x.visible => Some(val(&x.value)),
        _ => None,
    }
}

/// without a fork; references compare by the caller
pub fn veq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::None_, V::None_) => true,
        (V::Kw(x), V::Kw(y)) => x == y,
        (V::Col(a, b, c), V::Col(d, e, f)) => a == d && b == e && c == f,
        (V::Num(x), V::Num(y)) => feq(*x, *y),
        (V::Unit(x, u), V::Unit(y, w)) => u == w && feq(*x, *y),
        (V::List(x), V::List(y)) => {
            if x.len() != y.len() { return false; }
            let mut r = true;
            for i in 0..x.len() { r &= x[i].1 == y[i].1 && feq(x[i].0, y[i].0); }
            r
        }
        (V::Str(x), V::Str(y)) => x == y,
        (V::Path(x), V::Path(y)) => segs_eq(x, y, false),
        _ => false,
    }
}

// ------------------------------------------------------------------ matrices
#[derive(Clone, Copy)]
pub struct M { pub a: f64, pub b: f64, pub c: f64, pub d: f64, pub e: f64, pub f: f64 }
pub const ID: M = M { a: 1.0, b: 0.0, c: 0.0, d: 1.0, e: 0.0, f: 0.0 };
impl M {
    pub fn mul(&self, t: &M) -> M {
        M {
            a: self.a * t.a + self.c * t.b,
            b: self.b * t.a + self.d * t.b,
            c: self.a * t.c + self.c * t.d,
            d: self.b * t.c + self.d * t.d,
            e: self.a * t.e + self.c * t.f + self.e,
            f: self.b * t.e + self.d * t.f + self.f,
        }
    }
    pub fn pt(&self, p: P) -> P { P(self.a * p.0 + self.c * p.1 + self.e, self.b * p.0 + self.d * p.1 + self.f) }
    pub fn vec(&self, p: P) -> P { P(self.a * p.0 + self.c * p.1, self.b * p.0 + self.d * p.1) }
    pub fn eq(&self, o: &M) -> bool { self.lin_eq(o) & feq(self.e, o.e) & feq(self.f, o.f) }
    pub fn lin_eq(&self, o: &M) -> bool { feq(self.a, o.a) & feq(self.b, o.b) & feq(self.c, o.c) & feq(self.d, o.d) }
    pub fn of(t: &Transform) -> M { M { a: t.a, b: t.b, c: t.c, d: t.d, e: t.e, f: t.f } }
}
pub fn ts(n: &Node, a: AId) -> M {
    let at = n.attributes();
    match at.get(a) {
        Some(x) if x.visible => match x.value { AttributeValue::Transform(ref t) => M::of(t), _ => ID },
        _ => ID,
    }
}

#[derive(Clone, Copy)]
pub struct P(pub f64, pub f64);
pub fn peq(a: P, b: P) -> bool { feq(a.0, b.0) & feq(a.1, b.1) }

// ------------------------------------------------------------------ paths
#[derive(Clone)]
pub enum S {
    M(P),
    L(P),
    C(P, P, P),
    Q(P, P),
    /// radii, rotation, large, sweep, end
    A(f64, f64, f64, bool, bool, P),
    Z,
    /// end of a normalised sub-path: 0 open, 1 closed, 2 either
    E(u8),
}
impl S {
    pub fn end(&self) -> Option<P> {
        match *self { S::M(p) | S::L(p) | S::C(_, _, p) | S::Q(_, p) | S::A(_, _, _, _, _, p) => Some(p), S::Z | S::E(_) => None }
    }
}

/// absolute segments with H, V, S and T expanded
pub fn path_segs(p: &svgdom::path::Path) -> Vec<S> {
    use svgdom::path::SegmentData as D;
    let mut r: Vec<S> = Vec::new();
    let mut cur = P(0.0, 0.0);
    let mut start = P(0.0, 0.0);
    // reflection points of the previous curve
    let mut cc: Option<P> = None;
    let mut qc: Option<P> = None;
    let mut first = true;
    for s in &p.d {
        let rel = !s.absolute && !first;
        let b = if rel { cur } else { P(0.0, 0.0) };
        let at = |x: f64, y: f64| if rel { P(b.0 + x, b.1 + y) } else { P(x, y) };
        // drawing after a Z without a MoveTo starts a new sub-path at the old start
        let implicit = match r.last() { Some(S::Z) => !matches!(s.data, D::MoveTo { .. } | D::ClosePath), _ => false };
        if implicit { r.push(S::M(cur)); start = cur; }
        let mut ncc = None;
        let mut nqc = None;
        match s.data {
            D::MoveTo { x, y } => { cur = at(x, y); start = cur; r.push(S::M(cur)); }
            D::LineTo { x, y } => { cur = at(x, y); r.push(S::L(cur)); }
            D::HorizontalLineTo { x } => { cur = P(if rel { cur.0 + x } else { x }, cur.1); r.push(S::L(cur)); }
            D::VerticalLineTo { y } => { cur = P(cur.0, if rel { cur.1 + y } else { y }); r.push(S::L(cur)); }
            D::CurveTo { x1, y1, x2, y2, x, y } => {
                let c2 = at(x2, y2);
                r.push(S::C(at(x1, y1), c2, at(x, y)));
                cur = at(x, y);
                ncc = Some(P(2.0 * cur.0 - c2.0, 2.0 * cur.1 - c2.1));
            }
            D::SmoothCurveTo { x2, y2, x, y } => {
                let c1 = cc.unwrap_or(cur);
                let c2 = at(x2, y2);
                r.push(S::C(c1, c2, at(x, y)));
                cur = at(x, y);
                ncc = Some(P(2.0 * cur.0 - c2.0, 2.0 * cur.1 - c2.1));
            }
            D::Quadratic { x1, y1, x, y } => {
                let c1 = at(x1, y1);
                r.push(S::Q(c1, at(x, y)));
                cur = at(x, y);
                nqc = Some(P(2.0 * cur.0 - c1.0, 2.0 * cur.1 - c1.1));
            }
            D::SmoothQuadratic { x, y } => {
                let c1 = qc.unwrap_or(cur);
                r.push(S::Q(c1, at(x, y)));
                cur = at(x, y);
                nqc = Some(P(2.0 * cur.0 - c1.0, 2.0 * cur.1 - c1.1));
            }
            D::EllipticalArc { rx, ry, x_axis_rotation, large_arc, sweep, x, y } => {
                cur = at(x, y);
                r.push(S::A(rx, ry, x_axis_rotation, large_arc, sweep, cur));
            }
            D::ClosePath => { r.push(S::Z); cur = start; }
        }
        cc = ncc;
        qc = nqc;
        first = false;
    }
    r
}

pub fn map_segs(v: &[S], m: &M) -> Vec<S> {
    v.iter().map(|s| match *s {
        S::M(p) => S::M(m.pt(p)),
        S::L(p) => S::L(m.pt(p)),
        S::C(a, b, c) => S::C(m.pt(a), m.pt(b), m.pt(c)),
        S::Q(a, b) => S::Q(m.pt(a), m.pt(b)),
        S::A(rx, ry, rot, l, s, p) => S::A(rx, ry, rot, l, s, m.pt(p)),
        S::Z => S::Z,
        S::E(k) => S::E(k),
    }).collect()
}

/// Drops what draws nothing (zero-length segments, sub-paths that are only a MoveTo) and
/// ends every sub-path with `E`: open, closed, or (a zero-length line at the start point of a
/// sub-path that has come back to it: the cleaner may close it or drop it) either.
/// A line back to the start as the last segment closes the sub-path (documented behaviour of
/// the unused segment removal).
pub fn normal_segs(v: &[S]) -> Vec<S> {
    let mut r: Vec<S> = Vec::new();
    let mut cur = P(0.0, 0.0);
    let mut start = P(0.0, 0.0);
    let mut pend: Option<P> = None; // MoveTo not yet emitted
    let mut open = false; // the current sub-path has emitted segments
    let mut prev_loop = false; // the last segment is a curve that ends where it starts
    let mut zline = false; // ... and then a zero-length line at its start
    fn close(r: &mut Vec<S>, start: P, open: bool, z: bool, zline: bool) {
        if !open { return; }
        let n = r.len();
        let back = match r[n - 1] { S::L(p) => peq(p, start), _ => false };
        if back { r.pop(); }
        if let Some(S::M(_)) = r.last() { r.pop(); return; }
        r.push(S::E(if back | z { 1 } else if zline { 2 } else { 0 }));
    }
    for s in v {
        match *s {
            S::M(p) => {
                close(&mut r, start, open, false, zline);
                open = false;
                zline = false;
                pend = Some(p);
                cur = p;
                start = p;
            }
            S::Z => {
                close(&mut r, start, open, true, zline);
                open = false;
                zline = false;
                pend = Some(start);
                cur = start;
            }
            ref s => {
                let e = s.end().unwrap();
                let zero = match *s {
                    S::L(_) => peq(cur, e),
                    S::A(..) => peq(cur, e),
                    S::C(a, b, _) => peq(cur, e) & peq(a, e) & peq(b, e),
                    S::Q(a, _) => peq(cur, e) & peq(a, e),
                    _ => false,
                };
                if zero {
                    if open && peq(e, start) { zline = true; }
                    continue;
                }
                // the same closed curve drawn twice in a row is drawn once
                let again = match (r.last(), s) {
                    (Some(S::C(a, b, p)), S::C(c, d, q)) => open && peq(cur, e) && prev_loop && peq(*a, *c) & peq(*b, *d) & peq(*p, *q),
                    (Some(S::Q(a, p)), S::Q(c, q)) => open && peq(cur, e) && prev_loop && peq(*a, *c) & peq(*p, *q),
                    _ => false,
                };
                if again { continue; }
                prev_loop = match *s { S::C(..) | S::Q(..) => peq(cur, e), _ => false };
                if let Some(p) = pend { r.push(S::M(p)); pend = None; }
                open = true;
                zline = false;
                // an arc without a radius is a line
                let s2 = match *s {
                    S::A(rx, ry, ..) => if feq(rx, 0.0) | feq(ry, 0.0) { S::L(e) } else { s.clone() },
                    // a curve that is a line back to the start closes the sub-path like a line does
                    S::C(..) | S::Q(..) => if peq(e, start) && is_line(cur, s) { S::L(e) } else { s.clone() },
                    _ => s.clone(),
                };
                r.push(s2);
                cur = e;
            }
        }
    }
    close(&mut r, start, open, false, zline);
    r
}

fn cross(o: P, a: P, b: P) -> f64 { (a.0 - o.0) * (b.1 - o.1) - (a.1 - o.1) * (b.0 - o.0) }
/// `p` on the closed segment a..b (unforked)
pub fn on_seg(p: P, a: P, b: P) -> bool {
    let bx = (fle(a.0, p.0) & fle(p.0, b.0)) | (fle(b.0, p.0) & fle(p.0, a.0));
    let by = (fle(a.1, p.1) & fle(p.1, b.1)) | (fle(b.1, p.1) & fle(p.1, a.1));
    bx & by & feq(cross(a, b, p), 0.0)
}
/// the curve from p0 draws exactly the line to its end (monotonically or not)
fn is_line(p0: P, s: &S) -> bool {
    match *s {
        S::C(a, b, e) => on_seg(a, p0, e) & on_seg(b, p0, e),
        S::Q(a, e) => on_seg(a, p0, e),
        _ => false,
    }
}

/// unforked comparison of two normalised paths in the same coordinate system
pub fn segs_eq(a: &[S], b: &[S], any_radii: bool) -> bool {
    if a.len() != b.len() { return false; }
    let mut r = true;
    let mut pa = P(0.0, 0.0);
    let mut pb = P(0.0, 0.0);
    for (x, y) in a.iter().zip(b) {
        r &= match (x, y) {
            (S::M(p), S::M(q)) | (S::L(p), S::L(q)) => peq(*p, *q),
            (S::C(p1, p2, p), S::C(q1, q2, q)) => {
                let e = peq(*p, *q);
                // both degenerate to the same line
                e & ((peq(*p1, *q1) & peq(*p2, *q2)) | (is_line(pa, x) & is_line(pb, y)))
            }
            (S::Q(p1, p), S::Q(q1, q)) => peq(*p, *q) & peq(*p1, *q1),
            (S::C(..), S::L(q)) | (S::Q(..), S::L(q)) => peq(x.end().unwrap(), *q) & is_line(pa, x),
            (S::L(q), S::C(..)) | (S::L(q), S::Q(..)) => peq(y.end().unwrap(), *q) & is_line(pb, y),
            (S::A(rx, ry, ro, l, s, p), S::A(rx2, ry2, ro2, l2, s2, q)) =>
                (any_radii | (feq(rx.abs(), rx2.abs()) & feq(ry.abs(), ry2.abs()))) & feq(*ro, *ro2) & (l == l2) & (s == s2) & peq(*p, *q),
            (S::Z, S::Z) => true,
            (S::E(x), S::E(y)) => x == y || *x == 2 || *y == 2,
            _ => false,
        };
        if let Some(p) = x.end() { pa = p; }
        if let Some(p) = y.end() { pb = p; }
    }
    r
}

// ------------------------------------------------------------------ computed style
pub const NPROP: usize = 38;
/// inherited presentation properties and their initial values
pub static PROPS: [AId; NPROP] = [
    AId::Fill, AId::FillOpacity, AId::FillRule, AId::Stroke, AId::StrokeWidth, AId::StrokeOpacity,
    AId::StrokeLinecap, AId::StrokeLinejoin, AId::StrokeMiterlimit, AId::StrokeDasharray, AId::StrokeDashoffset,
    AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd, AId::Visibility, AId::ClipRule, AId::Color,
    AId::ShapeRendering, AId::ColorInterpolation, AId::ColorRendering, AId::ImageRendering, AId::TextRendering,
    AId::FontFamily, AId::FontSize, AId::FontStyle, AId::FontWeight, AId::TextAnchor, AId::LetterSpacing,
    AId::WordSpacing, AId::FontVariant, AId::FontStretch, AId::WritingMode,
    AId::Direction, AId::Kerning, AId::FontSizeAdjust, AId::TextDecoration, AId::GlyphOrientationHorizontal, AId::GlyphOrientationVertical,
];
pub const FILL: usize = 0;
pub const FILL_OP: usize = 1;
pub const FILL_RULE: usize = 2;
pub const STROKE: usize = 3;
pub const STROKE_W: usize = 4;
pub const STROKE_OP: usize = 5;
pub const DASH: usize = 9;
pub const DASHOFF: usize = 10;
pub const MARK0: usize = 11;
pub const VISIB: usize = 14;
pub const CLIP_RULE: usize = 15;
pub const COLOR: usize = 16;
pub const COLOR_INT: usize = 18;
pub const FONT_SIZE: usize = 23;

fn initial(i: usize) -> V {
    match PROPS[i] {
        AId::Fill => V::Col(0, 0, 0),
        AId::FillOpacity | AId::StrokeOpacity | AId::StrokeWidth => V::Num(1.0),
        AId::FillRule | AId::ClipRule => V::Kw(ValueId::Nonzero),
        AId::Stroke | AId::StrokeDasharray | AId::MarkerStart | AId::MarkerMid | AId::MarkerEnd => V::Kw(ValueId::None),
        AId::StrokeLinecap => V::Kw(ValueId::Butt),
        AId::StrokeLinejoin => V::Kw(ValueId::Miter),
        AId::StrokeMiterlimit => V::Num(4.0),
        AId::StrokeDashoffset => V::Num(0.0),
        AId::Visibility => V::Kw(ValueId::Visible),
        AId::ShapeRendering | AId::ColorRendering | AId::ImageRendering | AId::TextRendering => V::Kw(ValueId::Auto),
        AId::ColorInterpolation => V::Kw(ValueId::SRGB),
        // multiples of `medium`
        AId::FontSize => V::Unit(1.0, LengthUnit::Em),
        AId::FontStyle | AId::FontWeight | AId::LetterSpacing | AId::WordSpacing | AId::FontVariant | AId::FontStretch => V::Kw(ValueId::Normal),
        AId::TextAnchor => V::Kw(ValueId::Start),
        AId::WritingMode => V::Kw(ValueId::LrTb),
        AId::Direction => V::Kw(ValueId::Ltr),
        AId::Kerning | AId::GlyphOrientationVertical => V::Kw(ValueId::Auto),
        AId::FontSizeAdjust | AId::TextDecoration => V::Kw(ValueId::None),
        _ => V::None_,
    }
}

/// an absolute font size, or one in multiples of `medium`
fn font_of(v: &V) -> Option<(f64, LengthUnit)> {
    match *v { V::Num(f) => Some((f, LengthUnit::None)), V::Unit(f, LengthUnit::Em) => Some((f, LengthUnit::Em)), _ => None }
}

/// `bolder` and `lighter` (CSS Fonts 3)
fn weight(k: ValueId, parent: &V) -> ValueId {
    use svgdom::ValueId as I;
    let p = match *parent {
        V::Kw(I::N100) | V::Kw(I::N200) | V::Kw(I::N300) => 3,
        V::Kw(I::N400) | V::Kw(I::Normal) | V::Kw(I::N500) => 5,
        V::Kw(I::N600) | V::Kw(I::N700) | V::Kw(I::Bold) => 7,
        V::Kw(I::N800) | V::Kw(I::N900) => 9,
        _ => return k,
    };
    match k {
        I::Bolder => match p { 3 => I::Normal, 5 => I::Bold, _ => I::N900 },
        I::Lighter => match p { 3 | 5 => I::N100, 7 => I::Normal, _ => I::Bold },
        k => k,
    }
}

/// `wider` and `narrower`
fn stretch(k: ValueId, parent: &V) -> ValueId {
    use svgdom::ValueId as I;
    const ALL: [I; 9] = [I::UltraCondensed, I::ExtraCondensed, I::Condensed, I::SemiCondensed, I::Normal, I::SemiExpanded, I::Expanded, I::ExtraExpanded, I::UltraExpanded];
    let p = match *parent { V::Kw(p) => ALL.iter().position(|x| *x == p), _ => None };
    match (k, p) {
        (I::Wider, Some(p)) => ALL[if p < 8 { p + 1 } else { 8 }],
        (I::Narrower, Some(p)) => ALL[if p > 0 { p - 1 } else { 0 }],
        (k, _) => k,
    }
}

#[derive(Clone)]
pub struct Style(pub Vec<V>);
impl Style {
    pub fn initial() -> Style { Style((0..NPROP).map(initial).collect()) }
    pub fn of(&self, n: &Node) -> Style {
        let mut r = self.clone();
        // relative font sizes are computed where they are set
        if let Some(v) = attr(n, AId::FontSize) {
            let base = font_of(&self.0[FONT_SIZE]);
            let of = |x: f64, (f, u): (f64, LengthUnit)| of_len(x * f, u);
            r.0[FONT_SIZE] = match (v, base) {
                (V::Kw(ValueId::Inherit), _) => self.0[FONT_SIZE].clone(),
                (V::Kw(ValueId::Medium), _) => initial(FONT_SIZE),
                (V::Unit(x, LengthUnit::Em), Some(f)) => of(x, f),
                (V::Unit(x, LengthUnit::Percent), Some(f)) => of(x / 100.0, f),
                // any factor will do
                (V::Kw(ValueId::Larger), Some(f)) => of(1.25, f),
                (V::Kw(ValueId::Smaller), Some(f)) => of(0.75, f),
                (v, _) => v,
            };
        }
        let font = font_of(&r.0[FONT_SIZE]);
        let em = |x: f64, u: LengthUnit| -> (f64, LengthUnit) {
            match (u, font) { (LengthUnit::Em, Some((f, u))) => (x * f, u), (LengthUnit::Ex, Some((f, _))) => (x * f, LengthUnit::Ex), _ => (x, u) }
        };
        for i in 0..NPROP {
            if i == FONT_SIZE { continue; }
            let v = match attr(n, PROPS[i]) {
                Some(v) => v,
                // the `marker` shorthand is known to CSS only
                None => continue,
            };
            match v {
                V::Kw(ValueId::Inherit) => {}
                V::Unit(x, u) => { let (y, w) = em(x, u); r.0[i] = if w == LengthUnit::None { V::Num(y) } else { V::Unit(y, w) }; }
                V::List(l) => r.0[i] = V::List(l.iter().map(|v| em(v.0, v.1)).collect()),
                V::Kw(k) => r.0[i] = V::Kw(stretch(weight(k, &self.0[i]), &self.0[i])),
                v => r.0[i] = v,
            }
        }
        // currentColor
        for i in &[FILL, STROKE] {
            if let V::Kw(ValueId::CurrentColor) = r.0[*i] {
                r.0[*i] = match r.0[COLOR] { V::None_ => V::Col(0, 0, 0), ref v => v.clone() };
            }
        }
        r
    }
}

/// a property that is not inherited
pub fn own(n: &Node, a: AId, parent: Option<&Node>) -> Option<V> {
    match attr(n, a) {
        Some(V::Kw(ValueId::Inherit)) => match parent {
            Some(p) => {
                let pp = p.parent();
                own(p, a, pp.as_ref())
            }
            None => None,
        },
        v => v,
    }
}

// ------------------------------------------------------------------ the drawn tree
#[derive(Clone)]
pub struct Stop { pub off: f64, pub col: V, pub op: f64 }

#[derive(Clone)]
pub enum Paint {
    None_,
    Solid(V, f64),
    Grad(Box<Grad>, f64),
    Pattern(Box<Opaque>, f64),
}
#[derive(Clone)]
pub struct Grad {
    pub radial: bool,
    pub bbox: bool,
    pub spread: V,
    /// color-interpolation
    pub ci: V,
    /// gradientTransform
    pub m: M,
    pub geo: Vec<V>,
    pub stops: Vec<Stop>,
}
/// a definition whose attributes are compared as they are, with drawn children
#[derive(Clone)]
pub struct Opaque {
    pub tag: EId,
    pub attrs: Vec<(AId, V)>,
    pub strs: Vec<String>,
    pub ts: Vec<(AId, M)>,
    pub kids: Vec<Item>,
}

#[derive(Clone)]
pub enum Shape {
    Path(Vec<S>),
    /// closed set of characteristic points of an ellipse or rounded rect, local coordinates
    Ell(P, f64, f64),
    RRect(P, P, f64, f64),
    /// a basic shape with some lengths in other units: points (x, y) and lengths as written
    Units(EId, Vec<V>, Vec<V>),
    /// anything else: tag, attributes, text
    Other(Box<Opaque>),
}

#[derive(Clone)]
pub enum Item {
    Leaf(Box<Leaf>),
    Group(Box<Group>),
}
#[derive(Clone)]
pub struct Leaf {
    pub tag: EId,
    pub shape: Shape,
    pub ctm: M,
    pub style: Style,
    pub fill: Paint,
    pub stroke: Paint,
    pub markers: Vec<Option<Box<Opaque>>>,
    pub in_clip: bool,
    pub text: bool,
    pub em: bool,
    /// needs the local coordinate system itself (percentages, other units, bounding boxes)
    pub local: bool,
}
#[derive(Clone)]
pub struct Group {
    pub opacity: f64,
    pub opaque: bool,
    pub clip: Option<Box<Opaque>>,
    pub mask: Option<Box<Opaque>>,
    pub filter: Option<Box<Opaque>>,
    /// viewport of a nested svg, a switch or the like: kept as it is
    pub port: Option<Box<Opaque>>,
    pub ctm: M,
    pub kids: Vec<Item>,
}

pub struct Cx {
    pub depth: u32,
    /// drop items that cannot be seen
    pub drop_invisible: bool,
    pub in_clip: bool,
    /// a filter applies somewhere above
    pub filtered: bool,
    /// inside a definition: keep everything that is not display:none
    pub in_def: bool,
}

fn is_group(t: EId) -> bool { matches!(t, EId::G | EId::A | EId::Svg | EId::Switch | EId::Symbol) }
pub fn is_shape(t: EId) -> bool { matches!(t, EId::Path | EId::Rect | EId::Circle | EId::Ellipse | EId::Line | EId::Polyline | EId::Polygon) }

pub fn num_or(n: &Node, a: AId, d: f64, local: &mut bool, em: &mut bool) -> f64 {
    match attr(n, a) {
        Some(V::Num(x)) => x,
        Some(V::Unit(x, u)) => {
            *local = true;
            if u == LengthUnit::Em || u == LengthUnit::Ex { *em = true; }
            x
        }
        _ => d,
    }
}

fn units(n: &Node, a: AId) -> V { attr(n, a).unwrap_or(V::None_) }

/// attribute by href chain
fn chain(n: &Node, a: AId, depth: u32) -> Option<V> {
    if let Some(v) = attr(n, a) { return Some(v); }
    if depth == 0 { return None; }
    match attr(n, AId::XlinkHref) {
        Some(V::Ref(ref l)) => chain(l, a, depth - 1),
        _ => None,
    }
}
fn chain_ts(n: &Node, a: AId, depth: u32) -> M {
    let has = { let at = n.attributes(); match at.get(a) { Some(x) => x.visible, None => false } };
    if has { return ts(n, a); }
    if depth == 0 { return ID; }
    match attr(n, AId::XlinkHref) {
        Some(V::Ref(ref l)) => chain_ts(l, a, depth - 1),
        _ => ID,
    }
}
fn chain_stops(n: &Node, depth: u32) -> Option<Node> {
    if n.children().any(|c| c.is_tag_name(EId::Stop)) { return Some(n.clone()); }
    if depth == 0 { return None; }
    match attr(n, AId::XlinkHref) {
        Some(V::Ref(ref l)) => chain_stops(l, depth - 1),
        _ => None,
    }
}
fn is_grad(n: &Node) -> bool { n.is_tag_name(EId::LinearGradient) || n.is_tag_name(EId::RadialGradient) }

fn clamp01(v: f64) -> f64 {
    let v = ite(fle(v, 0.0), 0.0, v);
    ite(fle(1.0, v), 1.0, v)
}
/// the nearest `color` value
fn color_at(n: &Node) -> V {
    let mut c = Some(n.clone());
    while let Some(x) = c {
        match attr(&x, AId::Color) {
            Some(V::Kw(ValueId::Inherit)) | None => {}
            Some(v) => return v,
        }
        c = x.parent();
    }
    V::Col(0, 0, 0)
}
fn stop_prop(n: &Node, a: AId) -> Option<V> {
    let p = n.parent();
    own(n, a, p.as_ref())
}

pub fn grad(n: &Node) -> Grad {
    let radial = n.is_tag_name(EId::RadialGradient);
    let bbox = match chain(n, AId::GradientUnits, 4) { Some(V::Kw(ValueId::UserSpaceOnUse)) => false, _ => true };
    let spread = chain(n, AId::SpreadMethod, 4).unwrap_or(V::Kw(ValueId::Pad));
    let m = chain_ts(n, AId::GradientTransform, 4);
    let pct = |x: f64| V::Unit(x, LengthUnit::Percent);
    // the geometry is inherited only from gradients of the same kind
    fn geo(n: &Node, radial: bool, a: AId, depth: u32) -> Option<V> {
        if n.is_tag_name(EId::RadialGradient) == radial {
            if let Some(v) = attr(n, a) { return Some(v); }
        }
        if depth == 0 { return None; }
        match attr(n, AId::XlinkHref) {
            Some(V::Ref(ref l)) => geo(l, radial, a, depth - 1),
            _ => None,
        }
    }
    let norm = |v: V| -> V {
        // with bounding-box units 50% is 0.5, and 0% is 0 in any units
        match v {
            V::Unit(x, LengthUnit::Percent) => if bbox { V::Num(x / 100.0) } else if x == 0.0 { V::Num(0.0) } else { V::Unit(x, LengthUnit::Percent) },
            v => font_len(&v, n),
        }
    };
    let mut g = Vec::new();
    if radial {
        let cx = geo(n, true, AId::Cx, 4).unwrap_or(pct(50.0));
        let cy = geo(n, true, AId::Cy, 4).unwrap_or(pct(50.0));
        let r = geo(n, true, AId::R, 4).unwrap_or(pct(50.0));
        let fx = geo(n, true, AId::Fx, 4).unwrap_or(cx.clone());
        let fy = geo(n, true, AId::Fy, 4).unwrap_or(cy.clone());
        for v in vec![cx, cy, r, fx, fy] { g.push(norm(v)); }
    } else {
        let d = [pct(0.0), pct(0.0), pct(100.0), pct(0.0)];
        for (i, a) in [AId::X1, AId::Y1, AId::X2, AId::Y2].iter().enumerate() {
            g.push(norm(geo(n, false, *a, 4).unwrap_or(d[i].clone())));
        }
    }
    let mut stops = Vec::new();
    if let Some(sn) = chain_stops(n, 4) {
        let mut last = 0.0;
        for s in sn.children().filter(|c| c.is_tag_name(EId::Stop)) {
            let o = match attr(&s, AId::Offset) {
                Some(V::Num(x)) => x,
                Some(V::Unit(x, LengthUnit::Percent)) => x / 100.0,
                _ => 0.0,
            };
            let o = clamp01(o);
            // an offset smaller than the one before it counts as that one
            let o = ite(fle(o, last), last, o);
            last = o;
            let col = match stop_prop(&s, AId::StopColor) {
                Some(V::Kw(ValueId::CurrentColor)) => color_at(&s),
                Some(v) => v,
                None => V::Col(0, 0, 0),
            };
            let op = match stop_prop(&s, AId::StopOpacity) { Some(V::Num(x)) => clamp01(x), _ => 1.0 };
            stops.push(Stop { off: o, col, op });
        }
    }
    let ci = style_at(n).0[COLOR_INT].clone();
    Grad { radial, bbox, spread, ci, m, geo: g, stops }
}

/// drop stops that cannot influence the gradient
pub fn normal_stops(v: &[Stop]) -> Vec<Stop> {
    let mut r: Vec<Stop> = Vec::new();
    for (i, s) in v.iter().enumerate() {
        let n = r.len();
        // hidden between two stops at the same offset
        if n > 0 && i + 1 < v.len() {
            if feq(r[n - 1].off, s.off) && feq(v[i + 1].off, s.off) { continue; }
        }
        // a repeated stop
        if n > 0 && feq(r[n - 1].off, s.off) && feq(r[n - 1].op, s.op) && veq(&r[n - 1].col, &s.col) { continue; }
        r.push(s.clone());
    }
    r
}

fn stops_eq(a: &[Stop], b: &[Stop]) -> bool {
    if a.len() != b.len() { return false; }
    let mut r = true;
    for (x, y) in a.iter().zip(b) { r &= feq(x.off, y.off) & feq(x.op, y.op) & veq(&x.col, &y.col); }
    r
}

/// lengths in font units, of an element that inherits from its ancestors only
fn font_len(v: &V, n: &Node) -> V {
    match *v {
        V::Unit(x, u) if u == LengthUnit::Em || u == LengthUnit::Ex => match font_of(&style_at(n).0[FONT_SIZE]) {
            Some((f, LengthUnit::None)) if u == LengthUnit::Em => V::Num(x * f),
            Some((f, _)) => V::Unit(x * f, u),
            None => v.clone(),
        },
        _ => v.clone(),
    }
}

fn opaque(cx: &mut Cx, n: &Node, ctm: &M, parent: &Style) -> Opaque {
    // everything an opaque definition is made of: its attributes (with href), its children
    let mut o = Opaque { tag: n.tag_id().unwrap_or(EId::G), attrs: vec![], strs: vec![], ts: vec![], kids: vec![] };
    collect_attrs(n, &mut o);
    for a in o.attrs.iter_mut() { a.1 = font_len(&a.1, n); }
    if n.is_tag_name(EId::Mask) {
        o.attrs.retain(|a| a.0 != AId::ColorInterpolation);
        o.attrs.push((AId::ColorInterpolation, style_at(n).0[COLOR_INT].clone()));
    }
    let filt = n.is_tag_name(EId::Filter) || is_fe(n);
    if cx.depth == 0 { return o; }
    cx.depth -= 1;
    if filt {
        let src = if n.is_tag_name(EId::Filter) { filter_source(n, 4) } else { n.clone() };
        for c in src.children().filter(|c| is_fe(c)) {
            let k = opaque(cx, &c, ctm, parent);
            o.kids.push(wrap(k));
        }
    } else {
        let save = (cx.in_clip, cx.in_def, cx.filtered);
        cx.in_def = true;
        cx.filtered = false;
        if n.is_tag_name(EId::ClipPath) { cx.in_clip = true; }
        // a definition inherits from its own ancestors
        let st = style_at(n);
        let m = if n.is_tag_name(EId::ClipPath) { ts(n, AId::Transform) } else { ID };
        for c in n.children() { item(cx, &c, &m, &st, Some(n), &mut o.kids); }
        if n.is_tag_name(EId::ClipPath) || n.is_tag_name(EId::Mask) {
            let p = n.parent();
            if let Some(V::Ref(r)) = own(n, AId::ClipPath, p.as_ref()) {
                let k = opaque(cx, &r, &ID, parent);
                // a clip path that is clipped away completely
                if cx.drop_invisible && (k.kids.is_empty() || o.kids.is_empty()) { o.kids.clear() } else { o.kids.push(wrap(k)); }
            }
            if let Some(V::Ref(r)) = own(n, AId::Mask, p.as_ref()) { let k = opaque(cx, &r, &ID, parent); o.kids.push(wrap(k)); }
        }
        if n.is_tag_name(EId::Pattern) && !n.has_children() {
            if let Some(V::Ref(r)) = attr(n, AId::XlinkHref) { let k = opaque(cx, &r, &ID, parent); o.kids = k.kids; }
        }
        cx.in_clip = save.0;
        cx.in_def = save.1;
        cx.filtered = save.2;
    }
    cx.depth += 1;
    o
}
fn wrap(k: Opaque) -> Item {
    Item::Group(Box::new(Group { opacity: 1.0, opaque: true, clip: None, mask: None, filter: None, port: Some(Box::new(k)), ctm: ID, kids: vec![] }))
}
fn is_fe(n: &Node) -> bool {
    match n.tag_id() {
        Some(t) => matches!(t, EId::FeBlend | EId::FeColorMatrix | EId::FeComponentTransfer | EId::FeComposite | EId::FeConvolveMatrix
            | EId::FeDiffuseLighting | EId::FeDisplacementMap | EId::FeDistantLight | EId::FeFlood | EId::FeFuncA | EId::FeFuncB | EId::FeFuncG
            | EId::FeFuncR | EId::FeGaussianBlur | EId::FeImage | EId::FeMerge | EId::FeMergeNode | EId::FeMorphology | EId::FeOffset
            | EId::FePointLight | EId::FeSpecularLighting | EId::FeSpotLight | EId::FeTile | EId::FeTurbulence),
        None => false,
    }
}

/// children of a filter, found through its references
fn filter_source(n: &Node, depth: u32) -> Node {
    if depth > 0 && !n.children().any(|c| is_fe(&c)) {
        if let Some(V::Ref(ref r)) = attr(n, AId::XlinkHref) {
            if r.is_tag_name(EId::Filter) { return filter_source(r, depth - 1); }
        }
    }
    n.clone()
}
/// the colour matrix Illustrator writes: its region is that of the element
fn identity_filter(f: &Opaque) -> bool {
    if f.kids.len() != 1 { return false; }
    let k = match f.kids[0] { Item::Group(ref g) => match g.port { Some(ref p) => p, None => return false }, _ => return false };
    k.tag == EId::FeColorMatrix && k.attrs.iter().any(|a| a.0 == AId::Values && veq(&a.1, &V::Str("1 0 0 0 0  0 1 0 0 0  0 0 1 0 0  0 0 0 1 0".to_string())))
        && k.attrs.iter().all(|a| a.0 == AId::Type || a.0 == AId::Values || a.0 == AId::Result)
}

/// computed inherited properties of `n` from its ancestors
pub fn style_at(n: &Node) -> Style {
    let mut v = vec![n.clone()];
    let mut c = n.parent();
    while let Some(x) = c { if x.node_type() == NodeType::Element { v.push(x.clone()); } c = x.parent(); }
    let mut s = Style::initial();
    for x in v.iter().rev() { s = s.of(x); }
    s
}

/// attributes that describe the element itself (not inherited style, ids, namespaces)
fn own_attr(a: AId) -> bool {
    if PROPS.iter().any(|p| *p == a) { return false; }
    !matches!(a, AId::Id | AId::Class | AId::Style | AId::Opacity | AId::ClipPath | AId::Mask | AId::Filter | AId::Display | AId::Marker
        | AId::Xmlns | AId::XmlnsXlink | AId::Version | AId::XmlSpace | AId::Overflow | AId::EnableBackground | AId::Transform
        | AId::StopColor | AId::StopOpacity | AId::XlinkType | AId::XlinkShow | AId::XlinkActuate | AId::BaseProfile)
}
fn is_text_elem(t: EId) -> bool { matches!(t, EId::Text | EId::Tspan | EId::Tref | EId::TextPath | EId::AltGlyph) }

/// has no influence on what the element of a definition draws
fn without_effect(t: EId, a: AId) -> bool {
    match a {
        AId::BaselineShift | AId::AlignmentBaseline | AId::DominantBaseline | AId::UnicodeBidi => !is_text_elem(t),
        AId::LineHeight | AId::PointerEvents | AId::Cursor | AId::ColorInterpolationFilters | AId::Font => true,
        AId::FloodColor | AId::FloodOpacity => t != EId::FeFlood,
        AId::LightingColor => t != EId::FeDiffuseLighting && t != EId::FeSpecularLighting,
        _ => false,
    }
}
/// the value an attribute has when it is missing
fn is_dflt(t: EId, aid: AId, v: &V) -> bool {
    let num = |d: f64| match *v { V::Num(x) => feq(x, d), V::List(ref l) => l.len() == 1 && l[0].1 == LengthUnit::None && feq(l[0].0, d), _ => false };
    let pct = |d: f64| match *v { V::Unit(x, LengthUnit::Percent) => feq(x, d), _ => false };
    let kw = |k: ValueId| veq(v, &V::Kw(k));
    match aid {
        AId::X | AId::Y => match t {
            EId::Mask | EId::Filter => pct(-10.0),
            EId::Tspan | EId::Tref | EId::AltGlyph | EId::GlyphRef => false,
            t if is_prim(t) => false,
            _ => num(0.0) || pct(0.0),
        },
        AId::Width | AId::Height => match t {
            EId::Svg => pct(100.0),
            EId::Pattern => num(0.0),
            EId::Mask | EId::Filter => pct(120.0),
            _ => false,
        },
        AId::Cx | AId::Cy | AId::X1 | AId::Y1 | AId::X2 | AId::Y2 => num(0.0) || pct(0.0),
        AId::RefX | AId::RefY => num(0.0),
        AId::StdDeviation => num(0.0),
        AId::ClipPathUnits | AId::MaskContentUnits | AId::PatternContentUnits | AId::PrimitiveUnits => kw(ValueId::UserSpaceOnUse),
        AId::MaskUnits | AId::PatternUnits | AId::FilterUnits => kw(ValueId::ObjectBoundingBox),
        AId::BaselineShift => kw(ValueId::Baseline),
        AId::AlignmentBaseline | AId::DominantBaseline => kw(ValueId::Auto),
        AId::UnicodeBidi => kw(ValueId::Normal),
        AId::FloodColor => veq(v, &V::Col(0, 0, 0)),
        AId::LightingColor => veq(v, &V::Col(255, 255, 255)),
        AId::FloodOpacity => num(1.0),
        AId::Slope => veq(v, &V::Str(if t == EId::FontFace { "0" } else { "1" }.to_string())),
        AId::UnitsPerEm => veq(v, &V::Str("1000".to_string())),
        _ => false,
    }
}
fn is_prim(t: EId) -> bool {
    matches!(t, EId::FeBlend | EId::FeColorMatrix | EId::FeComponentTransfer | EId::FeComposite | EId::FeConvolveMatrix
        | EId::FeDiffuseLighting | EId::FeDisplacementMap | EId::FeFlood | EId::FeGaussianBlur | EId::FeImage | EId::FeMerge
        | EId::FeMorphology | EId::FeOffset | EId::FeSpecularLighting | EId::FeTile | EId::FeTurbulence)
}

fn collect_attrs(n: &Node, o: &mut Opaque) {
    collect_own(n, o, 4);
    let t = o.tag;
    // the position of the root element means nothing
    if n.parent().map(|p| p.node_type() == NodeType::Root).unwrap_or(true) { o.attrs.retain(|a| a.0 != AId::X && a.0 != AId::Y); }
    o.attrs.retain(|a| !is_dflt(t, a.0, &a.1));
    // what sticks out of a viewport or tile
    if matches!(t, EId::Svg | EId::Symbol | EId::Image | EId::ForeignObject | EId::Pattern | EId::Marker) {
        let p = n.parent();
        let shown = match own(n, AId::Overflow, p.as_ref()) {
            Some(V::Kw(ValueId::Visible)) | Some(V::Kw(ValueId::Auto)) => true,
            Some(_) => false,
            None => t == EId::Svg && p.map(|p| p.node_type() == NodeType::Root).unwrap_or(false),
        };
        if shown { o.attrs.push((AId::Overflow, V::Kw(ValueId::Visible))); }
    }
    if is_prim(t) {
        let mut v = None;
        let mut c = Some(n.clone());
        while let Some(x) = c {
            match attr(&x, AId::ColorInterpolationFilters) { None | Some(V::Kw(ValueId::Inherit)) => {} y => { v = y; break; } }
            c = x.parent();
        }
        match v { None | Some(V::Kw(ValueId::LinearRGB)) => {} Some(v) => o.attrs.push((AId::ColorInterpolationFilters, v)) }
    }
    // the order of attributes means nothing
    o.attrs.sort_by(|a, b| (a.0 as u32).cmp(&(b.0 as u32)));
}

fn collect_own(n: &Node, o: &mut Opaque, depth: u32) {
    let tag = n.tag_id().unwrap_or(EId::G);
    {
        let at = n.attributes();
        for (aid, a) in at.iter_svg() {
            if !a.visible || !own_attr(aid) || without_effect(tag, aid) { continue; }
            match a.value {
                AttributeValue::Transform(ref t) => if !o.ts.iter().any(|x| x.0 == aid) { o.ts.push((aid, M::of(t))) },
                AttributeValue::Link(_) | AttributeValue::FuncLink(_) => {}
                ref v => {
                    let mut v = val(v);
                    if let V::Kw(ValueId::CurrentColor) = v { v = color_at(n); }
                    if let V::Kw(ValueId::Inherit) = v {
                        let p = n.parent();
                        v = match own(n, aid, p.as_ref()) { Some(v) => v, None => continue };
                    }
                    if !o.attrs.iter().any(|x| x.0 == aid) { o.attrs.push((aid, v)); }
                }
            }
        }
    }
    // what is missing comes from the referenced one
    if depth > 0 && (tag == EId::Pattern || tag == EId::Filter) {
        if let Some(V::Ref(r)) = attr(n, AId::XlinkHref) {
            if r.is_tag_name(tag) { collect_own(&r, o, depth - 1); }
        }
    }
}

fn paint(cx: &mut Cx, v: &V, op: &V, ctm: &M, st: &Style) -> Paint {
    let op = match *op { V::Num(x) => clamp01(x), _ => 1.0 };
    match *v {
        V::Ref(ref n) => {
            if is_grad(n) {
                let mut g = grad(n);
                g.stops = normal_stops(&g.stops);
                match g.stops.len() {
                    0 => Paint::None_,
                    1 => Paint::Solid(g.stops[0].col.clone(), g.stops[0].op * op),
                    _ => Paint::Grad(Box::new(g), op),
                }
            } else if n.is_tag_name(EId::Pattern) {
                Paint::Pattern(Box::new(opaque(cx, n, ctm, st)), op)
            } else {
                Paint::None_
            }
        }
        V::Kw(ValueId::None) | V::None_ => Paint::None_,
        ref c => Paint::Solid(c.clone(), op),
    }
}

fn local_paint(p: &Paint) -> bool {
    match p {
        Paint::Grad(g, _) => {
            g.bbox || g.geo.iter().any(|v| match v { V::Unit(..) => true, _ => false })
        }
        Paint::Pattern(..) => true,
        _ => false,
    }
}

fn vals(n: &Node, l: &[AId]) -> Vec<V> { l.iter().map(|a| attr(n, *a).unwrap_or(V::Num(0.0))).collect() }

/// None: draws nothing
fn shape_of(n: &Node, local: &mut bool, em: &mut bool) -> Option<Shape> {
    let t = n.tag_id().unwrap();
    let mut g = |a: AId| num_or(n, a, 0.0, local, em);
    match t {
        EId::Path => {
            let at = n.attributes();
            match at.get_value(AId::D) {
                Some(&AttributeValue::Path(ref p)) => Some(Shape::Path(path_segs(p))),
                _ => None,
            }
        }
        EId::Line => {
            let (a, b) = (P(g(AId::X1), g(AId::Y1)), P(g(AId::X2), g(AId::Y2)));
            if *local { return Some(Shape::Units(t, vals(n, &[AId::X1, AId::Y1, AId::X2, AId::Y2]), vec![])); }
            Some(Shape::Path(vec![S::M(a), S::L(b)]))
        }
        EId::Polyline | EId::Polygon => {
            let v = match attr(n, AId::Points) { Some(V::List(l)) => l, _ => return None };
            let k = v.len() / 2;
            if k < 1 { return None; }
            let mut r = vec![S::M(P(v[0].0, v[1].0))];
            for i in 1..k { r.push(S::L(P(v[2 * i].0, v[2 * i + 1].0))); }
            if t == EId::Polygon { r.push(S::Z); }
            Some(Shape::Path(r))
        }
        EId::Rect => {
            let (x, y, w, h) = (g(AId::X), g(AId::Y), g(AId::Width), g(AId::Height));
            if fle(w, 0.0) | fle(h, 0.0) { return None; }
            // a negative radius is an error, as if it were not there
            let has = |a: AId| match attr(n, a) { None => false, Some(V::Unit(x, _)) => !(x < 0.0), _ => true };
            let (gx, gy) = (has(AId::Rx), has(AId::Ry));
            let (mut rx, mut ry) = (if gx { g(AId::Rx) } else { 0.0 }, if gy { g(AId::Ry) } else { 0.0 });
            let bx = gx && !fle(0.0, rx);
            let by = gy && !fle(0.0, ry);
            let gx = gx && !bx;
            let gy = gy && !by;
            if !gx { rx = 0.0; }
            if !gy { ry = 0.0; }
            if gx && !gy { ry = rx; }
            if gy && !gx { rx = ry; }
            if *local {
                let mut l = vals(n, &[AId::Width, AId::Height]);
                let mut vx = if gx { attr(n, AId::Rx).unwrap() } else { V::None_ };
                let mut vy = if gy { attr(n, AId::Ry).unwrap() } else { V::None_ };
                // the other one, except that percents are of the other side
                let pct = |v: &V| match *v { V::Unit(_, LengthUnit::Percent) => true, _ => false };
                if gx && !gy && !pct(&vx) { vy = vx.clone(); }
                if gy && !gx && !pct(&vy) { vx = vy.clone(); }
                l.push(vx);
                l.push(vy);
                return Some(Shape::Units(t, vals(n, &[AId::X, AId::Y]), l));
            }
            let hw = w * 0.5;
            let hh = h * 0.5;
            rx = ite(fle(hw, rx), hw, rx);
            ry = ite(fle(hh, ry), hh, ry);
            if feq(rx, 0.0) | feq(ry, 0.0) {
                return Some(Shape::Path(vec![S::M(P(x, y)), S::L(P(x + w, y)), S::L(P(x + w, y + h)), S::L(P(x, y + h)), S::Z]));
            }
            Some(Shape::RRect(P(x, y), P(w, h), rx, ry))
        }
        EId::Circle => {
            let (c, r) = (P(g(AId::Cx), g(AId::Cy)), g(AId::R));
            if fle(r, 0.0) { return None; }
            if *local { return Some(Shape::Units(t, vals(n, &[AId::Cx, AId::Cy]), vals(n, &[AId::R]))); }
            Some(Shape::Ell(c, r, r))
        }
        EId::Ellipse => {
            let (c, rx, ry) = (P(g(AId::Cx), g(AId::Cy)), g(AId::Rx), g(AId::Ry));
            if fle(rx, 0.0) | fle(ry, 0.0) { return None; }
            if *local { return Some(Shape::Units(t, vals(n, &[AId::Cx, AId::Cy]), vals(n, &[AId::Rx, AId::Ry]))); }
            Some(Shape::Ell(c, rx, ry))
        }
        _ => None,
    }
}

fn has_text(o: &Opaque) -> bool {
    o.strs.iter().any(|s| !s.is_empty()) || o.kids.iter().any(|k| match *k {
        Item::Leaf(ref l) => match l.shape { Shape::Other(ref k) => has_text(k), _ => false },
        _ => false,
    })
}
fn text_nodes(cx: &mut Cx, n: &Node, st: &Style, o: &mut Opaque) {
    for c in n.children() {
        match c.node_type() {
            NodeType::Text => {
                o.strs.push(c.text().clone());
                // white space that is kept
                if c.text().trim() != &**c.text() || c.text().contains("  ") {
                    let mut p = c.parent();
                    while let Some(x) = p {
                        if let Some(V::Str(s)) = attr(&x, AId::XmlSpace) { if s == "preserve" { o.strs.push("preserve".to_string()); } break; }
                        p = x.parent();
                    }
                }
            }
            NodeType::Element => {
                if let Some(V::Kw(ValueId::None)) = attr(&c, AId::Display) { continue; }
                let s = st.of(&c);
                let mut k = Opaque { tag: c.tag_id().unwrap_or(EId::Tspan), attrs: vec![], strs: vec![], ts: vec![], kids: vec![] };
                collect_attrs(&c, &mut k);
                if let Some(V::Num(x)) = attr(&c, AId::Opacity) { k.attrs.push((AId::Opacity, V::Num(x))); }
                if cx.depth > 0 {
                    cx.depth -= 1;
                    text_nodes(cx, &c, &s, &mut k);
                    if let Some(V::Ref(r)) = attr(&c, AId::XlinkHref) {
                        // only the geometry of a path with a text matters
                        if r.is_tag_name(EId::Path) {
                            if let Some(l) = leaf(cx, &r, EId::Path, &ts(&r, AId::Transform), &Style::initial(), false) { k.kids.push(Item::Leaf(Box::new(l))); }
                        }
                        else { text_nodes(cx, &r, &s, &mut k); }
                    }
                    cx.depth += 1;
                }
                let fill = paint(cx, &s.0[FILL], &s.0[FILL_OP], &ID, &s);
                let stroke = paint(cx, &s.0[STROKE], &s.0[STROKE_OP], &ID, &s);
                if !has_text(&k) { continue; }
                o.kids.push(Item::Leaf(Box::new(Leaf { tag: EId::Tspan, shape: Shape::Other(Box::new(k)), ctm: ID, style: s, fill, stroke, markers: vec![],
                    in_clip: cx.in_clip, text: true, em: true, local: true })));
                o.strs.push(String::new());
            }
            _ => {}
        }
    }
}

fn item(cx: &mut Cx, n: &Node, ctm: &M, parent: &Style, pnode: Option<&Node>, out: &mut Vec<Item>) {
    if n.node_type() != NodeType::Element { return; }
    let t = match n.tag_id() { Some(t) => t, None => return };
    let shape = is_shape(t);
    if !shape && !is_group(t) && !matches!(t, EId::Use | EId::Text | EId::Image) { return; }
    if cx.in_clip && is_group(t) { return; }
    if let Some(V::Kw(ValueId::None)) = own(n, AId::Display, pnode) { return; }
    if t == EId::Symbol && pnode.map(|p| !p.is_tag_name(EId::Use)).unwrap_or(true) { return; }
    let st = parent.of(n);
    let mut m = if t == EId::Svg { *ctm } else { ctm.mul(&ts(n, AId::Transform)) };
    // x and y of a use are part of the transform of the group it stands for
    let (mut use_local, mut use_em) = (false, false);
    if t == EId::Use {
        let x = num_or(n, AId::X, 0.0, &mut use_local, &mut use_em);
        let y = num_or(n, AId::Y, 0.0, &mut use_local, &mut use_em);
        if !use_local { m = m.mul(&M { a: 1.0, b: 0.0, c: 0.0, d: 1.0, e: x, f: y }); }
    }

    // group effects of this element
    let mut opacity = match own(n, AId::Opacity, pnode) { Some(V::Num(x)) => clamp01(x), _ => 1.0 };
    if cx.in_clip { opacity = 1.0; }
    let mut clip = None;
    let mut mask = None;
    let mut filter = None;
    if let Some(V::Ref(r)) = own(n, AId::ClipPath, pnode) { if r.is_tag_name(EId::ClipPath) { clip = Some(Box::new(opaque(cx, &r, &m, &st))); } }
    if !cx.in_clip {
        if let Some(V::Ref(r)) = own(n, AId::Mask, pnode) { if r.is_tag_name(EId::Mask) { mask = Some(Box::new(opaque(cx, &r, &m, &st))); } }
        if let Some(V::Ref(r)) = own(n, AId::Filter, pnode) {
            if r.is_tag_name(EId::Filter) { filter = Some(Box::new(opaque(cx, &r, &m, &st))); }
        }
    }
    let save_f = cx.filtered;
    if let Some(ref f) = filter { if !(cx.drop_invisible && identity_filter(f)) { cx.filtered = true; } }
    let bbox_fx = clip.is_some() || mask.is_some() || filter.is_some();

    let mut kids: Vec<Item> = Vec::new();
    let mut port = None;
    match t {
        EId::Use => {
            if let Some(V::Ref(r)) = attr(n, AId::XlinkHref) {
                if cx.depth > 0 {
                    cx.depth -= 1;
                    let local = use_local;
                    if local || r.is_tag_name(EId::Symbol) || r.is_tag_name(EId::Svg) {
                        // the viewport it creates: compared as written
                        let mut o = Opaque { tag: EId::Use, attrs: vec![], strs: vec![], ts: vec![], kids: vec![] };
                        collect_attrs(n, &mut o);
                        o.attrs.retain(|a| local || (a.0 != AId::X && a.0 != AId::Y));
                        port = Some(Box::new(o));
                    }
                    item(cx, &r, &m, &st, Some(n), &mut kids);
                    cx.depth += 1;
                }
            }
        }
        EId::Text => {
            let mut o = Opaque { tag: t, attrs: vec![], strs: vec![], ts: vec![], kids: vec![] };
            collect_attrs(n, &mut o);
            text_nodes(cx, n, &st, &mut o);
            if has_text(&o) {
                let fill = paint(cx, &st.0[FILL], &st.0[FILL_OP], &m, &st);
                let stroke = paint(cx, &st.0[STROKE], &st.0[STROKE_OP], &m, &st);
                kids.push(Item::Leaf(Box::new(Leaf { tag: t, shape: Shape::Other(Box::new(o)), ctm: m, style: st.clone(), fill, stroke, markers: vec![],
                    in_clip: cx.in_clip, text: true, em: true, local: true })));
            }
        }
        EId::Image => {
            let mut o = Opaque { tag: t, attrs: vec![], strs: vec![], ts: vec![], kids: vec![] };
            collect_attrs(n, &mut o);
            let vis = match st.0[VISIB] { V::Kw(ValueId::Visible) => true, _ => false };
            if vis && !cx.in_clip {
                kids.push(Item::Leaf(Box::new(Leaf { tag: t, shape: Shape::Other(Box::new(o)), ctm: m, style: st.clone(), fill: Paint::None_, stroke: Paint::None_,
                    markers: vec![], in_clip: false, text: false, em: true, local: true })));
            }
        }
        _ if shape => {
            if let Some(l) = leaf(cx, n, t, &m, &st, bbox_fx) { kids.push(Item::Leaf(Box::new(l))); }
        }
        EId::Svg | EId::Symbol => {
            let root = pnode.is_none() || pnode.map(|p| p.node_type() == NodeType::Root).unwrap_or(false);
            let mut o = Opaque { tag: EId::Svg, attrs: vec![], strs: vec![], ts: vec![], kids: vec![] };
            collect_attrs(n, &mut o);
            if !root || !o.attrs.is_empty() { port = Some(Box::new(o)); }
            for c in n.children() { item(cx, &c, &m, &st, Some(n), &mut kids); }
        }
        EId::Switch => {
            port = Some(Box::new(Opaque { tag: EId::Switch, attrs: vec![], strs: vec![], ts: vec![], kids: vec![] }));
            for c in n.children().filter(|c| c.node_type() == NodeType::Element).take(1) { item(cx, &c, &m, &st, Some(n), &mut kids); }
        }
        EId::A => {
            let mut o = Opaque { tag: EId::A, attrs: vec![], strs: vec![], ts: vec![], kids: vec![] };
            collect_attrs(n, &mut o);
            for c in n.children() { item(cx, &c, &m, &st, Some(n), &mut kids); }
            // a link is inside of the effects of its element
            if !kids.is_empty() {
                let kk = std::mem::replace(&mut kids, vec![]);
                kids.push(Item::Group(Box::new(Group { opacity: 1.0, opaque: false, clip: None, mask: None, filter: None, port: Some(Box::new(o)), ctm: m, kids: kk })));
            }
        }
        _ => {
            for c in n.children() { item(cx, &c, &m, &st, Some(n), &mut kids); }
        }
    }
    cx.filtered = save_f;
    if kids.is_empty() && (filter.is_none() || t == EId::Use || shape) { return; }
    if cx.drop_invisible {
        // a filter without primitives draws nothing
        if let Some(ref f) = filter { if f.kids.is_empty() { return; } }
        if let Some(true) = filter.as_ref().map(|f| identity_filter(f)) { filter = None; }
    }
    let identity = clip.is_none() && mask.is_none() && filter.is_none() && port.is_none();
    if identity {
        if feq(opacity, 1.0) { out.extend(kids); return; }
    }
    if cx.drop_invisible && !save_f && !cx.in_clip && feq(opacity, 0.0) { return; }
    // clipped away completely
    if let Some(ref c) = clip {
        if cx.drop_invisible && !save_f && c.kids.is_empty() { return; }
    }
    if let Some(ref c) = mask {
        if cx.drop_invisible && !save_f && c.kids.is_empty() { return; }
    }
    let mut g = Group { opacity, opaque: false, clip, mask, filter, port, ctm: m, kids };
    // opacity directly inside opacity
    if g.kids.len() == 1 && g.port.is_none() {
        if let Item::Group(ref mut k) = g.kids[0] {
            if !k.opaque {
                let outer_plain = g.clip.is_none() && g.mask.is_none() && g.filter.is_none();
                let inner_plain = k.clip.is_none() && k.mask.is_none() && k.filter.is_none() && k.port.is_none();
                if outer_plain {
                    k.opacity = g.opacity * k.opacity;
                    let k = g.kids.pop().unwrap();
                    out.push(k);
                    return;
                }
                if inner_plain && g.filter.is_none() {
                    g.opacity = g.opacity * k.opacity;
                    let kk = std::mem::replace(&mut k.kids, vec![]);
                    g.kids = kk;
                }
            }
        }
    }
    out.push(Item::Group(Box::new(g)));
}

fn leaf(cx: &mut Cx, n: &Node, t: EId, m: &M, st: &Style, bbox_fx: bool) -> Option<Leaf> {
    let (mut local, mut em) = (false, false);
    let sh = shape_of(n, &mut local, &mut em)?;
    if let Shape::Units(..) = sh { local = false; }
    let mut markers = vec![];
    if !cx.in_clip && matches!(t, EId::Path | EId::Line | EId::Polyline | EId::Polygon) {
        for i in 0..3 {
            markers.push(match st.0[MARK0 + i] {
                V::Ref(ref r) if r.is_tag_name(EId::Marker) && cx.depth > 0 => Some(Box::new(opaque(cx, r, m, st))),
                _ => None,
            });
        }
    }
    let has_marker = markers.iter().any(|x| x.is_some());
    let (fill, stroke) = if cx.in_clip { (Paint::None_, Paint::None_) } else {
        (paint(cx, &st.0[FILL], &st.0[FILL_OP], m, st), paint(cx, &st.0[STROKE], &st.0[STROKE_OP], m, st))
    };
    // stroke that has no width
    let stroke = match (&stroke, &st.0[STROKE_W]) {
        (Paint::None_, _) => Paint::None_,
        (_, V::Num(w)) | (_, V::Unit(w, _)) => if feq(*w, 0.0) { Paint::None_ } else { stroke },
        _ => stroke,
    };
    let drop = cx.drop_invisible && !cx.filtered;
    if let V::Kw(ValueId::Visible) = st.0[VISIB] {} else if !cx.filtered { return None; }
    let shape = match sh {
        Shape::Path(v) => {
            let v = if has_marker { v } else { normal_segs(&v) };
            if v.is_empty() { return None; }
            if drop && v.len() == 1 && !has_marker { return None; }
            Shape::Path(v)
        }
        s => s,
    };
    let (mut fill, mut stroke) = (fill, stroke);
    if drop && !cx.in_clip {
        fn gone(p: &Paint) -> bool {
            match *p { Paint::None_ => true, Paint::Solid(_, o) | Paint::Grad(_, o) | Paint::Pattern(_, o) => feq(o, 0.0) }
        }
        if gone(&fill) { fill = Paint::None_; }
        if gone(&stroke) { stroke = Paint::None_; }
        if let (Paint::None_, Paint::None_) = (&fill, &stroke) { if !has_marker { return None; } }
    }
    let local = local || bbox_fx && false || local_paint(&fill) || local_paint(&stroke);
    Some(Leaf { tag: t, shape, ctm: *m, style: st.clone(), fill, stroke, markers, in_clip: cx.in_clip, text: false, em, local })
}

pub fn render(doc: &Document, drop_invisible: bool) -> Vec<Item> {
    let mut cx = Cx { depth: 6, drop_invisible, in_clip: false, filtered: false, in_def: false };
    let mut out = Vec::new();
    let root = match doc.svg_element() { Some(r) => r, None => return out };
    item(&mut cx, &root, &ID, &Style::initial(), None, &mut out);
    for n in doc.descendants().filter(|n| n.is_tag_name(EId::Font)) { out.push(wrap(font(&n))); }
    out
}
/// a font: its descriptors and glyphs
fn font(n: &Node) -> Opaque {
    let mut o = Opaque { tag: n.tag_id().unwrap_or(EId::G), attrs: vec![], strs: vec![], ts: vec![], kids: vec![] };
    collect_attrs(n, &mut o);
    if n.is_tag_name(EId::FontFace) {
        for a in [AId::FontFamily, AId::FontStyle, AId::FontVariant, AId::FontWeight, AId::FontStretch, AId::FontSize].iter() {
            match attr(n, *a) {
                // these two have no other default, the others are 'all'
                Some(V::Kw(ValueId::Normal)) if *a == AId::FontVariant || *a == AId::FontStretch => {}
                Some(v) => o.attrs.push((*a, v)),
                None => {}
            }
        }
    }
    for c in n.children().filter(|c| c.is_svg_element()) { o.kids.push(wrap(font(&c))); }
    o
}

// ------------------------------------------------------------------ comparison
/// unforked conjunction with the first structural difference named
pub struct Diff { pub ok: bool, pub what: &'static str }

fn opt_eq(a: &Option<Box<Opaque>>, b: &Option<Box<Opaque>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => opaque_eq(x, y),
        _ => false,
    }
}
fn opaque_eq(a: &Opaque, b: &Opaque) -> bool {
    if a.tag != b.tag || a.attrs.len() != b.attrs.len() || a.strs != b.strs || a.ts.len() != b.ts.len() || a.kids.len() != b.kids.len() { return false; }
    let mut r = true;
    for (x, y) in a.attrs.iter().zip(&b.attrs) {
        if x.0 != y.0 { return false; }
        r &= veq(&x.1, &y.1);
    }
    for (x, y) in a.ts.iter().zip(&b.ts) {
        if x.0 != y.0 { return false; }
        r &= x.1.eq(&y.1);
    }
    r & items_eq(&a.kids, &b.kids)
}
pub fn items_eq(a: &[Item], b: &[Item]) -> bool {
    if a.len() != b.len() { return false; }
    let mut r = true;
    for (x, y) in a.iter().zip(b) {
        r &= match (x, y) {
            (Item::Leaf(x), Item::Leaf(y)) => leaf_eq(x, y),
            (Item::Group(x), Item::Group(y)) => group_eq(x, y),
            _ => false,
        };
    }
    r
}
fn group_eq(a: &Group, b: &Group) -> bool {
    let mut r = feq(a.opacity, b.opacity) & opt_eq(&a.clip, &b.clip) & opt_eq(&a.mask, &b.mask) & opt_eq(&a.filter, &b.filter) & opt_eq(&a.port, &b.port);
    // definitions are placed in the coordinate system of the element that uses them
    if a.clip.is_some() || a.mask.is_some() || a.filter.is_some() || a.port.is_some() { r &= a.ctm.eq(&b.ctm); }
    r & items_eq(&a.kids, &b.kids)
}

fn all_eq(a: &[V], b: &[V]) -> bool {
    if a.len() != b.len() { return false; }
    let mut r = true;
    for (x, y) in a.iter().zip(b) { r &= veq(x, y); }
    r
}
fn vnum(v: &V) -> f64 { match *v { V::Num(x) => x, V::Unit(x, _) => x, _ => 0.0 } }
fn vunit(v: &V) -> LengthUnit { match *v { V::Unit(_, u) => u, _ => LengthUnit::None } }

/// same gradient in canvas coordinates
fn grad_eq(a: &Grad, ma: &M, b: &Grad, mb: &M) -> bool {
    if a.radial != b.radial || a.bbox != b.bbox || a.geo.len() != b.geo.len() { return false; }
    let mut r = veq(&a.spread, &b.spread) & veq(&a.ci, &b.ci) & stops_eq(&a.stops, &b.stops);
    for (x, y) in a.geo.iter().zip(&b.geo) { if vunit(x) != vunit(y) { return false; } }
    let raw = {
        let mut q = a.m.eq(&b.m) & ma.eq(mb);
        for (x, y) in a.geo.iter().zip(&b.geo) { q &= feq(vnum(x), vnum(y)); }
        q
    };
    if a.geo.iter().any(|v| vunit(v) != LengthUnit::None) { return r & raw; }
    let (ga, gb) = if a.bbox {
        // relative to the bounding box: the element's own coordinates are compared separately
        (a.m, b.m)
    } else { (ma.mul(&a.m), mb.mul(&b.m)) };
    let n = |g: &Grad, i: usize| vnum(&g.geo[i]);
    let eff = if a.radial {
        let c = |g: &Grad, m: &M| m.pt(P(n(g, 0), n(g, 1)));
        let f = |g: &Grad, m: &M| m.pt(P(n(g, 3), n(g, 4)));
        // the image of the circle
        let q = |g: &Grad, m: &M| {
            let r = n(g, 2);
            let (u, v) = (m.vec(P(r, 0.0)), m.vec(P(0.0, r)));
            (u.0 * u.0 + v.0 * v.0, u.1 * u.1 + v.1 * v.1, u.0 * u.1 + v.0 * v.1)
        };
        let (qa, qb) = (q(a, &ga), q(b, &gb));
        peq(c(a, &ga), c(b, &gb)) & peq(f(a, &ga), f(b, &gb)) & feq(qa.0, qb.0) & feq(qa.1, qb.1) & feq(qa.2, qb.2)
    } else {
        let p1 = |g: &Grad, m: &M| m.pt(P(n(g, 0), n(g, 1)));
        let p2 = |g: &Grad, m: &M| m.pt(P(n(g, 2), n(g, 3)));
        let nv = |g: &Grad, m: &M| m.vec(P(n(g, 1) - n(g, 3), n(g, 2) - n(g, 0)));
        let (na, nb) = (nv(a, &ga), nv(b, &gb));
        peq(p1(a, &ga), p1(b, &gb)) & peq(p2(a, &ga), p2(b, &gb)) & (peq(na, nb) | peq(P(na.0 + nb.0, na.1 + nb.1), P(0.0, 0.0)))
    };
    r &= raw | eff;
    r
}

fn paint_eq(a: &Paint, ma: &M, b: &Paint, mb: &M) -> bool {
    match (a, b) {
        (Paint::None_, Paint::None_) => true,
        (Paint::Solid(c, o), Paint::Solid(d, p)) => veq(c, d) & feq(*o, *p),
        (Paint::Grad(g, o), Paint::Grad(h, p)) => grad_eq(g, ma, h, mb) & feq(*o, *p),
        (Paint::Pattern(g, o), Paint::Pattern(h, p)) => ma.eq(mb) & opaque_eq(g, h) & feq(*o, *p),
        _ => false,
    }
}

/// how `n` user units of length compare under the two coordinate systems
fn len_eq(x: f64, ma: &M, y: f64, mb: &M, same_lin: bool) -> bool {
    // the disc of radius |x| under one matrix is the disc of radius |y| under the other:
    // x^2 A A' = y^2 B B'
    let g = |m: &M| (m.a * m.a + m.c * m.c, m.b * m.b + m.d * m.d, m.a * m.b + m.c * m.d);
    let (p, q) = (g(ma), g(mb));
    let (x2, y2) = (x * x, y * y);
    (same_lin & feq(x, y))
        | (feq(x2 * p.0, y2 * q.0) & feq(x2 * p.1, y2 * q.1) & feq(x2 * p.2, y2 * q.2) & ((fle(0.0, x) & fle(0.0, y)) | (fle(x, 0.0) & fle(y, 0.0))))
}
fn vlen_eq(x: &V, ma: &M, y: &V, mb: &M, same_lin: bool) -> bool {
    match (x, y) {
        (V::Num(x), V::Num(y)) => len_eq(*x, ma, *y, mb, same_lin),
        (V::Unit(x, u), V::Unit(y, w)) => u == w && len_eq(*x, ma, *y, mb, same_lin),
        // zero in any unit
        (V::Num(x), V::Unit(y, _)) | (V::Unit(x, _), V::Num(y)) => feq(*x, 0.0) & feq(*y, 0.0),
        (x, y) => veq(x, y) & same_lin,
    }
}
/// rx A = sx B and ry A = sy B for the linear parts of both matrices, up to a half turn
fn arcs_eq(v: &[S], w: &[S], a: &M, b: &M) -> bool {
    if v.len() != w.len() { return false; }
    let mut r = true;
    for (x, y) in v.iter().zip(w) {
        if let (S::A(rx, ry, ..), S::A(sx, sy, ..)) = (x, y) {
            let lin = |k: f64, l: f64| feq(k * a.a, l * b.a) & feq(k * a.b, l * b.b) & feq(k * a.c, l * b.c) & feq(k * a.d, l * b.d);
            let (rx, ry, sx, sy) = (rx.abs(), ry.abs(), sx.abs(), sy.abs());
            r &= (lin(rx, sx) & lin(ry, sy)) | (lin(rx, -sx) & lin(ry, -sy));
        }
    }
    r
}
fn leaf_eq(a: &Leaf, b: &Leaf) -> bool {
    if a.in_clip != b.in_clip || a.text != b.text { return false; }
    let mut r = true;
    let same_m = a.ctm.eq(&b.ctm);
    let same_lin = a.ctm.lin_eq(&b.ctm);
    if a.local != b.local { return false; }
    if a.local { r &= same_m; }
    // geometry
    r &= match (&a.shape, &b.shape) {
        (Shape::Path(v), Shape::Path(w)) => {
            let arcs = v.iter().any(|s| matches!(s, S::A(..)));
            let raw = same_m & segs_eq(v, w, false);
            // arcs: the same ellipses under both coordinate systems
            let ok = if arcs { arcs_eq(v, w, &a.ctm, &b.ctm) } else { true };
            let mapped = ok & segs_eq(&map_segs(v, &a.ctm), &map_segs(w, &b.ctm), arcs);
            raw | mapped
        }
        (Shape::Ell(c, rx, ry), Shape::Ell(d, sx, sy)) => {
            let (m, n) = (&a.ctm, &b.ctm);
            let q = |m: &M, rx: f64, ry: f64| {
                let (u, v) = (m.vec(P(rx, 0.0)), m.vec(P(0.0, ry)));
                (u.0 * u.0 + v.0 * v.0, u.1 * u.1 + v.1 * v.1, u.0 * u.1 + v.0 * v.1)
            };
            let (p, o) = (q(m, *rx, *ry), q(n, *sx, *sy));
            peq(m.pt(*c), n.pt(*d)) & ((same_lin & feq(*rx, *sx) & feq(*ry, *sy)) | (feq(p.0, o.0) & feq(p.1, o.1) & feq(p.2, o.2)))
        }
        (Shape::RRect(p, s, rx, ry), Shape::RRect(q, t, ux, uy)) => {
            let (m, n) = (&a.ctm, &b.ctm);
            peq(m.pt(*p), n.pt(*q)) & peq(m.pt(P(p.0 + s.0, p.1)), n.pt(P(q.0 + t.0, q.1))) & peq(m.pt(P(p.0, p.1 + s.1)), n.pt(P(q.0, q.1 + t.1)))
                & peq(m.vec(P(*rx, 0.0)), n.vec(P(*ux, 0.0))) & peq(m.vec(P(0.0, *ry)), n.vec(P(0.0, *uy)))
        }
        (Shape::Units(t, p, l), Shape::Units(u, q, k)) => {
            let same = same_m & all_eq(p, q) & all_eq(l, k);
            // lengths in any unit scale with the coordinate system, positions must be plain
            let num = |v: &[V]| v.iter().all(|x| match x { V::Num(_) => true, _ => false });
            let pos = |m: &M| feq(m.b, 0.0) & feq(m.c, 0.0) & feq(m.a, m.d) & fle(0.0, m.a);
            let mut moved = t == u && num(p) && num(q) && p.len() == q.len() && l.len() == k.len();
            if moved {
                // positively proportional
                let (m, n) = (&a.ctm, &b.ctm);
                let zero = |x: f64, y: f64, z: f64, w: f64| feq(x * w, y * z);
                let prop = zero(m.a, m.b, n.a, n.b) & zero(m.a, m.c, n.a, n.c) & zero(m.a, m.d, n.a, n.d) & zero(m.b, m.c, n.b, n.c) & zero(m.b, m.d, n.b, n.d)
                    & zero(m.c, m.d, n.c, n.d) & fle(0.0, m.a * n.a + m.b * n.b + m.c * n.c + m.d * n.d);
                moved = (pos(&a.ctm) & pos(&b.ctm)) | prop;
                for i in 0..p.len() / 2 {
                    moved &= peq(a.ctm.pt(P(vnum(&p[2 * i]), vnum(&p[2 * i + 1]))), b.ctm.pt(P(vnum(&q[2 * i]), vnum(&q[2 * i + 1]))));
                }
                for (x, y) in l.iter().zip(k) {
                    moved &= match (x, y) { (V::None_, V::None_) => true, _ => vlen_eq(x, &a.ctm, y, &b.ctm, same_lin) };
                }
            }
            same | moved
        }
        (Shape::Other(x), Shape::Other(y)) => opaque_eq(x, y),
        _ => false,
    };
    let (s, t) = (&a.style.0, &b.style.0);
    if a.in_clip {
        r &= veq(&s[CLIP_RULE], &t[CLIP_RULE]);
    } else {
        r &= paint_eq(&a.fill, &a.ctm, &b.fill, &b.ctm) & paint_eq(&a.stroke, &a.ctm, &b.stroke, &b.ctm);
        if let Paint::None_ = a.fill {} else if !a.text { r &= veq(&s[FILL_RULE], &t[FILL_RULE]); }
        if let Paint::None_ = a.stroke {} else {
            for i in STROKE_OP + 1..DASH { r &= veq(&s[i], &t[i]); }
            // lengths in canvas units
            r &= match (&s[STROKE_W], &t[STROKE_W]) {
                (x, y) => vlen_eq(x, &a.ctm, y, &b.ctm, same_lin),
            };
            let dashed = match s[DASH] { V::Kw(ValueId::None) => false, _ => true };
            r &= match (&s[DASH], &t[DASH]) {
                (V::List(x), V::List(y)) => {
                    if x.len() != y.len() { false } else {
                        let mut q = true;
                        for i in 0..x.len() {
                            q &= x[i].1 == y[i].1 && len_eq(x[i].0, &a.ctm, y[i].0, &b.ctm, same_lin);
                        }
                        q
                    }
                }
                (x, y) => veq(x, y),
            };
            if dashed {
                r &= match (&s[DASHOFF], &t[DASHOFF]) {
                    (x, y) => vlen_eq(x, &a.ctm, y, &b.ctm, same_lin),
                };
            }
        }
        let mut any = false;
        for i in 0..a.markers.len().max(b.markers.len()) {
            let none = None;
            let x = a.markers.get(i).unwrap_or(&none);
            let y = b.markers.get(i).unwrap_or(&none);
            r &= opt_eq(x, y);
            if let Some(ref m) = x {
                any = true;
                // drawn in units of the stroke width or of the coordinate system
                let user = m.attrs.iter().any(|k| k.0 == AId::MarkerUnits && veq(&k.1, &V::Kw(ValueId::UserSpaceOnUse)));
                let pos = feq(a.ctm.b, 0.0) & feq(a.ctm.c, 0.0) & feq(a.ctm.a, a.ctm.d) & fle(0.0, a.ctm.a)
                    & feq(b.ctm.b, 0.0) & feq(b.ctm.c, 0.0) & feq(b.ctm.a, b.ctm.d) & fle(0.0, b.ctm.a);
                r &= same_lin | (!user && pos);
            }
        }
        if any { r &= vlen_eq(&s[STROKE_W], &a.ctm, &t[STROKE_W], &b.ctm, same_lin); }
    }
    if a.text || a.em || b.em { r &= veq(&s[FONT_SIZE], &t[FONT_SIZE]); }
    if a.text {
        for i in 21..NPROP { r &= veq(&s[i], &t[i]); }
        r &= veq(&s[VISIB], &t[VISIB]);
    }
    for i in 17..21 {
        let rel = match PROPS[i] { AId::ShapeRendering => is_shape(a.tag), AId::ImageRendering => a.tag == EId::Image, _ => true };
        if rel { r &= veq(&s[i], &t[i]); }
    }
    r
}

// ------------------------------------------------------------------ traces
/// record every number of the drawn tree (compared between the executor and native runs)
pub fn trace_doc(doc: &Document) {
    for mut n in doc.descendants() {
        if n.node_type() != NodeType::Element { continue; }
        sym::trace(n.tag_id().map(|t| t as u64).unwrap_or(9999));
        let mut at = n.attributes_mut();
        for a in at.iter_mut() {
            sym::trace(a.id().map(|t| t as u64).unwrap_or(9999));
            crate::tpl::for_numbers(&mut a.value, &mut |x| sym::trace(x.to_bits()));
        }
    }
}

pub fn color(c: &Color) -> V { V::Col(c.red, c.green, c.blue) }
