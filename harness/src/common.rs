use crate::render::{items_eq, render, trace_doc};
use crate::{sym, tpl};
pub use svgcleaner::{CleaningOptions, StyleJoinMode};
use svgdom::{Document, WriteOptions};

pub struct Case {
    pub name: &'static str,
    pub tpl: &'static str,
    pub opt: fn(&mut CleaningOptions),
}

pub fn show(label: &str, doc: &Document) {
    // only in the native replay: numbers may be symbolic under the executor
    #[cfg(feature = "replay")]
    {
        use svgdom::ToStringWithOptions;
        let mut w = WriteOptions::default();
        w.indent = svgdom::Indent::None;
        sym::note(&format!("{}: {}", label, doc.to_string_with_opt(&w)));
    }
    #[cfg(not(feature = "replay"))]
    {
        let _ = (label, doc);
    }
}

/// clean `tpl` with the case's options and require the same rendering
pub fn keeps_rendering(c: &Case, drop_invisible: bool) {
    let mut doc = tpl::doc(c.tpl);
    let before = render(&doc, drop_invisible);
    let mut opt = CleaningOptions::default();
    (c.opt)(&mut opt);
    show("before", &doc);
    let r = svgcleaner::cleaner::clean_doc(&mut doc, &opt, &WriteOptions::default());
    #[cfg(feature = "replay")]
    if let Err(ref e) = r { sym::note(&format!("error: {}", e)); }
    sym::check(r.is_ok(), "a supported document was refused");
    show("after", &doc);
    let after = render(&doc, drop_invisible);
    trace_doc(&doc);
    sym::check(items_eq(&before, &after), c.name);
    sym::cover(c.name);
}
