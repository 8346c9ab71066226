//! Driving the implementation and normalising what it reports.
use crate::tree::*;
use ginko::dts::{
    AnyDirective, FileType, HasSpan, ItemAtCursor, Node as GNode, NodeItem, NodePayload, Position, Primary, Project,
    SeverityMap, Span,
};
use std::path::{Path, PathBuf};

pub fn p(x: Position) -> P {
    (x.line(), x.character())
}
pub fn sp(x: Span) -> Sp {
    Sp::new(p(x.start()), p(x.end()))
}
pub fn gp(x: P) -> Position {
    Position::new(x.0, x.1)
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct D {
    pub kind: String,
    pub sp: Sp,
    pub sev: String,
    pub msg: String,
    pub file: PathBuf,
}

impl D {
    pub fn short(&self) -> String {
        format!(
            "{} {} at {}:{}-{}:{} ({})",
            self.sev, self.kind, self.sp.s.0, self.sp.s.1, self.sp.e.0, self.sp.e.1, self.msg
        )
    }
}

pub fn show(ds: &[D]) -> String {
    if ds.is_empty() {
        return "none".into();
    }
    ds.iter().map(|d| d.short()).collect::<Vec<_>>().join("; ")
}

pub fn diags(project: &Project, path: &Path) -> Vec<D> {
    let map = SeverityMap::default();
    let mut v: Vec<D> = project
        .get_diagnostics(path)
        .map(|d| D {
            kind: d.kind.as_ref().to_string(),
            sp: sp(d.span()),
            sev: d.severity(&map).to_string(),
            msg: d.message.clone(),
            file: d.source.to_path_buf(),
        })
        .collect();
    v.sort();
    v
}

pub fn type_of(path: &Path) -> FileType {
    FileType::from(path)
}

pub fn open(project: &mut Project, path: &Path, text: &str) {
    project.add_file_with_text(path.to_path_buf(), text.to_string(), FileType::from(path));
}

pub fn tree(project: &Project, path: &Path) -> Option<Vec<Elem>> {
    let root = project.get_root(path)?;
    Some(root.elements.iter().map(elem).collect())
}

fn elem(e: &Primary) -> Elem {
    match e {
        Primary::Directive(d) => match d {
            AnyDirective::DtsHeader(t) => Elem::Header(sp(t.span())),
            AnyDirective::Plugin(t) => Elem::Plugin(sp(t.span())),
            AnyDirective::Memreserve(m) => Elem::Memreserve(m.to_string()),
            AnyDirective::Include(i) => Elem::Include {
                sp: sp(i.span()),
                name: T { t: i.file_name.item().clone(), sp: sp(i.file_name.span()) },
            },
            AnyDirective::DeletedNode(t, r) => {
                Elem::Delete { tok: sp(t.span()), r: T { t: r.item().to_string(), sp: sp(r.span()) } }
            }
            AnyDirective::OmitIfNoRef(t, r) => {
                Elem::Omit { tok: sp(t.span()), r: T { t: r.item().to_string(), sp: sp(r.span()) } }
            }
        },
        Primary::Root(n) => Elem::Root(node(n)),
        Primary::ReferencedNode(n) => Elem::Ext {
            r: T { t: n.reference.item().to_string(), sp: sp(n.reference.span()) },
            sp: sp(n.span()),
            items: items(&n.payload),
        },
        Primary::CStyleInclude(s) => Elem::CInclude(s.clone()),
    }
}

fn node(n: &GNode) -> Node {
    let omit = n.omit_if_no_ref.as_ref().map(|t| sp(t.span()));
    let label = n.label.as_ref().map(|l| T { t: l.item().clone(), sp: sp(l.span()) });
    let name = T { t: n.name.item().to_string(), sp: sp(n.name.span()) };
    let mut full = sp(n.span());
    // the omit marker may or may not be counted as part of the node
    if omit.is_some_and(|o| o.s == full.s) {
        full.s = label.as_ref().map_or(name.sp.s, |l| l.sp.s);
    }
    Node { omit, label, name, sp: full, items: items(&n.payload) }
}

fn items(p: &NodePayload) -> Vec<Item> {
    p.items
        .iter()
        .map(|i| match i {
            NodeItem::Property(p) => Item::Prop(Prop {
                label: p.label.as_ref().map(|l| T { t: l.item().clone(), sp: sp(l.span()) }),
                name: T { t: p.name.item().clone(), sp: sp(p.name.span()) },
                sp: sp(p.span()),
                vals: p.values.iter().map(|v| T { t: v.to_string(), sp: sp(v.span()) }).collect(),
            }),
            NodeItem::Node(n) => Item::Node(node(n)),
            NodeItem::DeletedNode(t, n) => {
                Item::DelNode { tok: sp(t.span()), name: T { t: n.item().to_string(), sp: sp(n.span()) } }
            }
            NodeItem::DeletedProperty(t, n) => {
                Item::DelProp { tok: sp(t.span()), name: T { t: n.item().clone(), sp: sp(n.span()) } }
            }
        })
        .collect()
}

/// What is under a cursor, as (kind, text, target)
#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Hit {
    pub kind: &'static str,
    pub text: String,
    pub target: Option<(PathBuf, Sp)>,
    pub doc: Option<String>,
}

pub fn hit(project: &Project, path: &Path, at: P) -> Option<Hit> {
    Some(match project.find_at_pos(path, &gp(at))? {
        ItemAtCursor::Reference(r) => Hit {
            kind: "ref",
            text: r.to_string(),
            target: project.get_node_position(path, r).map(|(s, f)| (f.to_path_buf(), sp(s))),
            doc: project.document_reference(path, r),
        },
        ItemAtCursor::Label(l) => Hit { kind: "label", text: l.item().clone(), target: None, doc: None },
        ItemAtCursor::Include(i) => Hit {
            kind: "include",
            text: i.file_name.item().clone(),
            target: i.path().ok().map(|p| (p, Sp::ZERO)),
            doc: None,
        },
        ItemAtCursor::Property(p) => Hit { kind: "property", text: p.name.item().clone(), target: None, doc: None },
        ItemAtCursor::Node(n) => Hit { kind: "node", text: n.name.item().to_string(), target: None, doc: None },
    })
}
