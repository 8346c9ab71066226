//! The common shape of syntax trees: what the implementation built and what the reference says.
pub type P = (u32, u32);
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Sp {
    pub s: P,
    pub e: P,
}
impl Sp {
    pub const ZERO: Sp = Sp { s: (0, 0), e: (0, 0) };
    pub fn new(s: P, e: P) -> Sp {
        Sp { s, e }
    }
    pub fn has(&self, p: P) -> bool {
        self.s <= p && p < self.e
    }
}

/// a piece of text with its range
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct T {
    pub t: String,
    pub sp: Sp,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Elem {
    Header(Sp),
    Plugin(Sp),
    Memreserve(String),
    Include { sp: Sp, name: T },
    Root(Node),
    Ext { r: T, sp: Sp, items: Vec<Item> },
    Delete { tok: Sp, r: T },
    Omit { tok: Sp, r: T },
    CInclude(String),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Item {
    Prop(Prop),
    Node(Node),
    DelNode { tok: Sp, name: T },
    DelProp { tok: Sp, name: T },
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Node {
    pub omit: Option<Sp>,
    pub label: Option<T>,
    pub name: T,
    pub sp: Sp,
    pub items: Vec<Item>,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Prop {
    pub label: Option<T>,
    pub name: T,
    pub sp: Sp,
    pub vals: Vec<T>,
}

pub fn strip(elems: &mut [Elem]) {
    for e in elems {
        match e {
            Elem::Header(s) | Elem::Plugin(s) => *s = Sp::ZERO,
            Elem::Memreserve(_) | Elem::CInclude(_) => {}
            Elem::Include { sp, name } => {
                *sp = Sp::ZERO;
                name.sp = Sp::ZERO;
            }
            Elem::Root(n) => strip_node(n),
            Elem::Ext { r, sp, items } => {
                r.sp = Sp::ZERO;
                *sp = Sp::ZERO;
                strip_items(items);
            }
            Elem::Delete { tok, r } | Elem::Omit { tok, r } => {
                *tok = Sp::ZERO;
                r.sp = Sp::ZERO;
            }
        }
    }
}

fn strip_t(t: &mut Option<T>) {
    if let Some(t) = t {
        t.sp = Sp::ZERO;
    }
}

pub fn strip_items(items: &mut [Item]) {
    for i in items {
        match i {
            Item::Prop(p) => {
                strip_t(&mut p.label);
                p.name.sp = Sp::ZERO;
                p.sp = Sp::ZERO;
                for v in &mut p.vals {
                    v.sp = Sp::ZERO;
                }
            }
            Item::Node(n) => strip_node(n),
            Item::DelNode { tok, name } | Item::DelProp { tok, name } => {
                *tok = Sp::ZERO;
                name.sp = Sp::ZERO;
            }
        }
    }
}

fn strip_node(n: &mut Node) {
    if n.omit.is_some() {
        n.omit = Some(Sp::ZERO);
    }
    strip_t(&mut n.label);
    n.name.sp = Sp::ZERO;
    n.sp = Sp::ZERO;
    strip_items(&mut n.items);
}

/// The first difference between two trees, as readable text.
pub fn diff(impl_: &[Elem], model: &[Elem]) -> String {
    for (i, (a, b)) in impl_.iter().zip(model).enumerate() {
        if a != b {
            return format!("element {i}: implementation {a:?}, expected {b:?}");
        }
    }
    format!("implementation has {} elements, expected {}", impl_.len(), model.len())
}
