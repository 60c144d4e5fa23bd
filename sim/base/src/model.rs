//! Reference model of the three representations, over `Tree`s.
use crate::tree::{s, Tree};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Repr {
    External,
    Internal { tag: &'static str },
    Adjacent { tag: &'static str, content: &'static str },
}

#[derive(Clone, Copy, Debug)]
pub struct Info {
    /// Name of this table entry (trait plus marker form).
    pub world: &'static str,
    pub trait_name: &'static str,
    pub repr: Repr,
    pub default: Option<&'static str>,
    pub deny: bool,
}

/// How an implementing type presents itself to serde.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Struct,
    Map,
    Unit,
    Option,
    Value,
    Enum,
}

/// Documented encoding of a trait object.
pub fn wrap(w: &Info, tag: &str, payload: Tree) -> Result<Tree, String> {
    Ok(match w.repr {
        Repr::External => Tree::Map(vec![(s(tag), payload)], true),
        Repr::Adjacent { tag: t, content } => {
            Tree::Struct(w.trait_name, vec![(t, s(tag)), (content, payload)])
        }
        Repr::Internal { tag: t } => {
            let two = |k: &str, v: Tree| Tree::Map(vec![(s(t), s(tag)), (s(k), v)], true);
            match payload {
                Tree::Newtype(_, b) => wrap(w, tag, *b)?,
                Tree::Struct(_, fs) => {
                    let mut es = vec![(s(t), s(tag))];
                    for (k, v) in fs {
                        if k == t {
                            let mut v = v;
                            while let Tree::Some(b) | Tree::Newtype(_, b) = v {
                                v = *b;
                            }
                            if v == s(tag) {
                                continue;
                            }
                            return Err(format!("mismatched value for tag {t:?}"));
                        }
                        es.push((s(k), v));
                    }
                    Tree::Map(es, true)
                }
                Tree::Map(m, known) => {
                    let mut es = vec![(s(t), s(tag))];
                    es.extend(m);
                    Tree::Map(es, known)
                }
                Tree::Unit | Tree::UnitStruct(_) | Tree::None => Tree::Map(vec![(s(t), s(tag))], true),
                Tree::Some(b) => two("value", *b),
                Tree::UnitVariant(_, _, v) => two(v, Tree::Unit),
                Tree::NewtypeVariant(_, _, v, b) => two(v, *b),
                Tree::TupleVariant(_, _, v, i) => two(v, Tree::TupleStruct(v, i).buffered()),
                Tree::StructVariant(_, _, v, f) => two(v, Tree::Struct(v, f).buffered()),
                other => two("value", other.buffered()),
            }
        }
    })
}

/// Entries of a message, however the message was written.
pub fn entries(t: &Tree) -> Option<Vec<(Tree, Tree)>> {
    match t {
        Tree::Map(v, _) => Some(v.clone()),
        Tree::Struct(_, v) => Some(v.iter().map(|(k, v)| (s(k), v.clone())).collect()),
        _ => None,
    }
}

#[derive(Debug)]
pub enum Verdict {
    /// Decode this payload as the type registered under this tag.
    Payload { tag: String, payload: Tree },
    Reject { must_name: Vec<String> },
    /// Left open by the documentation; but if it is accepted, it is of this type.
    Either { tag: String },
}

fn rej(names: &[&str]) -> Verdict {
    Verdict::Reject { must_name: names.iter().map(|x| x.to_string()).collect() }
}

/// What the documentation says about a message consisting of these entries.
/// `kind_of` gives the kind registered under a tag, if any.
pub fn judge(w: &Info, msg: &[(Tree, Tree)], kind_of: &dyn Fn(&str) -> Option<Kind>) -> Verdict {
    let key = |k: &Tree| match k {
        Tree::Str(x) => x.clone(),
        _ => String::new(),
    };
    let tag_str = |v: &Tree| match v {
        Tree::Str(x) => Some(x.clone()),
        _ => None,
    };
    match w.repr {
        Repr::External => {
            // One entry: its key is the tag.
            match msg.len() {
                0 => rej(&[]),
                _ => {
                    let tag = key(&msg[0].0);
                    if kind_of(&tag).is_none() {
                        return rej(&[&tag]);
                    }
                    if msg.len() > 1 {
                        return Verdict::Either { tag };
                    }
                    Verdict::Payload { tag, payload: msg[0].1.clone() }
                }
            }
        }
        Repr::Adjacent { tag: t, content: c } => {
            let mut tag: Option<String> = None;
            let mut payload: Option<Tree> = None;
            for (k, v) in msg {
                let k = key(k);
                if k == t {
                    if tag.is_some() {
                        return rej(&[t]);
                    }
                    let Some(x) = tag_str(v) else { return rej(&[]) };
                    if kind_of(&x).is_none() {
                        return rej(&[&x]);
                    }
                    tag = Some(x);
                } else if k == c {
                    if payload.is_some() {
                        return rej(&[c]);
                    }
                    payload = Some(v.clone());
                } else if w.deny {
                    return rej(&[&k]);
                }
            }
            match (tag, payload) {
                (Some(tag), Some(payload)) => Verdict::Payload { tag, payload },
                (Some(tag), None) => match kind_of(&tag) {
                    Some(Kind::Unit | Kind::Option) => Verdict::Either { tag },
                    _ => rej(&[]),
                },
                (None, Some(payload)) => match w.default {
                    Some(d) => Verdict::Payload { tag: d.into(), payload },
                    None => rej(&[t]),
                },
                (None, None) => match w.default {
                    Some(_) => rej(&[c]),
                    None => rej(&[t]),
                },
            }
        }
        Repr::Internal { tag: t } => {
            let mut tag: Option<String> = None;
            let mut rest = Vec::new();
            for (k, v) in msg {
                if tag.is_none() && key(k) == t {
                    let Some(x) = tag_str(v) else { return rej(&[]) };
                    if kind_of(&x).is_none() {
                        return rej(&[&x]);
                    }
                    tag = Some(x);
                } else {
                    rest.push((k.clone(), v.clone()));
                }
            }
            let tag = match tag.or(w.default.map(|d| d.to_string())) {
                Some(tag) => tag,
                None => return rej(&[t]),
            };
            let Some(kind) = kind_of(&tag) else { return rej(&[&tag]) };
            match kind {
                Kind::Struct | Kind::Map => Verdict::Payload { tag, payload: Tree::Map(rest, true) },
                Kind::Unit if rest.is_empty() => Verdict::Payload { tag, payload: Tree::Unit },
                Kind::Option if rest.is_empty() => Verdict::Payload { tag, payload: Tree::None },
                Kind::Option | Kind::Value if rest.len() == 1 && key(&rest[0].0) == "value" => {
                    let v = rest.pop().unwrap().1;
                    let payload = if kind == Kind::Option { Tree::Some(Box::new(v)) } else { v };
                    Verdict::Payload { tag, payload }
                }
                Kind::Enum if rest.len() == 1 => Verdict::Payload { tag, payload: Tree::Map(rest, true) },
                // Other or further entries than the value's own.
                _ if rest.is_empty() => rej(&[]),
                Kind::Value | Kind::Option if rest.len() == 1 => rej(&[]),
                _ => Verdict::Either { tag },
            }
        }
    }
}
