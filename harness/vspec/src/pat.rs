//! Route patterns and the independent (regex free) oracles for matching and overlap.

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Seg {
    Lit(String),
    Ph(String),
    Rest(String),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Pat {
    Star,
    Segs(Vec<Seg>),
}

/// A pattern with the placeholder names erased.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Shape {
    Star,
    Segs(Vec<Option<Option<String>>>), // None = Rest, Some(None) = Ph, Some(Some(l)) = literal
}

impl Pat {
    pub fn text(&self) -> String {
        match self {
            Pat::Star => "*".into(),
            Pat::Segs(segs) => segs
                .iter()
                .map(|s| match s {
                    Seg::Lit(l) => format!("/{}", l),
                    Seg::Ph(n) => format!("/{{{}}}", n),
                    Seg::Rest(n) => format!("/{{{}...}}", n),
                })
                .collect(),
        }
    }

    pub fn shape(&self) -> Shape {
        match self {
            Pat::Star => Shape::Star,
            Pat::Segs(s) => Shape::Segs(
                s.iter()
                    .map(|s| match s {
                        Seg::Rest(_) => None,
                        Seg::Ph(_) => Some(None),
                        Seg::Lit(l) => Some(Some(l.clone())),
                    })
                    .collect(),
            ),
        }
    }

    pub fn placeholders(&self) -> Vec<String> {
        match self {
            Pat::Star => vec![],
            Pat::Segs(s) => s
                .iter()
                .filter_map(|s| match s {
                    Seg::Lit(_) => None,
                    Seg::Ph(n) | Seg::Rest(n) => Some(n.clone()),
                })
                .collect(),
        }
    }

    pub fn has_rest(&self) -> bool {
        match self {
            Pat::Star => false,
            Pat::Segs(s) => s.iter().any(|s| if let Seg::Rest(_) = s { true } else { false }),
        }
    }

    /// Matches `path`, returning the text of each placeholder in order.
    ///
    /// Works on the raw text: splits at `/` by hand, compares literals with `==`.
    pub fn matches(&self, path: &str) -> Option<Vec<String>> {
        let segs = match self {
            Pat::Star => return if path == "*" { Some(vec![]) } else { None },
            Pat::Segs(s) => s,
        };
        let mut caps = vec![];
        let mut rest = path;
        for seg in segs {
            // every segment is introduced by exactly one '/'
            if !rest.starts_with('/') {
                return None;
            }
            rest = &rest[1..];
            if let Seg::Rest(_) = seg {
                caps.push(rest.to_string());
                return Some(caps);
            }
            let end = rest.find('/').unwrap_or_else(|| rest.len());
            let (this, tail) = rest.split_at(end);
            match seg {
                Seg::Lit(l) => {
                    if this != l {
                        return None;
                    }
                }
                Seg::Ph(_) => {
                    if this.is_empty() {
                        return None;
                    }
                    caps.push(this.to_string());
                }
                Seg::Rest(_) => unreachable!(),
            }
            rest = tail;
        }
        if rest.is_empty() {
            Some(caps)
        } else {
            None
        }
    }

    /// Whether some path is matched by both patterns.
    pub fn overlaps(&self, other: &Pat) -> bool {
        match (self, other) {
            (Pat::Star, Pat::Star) => true,
            (Pat::Star, _) | (_, Pat::Star) => false,
            (Pat::Segs(a), Pat::Segs(b)) => overlap_segs(a, b),
        }
    }
}

fn overlap_segs(a: &[Seg], b: &[Seg]) -> bool {
    match (a.split_first(), b.split_first()) {
        (None, None) => true,
        (None, Some(_)) | (Some(_), None) => false,
        // A rest placeholder accepts whatever the other side needs, as long as that is introduced
        // by a '/', i.e. is at least one segment, which it is here.
        (Some((Seg::Rest(_), _)), Some(_)) | (Some(_), Some((Seg::Rest(_), _))) => true,
        (Some((x, a)), Some((y, b))) => {
            let ok = match (x, y) {
                (Seg::Lit(x), Seg::Lit(y)) => x == y,
                (Seg::Lit(l), Seg::Ph(_)) | (Seg::Ph(_), Seg::Lit(l)) => !l.is_empty(),
                _ => true,
            };
            ok && overlap_segs(a, b)
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::rng::Rng;

    /// Brute-force validation of the overlap oracle against the match oracle: for small patterns,
    /// overlap holds iff one of all paths up to 4 segments over {"" , a, b, c} matches both.
    #[test]
    fn overlap_vs_bruteforce() {
        let alpha = ["", "a", "b", "c"];
        let mut paths = vec![String::new()];
        let mut cur = vec![String::new()];
        for _ in 0..5 {
            let mut next = vec![];
            for p in &cur {
                for a in &alpha {
                    next.push(format!("{}/{}", p, a));
                }
            }
            paths.extend(next.clone());
            cur = next;
        }
        paths.push("*".into());
        let mut rng = Rng::new(7);
        let gen = |rng: &mut Rng| {
            if rng.pct(3) {
                return Pat::Star;
            }
            let n = rng.range(1, 4);
            Pat::Segs(
                (0..n)
                    .map(|i| match rng.below(6) {
                        0 => Seg::Ph(format!("p{}", i)),
                        1 if i == n - 1 => Seg::Rest("r".into()),
                        2 => Seg::Lit("".into()),
                        3 => Seg::Lit("b".into()),
                        _ => Seg::Lit("a".into()),
                    })
                    .collect(),
            )
        };
        let mut yes = 0;
        for _ in 0..3000 {
            let (a, b) = (gen(&mut rng), gen(&mut rng));
            let brute = paths.iter().any(|p| a.matches(p).is_some() && b.matches(p).is_some());
            assert_eq!(brute, a.overlaps(&b), "{:?} {:?}", a, b);
            yes += brute as u32;
        }
        assert!(yes > 100);
    }
}
