//! Words and numbers taken from the tree under test (see driver/dictionary.py): ingredients of
//! declarations and requests, besides those the generators have of their own.

use crate::rng::Rng;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub words: Vec<String>,
    pub numbers: Vec<usize>,
}

pub fn dict() -> &'static Dict {
    static DICT: OnceLock<Dict> = OnceLock::new();
    DICT.get_or_init(|| {
        let mut d = Dict::default();
        let text = std::env::var("VERIF_DICT").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        for l in text.lines() {
            match l.split_at(l.len().min(2)) {
                ("s ", hex) => {
                    let b: Vec<u8> = (0..hex.len() / 2).filter_map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).ok()).collect();
                    d.words.push(String::from_utf8_lossy(&b).into_owned());
                }
                ("n ", n) => d.numbers.extend(n.parse::<usize>().ok()),
                _ => {}
            }
        }
        d
    })
}

impl Dict {
    pub fn is_empty(&self) -> bool {
        self.words.is_empty() && self.numbers.is_empty()
    }
    pub fn word(&self, r: &mut Rng) -> Option<String> {
        if self.words.is_empty() {
            None
        } else {
            Some(r.pick(&self.words).clone())
        }
    }
    /// A number close to one of the tree's, up to `max`.
    pub fn number(&self, r: &mut Rng, max: usize) -> Option<usize> {
        let fit: Vec<usize> = self.numbers.iter().copied().filter(|n| *n < max).collect();
        if fit.is_empty() {
            return None;
        }
        Some((*r.pick(&fit) + r.below(4)).saturating_sub(1).min(max))
    }
    /// A word that can be an identifier.
    pub fn ident(&self, r: &mut Rng) -> Option<String> {
        const KEYWORDS: &[&str] = &[
            "as", "async", "await", "box", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern", "false", "fn", "for", "if", "impl",
            "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true",
            "type", "unsafe", "use", "where", "while", "abstract", "become", "do", "final", "macro", "override", "priv", "try", "typeof", "unsized",
            "virtual", "yield", "union", "gen", "_",
        ];
        let fit: Vec<&String> = self
            .words
            .iter()
            .filter(|w| {
                w.len() < 40
                    && w.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
                    && !w.starts_with(|c: char| c.is_ascii_digit())
                    && !KEYWORDS.contains(&w.as_str())
            })
            .collect();
        if fit.is_empty() {
            None
        } else {
            Some((*r.pick(&fit)).clone())
        }
    }
}
