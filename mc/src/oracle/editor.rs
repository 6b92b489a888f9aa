//! The line editor with recall: what every key does.
use crossterm::event::{Event, KeyCode, KeyEvent, KeyModifiers};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    /// The key means nothing here.
    Nothing,
    Changed,
    Submitted(String),
    Exit,
}

#[derive(Clone, Debug, Default)]
pub struct Editor {
    /// Submitted lines of this session, oldest first.
    pub submitted: Vec<String>,
    /// Lines stored by earlier sessions, newest first.
    pub stored: Vec<String>,
    /// Edited versions of entries; entry 0 is the new line.
    drafts: BTreeMap<usize, String>,
    pub entry: usize,
    pub cursor: usize,
}

impl Editor {
    pub fn line(&self) -> String {
        if let Some(d) = self.drafts.get(&self.entry) {
            return d.clone();
        }
        let n = self.submitted.len();
        if self.entry == 0 {
            String::new()
        } else if self.entry <= n {
            self.submitted[n - self.entry].clone()
        } else {
            self.stored[self.entry - n - 1].clone()
        }
    }

    fn edit(&mut self, f: impl FnOnce(&mut String)) {
        let mut l = self.line();
        f(&mut l);
        self.drafts.insert(self.entry, l);
    }

    pub fn key(&mut self, e: &Event) -> Outcome {
        let KeyEvent { code, modifiers, .. } = match e {
            Event::Key(k) => *k,
            _ => return Outcome::Nothing,
        };
        let len = self.line().len();
        match code {
            KeyCode::Char(c) => {
                if !c.is_ascii() {
                    return Outcome::Nothing;
                }
                if modifiers == KeyModifiers::CONTROL {
                    return match c {
                        'c' | 'd' | 'z' => Outcome::Exit,
                        'n' | 'm' => match partner(self.line().as_bytes(), self.cursor) {
                            Some(p) => {
                                self.cursor = p;
                                Outcome::Changed
                            }
                            None => Outcome::Nothing,
                        },
                        _ => Outcome::Nothing,
                    };
                }
                let c = if modifiers == KeyModifiers::SHIFT {
                    c.to_ascii_uppercase()
                } else if modifiers.is_empty() {
                    c
                } else {
                    return Outcome::Nothing;
                };
                let at = self.cursor;
                self.edit(|l| l.insert(at, c));
                self.cursor += 1;
                Outcome::Changed
            }
            KeyCode::Backspace if self.cursor > 0 => {
                self.cursor -= 1;
                let at = self.cursor;
                self.edit(|l| {
                    l.remove(at);
                });
                Outcome::Changed
            }
            KeyCode::Delete if self.cursor < len => {
                let at = self.cursor;
                self.edit(|l| {
                    l.remove(at);
                });
                Outcome::Changed
            }
            KeyCode::Left | KeyCode::Right => {
                let by = match modifiers {
                    KeyModifiers::NONE => 1,
                    KeyModifiers::CONTROL | KeyModifiers::SHIFT => 15,
                    _ => return Outcome::Nothing,
                };
                self.cursor =
                    if code == KeyCode::Left { self.cursor.saturating_sub(by) } else { (self.cursor + by).min(len) };
                Outcome::Changed
            }
            KeyCode::Home => {
                self.cursor = 0;
                Outcome::Changed
            }
            KeyCode::End => {
                self.cursor = len;
                Outcome::Changed
            }
            KeyCode::Up => {
                if self.entry >= self.submitted.len() + self.stored.len() {
                    return Outcome::Nothing;
                }
                self.entry += 1;
                self.cursor = self.line().len();
                Outcome::Changed
            }
            KeyCode::Down => {
                if self.entry == 0 {
                    return Outcome::Nothing;
                }
                self.entry -= 1;
                self.cursor = self.line().len();
                Outcome::Changed
            }
            KeyCode::Enter => {
                let l = self.line();
                self.drafts.clear();
                self.entry = 0;
                self.cursor = 0;
                self.submitted.push(l.clone());
                Outcome::Submitted(l)
            }
            _ => Outcome::Nothing,
        }
    }
}

/// The position of the parenthesis that matches the one at the cursor.
pub fn partner(line: &[u8], cursor: usize) -> Option<usize> {
    if line.is_empty() {
        return None;
    }
    let at = cursor.min(line.len() - 1);
    let mut depth = 0i64;
    let positions: Vec<usize> = match line[at] {
        b'(' => (at..line.len()).collect(),
        b')' => (0..=at).rev().collect(),
        _ => return None,
    };
    for p in positions {
        match line[p] {
            b'(' => depth += 1,
            b')' => depth -= 1,
            _ => {}
        }
        if depth == 0 {
            return Some(p);
        }
    }
    None
}

/// Keys by name, for cases. Single characters stand for themselves.
pub fn parse_key(s: &str) -> Option<Event> {
    let k = |code, m| Some(Event::Key(KeyEvent::new(code, m)));
    let none = KeyModifiers::NONE;
    let special = |s: &str| {
        Some(match s {
            "Up" => KeyCode::Up,
            "Down" => KeyCode::Down,
            "Left" => KeyCode::Left,
            "Right" => KeyCode::Right,
            "Home" => KeyCode::Home,
            "End" => KeyCode::End,
            "Bksp" => KeyCode::Backspace,
            "Del" => KeyCode::Delete,
            "Enter" => KeyCode::Enter,
            "Tab" => KeyCode::Tab,
            "Esc" => KeyCode::Esc,
            "F5" => KeyCode::F(5),
            "PageUp" => KeyCode::PageUp,
            "PageDown" => KeyCode::PageDown,
            "F1" => KeyCode::F(1),
            "F12" => KeyCode::F(12),
            "Insert" => KeyCode::Insert,
            "Null" => KeyCode::Null,
            "BackTab" => KeyCode::BackTab,
            "Sp" => KeyCode::Char(' '),
            _ => {
                let mut c = s.chars();
                let ch = c.next()?;
                if c.next().is_some() {
                    return None;
                }
                KeyCode::Char(ch)
            }
        })
    };
    if let Some(r) = s.strip_prefix("Size:") {
        let (a, b) = r.split_once('x')?;
        return Some(Event::Resize(a.parse().ok()?, b.parse().ok()?));
    }
    match s {
        "Paste" => return Some(Event::Paste("12".into())),
        "FocusGained" => return Some(Event::FocusGained),
        "Mouse" => {
            return Some(Event::Mouse(crossterm::event::MouseEvent {
                kind: crossterm::event::MouseEventKind::Moved,
                column: 1,
                row: 1,
                modifiers: none,
            }))
        }
        _ => {}
    }
    if s.chars().count() > 2 {
        for (p, m) in [
            ("C-S-", KeyModifiers::CONTROL.union(KeyModifiers::SHIFT)),
            ("A-S-", KeyModifiers::ALT.union(KeyModifiers::SHIFT)),
            ("C-A-", KeyModifiers::CONTROL.union(KeyModifiers::ALT)),
            ("C-", KeyModifiers::CONTROL),
            ("S-", KeyModifiers::SHIFT),
            ("A-", KeyModifiers::ALT),
        ] {
            if let Some(r) = s.strip_prefix(p) {
                if !r.is_empty() {
                    return k(special(r)?, m);
                }
            }
        }
    }
    k(special(s)?, none)
}

/// The names of the keys that type a text.
pub fn typed(text: &str) -> Vec<String> {
    text.chars()
        .map(|c| match c {
            ' ' => "Sp".to_string(),
            c if c.is_ascii_uppercase() => format!("S-{}", c),
            c => c.to_string(),
        })
        .collect()
}
