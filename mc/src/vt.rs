//! A terminal emulator for the sequences that crossterm can emit: what a user would see.
use std::collections::{BTreeSet, VecDeque};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Row {
    pub cells: Vec<char>,
    /// The text continues in the next row because the terminal wrapped it.
    pub wrapped: bool,
}

impl Row {
    pub fn text(&self) -> String {
        self.cells.iter().collect()
    }
}

#[derive(Clone, Debug)]
pub struct Screen {
    rows: VecDeque<Row>,
    /// Rows that scrolled off and were discarded.
    discarded: u64,
    top: usize,
    pub cx: u16,
    pub cy: u16,
    pending_wrap: bool,
    saved: (u16, u16),
}

impl Screen {
    fn new(rows: u16) -> Screen {
        Screen {
            rows: (0..rows).map(|_| Row::default()).collect(),
            discarded: 0,
            top: 0,
            cx: 0,
            cy: 0,
            pending_wrap: false,
            saved: (0, 0),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Vt {
    pub cols: u16,
    pub rows: u16,
    main: Screen,
    alt: Option<Screen>,
    pub alt_entered: u32,
    pub alt_left: u32,
    /// In raw mode a line feed does not return the carriage.
    pub raw: bool,
    pub cursor_visible: bool,
    /// Private modes that are not as they were in the beginning.
    pub modes: BTreeSet<String>,
    /// Text attributes are set.
    pub styled: bool,
    pub unknown: Vec<String>,
    pending: Vec<u8>,
}

impl Vt {
    pub fn new(cols: u16, rows: u16) -> Vt {
        Vt {
            cols,
            rows,
            main: Screen::new(rows),
            alt: None,
            alt_entered: 0,
            alt_left: 0,
            raw: false,
            cursor_visible: true,
            modes: BTreeSet::new(),
            styled: false,
            unknown: Vec::new(),
            pending: Vec::new(),
        }
    }

    pub fn in_alt(&self) -> bool {
        self.alt.is_some()
    }

    pub fn scr(&self) -> &Screen {
        self.alt.as_ref().unwrap_or(&self.main)
    }

    fn scr_mut(&mut self) -> &mut Screen {
        self.alt.as_mut().unwrap_or(&mut self.main)
    }

    /// Number of the cursor's row, counted from the first row that was ever on the screen.
    pub fn abs_row(&self) -> u64 {
        let s = self.scr();
        s.discarded + s.top as u64 + s.cy as u64
    }

    /// Number of the first visible row.
    pub fn abs_top(&self) -> u64 {
        let s = self.scr();
        s.discarded + s.top as u64
    }

    pub fn row(&self, abs: u64) -> Row {
        let s = self.scr();
        if abs < s.discarded {
            return Row::default();
        }
        s.rows.get((abs - s.discarded) as usize).cloned().unwrap_or_default()
    }

    pub fn row_text(&self, abs: u64) -> String {
        self.row(abs).text()
    }

    pub fn cursor(&self) -> (u16, u16) {
        (self.scr().cx, self.scr().cy)
    }

    /// The visible rows without trailing blanks.
    pub fn visible(&self) -> Vec<String> {
        (0..self.rows)
            .map(|i| self.row_text(self.abs_top() + i as u64).trim_end().to_string())
            .collect()
    }

    pub fn set_cursor(&mut self, x: u16, y: u16) {
        let (c, r) = (self.cols, self.rows);
        let s = self.scr_mut();
        s.cx = x.min(c - 1);
        s.cy = y.min(r - 1);
        s.pending_wrap = false;
    }

    /// Forgets the rows above the visible ones.
    pub fn trim_scrollback(&mut self) {
        let s = self.scr_mut();
        s.rows.drain(0..s.top);
        s.discarded += s.top as u64;
        s.top = 0;
    }

    pub fn resize(&mut self, cols: u16, rows: u16) {
        for s in [Some(&mut self.main), self.alt.as_mut()].into_iter().flatten() {
            for r in s.rows.iter_mut() {
                r.cells.truncate(cols as usize);
            }
            if rows < self.rows {
                // Keep the cursor on the screen by scrolling.
                let lost = (s.cy + 1).saturating_sub(rows);
                s.top += lost as usize;
                s.cy -= lost;
            }
            while s.rows.len() < s.top + rows as usize {
                s.rows.push_back(Row::default());
            }
            s.rows.truncate(s.top + rows as usize);
            s.cx = s.cx.min(cols.max(1) - 1);
            s.pending_wrap = false;
        }
        self.cols = cols;
        self.rows = rows;
    }

    fn line_feed(&mut self) {
        let rows = self.rows;
        let s = self.scr_mut();
        s.pending_wrap = false;
        if s.cy + 1 >= rows {
            s.top += 1;
            s.rows.push_back(Row::default());
        } else {
            s.cy += 1;
        }
    }

    fn put(&mut self, c: char) {
        let cols = self.cols;
        if self.scr().pending_wrap {
            let s = self.scr_mut();
            let i = s.top + s.cy as usize;
            s.rows[i].wrapped = true;
            self.line_feed();
            self.scr_mut().cx = 0;
        }
        let s = self.scr_mut();
        let i = s.top + s.cy as usize;
        let x = s.cx as usize;
        let cells = &mut s.rows[i].cells;
        if x < cells.len() {
            cells[x] = c;
        } else {
            cells.resize(x, ' ');
            cells.push(c);
        }
        if s.cx + 1 >= cols {
            s.pending_wrap = true;
        } else {
            s.cx += 1;
        }
    }

    pub fn feed(&mut self, bytes: &[u8]) {
        let mut data = std::mem::take(&mut self.pending);
        data.extend_from_slice(bytes);
        let mut i = 0;
        while i < data.len() {
            let b = data[i];
            match b {
                0x1b => match self.escape(&data[i..]) {
                    Some(n) => i += n,
                    None => {
                        self.pending = data[i..].to_vec();
                        return;
                    }
                },
                b'\n' => {
                    self.line_feed();
                    if !self.raw {
                        self.scr_mut().cx = 0;
                    }
                    i += 1;
                }
                b'\r' => {
                    let s = self.scr_mut();
                    s.cx = 0;
                    s.pending_wrap = false;
                    i += 1;
                }
                8 => {
                    let s = self.scr_mut();
                    s.cx = s.cx.saturating_sub(1);
                    s.pending_wrap = false;
                    i += 1;
                }
                b'\t' => {
                    let cols = self.cols;
                    let s = self.scr_mut();
                    s.cx = ((s.cx / 8 + 1) * 8).min(cols - 1);
                    i += 1;
                }
                0..=31 | 127 => i += 1,
                _ if b < 0x80 => {
                    self.put(b as char);
                    i += 1;
                }
                _ => {
                    let n = if b >= 0xf0 {
                        4
                    } else if b >= 0xe0 {
                        3
                    } else {
                        2
                    };
                    if i + n > data.len() {
                        self.pending = data[i..].to_vec();
                        return;
                    }
                    let c = std::str::from_utf8(&data[i..i + n])
                        .ok()
                        .and_then(|s| s.chars().next())
                        .unwrap_or('\u{fffd}');
                    self.put(c);
                    i += n;
                }
            }
        }
    }

    /// Interprets an escape sequence; the number of bytes it has, or `None` if it is incomplete.
    fn escape(&mut self, d: &[u8]) -> Option<usize> {
        match *d.get(1)? {
            b'7' => {
                let s = self.scr_mut();
                s.saved = (s.cx, s.cy);
                Some(2)
            }
            b'8' => {
                let (x, y) = self.scr().saved;
                self.set_cursor(x, y);
                Some(2)
            }
            b']' => {
                let mut i = 2;
                loop {
                    match *d.get(i)? {
                        7 => return Some(i + 1),
                        0x1b => {
                            d.get(i + 1)?;
                            return Some(i + 2);
                        }
                        _ => i += 1,
                    }
                }
            }
            b'[' => {
                let mut i = 2;
                while !(0x40..=0x7e).contains(d.get(i)?) {
                    i += 1;
                }
                let params = std::str::from_utf8(&d[2..i]).unwrap_or("").to_string();
                self.csi(&params, d[i]);
                Some(i + 1)
            }
            _ => {
                self.unknown.push(format!("ESC {}", d[1] as char));
                Some(2)
            }
        }
    }

    fn csi(&mut self, params: &str, cmd: u8) {
        if let Some(p) = params.strip_prefix('?') {
            for mode in p.split(';') {
                match (mode, cmd) {
                    ("1049", b'h') => {
                        self.alt_entered += 1;
                        if self.alt.is_none() {
                            // Entering keeps the cursor where it is, on an empty screen.
                            let mut s = Screen::new(self.rows);
                            s.cx = self.main.cx;
                            s.cy = self.main.cy;
                            self.alt = Some(s);
                        }
                    }
                    ("1049", b'l') => {
                        self.alt_left += 1;
                        self.alt = None;
                    }
                    ("25", b'h') => self.cursor_visible = true,
                    ("25", b'l') => self.cursor_visible = false,
                    ("12", _) | ("7", b'h') | ("2026", _) | ("2004", _) => {}
                    _ => self.unknown.push(format!("CSI ?{}{}", mode, cmd as char)),
                }
                if !["1049", "25", "12"].contains(&mode) {
                    // Only automatic wrapping is on in the beginning.
                    if (cmd == b'h') == (mode == "7") {
                        self.modes.remove(mode);
                    } else {
                        self.modes.insert(mode.to_string());
                    }
                }
            }
            return;
        }
        let ps: Vec<u16> = params.split(';').map(|p| p.parse().unwrap_or(0)).collect();
        let p0 = ps.first().copied().unwrap_or(0);
        let n = p0.max(1);
        let (x, y) = self.cursor();
        match cmd {
            b'A' => self.set_cursor(x, y.saturating_sub(n)),
            b'B' => self.set_cursor(x, y.saturating_add(n)),
            b'C' => self.set_cursor(x.saturating_add(n), y),
            b'D' => self.set_cursor(x.saturating_sub(n), y),
            b'E' => self.set_cursor(0, y.saturating_add(n)),
            b'F' => self.set_cursor(0, y.saturating_sub(n)),
            b'G' => self.set_cursor(n - 1, y),
            b'd' => self.set_cursor(x, n - 1),
            b'H' | b'f' => {
                let col = ps.get(1).copied().unwrap_or(1).max(1);
                self.set_cursor(col - 1, n - 1)
            }
            b'J' => {
                let rows = self.rows as usize;
                let s = self.scr_mut();
                s.pending_wrap = false;
                let (cx, cur, top) = (s.cx as usize, s.top + s.cy as usize, s.top);
                match p0 {
                    0 => {
                        s.rows[cur].cells.truncate(cx);
                        s.rows[cur].wrapped = false;
                        for r in cur + 1..top + rows {
                            s.rows[r] = Row::default();
                        }
                    }
                    1 => {
                        for r in top..cur {
                            s.rows[r] = Row::default();
                        }
                        blank_to(&mut s.rows[cur], cx);
                    }
                    _ => {
                        for r in top..top + rows {
                            s.rows[r] = Row::default();
                        }
                    }
                }
            }
            b'K' => {
                let s = self.scr_mut();
                s.pending_wrap = false;
                let (cx, cur) = (s.cx as usize, s.top + s.cy as usize);
                match p0 {
                    0 => {
                        s.rows[cur].cells.truncate(cx);
                        s.rows[cur].wrapped = false;
                    }
                    1 => blank_to(&mut s.rows[cur], cx),
                    _ => s.rows[cur] = Row::default(),
                }
            }
            b'S' => {
                for _ in 0..n {
                    let s = self.scr_mut();
                    s.top += 1;
                    s.rows.push_back(Row::default());
                }
            }
            b'X' => {
                let s = self.scr_mut();
                let (cx, cur) = (s.cx as usize, s.top + s.cy as usize);
                let cells = &mut s.rows[cur].cells;
                for i in cx..(cx + n as usize).min(cells.len()) {
                    cells[i] = ' ';
                }
            }
            b's' => {
                let s = self.scr_mut();
                s.saved = (s.cx, s.cy);
            }
            b'u' => {
                let (x, y) = self.scr().saved;
                self.set_cursor(x, y);
            }
            b'm' => self.styled = !matches!(params, "" | "0" | "39" | "49" | "39;49"),
            _ => self.unknown.push(format!("CSI {}{}", params, cmd as char)),
        }
    }
}

fn blank_to(row: &mut Row, cx: usize) {
    for i in 0..=cx {
        if i < row.cells.len() {
            row.cells[i] = ' ';
        }
    }
}
