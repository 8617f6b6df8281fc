//! A small terminal emulator: what a user would see on the screen.

use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Row {
    pub text: Vec<u8>,
    /// The text continues on the next row because it reached the right margin.
    pub wrapped: bool,
}

impl Row {
    pub fn str(&self) -> String {
        String::from_utf8_lossy(&self.text).trim_end().to_string()
    }
}

pub struct Term {
    pub cols: usize,
    pub rows: usize,
    /// All rows ever shown; the screen is `lines[top..top + rows]`.
    pub lines: Vec<Row>,
    pub top: usize,
    pub row: usize, // absolute index into lines
    pub col: usize,
    pending_wrap: bool,
    saved: Option<(Vec<Row>, usize, usize, usize)>,
    pub alt: bool,
    pub alt_entered: usize,
    pub alt_left: usize,
    /// Number of cursor position queries seen.
    pub queries: usize,
    /// Absolute row of the cursor at each query.
    pub query_rows: Vec<usize>,
    pub reply: Vec<u8>,
    /// The saved cursor, its row relative to the screen.
    mark: (usize, usize),
    state: State,
    params: Vec<u8>,
    /// Modes set or reset by escape sequences, apart from the alternate screen.
    modes: BTreeMap<String, bool>,
    /// Keyboard settings pushed and not popped.
    pushed: i64,
    /// Bytes seen so far.
    pub bytes: usize,
    pub unknown: Vec<String>,
}

#[derive(PartialEq)]
enum State {
    Ground,
    Esc,
    Csi,
    Osc,
    /// One more byte belongs to the escape sequence.
    Skip,
}

impl Term {
    pub fn new(cols: usize, rows: usize) -> Term {
        Term {
            cols,
            rows,
            lines: vec![Row::default(); rows],
            top: 0,
            row: 0,
            col: 0,
            pending_wrap: false,
            saved: None,
            alt: false,
            alt_entered: 0,
            alt_left: 0,
            queries: 0,
            query_rows: Vec::new(),
            reply: Vec::new(),
            mark: (0, 0),
            state: State::Ground,
            params: Vec::new(),
            modes: BTreeMap::new(),
            pushed: 0,
            bytes: 0,
            unknown: Vec::new(),
        }
    }

    /// Rows come and go at the bottom; those that go must be blank.
    pub fn resize(&mut self, cols: usize, rows: usize) {
        self.cols = cols;
        if rows != self.rows {
            self.rows = rows;
            self.lines.resize(self.top + rows, Row::default());
        }
        if self.col >= cols {
            self.col = cols - 1;
        }
        self.pending_wrap = false;
    }

    fn linefeed(&mut self) {
        if self.row + 1 >= self.top + self.rows {
            self.top += 1;
            self.lines.push(Row::default());
        }
        self.row += 1;
    }

    fn put(&mut self, b: u8) {
        if self.pending_wrap {
            self.lines[self.row].wrapped = true;
            self.pending_wrap = false;
            self.linefeed();
            self.col = 0;
        }
        let col = self.col;
        let row = &mut self.lines[self.row];
        while row.text.len() < col {
            row.text.push(b' ');
        }
        if row.text.len() == col {
            row.text.push(b);
        } else {
            row.text[col] = b;
        }
        if self.col + 1 >= self.cols {
            self.pending_wrap = true;
        } else {
            self.col += 1;
        }
    }

    fn clear_row(&mut self, row: usize, from: usize, to: usize) {
        let r = &mut self.lines[row];
        if to >= r.text.len() {
            r.text.truncate(from);
            r.wrapped = false;
        } else {
            for i in from..to {
                r.text[i] = b' ';
            }
        }
    }

    fn restore(&mut self) {
        self.row = self.top + self.mark.0.min(self.rows - 1);
        self.col = self.mark.1.min(self.cols - 1);
        self.pending_wrap = false;
    }

    /// The rows from `row` on move down by `n`.
    fn scroll_down(&mut self, row: usize, n: usize) {
        let bottom = self.top + self.rows - 1;
        for _ in 0..n.min(bottom + 1 - row) {
            self.lines.remove(bottom);
            self.lines.insert(row, Row::default());
        }
    }

    /// The modes that are not as before the start.
    pub fn changed_modes(&self) -> Vec<String> {
        let mut v: Vec<String> = self
            .modes
            .iter()
            .filter(|(k, set)| **set != matches!(k.as_str(), "?25" | "?7" | "?8"))
            .map(|(k, set)| format!("{} {}", k, if *set { "set" } else { "reset" }))
            .collect();
        if self.pushed > 0 {
            v.push("keyboard settings".into());
        }
        v
    }

    fn nums(&self) -> Vec<usize> {
        let s = String::from_utf8_lossy(&self.params).to_string();
        s.trim_start_matches(|c: char| !c.is_ascii_digit() && c != ';')
            .split(';')
            .map(|p| p.parse().unwrap_or(0))
            .collect()
    }

    fn csi(&mut self, fin: u8) {
        let n = self.nums();
        let private = self.params.first() == Some(&b'?');
        let a = *n.first().unwrap_or(&0);
        let a1 = a.max(1);
        let bottom = self.top + self.rows - 1;
        match fin {
            b'G' => self.col = (a1 - 1).min(self.cols - 1),
            b'd' => self.row = self.top + (a1 - 1).min(self.rows - 1),
            b'H' | b'f' => {
                let b1 = (*n.get(1).unwrap_or(&0)).max(1);
                self.row = self.top + (a1 - 1).min(self.rows - 1);
                self.col = (b1 - 1).min(self.cols - 1);
            }
            b'A' => self.row = self.row.saturating_sub(a1).max(self.top),
            b'B' => self.row = (self.row + a1).min(bottom),
            b'C' => self.col = (self.col + a1).min(self.cols - 1),
            b'D' => self.col = self.col.saturating_sub(a1),
            b'E' => {
                self.row = (self.row + a1).min(bottom);
                self.col = 0;
            }
            b'F' => {
                self.row = self.row.saturating_sub(a1).max(self.top);
                self.col = 0;
            }
            b'K' => {
                let (row, col) = (self.row, self.col);
                match a {
                    0 => self.clear_row(row, col, usize::MAX),
                    1 => self.clear_row(row, 0, col + 1),
                    _ => self.clear_row(row, 0, usize::MAX),
                }
            }
            b'J' => {
                let (row, col) = (self.row, self.col);
                match a {
                    0 => {
                        self.clear_row(row, col, usize::MAX);
                        for r in row + 1..=bottom {
                            self.clear_row(r, 0, usize::MAX);
                        }
                    }
                    1 => {
                        for r in self.top..row {
                            self.clear_row(r, 0, usize::MAX);
                        }
                        self.clear_row(row, 0, col + 1);
                    }
                    _ => {
                        for r in self.top..=bottom {
                            self.clear_row(r, 0, usize::MAX);
                        }
                    }
                }
            }
            b'S' => {
                // The screen content moves up; the cursor keeps its place on the screen.
                for _ in 0..a1 {
                    self.top += 1;
                    self.row += 1;
                    self.lines.push(Row::default());
                }
            }
            b'T' => self.scroll_down(self.top, a1),
            b'L' => self.scroll_down(self.row, a1),
            b'M' => {
                for _ in 0..a1.min(bottom + 1 - self.row) {
                    self.lines.remove(self.row);
                    self.lines.insert(bottom, Row::default());
                }
            }
            b'@' => {
                let col = self.col;
                let cols = self.cols;
                let t = &mut self.lines[self.row].text;
                if t.len() > col {
                    for _ in 0..a1.min(cols) {
                        t.insert(col, b' ');
                    }
                    t.truncate(cols);
                }
            }
            b'P' => {
                let col = self.col;
                let t = &mut self.lines[self.row].text;
                let to = (col + a1).min(t.len());
                if to > col {
                    t.drain(col..to);
                }
            }
            b'X' => self.clear_row(self.row, self.col, self.col + a1),
            b'h' | b'l' if private => {
                let set = fin == b'h';
                for v in n {
                    match v {
                        1049 | 1047 | 47 => {
                            if set && !self.alt {
                                self.alt = true;
                                self.alt_entered += 1;
                                let rows = self.rows;
                                let old = std::mem::replace(
                                    &mut self.lines,
                                    vec![Row::default(); rows],
                                );
                                self.saved = Some((old, self.top, self.row, self.col));
                                // As xterm: the screen is clear and the cursor stays.
                                self.row -= self.top;
                                self.top = 0;
                            } else if !set && self.alt {
                                self.alt = false;
                                self.alt_left += 1;
                                if let Some((l, t, r, c)) = self.saved.take() {
                                    self.lines = l;
                                    self.top = t;
                                    self.row = r;
                                    self.col = c;
                                }
                            }
                        }
                        // The cursor, synchronized output, and the like.
                        _ => {
                            self.modes.insert(format!("?{}", v), set);
                        }
                    }
                }
            }
            b'u' if matches!(self.params.first(), Some(b'<' | b'=' | b'>' | b'?')) => {
                match self.params[0] {
                    b'>' => self.pushed += 1,
                    b'<' => self.pushed -= a1 as i64,
                    _ => {}
                }
                return;
            }
            b'h' | b'l' => {
                // Insert mode and others that are reset at first.
                for v in n {
                    self.modes.insert(v.to_string(), fin == b'h');
                }
                return;
            }
            b's' => self.mark = (self.row - self.top, self.col),
            b'u' => self.restore(),
            b'n' if a == 6 => {
                self.queries += 1;
                self.query_rows.push(self.row);
                let reply = format!("\x1b[{};{}R", self.row - self.top + 1, self.col + 1);
                self.reply.extend_from_slice(reply.as_bytes());
                return; // a query doesn't move the cursor
            }
            b'm' | b'q' | b'r' => return,
            _ => {
                self.unknown
                    .push(format!("CSI {}{}", String::from_utf8_lossy(&self.params), fin as char));
                return;
            }
        }
        self.pending_wrap = false;
    }

    pub fn feed(&mut self, data: &[u8]) {
        self.bytes += data.len();
        for &b in data {
            match self.state {
                State::Ground => match b {
                    0x1b => self.state = State::Esc,
                    b'\n' => {
                        self.pending_wrap = false;
                        self.linefeed();
                    }
                    b'\r' => {
                        self.pending_wrap = false;
                        self.col = 0;
                    }
                    0x08 => {
                        self.pending_wrap = false;
                        self.col = self.col.saturating_sub(1);
                    }
                    b'\t' => self.col = ((self.col / 8 + 1) * 8).min(self.cols - 1),
                    0x00..=0x1f | 0x7f => {}
                    _ => self.put(b),
                },
                State::Esc => match b {
                    b'[' => {
                        self.params.clear();
                        self.state = State::Csi;
                    }
                    b']' | b'P' | b'X' | b'^' | b'_' => self.state = State::Osc,
                    b'(' | b')' | b'*' | b'+' | b'#' | b' ' | b'%' => self.state = State::Skip,
                    _ => {
                        self.state = State::Ground;
                        match b {
                            b'7' => self.mark = (self.row - self.top, self.col),
                            b'8' => self.restore(),
                            b'D' => self.linefeed(),
                            b'E' => {
                                self.linefeed();
                                self.col = 0;
                            }
                            b'=' | b'>' => {
                                self.modes.insert("keypad".into(), b == b'=');
                            }
                            b'M' if self.row > self.top => self.row -= 1,
                            b'M' => self.scroll_down(self.top, 1),
                            _ => {}
                        }
                    }
                },
                State::Skip => self.state = State::Ground,
                State::Csi => {
                    if (0x40..=0x7e).contains(&b) {
                        self.state = State::Ground;
                        self.csi(b);
                    } else {
                        self.params.push(b);
                    }
                }
                State::Osc => {
                    if b == 0x07 {
                        self.state = State::Ground;
                    } else if b == 0x1b {
                        self.state = State::Esc;
                    }
                }
            }
        }
    }

    /// The text of absolute row `i`.
    pub fn row_str(&self, i: usize) -> String {
        self.lines.get(i).map(|r| r.str()).unwrap_or_default()
    }

    /// Rows `from..to` with rows that wrapped joined into lines.
    pub fn logical(&self, from: usize, to: usize) -> Vec<String> {
        let mut out = Vec::new();
        let mut cur: Vec<u8> = Vec::new();
        let mut open = false;
        for i in from..to {
            cur.extend_from_slice(&self.lines[i].text);
            if self.lines[i].wrapped {
                open = true;
            } else {
                out.push(String::from_utf8_lossy(&cur).to_string());
                cur.clear();
                open = false;
            }
        }
        if open {
            out.push(String::from_utf8_lossy(&cur).to_string());
        }
        out
    }

    pub fn dump(&self) -> String {
        let mut s = String::new();
        let to = (self.top + self.rows).min(self.lines.len());
        let from = self.top;
        for i in from..to {
            let t = self.row_str(i);
            if t.is_empty() && i > self.row {
                continue;
            }
            s.push_str(&format!(
                "{}|{}\n",
                if i == self.row { format!("{:>3}>", self.col) } else { "    ".into() },
                t
            ));
        }
        s
    }
}
