//! A scripted terminal: keys come from a list, what is written goes to a
//! small screen, and any operation can be made to fail.
use crate::json::{num, V};
use liner::Key;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::rc::Rc;

#[derive(Clone, Debug)]
struct Cell {
    ch: u32, // 0: right half of a double-width character
    attr: i64,
    comb: Vec<u32>,
}
const BLANK: Cell = Cell { ch: 32, attr: 0, comb: vec![] };

/// A terminal screen with unlimited height.
pub struct Screen {
    pub w: usize,
    rows: Vec<Vec<Cell>>,
    pub y: usize,
    pub x: usize, // == w: a character was written in the last column
    fg: i64,
    bg: i64,
    bold: bool,
    saved: (usize, usize),
    esc: String,
    utf: Vec<u8>,
    pub unknown: Vec<String>,
}

/// Cells of the characters the drivers use.
fn cells(c: u32) -> usize {
    match c {
        769 | 775 | 8203 => 0,
        19990 | 12288 | 54620 | 65313 | 65345 | 128512 => 2,
        _ => 1,
    }
}

impl Screen {
    pub fn new(w: usize) -> Screen {
        Screen {
            w,
            rows: vec![],
            y: 0,
            x: 0,
            fg: 0,
            bg: 0,
            bold: false,
            saved: (0, 0),
            esc: String::new(),
            utf: vec![],
            unknown: vec![],
        }
    }
    fn attr(&self) -> i64 {
        let col = match (self.fg, self.bg) {
            (f, 0) => f,
            (8, 7) => 8,
            _ => 32,
        };
        col + if self.bold { 16 } else { 0 }
    }
    fn cell(&mut self, y: usize, x: usize) -> &mut Cell {
        while self.rows.len() <= y {
            self.rows.push(vec![]);
        }
        let r = &mut self.rows[y];
        while r.len() <= x {
            r.push(BLANK);
        }
        &mut r[x]
    }
    fn put(&mut self, c: u32) {
        let n = cells(c);
        let a = self.attr();
        if n == 0 {
            if self.x > 0 {
                let (y, x) = (self.y, self.x - 1);
                let half = self.cell(y, x).ch == 0;
                let x = if half && x > 0 { x - 1 } else { x };
                self.cell(y, x).comb.push(c);
            }
            return;
        }
        if self.x + n > self.w {
            self.y += 1;
            self.x = 0;
        }
        let (y, x) = (self.y, self.x);
        // half a character is none
        if x > 0 && self.cell(y, x).ch == 0 {
            *self.cell(y, x - 1) = BLANK;
        }
        if self.rows.get(y).and_then(|r| r.get(x + n)).is_some_and(|c| c.ch == 0) {
            *self.cell(y, x + n) = BLANK;
        }
        *self.cell(y, x) = Cell { ch: c, attr: a, comb: vec![] };
        if n == 2 {
            *self.cell(y, x + 1) = Cell { ch: 0, attr: a, comb: vec![] };
        }
        self.x += n;
    }
    fn blank(&mut self, from: usize, to: usize) {
        if let Some(r) = self.rows.get_mut(self.y) {
            for c in r.iter_mut().take(to).skip(from) {
                *c = BLANK;
            }
        }
    }
    fn csi(&mut self, seq: &str) {
        let fin = seq.chars().last().unwrap();
        let par = &seq[..seq.len() - 1];
        let nums: Vec<usize> = par.split(';').map(|p| p.parse().unwrap_or(0)).collect();
        let n = nums[0].max(1);
        if !"mhl".contains(fin) && self.x == self.w {
            self.x -= 1; // the pending wrap is forgotten
        }
        match fin {
            'h' | 'l' if par.starts_with('?') => {}
            'A' => self.y = self.y.saturating_sub(n),
            'B' => self.y += n,
            'C' => self.x = (self.x + n).min(self.w - 1),
            'D' => self.x = self.x.saturating_sub(n),
            'H' => {
                self.y = n - 1;
                self.x = (nums.get(1).copied().unwrap_or(1).max(1) - 1).min(self.w - 1);
            }
            'J' if nums[0] == 0 => {
                let (y, x) = (self.y, self.x);
                self.rows.truncate(y + 1);
                if let Some(r) = self.rows.get_mut(y) {
                    r.truncate(x);
                }
            }
            'J' if nums[0] == 1 => {
                for y in 0..self.y.min(self.rows.len()) {
                    self.rows[y].clear();
                }
                self.blank(0, self.x + 1);
            }
            'J' if nums[0] == 2 || nums[0] == 3 => self.rows.clear(),
            'K' if nums[0] == 0 => {
                let x = self.x;
                if let Some(r) = self.rows.get_mut(self.y) {
                    r.truncate(x);
                }
            }
            'K' if nums[0] == 1 => self.blank(0, self.x + 1),
            'K' if nums[0] == 2 => {
                if let Some(r) = self.rows.get_mut(self.y) {
                    r.clear();
                }
            }
            'X' => self.blank(self.x, self.x + n),
            'E' => {
                self.y += n;
                self.x = 0;
            }
            'F' => {
                self.y = self.y.saturating_sub(n);
                self.x = 0;
            }
            'G' | '`' => self.x = (n - 1).min(self.w - 1),
            'd' => self.y = n - 1,
            'f' => self.csi(&format!("{}H", par)),
            's' => self.saved = (self.y, self.x),
            'u' => (self.y, self.x) = self.saved,
            'm' => {
                let mut i = 0;
                while i < nums.len() {
                    match nums[i] {
                        0 => {
                            self.fg = 0;
                            self.bg = 0;
                            self.bold = false
                        }
                        1 => self.bold = true,
                        22 => self.bold = false,
                        38 if nums.get(1 + i) == Some(&5) => {
                            self.fg = match nums.get(i + 2) {
                                Some(0) => 8,
                                Some(&k) => k as i64,
                                None => 0,
                            };
                            i += 2;
                        }
                        48 if nums.get(1 + i) == Some(&5) => {
                            self.bg = nums.get(i + 2).map_or(0, |&k| k as i64);
                            i += 2;
                        }
                        k @ 30..=37 => self.fg = if k == 30 { 8 } else { k as i64 - 30 },
                        39 => self.fg = 0,
                        k @ 40..=47 => self.bg = if k == 40 { 8 } else { k as i64 - 40 },
                        49 => self.bg = 0,
                        3 | 4 | 7 | 23 | 24 | 27 => {}
                        _ => self.unknown.push(seq.into()),
                    }
                    i += 1;
                }
            }
            _ => self.unknown.push(seq.into()),
        }
    }
    fn ch(&mut self, c: char) {
        if !self.esc.is_empty() {
            self.esc.push(c);
            if self.esc.starts_with("\x1b]") && self.esc.len() > 2 {
                // a command to the system, up to a bell or a string terminator
                if c == '\x07' || self.esc.ends_with("\x1b\\") {
                    self.esc.clear();
                }
            } else if self.esc.starts_with("\x1b(") {
                // a character set
                if self.esc.len() == 3 {
                    self.esc.clear();
                }
            } else if self.esc.len() == 2 {
                if c != '[' && c != ']' && c != '(' {
                    let e = std::mem::take(&mut self.esc);
                    match c {
                        '7' => self.saved = (self.y, self.x),
                        '8' => (self.y, self.x) = self.saved,
                        _ => self.unknown.push(e),
                    }
                }
            } else if ('@'..='~').contains(&c) {
                let e = std::mem::take(&mut self.esc);
                self.csi(&e[2..]);
            }
            return;
        }
        match c {
            '\x1b' => self.esc.push(c),
            '\r' => self.x = 0,
            '\x08' => self.x = self.x.min(self.w - 1).saturating_sub(1),
            '\x07' => {}
            '\n' => {
                if self.x == self.w {
                    self.x -= 1;
                }
                self.y += 1
            }
            c if (c as u32) < 32 => self.unknown.push(format!("{:?}", c)),
            c => self.put(c as u32),
        }
    }
    pub fn feed(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.utf.push(b);
            match std::str::from_utf8(&self.utf) {
                Ok(s) => {
                    let c = s.chars().next().unwrap();
                    self.utf.clear();
                    self.ch(c);
                }
                Err(e) if e.error_len().is_some() => {
                    self.utf.clear();
                    self.unknown.push("bad utf-8".into());
                }
                _ => {}
            }
        }
    }
    /// The screen as the specification writes it.
    pub fn shot(&self) -> V {
        let mut g = vec![];
        let mut a = vec![];
        for r in &self.rows {
            let mut n = r.len();
            while n > 0 && r[n - 1].ch == 32 && r[n - 1].attr == 0 && r[n - 1].comb.is_empty() {
                n -= 1;
            }
            let (mut gr, mut ar) = (vec![], vec![]);
            for (i, c) in r[..n].iter().enumerate() {
                gr.push(V::N(c.ch as i64));
                ar.push(V::N(c.attr));
                // after both halves of a double-width character
                let base = if c.ch == 0 && i > 0 { &r[i - 1] } else { c };
                let wide = c.ch != 0 && i + 1 < n && r[i + 1].ch == 0;
                if !wide {
                    for m in &base.comb {
                        gr.push(V::N(*m as i64));
                        ar.push(V::N(base.attr));
                    }
                }
            }
            g.push(V::A(gr));
            a.push(V::A(ar));
        }
        while matches!(g.last(), Some(V::A(r)) if r.is_empty()) {
            g.pop();
            a.pop();
        }
        let (y, x) = if self.x == self.w { (self.y, self.w - 1) } else { (self.y, self.x) };
        V::obj().with("g", V::A(g)).with("a", V::A(a)).with("y", num(y)).with("x", num(x)).with("u", num(self.unknown.len()))
    }
}

pub struct State {
    pub screen: Screen,
    /// written, but not flushed: not on the screen yet
    pending: Vec<u8>,
    pub keys: VecDeque<Key>,
    pub reads: usize,
    pub short: usize,
    /// fail the operation with this number (1-based), 0: none
    pub fail_at: usize,
    pub sticky: bool,
    /// with what kind of error
    pub how: usize,
    pub ops: usize,
    pub hit: String,
    pub after_hit: String, // operations tried after the failure
    /// the width the terminal reports
    pub report: usize,
    /// how often the width was asked for
    pub asked: usize,
}

#[derive(Clone)]
pub struct FakeTty(pub Rc<RefCell<State>>);

/// How the terminal may fail.
pub const HOWS: [io::ErrorKind; 9] = [
    io::ErrorKind::Other,
    io::ErrorKind::Interrupted,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::TimedOut,
    io::ErrorKind::InvalidData,
    io::ErrorKind::NotFound,
    io::ErrorKind::WriteZero,
];
pub const INJECTED: &str = "injected-terminal-failure";

impl FakeTty {
    pub fn new(w: usize) -> FakeTty {
        FakeTty(Rc::new(RefCell::new(State {
            screen: Screen::new(w.max(1)),
            pending: vec![],
            keys: VecDeque::new(),
            reads: 0,
            short: 0,
            fail_at: 0,
            sticky: false,
            how: 0,
            ops: 0,
            hit: String::new(),
            after_hit: String::new(),
            report: w,
            asked: 0,
        })))
    }
}

impl State {
    /// Show what was written.
    pub fn settle(&mut self) {
        let bytes = std::mem::take(&mut self.pending);
        self.screen.feed(&bytes);
    }
    /// Writing is tried again when it was only interrupted (`Write::write_all`).
    pub fn failing(&self, kind: &str) -> io::ErrorKind {
        match HOWS[self.how] {
            io::ErrorKind::Interrupted if kind == "w" => io::ErrorKind::Other,
            how => how,
        }
    }
    fn failure(&self, kind: &str) -> io::Error {
        io::Error::new(self.failing(kind), INJECTED)
    }
    fn op(&mut self, kind: &str) -> io::Result<()> {
        self.ops += 1;
        if !self.hit.is_empty() {
            self.after_hit.push_str(kind);
            assert!(self.after_hit.len() < 2000, "the failing terminal is used again and again");
            if self.sticky {
                return Err(self.failure(kind));
            }
        } else if self.fail_at != 0 && self.ops == self.fail_at {
            self.hit = kind.to_string();
            return Err(self.failure(kind));
        }
        Ok(())
    }
}

impl io::Write for FakeTty {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        s.op("w")?;
        let n = if s.short > 0 { buf.len().min(s.short) } else { buf.len() };
        s.pending.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut s = self.0.borrow_mut();
        s.op("f")?;
        s.settle();
        Ok(())
    }
}

impl liner::Tty for FakeTty {
    fn next_key(&mut self) -> Option<io::Result<Key>> {
        let mut s = self.0.borrow_mut();
        if let Err(e) = s.op("k") {
            return Some(Err(e));
        }
        let k = s.keys.pop_front();
        if k.is_some() {
            s.reads += 1;
        }
        k.map(Ok)
    }
    fn width(&self) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        if s.hit.is_empty() {
            s.asked += 1;
        }
        s.op("d")?;
        Ok(s.report)
    }
}
