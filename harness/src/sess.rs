//! Editor sessions: keys and editor operations run against the library,
//! everything a user can see recorded after each of them.
use crate::data::{pairs, place};
use crate::json::*;
use crate::tty::*;
use liner::*;
use std::cell::RefCell;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

pub fn key_from(v: &V) -> Key {
    let c = char::from_u32(v.get("c").n() as u32).unwrap_or('?');
    match v.get("k").s() {
        "Char" => Key::Char(c),
        "Ctrl" => Key::Ctrl(c),
        "Alt" => Key::Alt(c),
        "Left" => Key::Left,
        "Right" => Key::Right,
        "Up" => Key::Up,
        "Down" => Key::Down,
        "Home" => Key::Home,
        "End" => Key::End,
        "Backspace" => Key::Backspace,
        "Delete" => Key::Delete,
        "Esc" => Key::Esc,
        "PageUp" => Key::PageUp,
        "PageDown" => Key::PageDown,
        "Insert" => Key::Insert,
        "BackTab" => Key::BackTab,
        "F" => Key::F(v.get("c").n() as u8),
        _ => Key::Null,
    }
}
pub fn key_to(k: Key) -> V {
    let (n, c) = match k {
        Key::Char(c) => ("Char", c as i64),
        Key::Ctrl(c) => ("Ctrl", c as i64),
        Key::Alt(c) => ("Alt", c as i64),
        Key::Left => ("Left", 0),
        Key::Right => ("Right", 0),
        Key::Up => ("Up", 0),
        Key::Down => ("Down", 0),
        Key::Home => ("Home", 0),
        Key::End => ("End", 0),
        Key::Backspace => ("Backspace", 0),
        Key::Delete => ("Delete", 0),
        Key::Esc => ("Esc", 0),
        Key::PageUp => ("PageUp", 0),
        Key::PageDown => ("PageDown", 0),
        Key::Insert => ("Insert", 0),
        Key::BackTab => ("BackTab", 0),
        Key::F(n) => ("F", n as i64),
        _ => ("Null", 0),
    };
    V::obj().with("k", V::S(n.into())).with("c", V::N(c))
}

pub fn opt(n: Option<usize>) -> V {
    V::N(n.map_or(-1, |n| n as i64))
}

pub struct Handler {
    cand: Vec<String>,
    basic: BasicCompleter,
    all: bool,
    hook: V,
    pub log: Vec<V>,
    pub args: Vec<String>,
}
impl Handler {
    pub fn new(cfg: &V) -> Handler {
        Handler {
            cand: cfg.get("cand").texts(),
            basic: BasicCompleter::new(cfg.get("cand").texts()),
            all: cfg.get("call").b(),
            hook: cfg.get("hook").clone(),
            log: vec![],
            args: vec![],
        }
    }
}
impl Completer for Handler {
    fn completions(&mut self, start: &str) -> Vec<String> {
        self.args.push(start.to_string());
        if self.all {
            self.cand.clone()
        } else {
            self.basic.completions(start)
        }
    }
    fn on_event<C: EditorContext>(&mut self, event: Event<C>) {
        let (x, key) = match event.kind {
            EventKind::BeforeKey(k) => ("B", Some(k)),
            EventKind::AfterKey(k) => ("A", Some(k)),
            EventKind::BeforeComplete => ("C", None),
        };
        let ed = event.editor;
        let kv = key.map_or(V::obj().with("k", V::S("-".into())).with("c", V::N(0)), key_to);
        self.log.push(
            V::obj()
                .with("x", V::S(x.into()))
                .with("k", kv.clone())
                .with("t", text(&ed.current_buffer().to_string()))
                .with("c", num(ed.cursor()))
                .with("h", opt(ed.current_history_location())),
        );
        let h = &self.hook;
        if h.get("on").s() == x && (x == "C" || h.get("k") == &kv) {
            let _ = api(ed, h.get("op").s(), h.get("n").n() as usize, &h.get("t").text(), h);
        }
    }
}

/// Operations of the editor's own interface.
fn api<C: EditorContext>(ed: &mut Editor<C>, op: &str, n: usize, t: &str, cfg: &V) -> io::Result<bool> {
    match op {
        "undo" => return ed.undo(),
        "redo" => return ed.redo(),
        "revert" => return ed.revert(),
        _ => {}
    }
    match op {
        "ins" => ed.insert_str_after_cursor(t),
        "left" => ed.move_cursor_left(n),
        "right" => ed.move_cursor_right(n),
        "start" => ed.move_cursor_to_start_of_line(),
        "end" => ed.move_cursor_to_end_of_line(),
        "to" => ed.move_cursor_to(n),
        "db" => ed.delete_before_cursor(),
        "da" => ed.delete_after_cursor(),
        "dab" => ed.delete_all_before_cursor(),
        "daa" => ed.delete_all_after_cursor(),
        "du" => ed.delete_until(n),
        "dui" => ed.delete_until_inclusive(n),
        "dw" => ed.delete_word_before_cursor(n == 1),
        "up" => ed.move_up(),
        "down" => ed.move_down(),
        "oldest" => ed.move_to_start_of_history(),
        "newest" => ed.move_to_end_of_history(),
        "search" => ed.search(n == 1),
        "clear" => ed.clear(),
        "accept" => ed.accept_autosuggestion(),
        "skip" => {
            ed.skip_completions_hint();
            Ok(())
        }
        "display" => ed.display(),
        "take" => {
            ed.take_exec_buffer();
            Ok(())
        }
        "prompt" => {
            let mut p = prompt(cfg, t, false);
            if let (Some(s), 1) = (&mut p.vi_status, n) {
                // the mode shown is the editor's business
                s.mode = ViPromptMode::Normal;
            }
            ed.set_prompt(p);
            Ok(())
        }
        // the line itself, behind the editor's back
        "trunc" => {
            let n = n.min(ed.current_buffer().num_chars());
            ed.current_buffer_mut().truncate(n);
            ed.display()
        }
        "bins" => {
            ed.current_buffer_mut().insert(0, &t.chars().collect::<Vec<_>>());
            ed.display()
        }
        "revall" => {
            ed.context_mut().revert_all_history();
            Ok(())
        }
        "hpush" => ed.context_mut().history_mut().push(t.into()),
        "vimode" => {
            ed.set_vi_mode(if n == 0 { ViPromptMode::Normal } else { ViPromptMode::Insert });
            ed.display()
        }
        "noeol" => {
            ed.no_eol = n == 1;
            ed.display()
        }
        _ => Ok(()),
    }
    .map(|_| true)
}

/// Escape codes that show nothing: before, within and after the last line of a prompt.
const HIDDEN: [[&str; 3]; 4] = [
    ["", "", ""],
    // a title for the window, ended by a bell
    ["\x1b]0;me@host: ~/a;b m\x07", "\x1b[38;5;2m\x1b[?25h", "\x1b[?25h"],
    // a link, ended by a string terminator
    ["\x1b]8;;http://x.y/m?n=1\x1b\\", "\x1b[01;32m", "\x1b]8;;\x1b\\"],
    // what terminfo says for normal text; modes
    ["\x1b(B\x1b[m\x1b[?2004h", "\x1b[;1;32m", "\x1b(B\x1b[m"],
];

/// The prompt of a configuration, with `line` as its last line; the whole of it or just that line.
pub fn prompt(cfg: &V, line: &str, whole: bool) -> Prompt {
    let codes = cfg.get("codes").b();
    let seq = cfg.get("seq").n() as usize;
    let mut p = String::new();
    for l in cfg.get("pre").texts().iter().filter(|_| whole) {
        p.push_str(l);
        p.push('\n');
    }
    if codes {
        // colours around and inside the last line
        p.push_str(HIDDEN[seq][0]);
        p.push_str("\x1b[1;31m");
        if seq == 1 && cfg.get("pm").s() == "-" {
            p.push_str("\x1b[K");
        }
        for c in line.chars() {
            p.push(c);
            p.push_str("\x1b[32m");
            p.push_str(HIDDEN[seq][1]);
        }
        p.push_str(HIDDEN[seq][2]);
        p.push_str("\x1b[0m");
    } else {
        p.push_str(line);
    }
    let mk = |s: String| if codes { format!("{}\x1b[35m{}{}\x1b[0m", HIDDEN[seq][0], s, HIDDEN[seq][2]) } else { s };
    Prompt {
        prompt: p,
        vi_status: if cfg.get("pm").s() == "-" {
            None
        } else {
            Some(ViStatus::new(ViPromptMode::Insert, mk(cfg.get("pn").text()), mk(cfg.get("pi").text())))
        },
    }
}

type Ctx = Context<FakeTty>;

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let base = std::env::var("VP_SCRATCH").unwrap_or_else(|_| "/tmp".into());
        let p = PathBuf::from(base).join(format!("liner-conform-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Read a file as a text, one code point per byte pair handled by UTF-8.
pub fn file_text(p: &std::path::Path) -> V {
    match std::fs::read(p) {
        Ok(b) => V::A(vec![bytes(&b)]),
        Err(_) => V::A(vec![]),
    }
}

/// Word dividers of an application's own: fields between commas, and tokens, which may touch.
fn divide(kind: i64, buf: &Buffer) -> Vec<(usize, usize)> {
    let class = |c: char| match kind {
        1 => (c != ',') as u8,
        _ if c == ' ' => 0,
        _ => 1 + !c.is_ascii_alphanumeric() as u8,
    };
    let (mut words, mut last): (Vec<(usize, usize)>, u8) = (vec![], 0);
    for (i, c) in buf.to_string().chars().enumerate() {
        let k = class(c);
        if k != 0 && k == last {
            words.last_mut().unwrap().1 = i + 1;
        } else if k != 0 {
            words.push((i, i + 1));
        }
        last = k;
    }
    words
}

fn context(cfg: &V, tty: &FakeTty, dir: &Option<Scratch>) -> Ctx {
    let mut ctx = Context::with_terminal(tty.clone());
    setup(&mut ctx, cfg, dir);
    ctx
}
pub fn setup<T>(ctx: &mut Context<T>, cfg: &V, dir: &Option<Scratch>) {
    ctx.key_bindings = if cfg.get("vi").b() { KeyBindings::Vi } else { KeyBindings::Emacs };
    if cfg.get("wd").n() > 0 {
        let kind = cfg.get("wd").n();
        ctx.word_divider_fn = Box::new(move |b: &Buffer| divide(kind, b));
    }
    let h = &mut ctx.history;
    // what is as a new history has it is left alone
    if cfg.get("dup").b() {
        h.append_duplicate_entries = true;
    }
    if cfg.get("inc").b() {
        h.inc_append = true;
    }
    if cfg.get("share").b() {
        h.share = true;
    }
    if !cfg.get("ldup").b() {
        h.load_duplicates = false;
    }
    if cfg.get("maxb").n() > 0 {
        h.set_max_buffers_size(cfg.get("maxb").n() as usize);
    }
    if cfg.get("maxf").n() > 0 {
        h.set_max_file_size(cfg.get("maxf").n() as usize);
    }
    for e in cfg.get("hist").texts() {
        h.buffers.push_back(Buffer::from(e));
    }
    if let Some(d) = dir {
        let p = d.0.join("hist");
        if let Some(c) = cfg.get("f").a().first() {
            std::fs::write(&p, c.bytes()).unwrap();
        }
        h.set_file_name_and_load_history(&p).unwrap();
    }
}

fn history_texts<C: EditorContext>(c: &C) -> V {
    V::A(c.history().buffers.iter().map(|b| text(&b.to_string())).collect())
}

enum Km {
    V(Vi),
    E(Emacs),
}

thread_local! {
    pub static PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i);
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

/// An observation without any detail, for an event that did not return.
pub fn dead(r: i64, note: String) -> V {
    obs_with(r, note, V::A(vec![]), 0, -1, false, false)
}
pub fn obs_with(r: i64, note: String, t: V, c: i64, h: i64, s: bool, n: bool) -> V {
    V::obj()
        .with("r", V::N(r))
        .with("note", V::S(note))
        .with("t", t)
        .with("c", V::N(c))
        .with("h", V::N(h))
        .with("s", V::B(s))
        .with("n", V::B(n))
        .with("lg", V::A(vec![]))
        .with("ar", V::A(vec![]))
        .with("hs", V::A(vec![]))
        .with("fl", V::A(vec![]))
        .with("cl", V::A(vec![]))
        .with("ok", V::B(true))
        .with("q", V::obj().with("w", V::A(vec![])).with("p", place(CursorPosition::InSpace(None, None))).with("e", V::B(true)))
        .with("scr", no_screen())
}
fn no_screen() -> V {
    let e = || V::A(vec![]);
    V::obj().with("g", e()).with("a", e()).with("y", V::N(0)).with("x", V::N(0)).with("u", V::N(0))
}

pub fn code(e: &io::Error) -> i64 {
    match e.kind() {
        io::ErrorKind::Interrupted => 2,
        io::ErrorKind::UnexpectedEof => 3,
        _ => 4,
    }
}

pub fn colour(cfg: &V, seen: &Arc<Mutex<Vec<String>>>) -> Option<ColorClosure> {
    if !cfg.get("clo").b() {
        return None;
    }
    let seen = seen.clone();
    let seq = cfg.get("seq").n() as usize;
    Some(Box::new(move |s: &str| {
        seen.lock().unwrap().push(s.to_string());
        format!("{}\x1b[1m{}\x1b[22m{}", HIDDEN[seq][0].replace("\x1b[m", ""), s, HIDDEN[seq][2].replace("\x1b[m", ""))
    }))
}

/// Runs a session; `note` is told the number of finished events.
pub fn run_editor(desc: &V, out: &mut dyn FnMut(V)) {
    let cfg = desc.get("cfg");
    let want = cfg.get("want");
    let tty = FakeTty::new(cfg.get("w").n() as usize);
    {
        let mut s = tty.0.borrow_mut();
        s.short = cfg.get("short").n() as usize;
        for r in cfg.get("rows").texts() {
            s.screen.feed(format!("{}\r\n", r).as_bytes());
        }
        for _ in 0..cfg.get("x0").n() {
            s.screen.feed(b"#");
        }
    }
    let dir = if cfg.get("fn").b() { Some(Scratch::new()) } else { None };
    let hist_path = dir.as_ref().map(|d| d.0.join("hist"));
    let mut ctx = context(cfg, &tty, &dir);
    let seen = Arc::new(Mutex::new(vec![]));
    let mut handler = Handler::new(cfg);
    PANIC.with(|p| p.borrow_mut().clear());

    let (lent, seen_ref) = (&mut ctx, &seen);
    let started = catch_unwind(AssertUnwindSafe(move || {
        let mut ed = Editor::new_with_init_buffer(
            prompt(cfg, &cfg.get("pr").text(), true),
            colour(cfg, seen_ref),
            lent,
            cfg.get("init").text(),
        )?;
        let mut km = if cfg.get("vi").b() { Km::V(Vi::new()) } else { Km::E(Emacs::new()) };
        match &mut km {
            Km::V(k) => k.init(&mut ed)?,
            Km::E(k) => k.init(&mut ed)?,
        }
        Ok::<_, io::Error>((ed, km))
    }));
    let (mut ed, mut km) = match started {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return out(dead(code(&e), format!("{}", e))),
        Err(_) => return out(dead(9, PANIC.with(|p| p.borrow().clone()))),
    };

    let observe = |ed: &Editor<&mut Ctx>, handler: &mut Handler, r: i64, note: String| -> V {
        let mut o = obs_with(
            r,
            note,
            text(&ed.current_buffer().to_string()),
            ed.cursor() as i64,
            ed.current_history_location().map_or(-1, |n| n as i64),
            ed.is_currently_showing_autosuggestion(),
            ed.no_eol,
        );
        if want.get("lg").b() {
            o.set("lg", V::A(std::mem::take(&mut handler.log)));
        }
        handler.log.clear();
        if want.get("ar").b() {
            o.set("ar", texts(&handler.args));
        }
        handler.args.clear();
        if want.get("hs").b() {
            o.set("hs", history_texts(ed.context()));
            if let Some(p) = &hist_path {
                o.set("fl", file_text(p));
            }
        }
        if want.get("q").b() {
            let (ws, at) = ed.get_words_and_cursor_position();
            o.set("q", V::obj().with("w", pairs(ws)).with("p", place(at)).with("e", V::B(ed.cursor_is_at_end_of_line())));
        }
        if want.get("scr").b() {
            o.set("scr", tty.0.borrow().screen.shot());
        }
        let mut calls = seen.lock().unwrap();
        if want.get("cl").b() {
            o.set("cl", texts(&calls));
        }
        calls.clear();
        o
    };

    match catch_unwind(AssertUnwindSafe(|| observe(&ed, &mut handler, 0, String::new()))) {
        Ok(o) => out(o),
        Err(_) => return out(dead(9, PANIC.with(|p| p.borrow().clone()))),
    }
    for ev in desc.get("ev").a() {
        let op = ev.get("op").s();
        let mut ok = true;
        let res = catch_unwind(AssertUnwindSafe(|| -> io::Result<i64> {
            Ok(match op {
                "key" => {
                    let k = key_from(ev.get("k"));
                    let done = match &mut km {
                        Km::V(m) => m.handle_key(k, &mut ed, &mut handler)?,
                        Km::E(m) => m.handle_key(k, &mut ed, &mut handler)?,
                    };
                    done as i64
                }
                "core" => {
                    let k = key_from(ev.get("k"));
                    match &mut km {
                        Km::V(m) => m.handle_key_core(k, &mut ed)?,
                        Km::E(m) => m.handle_key_core(k, &mut ed)?,
                    }
                    0
                }
                "complete" => {
                    ed.complete(&mut handler)?;
                    0
                }
                "width" => {
                    tty.0.borrow_mut().report = ev.get("n").n() as usize;
                    0
                }
                "newline" => ed.handle_newline()? as i64,
                "peerw" => {
                    // another session compacts the file, or a user edits it
                    if let Some(p) = &hist_path {
                        std::fs::write(p, ev.get("t").bytes()).unwrap();
                    }
                    0
                }
                "peer" => {
                    use std::io::Write;
                    if let Some(p) = &hist_path {
                        let mut f = std::fs::OpenOptions::new().append(true).open(p).unwrap();
                        f.write_all(format!("{}\n", ev.get("t").text()).as_bytes()).unwrap();
                    }
                    0
                }
                _ => {
                    ok = api(&mut ed, op, ev.get("n").n() as usize, &ev.get("t").text(), cfg)?;
                    0
                }
            })
        }));
        let o = match res {
            Ok(r) => {
                let (r, note) = match r {
                    Ok(r) => (r, String::new()),
                    Err(e) => (code(&e), format!("{}", e)),
                };
                // only a key that is done is sure to be flushed
                if op != "key" || r > 1 {
                    tty.0.borrow_mut().settle();
                }
                catch_unwind(AssertUnwindSafe(|| observe(&ed, &mut handler, r, note)))
            }
            Err(e) => Err(e),
        };
        match o {
            Ok(mut o) => {
                let r = o.get("r").n();
                o.set("ok", V::B(ok));
                out(o);
                if r != 0 {
                    // the line the editor yields is the line shown
                    break;
                }
            }
            Err(_) => {
                out(dead(9, PANIC.with(|p| p.borrow().clone())));
                // the editor may be in any state: leave it alone
                std::mem::forget(ed);
                return;
            }
        }
    }
}

/// Reads lines through the library's own loop, one after another.
pub fn run_reader(desc: &V, out: &mut dyn FnMut(V)) {
    let cfg = desc.get("cfg");
    let dir = if cfg.get("fn").b() { Some(Scratch::new()) } else { None };
    let hist_path = dir.as_ref().map(|d| d.0.join("hist"));
    let tty = FakeTty::new(cfg.get("w").n() as usize);
    tty.0.borrow_mut().short = cfg.get("short").n() as usize;
    let mut ctx = context(cfg, &tty, &dir);
    for ev in desc.get("ev").a() {
        {
            let mut s = tty.0.borrow_mut();
            s.keys = ev.get("keys").a().iter().map(key_from).collect();
            s.reads = 0;
            s.ops = 0;
            s.fail_at = ev.get("fail").n() as usize;
            s.sticky = ev.get("sticky").b();
            s.how = ev.get("how").n() as usize;
            s.hit.clear();
            s.after_hit.clear();
            s.asked = 0;
        }
        let mut handler = Handler::new(cfg);
        let seen = Arc::new(Mutex::new(vec![]));
        PANIC.with(|p| p.borrow_mut().clear());
        let res = catch_unwind(AssertUnwindSafe(|| {
            let c = &mut ctx;
            if ev.get("init").a().is_empty() && !ev.get("viainit").b() {
                // the plain entry point
                EditorContext::read_line(c, prompt(cfg, &cfg.get("pr").text(), true), colour(cfg, &seen), &mut handler)
            } else {
                c.read_line_with_init_buffer(
                    prompt(cfg, &cfg.get("pr").text(), true),
                    &mut handler,
                    colour(cfg, &seen),
                    ev.get("init").text(),
                )
            }
        }));
        let s = tty.0.borrow();
        let (r, t, note) = match res {
            Ok(Ok(line)) => (1, line, String::new()),
            Ok(Err(e)) => {
                let m = format!("{}", e);
                let exact = m == INJECTED && (e.kind() == s.failing(&s.hit) || s.sticky && e.kind() == s.failing("w"));
                (if exact { 5 } else { code(&e) }, String::new(), format!("{:?}: {}", e.kind(), m))
            }
            Err(_) => (9, String::new(), PANIC.with(|p| p.borrow().clone())),
        };
        let o = V::obj()
            .with("r", V::N(r))
            .with("t", text(&t))
            .with("note", V::S(note))
            .with("used", num(s.reads))
            .with("hit", V::S(s.hit.clone()))
            .with("late", num(s.after_hit.chars().filter(|c| *c == 'k').count()))
            .with("ops", num(s.ops))
            .with("first", V::B(s.hit == "d" && s.asked == 1))
            .with("lg", if cfg.get("want").get("lg").b() { V::A(handler.log.clone()) } else { V::A(vec![]) });
        drop(s);
        let mut o = o;
        if ev.get("push").b() && r == 1 {
            // what an application does with the line
            let _ = ctx.history.push(Buffer::from(t));
        }
        o.set("hs", history_texts(&ctx));
        o.set("fl", hist_path.as_ref().map_or(V::A(vec![]), |p| file_text(p)));
        out(o);
        if r == 9 {
            break;
        }
    }
}

#[allow(dead_code)]
pub type Shared<T> = Rc<RefCell<T>>;
