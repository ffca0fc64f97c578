//! Sessions on a real terminal: a child process reads a line from its
//! standard input, a pseudo-terminal, with the library's own terminal.
//!
//! The child tells what it sees in marks it writes among the output, so what
//! a key has shown is what comes before the next mark:
//!   S      the terminal is set up
//!   B obs  a key was read, nothing done yet
//!   A obs  it has been handled
//!   R obs  the read returned
use crate::json::*;
use crate::sess::*;
use crate::tty::Screen;
use liner::*;
use std::fs::{File, OpenOptions};
use std::io::{Read, Write};
use std::mem::ManuallyDrop;
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::fs::OpenOptionsExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
extern "C" {
    fn posix_openpt(flags: i32) -> i32;
    fn grantpt(fd: i32) -> i32;
    fn unlockpt(fd: i32) -> i32;
    fn ptsname_r(fd: i32, buf: *mut u8, len: usize) -> i32;
    fn ioctl(fd: i32, req: u64, ...) -> i32;
    fn poll(fds: *mut PollFd, n: u64, ms: i32) -> i32;
}
const FLAGS: i32 = 0o2 | 0o400 | 0o2000000; // read and write, no controlling terminal, not inherited
const WINSIZE: u64 = 0x5414;

/// Both ends of a pseudo-terminal `cols` wide.
fn pair(cols: usize) -> Option<(File, File)> {
    unsafe {
        let m = posix_openpt(FLAGS);
        if m < 0 {
            return None;
        }
        let master = File::from_raw_fd(m);
        let mut name = [0u8; 128];
        if grantpt(m) != 0 || unlockpt(m) != 0 || ptsname_r(m, name.as_mut_ptr(), name.len()) != 0 {
            return None;
        }
        let path = std::ffi::CStr::from_bytes_until_nul(&name).ok()?.to_str().ok()?;
        let slave = OpenOptions::new().read(true).write(true).custom_flags(0o400).open(path).ok()?;
        let size: [u16; 4] = [24, cols as u16, 0, 0];
        if ioctl(m, WINSIZE, size.as_ptr()) != 0 {
            return None;
        }
        Some((master, slave))
    }
}

/// What a terminal sends for a key.
fn sent(k: &V) -> Vec<u8> {
    let c = char::from_u32(k.get("c").n() as u32).unwrap_or('?');
    let s = match k.get("k").s() {
        "Char" if c == '\n' => "\r".into(),
        "Char" => c.to_string(),
        "Ctrl" => ((c as u8 & 31) as char).to_string(),
        "Alt" => format!("\x1b{}", c),
        "Esc" => "\x1b".into(),
        "Backspace" => "\x7f".into(),
        "Up" => "\x1b[A".into(),
        "Down" => "\x1b[B".into(),
        "Right" => "\x1b[C".into(),
        "Left" => "\x1b[D".into(),
        "Home" => "\x1b[H".into(),
        "End" => "\x1b[F".into(),
        "Insert" => "\x1b[2~".into(),
        "Delete" => "\x1b[3~".into(),
        "PageUp" => "\x1b[5~".into(),
        "PageDown" => "\x1b[6~".into(),
        "BackTab" => "\x1b[Z".into(),
        "F" => format!("\x1bO{}", b"PQRS"[(c as usize + 3) % 4] as char),
        _ => "\0".into(),
    };
    s.into_bytes()
}

struct Line {
    master: File,
    child: Child,
    got: Vec<u8>,
    screen: Screen,
    _slave: File, // what the child wrote can be read after its end
}
impl Drop for Line {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
const BEGIN: &[u8] = b"\x1b_VP";
const END: &[u8] = b"\x1b\\";

fn find(b: &[u8], what: &[u8]) -> Option<usize> {
    b.windows(what.len()).position(|w| w == what)
}

impl Line {
    /// The next mark; what comes before it is shown.
    fn mark(&mut self) -> Result<(char, V), V> {
        loop {
            if let Some(at) = find(&self.got, BEGIN) {
                if let Some(n) = find(&self.got[at..], END) {
                    let mark = String::from_utf8_lossy(&self.got[at + BEGIN.len()..at + n]).into_owned();
                    self.screen.feed(&self.got[..at]);
                    self.got.drain(..at + n + END.len());
                    return Ok((mark.chars().next().unwrap_or('?'), parse(&mark[1..])));
                }
            }
            let mut p = PollFd { fd: self.master.as_raw_fd(), events: 1, revents: 0 };
            let since = Instant::now();
            loop {
                let ended = !matches!(self.child.try_wait(), Ok(None));
                if unsafe { poll(&mut p, 1, if ended { 300 } else { 50 }) } > 0 {
                    break;
                }
                if ended {
                    return Err(dead(9, "the process ended".into()));
                }
                if since.elapsed().as_secs() >= 12 {
                    return Err(dead(8, "no answer".into()));
                }
            }
            let mut buf = [0; 4096];
            match self.master.read(&mut buf) {
                Ok(n) if n > 0 => self.got.extend_from_slice(&buf[..n]),
                _ => return Err(dead(9, "the process ended".into())),
            }
        }
    }
    fn expect(&mut self, kinds: &str) -> Result<(char, V), V> {
        let (k, o) = self.mark()?;
        if kinds.contains(k) {
            Ok((k, o))
        } else {
            Err(dead(9, format!("out of order: {} for {}", k, kinds)))
        }
    }
    fn send(&mut self, k: &V) {
        let _ = self.master.write_all(&sent(k));
    }
    fn seen(&self, mut o: V) -> V {
        o.set("scr", self.screen.shot());
        o
    }
}

/// Returns false if there are no pseudo-terminals here.
pub fn run(desc: &V, out: &mut dyn FnMut(V)) -> bool {
    let cfg = desc.get("cfg");
    let Some((master, slave)) = pair(desc.get("pw").n() as usize) else { return false };
    let dir = Scratch::new();
    let file = dir.0.join("session");
    std::fs::write(&file, desc.to_json()).unwrap();
    let child = Command::new(std::env::current_exe().unwrap())
        .arg("pty-child")
        .arg(&file)
        .stdin(Stdio::from(slave.try_clone().unwrap()))
        .stdout(Stdio::from(slave.try_clone().unwrap()))
        .stderr(Stdio::null())
        .spawn()
        .expect("child");
    let mut screen = Screen::new(cfg.get("w").n() as usize);
    for r in cfg.get("rows").texts() {
        screen.feed(format!("{}\r\n", r).as_bytes());
    }
    for _ in 0..cfg.get("x0").n() {
        screen.feed(b"#");
    }
    let mut line = Line { master, child, got: vec![], screen, _slave: slave };
    if let Err(o) = session(desc, &mut line, out) {
        out(o);
    }
    true
}

fn session(desc: &V, line: &mut Line, out: &mut dyn FnMut(V)) -> Result<(), V> {
    line.expect("S")?;
    // one more key makes sure that the last one has been dealt with
    let last = V::obj().with("k", V::S("Ctrl".into())).with("c", V::N('c' as i64));
    let mut after: Option<V> = None;
    for k in desc.get("ev").a().iter().map(|e| e.get("k")).chain(std::iter::once(&last)) {
        line.send(k);
        let (m, o) = line.expect("BR")?;
        if m == 'R' {
            // the key before ended the read
            let Some(a) = after else { return Err(line.seen(o)) };
            out(line.seen(a.with("r", o.get("r").clone()).with("t", o.get("t").clone())));
            return Ok(());
        }
        out(line.seen(o.clone()));
        let (m, o2) = line.expect("AR")?;
        if m == 'R' {
            // an error: the line is as it was
            out(line.seen(o.with("r", o2.get("r").clone()).with("note", o2.get("note").clone())));
            return Ok(());
        }
        after = Some(o2);
    }
    Ok(())
}

// --- the child ---------------------------------------------------------------
fn tell(kind: char, o: &V) {
    let mut m = BEGIN.to_vec();
    m.extend(format!("{}{}", kind, o.to_json()).replace('\x1b', "?").bytes());
    m.extend(END);
    // past whatever the library's own output keeps back
    let mut out = ManuallyDrop::new(unsafe { File::from_raw_fd(1) });
    if out.write_all(&m).is_err() {
        std::process::exit(1);
    }
}

struct Probe(Handler);
impl Completer for Probe {
    fn completions(&mut self, start: &str) -> Vec<String> {
        self.0.completions(start)
    }
    fn on_event<C: EditorContext>(&mut self, event: Event<C>) {
        let kind = match event.kind {
            EventKind::BeforeKey(_) => 'B',
            EventKind::AfterKey(_) => 'A',
            EventKind::BeforeComplete => return,
        };
        let ed = event.editor;
        tell(
            kind,
            &obs_with(
                0,
                String::new(),
                text(&ed.current_buffer().to_string()),
                ed.cursor() as i64,
                opt(ed.current_history_location()).n(),
                ed.is_currently_showing_autosuggestion(),
                ed.no_eol,
            ),
        );
    }
}

pub fn child(file: &str) {
    let desc = parse(&std::fs::read_to_string(file).expect("session"));
    let cfg = desc.get("cfg");
    let mut ctx = match Context::new() {
        Ok(c) => c,
        Err(_) => return,
    };
    let dir = if cfg.get("fn").b() { Some(Scratch::new()) } else { None };
    setup(&mut ctx, cfg, &dir);
    tell('S', &V::N(0));
    let mut handler = Probe(Handler::new(cfg));
    let lent = &mut ctx;
    let res = catch_unwind(AssertUnwindSafe(|| {
        lent.read_line_with_init_buffer(
            prompt(cfg, &cfg.get("pr").text(), true),
            &mut handler,
            colour(cfg, &Arc::new(Mutex::new(vec![]))),
            cfg.get("init").text(),
        )
    }));
    let (r, t, note) = match res {
        Ok(Ok(t)) => (1, t, String::new()),
        Ok(Err(e)) => (code(&e), String::new(), format!("{}", e)),
        Err(_) => (9, String::new(), PANIC.with(|p| p.borrow().clone())),
    };
    tell('R', &obs_with(r, note, text(&t), 0, -1, false, false));
    // a key that comes when the terminal is no longer raw may clear what was
    // written: the other side ends this
    std::thread::sleep(std::time::Duration::from_secs(10));
}
