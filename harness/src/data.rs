//! Drivers for the parts that need no terminal: the text buffer, the
//! history and its file, word division, file name completion.
use crate::json::*;
use crate::sess::{dead, file_text, Scratch, PANIC};
use liner::*;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

fn guarded(f: impl FnOnce() -> V) -> Option<V> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
fn panicked() -> V {
    dead(9, PANIC.with(|p| p.borrow().clone()))
}

fn ints<I: IntoIterator<Item = usize>>(i: I) -> V {
    V::A(i.into_iter().map(num).collect())
}
fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}
fn opt_char(c: Option<char>) -> V {
    V::N(c.map_or(-1, |c| c as i64))
}

pub fn run_buffer(desc: &V, out: &mut dyn FnMut(V)) {
    let mut b = Buffer::from(desc.get("cfg").get("init").text());
    for ev in desc.get("ev").a() {
        let (n, m) = (ev.get("n").n() as usize, ev.get("m").n() as usize);
        let t = ev.get("t").text();
        let r = guarded(|| {
            let ret = match ev.get("op").s() {
                "ins" => {
                    b.insert(n, &chars(&t));
                    0
                }
                "rem" => b.remove(n, m) as i64,
                "trunc" => {
                    b.truncate(n);
                    0
                }
                "copy" => {
                    b.copy_buffer(&Buffer::from(t.as_str()));
                    0
                }
                "app" => {
                    b.insert_from_buffer(&Buffer::from(t.as_str()));
                    0
                }
                "sg" => {
                    b.start_undo_group();
                    0
                }
                "eg" => {
                    b.end_undo_group();
                    0
                }
                "undo" => b.undo() as i64,
                "redo" => b.redo() as i64,
                "revert" => b.revert() as i64,
                "clear" => {
                    b.clear_actions();
                    0
                }
                "from" => {
                    b = match n {
                        0 => Buffer::from(t.as_str()),
                        1 => Buffer::from(t.clone()),
                        2 => t.chars().collect(),
                        3 => Buffer::default(),
                        _ => Buffer::new(),
                    };
                    0
                }
                "clone" => {
                    b = b.clone();
                    0
                }
                _ => 0,
            };
            let mut o = V::obj().with("r", V::N(0)).with("ret", V::N(ret)).with("t", text(&b.to_string()));
            if ev.get("q").b() {
                let (x, y) = (ev.get("x").n() as usize, ev.get("y").n() as usize);
                let other = Buffer::from(ev.get("u").text());
                let (mut p, mut rest) = (vec![], vec![]);
                b.print(&mut p).unwrap();
                let rn = b.print_rest(&mut rest, x).unwrap();
                let last: Option<String> = b.last_arg().map(|a| a.iter().collect());
                o.set("len", num(b.num_chars()));
                o.set("nb", num(b.num_bytes()));
                o.set("em", V::B(b.is_empty()));
                o.set("cb", opt_char(b.char_before(x)));
                o.set("ca", opt_char(b.char_after(x)));
                o.set("rg", text(&b.range(x, y)));
                o.set("rc", text(&b.range_chars(x, y).into_iter().collect::<String>()));
                o.set("rw", ints(b.range_width(x, y)));
                o.set("wd", ints(b.width()));
                o.set("ln", texts(&b.lines()));
                o.set("ch", text(&b.chars().collect::<String>()));
                o.set("la", V::A(last.iter().map(|l| text(l)).collect()));
                o.set("pr", text(&String::from_utf8_lossy(&p)));
                o.set("by", text(&String::from_utf8_lossy(&b.as_bytes())));
                o.set("rs", text(&String::from_utf8_lossy(&rest)));
                o.set("rn", num(rn));
                o.set("sw", V::B(b.starts_with(&other)));
                o.set("ct", V::B(b.contains(&other)));
                o.set("eq", V::B(b == other));
                o.set("hq", V::B(b == other && digest(&b) == digest(&other)));
                o.set("st", text(&String::from(b.clone())));
            }
            o
        });
        match r {
            Some(o) => out(o),
            None => return out(panicked()),
        }
    }
}

fn digest(b: &Buffer) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    std::hash::Hash::hash(b, &mut h);
    std::hash::Hasher::finish(&h)
}

/// Several sessions may work on the one file.
pub fn histories(cfg: &V) -> Vec<History> {
    (0..cfg.get("peers").n().max(1))
        .map(|_| {
            let mut h = History::new();
            if cfg.get("asis").b() {
                return h;
            }
            // what is as a new history has it is left alone
            if cfg.get("dup").b() {
                h.append_duplicate_entries = true;
            }
            if cfg.get("inc").b() {
                h.inc_append = true;
            }
            if cfg.get("share").b() {
                h.share = true;
            }
            if !cfg.get("ldup").b() {
                h.load_duplicates = false;
            }
            if cfg.get("maxb").n() != 1000 {
                h.set_max_buffers_size(cfg.get("maxb").n() as usize);
            }
            if cfg.get("maxf").n() != 1000 {
                h.set_max_file_size(cfg.get("maxf").n() as usize);
            }
            h
        })
        .collect()
}

/// One operation of a session, or of another program on the file: whether it
/// went well, and the number it gave.
pub fn apply(hs: &mut [History], ev: &V, path: &Path, other: &Path) -> (bool, i64) {
    let n = ev.get("n").n();
    let t = ev.get("t").text();
    let h = &mut hs[ev.get("p").n() as usize];
    let bytes = |r: std::io::Result<u64>| match r {
        Ok(n) => (true, n as i64),
        Err(_) => (false, 0),
    };
    match ev.get("op").s() {
        "push" => (h.push(Buffer::from(t.as_str())).is_ok(), 0),
        // many entries, numbered
        "fill" => ((0..n).all(|i| h.push(Buffer::from(format!("{}{:04}", t, i))).is_ok()), 0),
        "setfile" => bytes(h.set_file_name_and_load_history(path)),
        "load" => bytes(h.load_history(n == 1)),
        "loadfile" => bytes(h.load_history_file(path, n == 1)),
        "commit" => {
            h.commit_to_file();
            (true, 0)
        }
        "commitpath" => (h.commit_to_file_path(path).is_ok(), 0),
        "commitother" => (h.commit_to_file_path(other).is_ok(), 0),
        "loadother" => bytes(h.load_history_file(other, n == 1)),
        "maxb" => {
            h.set_max_buffers_size(n as usize);
            (true, 0)
        }
        "maxf" => {
            h.set_max_file_size(n as usize);
            (true, 0)
        }
        "rmdup" => {
            h.remove_duplicates(&t);
            (true, 0)
        }
        "clear" => {
            h.clear_history();
            (true, 0)
        }
        "dup" => {
            h.append_duplicate_entries = n == 1;
            (true, 0)
        }
        "inc" => {
            h.inc_append = n == 1;
            (true, 0)
        }
        "ldup" => {
            h.load_duplicates = n == 1;
            (true, 0)
        }
        // what other programs do to the file
        "write" => (std::fs::write(path, ev.get("t").bytes()).is_ok(), 0),
        "append" => {
            let f = std::fs::OpenOptions::new().append(true).open(path);
            (f.map(|mut f| f.write_all(&ev.get("t").bytes())).is_ok(), 0)
        }
        "unlink" => (std::fs::remove_file(path).is_ok(), 0),
        _ => (true, 0),
    }
}

pub fn run_history(desc: &V, out: &mut dyn FnMut(V)) {
    let cfg = desc.get("cfg");
    let dir = Scratch::new();
    let path = dir.0.join("hist");
    let other = dir.0.join("other");
    let mut hs = histories(cfg);
    for ev in desc.get("ev").a() {
        let who = ev.get("p").n() as usize;
        let r = guarded(|| {
            let (ok, num_) = apply(&mut hs, ev, &path, &other);
            let h = &mut hs[who];
            let u = Buffer::from(ev.get("u").text());
            let at = match ev.get("x").n() {
                -1 => None,
                k => Some((k as usize).min(h.len())),
            };
            V::obj()
                .with("r", V::N(0))
                .with("ok", V::B(ok))
                .with("n", V::N(num_))
                .with("b", V::A(h.buffers.iter().map(|b| text(&b.to_string())).collect()))
                .with("it", V::A(h.into_iter().map(|b| text(&b.to_string())).collect()))
                .with("ix", V::A((0..h.len()).map(|i| text(&h[i].to_string())).collect()))
                .with("len", num(h.len()))
                .with("em", V::B(h.is_empty()))
                .with("fn", V::B(h.file_name().is_some()))
                .with("f", file_text(&path))
                .with("g", file_text(&other))
                .with("nm", V::N(h.get_newest_match(at, &u).map_or(-1, |n| n as i64)))
                .with("sub", ints(h.get_history_subset(&u)))
                .with("si", ints(h.search_index(&u)))
        });
        match r {
            Some(o) => out(o),
            None => return out(panicked()),
        }
    }
}

/// A cursor's place among words.
pub fn place(p: CursorPosition) -> V {
    let o = |k: Option<usize>| V::N(k.map_or(-1, |k| k as i64));
    let (k, a, b) = match p {
        CursorPosition::InWord(i) => ("W", num(i), V::N(-1)),
        CursorPosition::OnWordLeftEdge(i) => ("L", num(i), V::N(-1)),
        CursorPosition::OnWordRightEdge(i) => ("R", num(i), V::N(-1)),
        CursorPosition::InSpace(a, b) => ("S", o(a), o(b)),
    };
    V::obj().with("k", V::S(k.into())).with("a", a).with("b", b)
}

pub fn pairs<I: IntoIterator<Item = (usize, usize)>>(words: I) -> V {
    V::A(words.into_iter().map(|(a, b)| V::A(vec![num(a), num(b)])).collect())
}

pub fn run_words(desc: &V, out: &mut dyn FnMut(V)) {
    for ev in desc.get("ev").a() {
        let t = ev.get("t").text();
        let c = ev.get("n").n() as usize;
        let given: Vec<(usize, usize)> =
            ev.get("w").a().iter().map(|p| (p.a()[0].n() as usize, p.a()[1].n() as usize)).collect();
        let r = guarded(|| {
            let words = get_buffer_words(&Buffer::from(t.as_str()));
            V::obj()
                .with("r", V::N(0))
                .with("w", pairs(words.clone()))
                .with("p", place(CursorPosition::get(c, words)))
                .with("g", place(CursorPosition::get(c, given)))
        });
        match r {
            Some(o) => out(o),
            None => return out(panicked()),
        }
    }
}

/// A directory tree is made from cfg.tree (paths, directories end in "/")
/// and cfg.links (pairs of paths);
/// cfg.wd: "abs" the tree's root as an absolute path, "none" no working
/// directory (the process changes to the root).
pub fn run_filenames(desc: &V, out: &mut dyn FnMut(V)) {
    let cfg = desc.get("cfg");
    let dir = Scratch::new();
    let root = dir.0.canonicalize().unwrap();
    for p in cfg.get("tree").texts() {
        if p.ends_with('/') {
            std::fs::create_dir_all(root.join(&p)).unwrap();
        } else {
            let f = root.join(&p);
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            std::fs::write(f, b"").unwrap();
        }
    }
    // links name what they lead to from the root
    for l in cfg.get("links").a() {
        let at = root.join(l.a()[0].text());
        std::fs::create_dir_all(at.parent().unwrap()).unwrap();
        std::os::unix::fs::symlink(root.join(l.a()[1].text()), at).unwrap();
    }
    let home = root.join(cfg.get("cwd").text());
    let before = std::env::current_dir();
    let wd = match cfg.get("wd").s() {
        "none" => {
            std::env::set_current_dir(&home).unwrap();
            None
        }
        _ => Some(home.clone()),
    };
    let mark = root.to_string_lossy().to_string();
    for ev in desc.get("ev").a() {
        // "%" stands for the root in what is asked and in what is answered
        let word = ev.get("t").text().replace('%', &mark);
        let r = guarded(|| {
            let mut c = if cfg.get("plain").b() {
                FilenameCompleter::new(wd.clone())
            } else {
                FilenameCompleter::with_case_sensitivity(wd.clone(), cfg.get("case").b())
            };
            let mut got = c.completions(&word);
            got.sort();
            V::obj().with("r", V::N(0)).with("l", V::A(got.iter().map(|g| text(&g.replace(&mark, "%"))).collect()))
        });
        match r {
            Some(o) => out(o),
            None => {
                out(panicked());
                break;
            }
        }
    }
    if let Ok(b) = before {
        let _ = std::env::set_current_dir(b);
    }
}
