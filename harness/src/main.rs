//! liner-conform run IN OUT: runs every session of IN (one JSON object a
//! line) against the library and writes it to OUT with what was observed.
mod data;
mod json;
mod pty;
mod race;
mod sess;
mod tty;

use json::*;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;

fn run(desc: &V, out: &mut dyn FnMut(V)) {
    match desc.get("kind").s() {
        "ed" if desc.get("pty").b() && pty::run(desc, out) => {}
        "ed" => sess::run_editor(desc, out),
        "rl" => sess::run_reader(desc, out),
        "buf" => data::run_buffer(desc, out),
        "hist" => data::run_history(desc, out),
        "race" => race::run(desc, out),
        "words" => data::run_words(desc, out),
        "fname" => data::run_filenames(desc, out),
        k => panic!("unknown kind {:?}", k),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "pty-child" {
        sess::quiet_panics();
        return pty::child(&args[2]);
    }
    if args.len() < 4 || args[1] != "run" {
        eprintln!("usage: liner-conform run IN OUT [SECONDS]");
        std::process::exit(2);
    }
    let limit: u64 = args.get(4).and_then(|s| s.parse().ok()).unwrap_or(10);
    sess::quiet_panics();
    let input = BufReader::new(std::fs::File::open(&args[2]).expect("input"));
    let mut output = BufWriter::new(std::fs::File::create(&args[3]).expect("output"));

    // one worker thread, replaced when a session hangs
    type Job = (V, Arc<Mutex<Vec<V>>>);
    let worker = || {
        let (jt, jr) = mpsc::channel::<Job>();
        let (dt, dr) = mpsc::channel::<()>();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                while let Ok((desc, res)) = jr.recv() {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        run(&desc, &mut |o| res.lock().unwrap().push(o));
                    }));
                    if r.is_err() {
                        let m = sess::PANIC.with(|p| p.borrow().clone());
                        eprintln!("driver panic: {}", m);
                        std::process::exit(3);
                    }
                    if dt.send(()).is_err() {
                        break;
                    }
                }
            })
            .expect("thread");
        (jt, dr)
    };
    let (mut jt, mut dr) = worker();
    let mut hangs = 0;
    for line in input.lines() {
        let line = line.expect("read");
        if line.trim().is_empty() {
            continue;
        }
        let desc = parse(&line);
        let res = Arc::new(Mutex::new(vec![]));
        jt.send((desc.clone(), res.clone())).expect("send");
        let hung = dr.recv_timeout(Duration::from_secs(limit)).is_err();
        let mut obs = res.lock().unwrap().clone();
        if hung {
            obs.push(sess::dead(8, "no answer".into()));
            hangs += 1;
            let w = worker();
            jt = w.0;
            dr = w.1;
        }
        let mut o = desc;
        let mut it = obs.into_iter();
        if o.get("kind").s() == "ed" {
            if let Some(first) = it.next() {
                o.set("o0", first);
            }
        }
        let evs: Vec<V> = o.get("ev").a().iter().cloned().zip(it).map(|(e, ob)| e.with("o", ob)).collect();
        o.set("ev", V::A(evs));
        writeln!(output, "{}", o.to_json()).expect("write");
        if hangs > 5 {
            break;
        }
    }
    output.flush().expect("flush");
    std::process::exit(0);
}
