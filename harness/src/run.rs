//! `run PROGRAM OUT CRUMB FROM UNTIL_H UNTIL_C`: execute the histories of a program file, write the trace.
//! On a hang the process exits 86; the last (history, command) is in CRUMB.
use crate::cmd::Cmd;
use crate::exec::*;
use crate::inst::*;
use hash_trie::traits::Flagword;
use std::convert::TryFrom;
use std::fmt::Debug;
use std::io::{BufWriter, Write};
use std::ops::BitAnd;
use std::os::unix::fs::FileExt;
use std::sync::Arc;
use std::sync::atomic::Ordering::Relaxed;

/// Fork: every thread gets clones of the handles (0), the same handles (1), or the same handles while the parent gives up its own (2)
pub enum Line { C(Cmd), Fork(u8), T(usize, Cmd), Join }
pub struct Hist { pub label: String, pub inst: bool, pub quiet: bool, pub seq: bool, pub hs: Vec<u128>, pub lines: Vec<Line> }

pub fn parse(text: &str) -> Vec<Hist> {
    let mut out: Vec<Hist> = vec![];
    for l in text.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') { continue; }
        let t: Vec<&str> = l.split_whitespace().collect();
        match t[0] {
            "H" => out.push(Hist { label: t[1].into(), inst: t[2..].contains(&"inst"), quiet: t[2..].contains(&"quiet"), seq: t[2..].contains(&"seq"), hs: vec![], lines: vec![] }),
            "K" => out.last_mut().unwrap().hs = t[1..].iter().map(|x| u128::from_str_radix(x, 16).unwrap()).collect(),
            "fork" => out.last_mut().unwrap().lines.push(Line::Fork(t.get(1).map_or(0, |x| x.parse().unwrap()))),
            "join" => out.last_mut().unwrap().lines.push(Line::Join),
            "t" => { let i = t[1].parse().unwrap(); out.last_mut().unwrap().lines.push(Line::T(i, Cmd::parse(&t[2..].join(" ")))) }
            _ => out.last_mut().unwrap().lines.push(Line::C(Cmd::parse(l))),
        }
    }
    out
}
fn watchdog(limit: u64) {
    std::thread::spawn(move || {
        let (mut last, mut same) = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(250));
            let now = crate::WATCH.load(Relaxed);
            if now == last { same += 1 } else { same = 0; last = now }
            if same > 4 * limit { eprintln!("watchdog: no progress for {limit} s"); std::process::exit(86); }
        }
    });
}
/// key classes: ids with the same truncated hash
fn classes<H: HW, M: HS<H>>(hs: &[u128]) -> Vec<usize> {
    if hs.len() > 2000 { return vec![]; }
    let hv: Vec<H> = hs.iter().map(|h| M::default().hash(&KA::new(0, 0, *h))).collect();
    (0..hs.len()).map(|i| (0..i).find(|j| hv[*j] == hv[i]).unwrap_or(i)).collect()
}
struct SendIt<T>(T);
unsafe impl<T> Send for SendIt<T> {}

pub fn main_for<H: HW, F: Flagword<H>, M: HS<H>>(cfg: &str) where <F as TryFrom<<H as BitAnd>::Output>>::Error: Debug {
    let a: Vec<String> = std::env::args().collect();
    let hists = parse(&std::fs::read_to_string(&a[1]).expect("program"));
    let mut out = BufWriter::new(std::fs::File::create(&a[2]).expect("trace"));
    let crumb = std::fs::File::create(&a[3]).expect("crumb");
    let num = |i: usize, d: usize| a.get(i).and_then(|x| x.parse::<i64>().ok()).map(|x| if x < 0 { usize::MAX } else { x as usize }).unwrap_or(d);
    let (from, until_h, until_c) = (num(4, 0), num(5, usize::MAX), num(6, usize::MAX));
    std::panic::set_hook(Box::new(|_| {}));
    watchdog(10);
    for (hi, h) in hists.iter().enumerate().skip(from) {
        if hi > until_h { break; }
        reset_registry();
        let mut w = World::<H, F, M>::new(h.hs.clone());
        w.inst = h.inst;
        w.quiet = h.quiet;
        let hc = classes::<H, M>(&h.hs);
        w.start(cfg, &hc, &format!("{hi}.{}", h.label));
        let mut par: Option<Vec<Vec<Cmd>>> = None;
        let mut share = 0;
        let mut extra = String::new();
        for (ci, l) in h.lines.iter().enumerate() {
            if hi == until_h && ci >= until_c { break; }
            let _ = crumb.write_at(format!("{hi:>10} {ci:>10}\n").as_bytes(), 0);
            match l {
                Line::C(c) => w.exec(c),
                Line::Fork(k) => { par = Some(vec![]); share = *k }
                Line::T(i, c) => { let p = par.as_mut().unwrap(); while p.len() <= *i { p.push(vec![]) } p[*i].push(c.clone()) }
                Line::Join => {
                    if w.dead { par = None; continue; }
                    let progs = par.take().unwrap();
                    let snap = w.snapshot();
                    let barrier = std::sync::Barrier::new(if h.seq { 1 } else { progs.len() });
                    let mut outs: Vec<String> = vec![];
                    let worlds: Vec<_> = progs.iter().map(|_| SendIt(w.dup_regs(share > 0))).collect();
                    if share == 2 { for r in 0..NREG { w.exec(&Cmd::Drop(r)) } }
                    let go = |i: usize, p: &[Cmd], regs: SendIt<Vec<Option<Arc<Obj<H, F, M>>>>>| {
                        let regs = regs;
                        let mut tw = World::<H, F, M>::new(h.hs.clone());
                        tw.start(cfg, &hc, &format!("{hi}.{}.t{i}", h.label));
                        tw.adopt(regs.0, &snap);
                        barrier.wait();
                        tw.exec_all(p);
                        std::mem::take(&mut tw.out)
                    };
                    if h.seq { for ((i, p), r) in progs.iter().enumerate().zip(worlds) { outs.push(go(i, p, r)) } }
                    else {
                        std::thread::scope(|s| {
                            let hd: Vec<_> = progs.iter().enumerate().zip(worlds).map(|((i, p), r)| { let go = &go; s.spawn(move || go(i, p, r)) }).collect();
                            for x in hd { outs.push(x.join().unwrap_or_default()) }
                        });
                    }
                    for o in outs { extra.push_str(&o) }
                }
            }
        }
        let _ = out.write_all(w.out.as_bytes());
        let _ = out.write_all(extra.as_bytes());
        w.out.clear();
    }
    let _ = out.flush();
    let _ = crumb.write_at(b"done                  \n", 0);
}
