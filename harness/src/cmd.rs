//! The command language: what a history does to the registers. Text form = replay files.
#[derive(Clone, Debug)]
pub struct Ins { pub s: usize, pub d: usize, pub id: u32, pub tag: u32, pub val: u32, pub rep: bool, pub het: bool, pub fuse: i64 }
#[derive(Clone, Debug)]
pub struct Un { pub tm: bool, pub s: usize, pub d: usize, pub par: u8, pub cst: i32, pub codes: Vec<u8>, pub base: u32, pub fuse: i64 }
#[derive(Clone, Debug)]
pub struct Joint { pub kind: &'static str, pub s: usize, pub r: usize, pub d: usize, pub par: u8, pub cb: i32, pub cl: i32, pub cr: i32,
    pub tb: Vec<u8>, pub tl: Vec<u8>, pub tr: Vec<u8>, pub base: u32, pub fuse: i64 }
#[derive(Clone, Debug)]
pub enum Cmd {
    New(usize), Clone(usize, usize), Drop(usize), Ins(Ins), Rem(usize, usize, u32, bool, i64), Find(usize, u32, bool, i64),
    Obs(usize), Visit(usize, i64), Keep(usize, u32), ReRef, Eqm, Census, Un(Un), Joint(Joint), Cmp(&'static str, usize, usize), Quiet(bool), Loop(usize), End,
    /// insert (replacing) or remove ids a..b one by one; one event
    Bulk { s: usize, d: usize, rem: bool, a: u32, b: u32, base: u32 },
}
pub const KINDS: [&str; 6] = ["ff", "fm", "ftr", "mf", "mtr", "mm"];
pub const CMPS: [&str; 5] = ["par", "cst", "set", "het", "flip"];

fn digits(v: &[u8]) -> String { if v.is_empty() { "-".into() } else { v.iter().map(|d| (b'0' + d) as char).collect() } }
fn undigits(s: &str) -> Vec<u8> { if s == "-" { vec![] } else { s.bytes().map(|b| b - b'0').collect() } }
impl Cmd {
    pub fn fuse(&self) -> i64 {
        match self { Cmd::Ins(i) => i.fuse, Cmd::Rem(_, _, _, _, f) | Cmd::Find(_, _, _, f) | Cmd::Visit(_, f) => *f, Cmd::Un(u) => u.fuse, Cmd::Joint(j) => j.fuse, _ => -1 }
    }
    pub fn with_fuse(&self, k: i64) -> Cmd {
        let mut c = self.clone();
        match &mut c { Cmd::Ins(i) => i.fuse = k, Cmd::Rem(_, _, _, _, f) | Cmd::Find(_, _, _, f) | Cmd::Visit(_, f) => *f = k, Cmd::Un(u) => u.fuse = k, Cmd::Joint(j) => j.fuse = k, _ => {} }
        c
    }
    pub fn sources(&self) -> Vec<usize> {
        match self { Cmd::Ins(i) => vec![i.s], Cmd::Rem(s, ..) | Cmd::Find(s, ..) | Cmd::Visit(s, _) => vec![*s], Cmd::Un(u) => vec![u.s], Cmd::Joint(j) => vec![j.s, j.r], _ => vec![] }
    }
    pub fn text(&self) -> String {
        match self {
            Cmd::New(d) => format!("new {d}"),
            Cmd::Clone(s, d) => format!("clone {s} {d}"),
            Cmd::Drop(s) => format!("drop {s}"),
            Cmd::Ins(i) => format!("ins {} {} {} {} {} {} {} {}", i.s, i.d, i.id, i.tag, i.val, i.rep as u8, i.het as u8, i.fuse),
            Cmd::Rem(s, d, id, het, f) => format!("rem {s} {d} {id} {} {f}", *het as u8),
            Cmd::Find(s, id, het, f) => format!("find {s} {id} {} {f}", *het as u8),
            Cmd::Obs(s) => format!("obs {s}"),
            Cmd::Visit(s, f) => format!("visit {s} {f}"),
            Cmd::Keep(s, id) => format!("keep {s} {id}"),
            Cmd::ReRef => "reref".into(),
            Cmd::Eqm => "eqm".into(),
            Cmd::Census => "census".into(),
            Cmd::Un(u) => format!("{} {} {} {} {} {} {} {}", if u.tm { "tm" } else { "tr" }, u.s, u.d, u.par, u.cst, digits(&u.codes), u.base, u.fuse),
            Cmd::Joint(j) => format!("{} {} {} {} {} {} {} {} {} {} {} {} {}", j.kind, j.s, j.r, j.d, j.par, j.cb, j.cl, j.cr, digits(&j.tb), digits(&j.tl), digits(&j.tr), j.base, j.fuse),
            Cmd::Cmp(k, a, b) => format!("cmp {k} {a} {b}"),
            Cmd::Loop(k) => format!("loop {k}"),
            Cmd::End => "end".into(),
            Cmd::Bulk { s, d, rem, a, b, base } => format!("bulk {s} {d} {} {a} {b} {base}", *rem as u8),
            Cmd::Quiet(q) => format!("quiet {}", *q as u8),
        }
    }
    pub fn parse(line: &str) -> Cmd {
        let t: Vec<&str> = line.split_whitespace().collect();
        let u = |i: usize| t[i].parse::<usize>().unwrap();
        let w = |i: usize| t[i].parse::<u32>().unwrap();
        let z = |i: usize| t[i].parse::<i64>().unwrap();
        let b = |i: usize| t[i] == "1";
        match t[0] {
            "new" => Cmd::New(u(1)),
            "clone" => Cmd::Clone(u(1), u(2)),
            "drop" => Cmd::Drop(u(1)),
            "ins" => Cmd::Ins(Ins { s: u(1), d: u(2), id: w(3), tag: w(4), val: w(5), rep: b(6), het: b(7), fuse: z(8) }),
            "rem" => Cmd::Rem(u(1), u(2), w(3), b(4), z(5)),
            "find" => Cmd::Find(u(1), w(2), b(3), z(4)),
            "obs" => Cmd::Obs(u(1)),
            "visit" => Cmd::Visit(u(1), z(2)),
            "keep" => Cmd::Keep(u(1), w(2)),
            "reref" => Cmd::ReRef,
            "eqm" => Cmd::Eqm,
            "census" => Cmd::Census,
            "tr" | "tm" => Cmd::Un(Un { tm: t[0] == "tm", s: u(1), d: u(2), par: w(3) as u8, cst: z(4) as i32, codes: undigits(t[5]), base: w(6), fuse: z(7) }),
            "cmp" => Cmd::Cmp(CMPS.iter().find(|k| **k == t[1]).unwrap(), u(2), u(3)),
            "quiet" => Cmd::Quiet(b(1)),
            "bulk" => Cmd::Bulk { s: u(1), d: u(2), rem: b(3), a: w(4), b: w(5), base: w(6) },
            "loop" => Cmd::Loop(u(1)),
            "end" => Cmd::End,
            k => Cmd::Joint(Joint { kind: KINDS.iter().find(|x| **x == k).unwrap_or_else(|| panic!("bad command {line}")), s: u(1), r: u(2), d: u(3), par: w(4) as u8,
                cb: z(5) as i32, cl: z(6) as i32, cr: z(7) as i32, tb: undigits(t[8]), tl: undigits(t[9]), tr: undigits(t[10]), base: w(11), fuse: z(12) }),
        }
    }
}
