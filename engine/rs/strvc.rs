// strvc: decision procedure for contracts over string-rewriting programs.
//
// A program is a chain of atomic string operations (str.replace, re.sub, letter maps, NFC/NFD, prefix/suffix).
// Every atomic operation is run as an on-line (subsequential) transducer whose semantics is CPython's.
// A query asks, for ALL words w of a regular domain D (no length bound):
//   EQ   chain1(w) == chain2(w)
//   LANG chain(w) in L     (L given as a DFA over output characters)
//   LASSO-free: exploration is exhaustive; the set of reachable product states that is computed is the
//   inductive invariant that proves the obligation.  If the state budget is hit the answer is UNKNOWN.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::io::Read;

#[derive(Default, Clone)]
struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
}
type Map<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

type Ch = u16;
const NOCH: u32 = u32::MAX;

struct Intern<T> { map: Map<T, u32>, items: Vec<T> }
impl<T: std::hash::Hash + Eq + Clone> Intern<T> {
    fn new() -> Self { Intern { map: Map::default(), items: vec![] } }
    fn put(&mut self, t: T) -> u32 {
        if let Some(&i) = self.map.get(&t) { return i; }
        let i = self.items.len() as u32;
        self.items.push(t.clone());
        self.map.insert(t, i);
        i
    }
}

// ---------------- regular expressions (CPython sre semantics: backtracking, priorities) ----------------
enum Re {
    Set(Vec<bool>),
    Seq(Vec<Re>),
    Alt(Vec<Re>),
    Group(usize, Box<Re>),
    Rep(bool, usize, usize, Box<Re>),
    Ref(usize),
    Ahead(bool, Box<Re>),
    Behind(bool, usize, Box<Re>),
    At(u8),
}
enum Cont<'a> {
    Done,
    Seq(&'a [Re], &'a Cont<'a>),
    GroupEnd(usize, usize, &'a Cont<'a>),
    Rep(&'a Re, bool, usize, usize, usize, usize, &'a Cont<'a>), // re,greedy,lo,hi,count,startpos,k
}
#[derive(Clone)]
struct Caps(Vec<(usize, usize)>);
struct Env<'e> { t: &'e [Ch], eof: bool, complete: bool, start: usize, must: bool, word: &'e [bool] }
struct NeedMore;
type MR = Result<Option<(usize, Caps)>, NeedMore>;
const NOCAP: usize = usize::MAX;

fn chat(e: &Env, i: usize) -> Result<Option<Ch>, NeedMore> {
    if i < e.t.len() { Ok(Some(e.t[i])) } else if e.eof { Ok(None) } else { Err(NeedMore) }
}
fn run_cont(e: &Env, i: usize, g: &Caps, k: &Cont) -> MR {
    match k {
        Cont::Done => { if e.must && i == e.start { Ok(None) } else { Ok(Some((i, g.clone()))) } }
        Cont::Seq(rest, k2) => {
            if rest.is_empty() { run_cont(e, i, g, k2) }
            else { m(e, &rest[0], i, g, &Cont::Seq(&rest[1..], k2)) }
        }
        Cont::GroupEnd(id, s, k2) => {
            let mut g2 = g.clone();
            if g2.0.len() <= *id { g2.0.resize(*id + 1, (NOCAP, NOCAP)); }
            g2.0[*id] = (*s, i);
            run_cont(e, i, &g2, k2)
        }
        Cont::Rep(re, greedy, lo, hi, n, s, k2) => {
            if i == *s && *n > *lo { return Ok(None); }
            rep(e, re, *greedy, *lo, *hi, *n, i, g, k2)
        }
    }
}
fn rep(e: &Env, re: &Re, greedy: bool, lo: usize, hi: usize, n: usize, i: usize, g: &Caps, k: &Cont) -> MR {
    if n < lo { return m(e, re, i, g, &Cont::Rep(re, greedy, lo, hi, n + 1, i, k)); }
    if greedy {
        if n < hi {
            let r = m(e, re, i, g, &Cont::Rep(re, greedy, lo, hi, n + 1, i, k))?;
            if r.is_some() { return Ok(r); }
        }
        run_cont(e, i, g, k)
    } else {
        let r = run_cont(e, i, g, k)?;
        if r.is_some() { return Ok(r); }
        if n < hi { return m(e, re, i, g, &Cont::Rep(re, greedy, lo, hi, n + 1, i, k)); }
        Ok(None)
    }
}
fn m(e: &Env, re: &Re, i: usize, g: &Caps, k: &Cont) -> MR {
    match re {
        Re::Set(s) => match chat(e, i)? {
            Some(c) if s[c as usize] => run_cont(e, i + 1, g, k),
            _ => Ok(None),
        },
        Re::Seq(v) => run_cont(e, i, g, &Cont::Seq(v, k)),
        Re::Alt(v) => {
            for a in v { let r = m(e, a, i, g, k)?; if r.is_some() { return Ok(r); } }
            Ok(None)
        }
        Re::Group(id, r) => m(e, r, i, g, &Cont::GroupEnd(*id, i, k)),
        Re::Rep(greedy, lo, hi, r) => rep(e, r, *greedy, *lo, *hi, 0, i, g, k),
        Re::Ref(id) => {
            if g.0.len() <= *id || g.0[*id].0 == NOCAP { return Ok(None); }
            let (a, b) = g.0[*id];
            for q in a..b {
                match chat(e, i + q - a)? { Some(c) if c == e.t[q] => {} _ => return Ok(None) }
            }
            run_cont(e, i + b - a, g, k)
        }
        Re::Ahead(neg, r) => {
            let e2 = Env { t: e.t, eof: e.eof, complete: e.complete, start: 0, must: false, word: e.word };
            let x = m(&e2, r, i, g, &Cont::Done)?;
            match (x, *neg) {
                (Some(_), true) | (None, false) => Ok(None),
                (Some((_, g2)), false) => run_cont(e, i, &g2, k),
                (None, true) => run_cont(e, i, g, k),
            }
        }
        Re::Behind(neg, w, r) => {
            let x = if *w <= i {
                let e2 = Env { t: e.t, eof: e.eof, complete: e.complete, start: 0, must: false, word: e.word };
                m(&e2, r, i - w, g, &Cont::Done)?
            } else { None };
            match (x, *neg) {
                (Some(_), true) | (None, false) => Ok(None),
                (Some((_, g2)), false) => run_cont(e, i, &g2, k),
                (None, true) => run_cont(e, i, g, k),
            }
        }
        Re::At(kind) => {
            let ok = match kind {
                0 => e.complete && i == 0,
                1 => match chat(e, i)? { None => true, Some(0) => chat(e, i + 1)?.is_none(), _ => false }, // id 0 is '\n'
                4 => chat(e, i)?.is_none(),
                k => {
                    let a = i > 0 && e.word[e.t[i - 1] as usize];
                    let b = match chat(e, i)? { Some(c) => e.word[c as usize], None => false };
                    (a != b) == (*k == 2)
                }
            };
            if ok { run_cont(e, i, g, k) } else { Ok(None) }
        }
    }
}

// ---------------- transducers ----------------
enum Kind {
    Replace(Vec<Ch>, Vec<Ch>),
    Sub { re: Re, tmpl: Vec<Result<Vec<Ch>, usize>>, lb: usize, cls: Vec<Ch>, count: usize, eager: usize, ecls: Option<Vec<Ch>> },
    LMap(Vec<Vec<Ch>>),
    Multi(Vec<(Vec<Ch>, Vec<Ch>)>), // simultaneous non-overlapping literal replacements
    Norm { compose: bool, ccc: Vec<u8>, dec: Vec<Vec<Ch>>, comp: Map<(Ch, Ch), Ch>, bnd: Vec<bool> },
    Pre(Vec<Ch>),
    App(Vec<Ch>),
    Ident,
    Comp(usize, usize),
    Restart(usize, Vec<bool>),
    Const(Vec<Ch>),
    Fork(usize, usize), // concatenation  a(w) ++ b(w)
    SplitPick(Ch, i32),
}
struct Node {
    kind: Kind,
    st: Intern<Vec<u32>>,
    memo: Map<(u32, Ch), (u32, u32)>,
    fl: Map<u32, u32>,
}
struct Eng { nodes: Vec<Node>, outs: Intern<Vec<Ch>>, word: Vec<bool> }

impl Eng {
    fn add(&mut self, kind: Kind) -> usize {
        let init = match &kind {
            Kind::Sub { .. } => vec![1u32, 0, 0, 0, 0], // complete, must, nctx, matches, emitted ; then ctx.., buf..
            Kind::Comp(..) | Kind::Fork(..) => vec![0, 0],
            Kind::Restart(..) => vec![0],
            Kind::Pre(_) => vec![0],
            _ => vec![],
        };
        let mut st = Intern::new();
        st.put(init);
        self.nodes.push(Node { kind, st, memo: Map::default(), fl: Map::default() });
        self.nodes.len() - 1
    }
    fn step(&mut self, n: usize, q: u32, c: Ch) -> (u32, u32) {
        if let Some(&r) = self.nodes[n].memo.get(&(q, c)) { return r; }
        let (o, s) = self.compute(n, q, c as u32);
        let oi = self.outs.put(o);
        let si = self.nodes[n].st.put(s);
        self.nodes[n].memo.insert((q, c), (oi, si));
        (oi, si)
    }
    fn flush(&mut self, n: usize, q: u32) -> u32 {
        if let Some(&r) = self.nodes[n].fl.get(&q) { return r; }
        let (o, _) = self.compute(n, q, NOCH);
        let oi = self.outs.put(o);
        self.nodes[n].fl.insert(q, oi);
        oi
    }
    // c == NOCH : end of input
    fn compute(&mut self, n: usize, q: u32, c: u32) -> (Vec<Ch>, Vec<u32>) {
        let st = self.nodes[n].st.items[q as usize].clone();
        if let Kind::Comp(a, b) = self.nodes[n].kind {
            let (o, qa) = if c == NOCH { (self.flush(a, st[0]), st[0]) } else { self.step(a, st[0], c as Ch) };
            let mut qb = st[1];
            let mut out = vec![];
            let os = self.outs.items[o as usize].clone();
            for d in os {
                let (x, q2) = self.step(b, qb, d);
                qb = q2;
                out.extend_from_slice(&self.outs.items[x as usize]);
            }
            if c == NOCH {
                let x = self.flush(b, qb);
                out.extend_from_slice(&self.outs.items[x as usize]);
            }
            return (out, vec![qa, qb]);
        }
        if let Kind::Fork(a, b) = self.nodes[n].kind {
            // a(w) ++ b(w): only usable when b's output is emitted at the end (b buffered in state)
            let mut st = st;
            if c == NOCH {
                let o = self.flush(a, st[0]);
                let mut out = self.outs.items[o as usize].clone();
                out.extend(st[2..].iter().map(|&x| x as Ch));
                let o = self.flush(b, st[1]);
                out.extend_from_slice(&self.outs.items[o as usize]);
                return (out, st);
            }
            let (o, qa) = self.step(a, st[0], c as Ch);
            let (o2, qb) = self.step(b, st[1], c as Ch);
            st[0] = qa; st[1] = qb;
            let add: Vec<u32> = self.outs.items[o2 as usize].iter().map(|&x| x as u32).collect();
            st.extend(add);
            return (self.outs.items[o as usize].clone(), st);
        }
        if let Kind::Restart(a, _) = &self.nodes[n].kind {
            let a = *a;
            if c == NOCH {
                let o = self.flush(a, st[0]);
                return (self.outs.items[o as usize].clone(), st);
            }
            let is = if let Kind::Restart(_, s) = &self.nodes[n].kind { s[c as usize] } else { false };
            if is {
                let o = self.flush(a, st[0]);
                let mut out = self.outs.items[o as usize].clone();
                out.push(c as Ch);
                return (out, vec![0]);
            }
            let (o, q2) = self.step(a, st[0], c as Ch);
            return (self.outs.items[o as usize].clone(), vec![q2]);
        }
        match &self.nodes[n].kind {
            Kind::Ident => if c == NOCH { (vec![], st) } else { (vec![c as Ch], st) },
            Kind::LMap(mp) => if c == NOCH { (vec![], st) } else { (mp[c as usize].clone(), st) },
            Kind::Const(x) => if c == NOCH { (x.clone(), st) } else { (vec![], st) },
            Kind::App(x) => if c == NOCH { (x.clone(), st) } else { (vec![c as Ch], st) },
            Kind::Pre(x) => {
                let mut o = if st[0] == 0 { x.clone() } else { vec![] };
                if c != NOCH { o.push(c as Ch); }
                (o, vec![1])
            }
            Kind::SplitPick(sep, idx) => {
                // idx-th field of w.split(sep)
                let k = if st.is_empty() { 0 } else { st[0] };
                if c == NOCH { return (vec![], st); }
                if c as Ch == *sep { return (vec![], vec![(k + 1).min(*idx as u32 + 1)]); }
                (if k == *idx as u32 { vec![c as Ch] } else { vec![] }, vec![k])
            }
            Kind::Replace(x, y) => {
                let k = st.len();
                if c == NOCH { return (x[..k].to_vec(), vec![]); }
                let ch = c as Ch;
                if k == 0 && ch != x[0] { return (vec![ch], vec![]); }
                let mut buf: Vec<Ch> = x[..k].to_vec();
                buf.push(ch);
                let mut out = vec![];
                let mut p = 0;
                while p < buf.len() {
                    let b = &buf[p..];
                    if b == &x[..] { out.extend_from_slice(y); p = buf.len(); }
                    else if x.starts_with(b) { break; }
                    else { out.push(b[0]); p += 1; }
                }
                (out, vec![0; buf.len() - p])
            }
            Kind::Multi(prs) => {
                if c == NOCH { return (st.iter().map(|&x| x as Ch).collect(), vec![]); }
                let mut buf: Vec<Ch> = st.iter().map(|&x| x as Ch).collect();
                buf.push(c as Ch);
                let mut out = vec![];
                let mut p = 0;
                'o: while p < buf.len() {
                    let b = &buf[p..];
                    for (x, y) in prs { if b.starts_with(x) { out.extend_from_slice(y); p += x.len(); continue 'o; } }
                    for (x, _) in prs { if x.starts_with(b) { break 'o; } }
                    out.push(b[0]); p += 1;
                }
                (out, buf[p..].iter().map(|&x| x as u32).collect())
            }
            Kind::Norm { compose, ccc, dec, comp, bnd } => {
                let seg = |b: &[u32]| -> Vec<Ch> {
                    let mut d: Vec<Ch> = vec![];
                    for &x in b { d.extend_from_slice(&dec[x as usize]); }
                    // canonical ordering
                    let mut i = 0;
                    while i < d.len() {
                        if ccc[d[i] as usize] == 0 { i += 1; continue; }
                        let mut j = i;
                        while j < d.len() && ccc[d[j] as usize] != 0 { j += 1; }
                        d[i..j].sort_by_key(|&x| ccc[x as usize]);
                        i = j;
                    }
                    if !*compose || d.is_empty() { return d; }
                    let mut out: Vec<Ch> = vec![];
                    let mut starter: Option<usize> = None;
                    let mut last: i32 = -1;
                    for &x in &d {
                        let cc = ccc[x as usize] as i32;
                        if let Some(s) = starter {
                            if last < cc || last == -1 {
                                if !(last != -1 && last >= cc) {
                                    if let Some(&y) = comp.get(&(out[s], x)) { out[s] = y; continue; }
                                }
                            }
                        }
                        if cc == 0 { starter = Some(out.len()); last = -1; } else { last = cc; }
                        out.push(x);
                    }
                    out
                };
                if c == NOCH { return (seg(&st), vec![]); }
                if bnd[c as usize] { return (seg(&st), vec![c]); }
                let mut s2 = st.clone();
                s2.push(c);
                (vec![], s2)
            }
            Kind::Sub { re, tmpl, lb, cls, count, eager, ecls } => {
                let mut complete = st[0] == 1;
                let mut must = st[1] == 1;
                let mut nmat = st[3] as usize;
                let nc = st[2] as usize;
                let mut em = st[4] as usize; // leading characters of buf already written to the output
                let mut ctx: Vec<Ch> = st[5..5 + nc].iter().map(|&x| x as Ch).collect();
                let mut buf: Vec<Ch> = st[5 + nc..].iter().map(|&x| x as Ch).collect();
                if c != NOCH { buf.push(c as Ch); }
                let eof = c == NOCH;
                let mut out: Vec<Ch> = vec![];
                let mut bp = 0usize;
                loop {
                    if bp == buf.len() && !eof { break; }
                    if *count > 0 && nmat >= *count {
                        let f = em.min(buf.len() - bp);
                        out.extend_from_slice(&buf[bp + f..]); bp = buf.len(); ctx.clear(); complete = false; must = false; em = 0; break;
                    }
                    let mut t: Vec<Ch> = ctx.clone();
                    t.extend_from_slice(&buf[bp..]);
                    let p = ctx.len();
                    let env = Env { t: &t, eof, complete, start: p, must, word: &self.word };
                    let r = match m(&env, re, p, &Caps(vec![]), &Cont::Done) { Err(NeedMore) => break, Ok(r) => r };
                    let adv;
                    if let Some((e, g)) = r {
                        if *count > 0 { nmat += 1; }
                        let mut o: Vec<Ch> = vec![];
                        for x in tmpl {
                            match x {
                                Ok(l) => o.extend_from_slice(l),
                                Err(0) => o.extend_from_slice(&t[p..e]),
                                Err(id) => if *id < g.0.len() && g.0[*id].0 != NOCAP { o.extend_from_slice(&t[g.0[*id].0..g.0[*id].1]) },
                            }
                        }
                        out.extend_from_slice(&o[em..]);
                        em = 0;
                        if e == p { must = true; continue; }
                        adv = e - p;
                        must = false;
                    } else {
                        if bp == buf.len() { break; }
                        if em > 0 { em -= 1; } else { out.push(buf[bp]); }
                        adv = 1;
                        must = false;
                    }
                    ctx.extend(buf[bp..bp + adv].iter().map(|&x| cls[x as usize]));
                    bp += adv;
                    if ctx.len() > *lb { let cut = ctx.len() - *lb; ctx.drain(..cut); complete = false; }
                }
                if eof { return (out, st); }
                let mut rest: Vec<Ch> = buf[bp..].to_vec();
                while em < *eager && em < rest.len() { out.push(rest[em]); em += 1; }
                if let Some(ec) = ecls { for x in rest[..em].iter_mut() { *x = ec[*x as usize]; } }
                let mut s2 = vec![complete as u32, must as u32, ctx.len() as u32, nmat as u32, em as u32];
                s2.extend(ctx.iter().map(|&x| x as u32));
                s2.extend(rest.iter().map(|&x| x as u32));
                (out, s2)
            }
            _ => unreachable!(),
        }
    }
    fn tree(&mut self, v: &[usize]) -> usize {
        if v.is_empty() { return self.add(Kind::Ident); }
        if v.len() == 1 { return v[0]; }
        let h = v.len() / 2;
        let a = self.tree(&v[..h]);
        let b = self.tree(&v[h..]);
        self.add(Kind::Comp(a, b))
    }
}

// set of fixed-width keys with insertion order
struct Arena { w: usize, data: Vec<u32>, tab: Vec<u32>, n: usize }
impl Arena {
    fn new(w: usize) -> Self { Arena { w, data: vec![], tab: vec![u32::MAX; 1 << 16], n: 0 } }
    fn len(&self) -> usize { self.n }
    fn get(&self, i: usize) -> &[u32] { &self.data[i * self.w..(i + 1) * self.w] }
    fn hash(k: &[u32]) -> u64 {
        let mut h = Fx::default();
        for &x in k { h.write_u32(x); }
        let z = h.0; (z ^ (z >> 32)).wrapping_mul(0x9E3779B97F4A7C15) >> 20
    }
    fn put(&mut self, k: &[u32]) -> bool {
        if self.n * 2 > self.tab.len() {
            let nl = self.tab.len() * 2;
            let mut t = vec![u32::MAX; nl];
            for i in 0..self.n {
                let mut p = Self::hash(self.get(i)) as usize & (nl - 1);
                while t[p] != u32::MAX { p = (p + 1) & (nl - 1); }
                t[p] = i as u32;
            }
            self.tab = t;
        }
        let m = self.tab.len() - 1;
        let mut p = Self::hash(k) as usize & m;
        while self.tab[p] != u32::MAX {
            if self.get(self.tab[p] as usize) == k { return false; }
            p = (p + 1) & m;
        }
        self.tab[p] = self.n as u32;
        self.data.extend_from_slice(k);
        self.n += 1;
        true
    }
}

// ---------------- problem reader ----------------
struct Rd { v: Vec<i64>, p: usize }
impl Rd {
    fn n(&mut self) -> i64 { let x = self.v[self.p]; self.p += 1; x }
    fn u(&mut self) -> usize { self.n() as usize }
    fn s(&mut self) -> Vec<Ch> { let k = self.u(); (0..k).map(|_| self.n() as Ch).collect() }
    fn set(&mut self, nu: usize) -> Vec<bool> { let mut b = vec![false; nu]; for c in self.s() { b[c as usize] = true; } b }
}
fn rd_re(r: &mut Rd, nu: usize) -> Re {
    match r.n() {
        0 => Re::Set(r.set(nu)),
        1 => { let k = r.u(); Re::Seq((0..k).map(|_| rd_re(r, nu)).collect()) }
        2 => { let k = r.u(); Re::Alt((0..k).map(|_| rd_re(r, nu)).collect()) }
        3 => { let g = r.u(); Re::Group(g, Box::new(rd_re(r, nu))) }
        4 => { let g = r.n() == 1; let lo = r.u(); let hi = r.n(); let hi = if hi < 0 { usize::MAX } else { hi as usize };
               Re::Rep(g, lo, hi, Box::new(rd_re(r, nu))) }
        5 => Re::Ref(r.u()),
        6 => { let n = r.n() == 1; Re::Ahead(n, Box::new(rd_re(r, nu))) }
        7 => { let n = r.n() == 1; let w = r.u(); Re::Behind(n, w, Box::new(rd_re(r, nu))) }
        8 => Re::At(r.n() as u8),
        x => panic!("re {}", x),
    }
}
// character classes that a look-behind can distinguish: the only part of a pattern that reads already consumed text
fn all_classes(re: &Re, acc: &mut Vec<Vec<bool>>) {
    match re {
        Re::Set(s) => acc.push(s.clone()),
        Re::Seq(v) | Re::Alt(v) => for x in v { all_classes(x, acc) },
        Re::Group(_, r) | Re::Rep(_, _, _, r) | Re::Ahead(_, r) | Re::Behind(_, _, r) => all_classes(r, acc),
        _ => {}
    }
}
fn classes(re: &Re, inside: bool, wb: &mut bool, acc: &mut Vec<Vec<bool>>) {
    match re {
        Re::Set(s) => if inside { acc.push(s.clone()) },
        Re::Seq(v) | Re::Alt(v) => for x in v { classes(x, inside, wb, acc) },
        Re::Group(_, r) | Re::Rep(_, _, _, r) | Re::Ahead(_, r) => classes(r, inside, wb, acc),
        Re::Behind(_, _, r) => classes(r, true, wb, acc),
        Re::At(k) => if *k == 2 || *k == 3 { *wb = true },
        Re::Ref(_) => {}
    }
}
struct Dfa { acc: Vec<bool>, tr: Vec<Vec<i32>>, init: u32 }

fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let v: Vec<i64> = s.split_ascii_whitespace().map(|x| x.parse().unwrap()).collect();
    drop(s);
    let child = std::thread::Builder::new().stack_size(1 << 29).spawn(move || run(v)).unwrap();
    child.join().unwrap();
}
fn run(v: Vec<i64>) {
    let mut r = Rd { v, p: 0 };
    let nu = r.u();
    let word = r.set(nu);
    let mut eng = Eng { nodes: vec![], outs: Intern::new(), word };
    let nch = r.u();
    let mut chains: Vec<usize> = vec![];
    for _ in 0..nch {
        let k = r.u();
        let mut ops = vec![];
        for _ in 0..k {
            let id = match r.n() {
                0 => { let x = r.s(); let y = r.s(); eng.add(Kind::Replace(x, y)) }
                1 => {
                    let lb = r.u();
                    let count = r.u();
                    let noreduce = r.n() == 1;
                    let eager = r.u();
                    let ered = r.n() == 1;
                    let re = rd_re(&mut r, nu);
                    let nt = r.u();
                    let mut tmpl = vec![];
                    for _ in 0..nt { if r.n() == 0 { tmpl.push(Ok(r.s())) } else { tmpl.push(Err(r.u())) } }
                    let mut cl = vec![];
                    let mut wb = false;
                    classes(&re, false, &mut wb, &mut cl);
                    if wb { cl.push(eng.word.clone()); }
                    let mut nl = vec![false; nu]; nl[0] = true; cl.push(nl);
                    let mut seen: HashMap<Vec<bool>, Ch> = HashMap::new();
                    let cls = (0..nu).map(|c| { if noreduce { return c as Ch; } let key: Vec<bool> = cl.iter().map(|s| s[c]).collect(); *seen.entry(key).or_insert(c as Ch) }).collect();
                    let ecls = if ered && !noreduce {
                        let mut ac = vec![eng.word.clone()];
                        let mut nl = vec![false; nu]; nl[0] = true; ac.push(nl);
                        all_classes(&re, &mut ac);
                        let mut seen: HashMap<Vec<bool>, Ch> = HashMap::new();
                        Some((0..nu).map(|c| { let key: Vec<bool> = ac.iter().map(|s| s[c]).collect(); *seen.entry(key).or_insert(c as Ch) }).collect())
                    } else { None };
                    eng.add(Kind::Sub { re, tmpl, lb, cls, count, eager, ecls })
                }
                2 => {
                    let k = r.u();
                    let mut mp: Vec<Vec<Ch>> = (0..nu).map(|c| vec![c as Ch]).collect();
                    for _ in 0..k { let c = r.u(); mp[c] = r.s(); }
                    eng.add(Kind::LMap(mp))
                }
                3 => {
                    let compose = r.n() == 1;
                    let mut ccc = vec![0u8; nu];
                    let mut dec: Vec<Vec<Ch>> = (0..nu).map(|c| vec![c as Ch]).collect();
                    let k = r.u(); for _ in 0..k { let c = r.u(); ccc[c] = r.n() as u8; }
                    let k = r.u(); for _ in 0..k { let c = r.u(); dec[c] = r.s(); }
                    let mut comp = Map::default();
                    let k = r.u(); for _ in 0..k { let a = r.u() as Ch; let b = r.u() as Ch; let c = r.u() as Ch; comp.insert((a, b), c); }
                    let bnd = r.set(nu);
                    eng.add(Kind::Norm { compose, ccc, dec, comp, bnd })
                }
                4 => { let x = r.s(); eng.add(Kind::Pre(x)) }
                5 => { let x = r.s(); eng.add(Kind::App(x)) }
                6 => { let c = r.u(); let seps = r.set(nu); let n = chains[c]; eng.add(Kind::Restart(n, seps)) }
                7 => { let x = r.s(); eng.add(Kind::Const(x)) }
                8 => { let a = r.u(); let b = r.u(); let (a, b) = (chains[a], chains[b]); eng.add(Kind::Fork(a, b)) }
                9 => { let sep = r.u() as Ch; let i = r.n() as i32; eng.add(Kind::SplitPick(sep, i)) }
                10 => { let k = r.u(); let v = (0..k).map(|_| { let x = r.s(); let y = r.s(); (x, y) }).collect(); eng.add(Kind::Multi(v)) }
                x => panic!("op {}", x),
            };
            ops.push(id);
        }
        let t = eng.tree(&ops);
        chains.push(t);
    }
    // domain
    let alpha = r.s();
    let na = alpha.len();
    let ns = r.u();
    let init = r.u() as u32;
    let mut d = Dfa { acc: vec![], tr: vec![], init };
    for _ in 0..ns { d.acc.push(r.n() == 1); d.tr.push((0..na).map(|_| r.n() as i32).collect()); }
    // path constraints
    let ncons = r.u();
    let mut cons: Vec<(usize, bool, u8, Vec<Ch>)> = vec![];
    for _ in 0..ncons { let c = r.u(); let pol = r.n() == 1; let kind = r.n() as u8; let x = r.s(); cons.push((chains[c], pol, kind, x)); }
    // query
    let qk = r.n();
    let maxst = r.u();
    let maxcex = r.u();
    let c1 = r.u();
    let m1 = chains[c1];
    let mut m2 = m1;
    let mut od = Dfa { acc: vec![], tr: vec![], init: 0 };
    if qk == 0 { let c2 = r.u(); m2 = chains[c2]; }
    if qk == 1 {
        let ns = r.u(); od.init = r.u() as u32;
        for _ in 0..ns {
            od.acc.push(r.n() == 1);
            let def = r.n() as i32;
            let mut row = vec![def; nu];
            let k = r.u(); for _ in 0..k { let c = r.u(); row[c] = r.n() as i32; }
            od.tr.push(row);
        }
    }
    if qk == 2 {
        // evaluate chain on listed words
        let k = r.u();
        for _ in 0..k {
            let w = r.s();
            let mut q = 0; let mut out: Vec<Ch> = vec![];
            for c in w { let (o, q2) = eng.step(m1, q, c); q = q2; out.extend_from_slice(&eng.outs.items[o as usize]); }
            let o = eng.flush(m1, q); out.extend_from_slice(&eng.outs.items[o as usize]);
            println!("E {}", out.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        }
        return;
    }
    // constraint monitor: state of KMP for 'contains', prefix for 'equals'
    // monitor state: (machine state, progress); progress for contains: len(x)+1 = found
    fn mon(progress: u32, kind: u8, x: &[Ch], out: &[Ch]) -> u32 {
        let n = x.len() as u32;
        let mut p = progress;
        for &c in out {
            if kind == 0 {
                if p == n { break; }
                // naive KMP
                let mut b: Vec<Ch> = x[..p as usize].to_vec(); b.push(c);
                let mut k = b.len();
                while k > 0 && b[b.len() - k..] != x[..k] { k -= 1; }
                p = k as u32;
            } else {
                if p < n && x[p as usize] == c { p += 1; } else { p = n + 1; }
            }
        }
        p
    }
    // product state key: [m1, m2, dfa, mis, delayA, delayB, cons...]
    let emp = eng.outs.put(vec![]);
    let mut key0 = vec![0u32, 0, d.init, 0, emp, emp];
    if qk == 1 { key0[1] = od.init; }
    for _ in &cons { key0.push(0); key0.push(0); }
    let mut keys = Arena::new(key0.len());
    let mut par: Vec<(u32, Ch)> = vec![];
    keys.put(&key0); par.push((u32::MAX, 0));
    let mut cex: Vec<Vec<Ch>> = vec![];
    let mut trans: u64 = 0;
    let mut head = 0usize;
    let mut unknown = false;
    let mut accepted: u64 = 0;
    let mut maxdelay = 0usize;
    let path = |par: &Vec<(u32, Ch)>, mut i: u32| -> Vec<Ch> {
        let mut v = vec![]; while par[i as usize].0 != u32::MAX { v.push(par[i as usize].1); i = par[i as usize].0; } v.reverse(); v };
    'outer: while head < keys.len() {
        let key = keys.get(head).to_vec();
        let ds = key[2] as usize;
        if d.acc[ds] {
            // end-of-word obligation
            let mut ok = true;
            for (j, (mc, pol, kind, x)) in cons.iter().enumerate() {
                let o = eng.flush(*mc, key[6 + 2 * j]);
                let p = mon(key[7 + 2 * j], *kind, x, &eng.outs.items[o as usize]);
                if (p as usize == x.len()) != *pol { ok = false; }
            }
            if ok {
                accepted += 1;
                let bad = if key[3] == 1 { true } else if qk == 0 {
                    let o1 = eng.flush(m1, key[0]); let o2 = eng.flush(m2, key[1]);
                    let mut a = eng.outs.items[key[4] as usize].clone(); a.extend_from_slice(&eng.outs.items[o1 as usize]);
                    let mut b = eng.outs.items[key[5] as usize].clone(); b.extend_from_slice(&eng.outs.items[o2 as usize]);
                    a != b
                } else {
                    let o1 = eng.flush(m1, key[0]);
                    let mut st = key[1] as i32;
                    for &c in &eng.outs.items[o1 as usize] { st = od.tr[st as usize][c as usize]; if st < 0 { break; } }
                    st < 0 || !od.acc[st as usize]
                };
                if bad { cex.push(path(&par, head as u32)); if cex.len() >= maxcex { break 'outer; } 
                    // do not explore beyond a failing word: its extensions are the same failure most of the time
                    head += 1; continue; }
            }
        }
        for (ai, &c) in alpha.iter().enumerate() {
            let nd = d.tr[ds][ai];
            if nd < 0 { continue; }
            trans += 1;
            let mut nk = key.clone();
            nk[2] = nd as u32;
            if key[3] == 0 {
                let (o1, q1) = eng.step(m1, key[0], c);
                nk[0] = q1;
                if qk == 0 {
                    let (o2, q2) = eng.step(m2, key[1], c);
                    nk[1] = q2;
                    if o1 != o2 || key[4] != emp || key[5] != emp {
                        let mut a = eng.outs.items[key[4] as usize].clone(); a.extend_from_slice(&eng.outs.items[o1 as usize]);
                        let mut b = eng.outs.items[key[5] as usize].clone(); b.extend_from_slice(&eng.outs.items[o2 as usize]);
                        let mut i = 0;
                        while i < a.len() && i < b.len() && a[i] == b[i] { i += 1; }
                        if i < a.len() && i < b.len() { nk[3] = 1; nk[0] = 0; nk[1] = 0; nk[4] = emp; nk[5] = emp; }
                        else {
                            let a2 = a[i..].to_vec(); let b2 = b[i..].to_vec();
                            if a2.len().max(b2.len()) > maxdelay && std::env::var("STRVC_DEBUG").is_ok() { let mut w = path(&par, head as u32); w.push(c); eprintln!("delay {} {} {:?} a={:?} b={:?}", a2.len(), b2.len(), w, a2, b2); }
                            maxdelay = maxdelay.max(a2.len()).max(b2.len());
                            nk[4] = eng.outs.put(a2); nk[5] = eng.outs.put(b2);
                        }
                    }
                } else {
                    let mut st = key[1] as i32;
                    for &x in &eng.outs.items[o1 as usize] { st = od.tr[st as usize][x as usize]; if st < 0 { break; } }
                    if st < 0 { nk[3] = 1; nk[0] = 0; nk[1] = 0; } else { nk[1] = st as u32; }
                }
            }
            for (j, (mc, _, kind, x)) in cons.iter().enumerate() {
                let (o, q) = eng.step(*mc, key[6 + 2 * j], c);
                nk[6 + 2 * j] = q;
                nk[7 + 2 * j] = mon(key[7 + 2 * j], *kind, x, &eng.outs.items[o as usize]);
            }
            if keys.put(&nk) {
                par.push((head as u32, c));
                if keys.len() >= maxst { unknown = true; break 'outer; }
            }
        }
        head += 1;
    }
    let verdict = if !cex.is_empty() { "CEX" } else if unknown { "UNKNOWN" } else { "PROVED" };
    println!("V {} {} {} {} {} {}", verdict, keys.len(), trans, accepted, maxdelay, eng.nodes.len());
    for w in cex { println!("C {}", w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")); }
}
