//! C36: everything obtained from a file may be held together and used in any order.
use crate::{c08, obs};
use grib::*;
use mccore::{fail, guard, hash_of, Ctx, Leaf, Report};
use std::io::{BufReader, Cursor};

type Stream<'a> = Box<dyn Iterator<Item = u64> + 'a>;

/// A stream in use, what it is to give, and how much of that it has given.
struct Held<'a> {
    name: String,
    it: Stream<'a>,
    want: Vec<u64>,
    at: usize,
}
impl Held<'_> {
    fn step(&mut self) -> Result<(), String> {
        let (got, want) = (self.it.next(), self.want.get(self.at).copied());
        if got != want {
            return Err(format!("item {} of {} is {got:?}, not {want:?}", self.at, self.name));
        }
        self.at += 1;
        Ok(())
    }
    fn drain(&mut self) -> Result<(), String> {
        while self.at <= self.want.len() {
            self.step()?;
        }
        Ok(())
    }
}

fn pair(p: (f32, f32)) -> u64 {
    (p.0.to_bits() as u64) << 32 | p.1.to_bits() as u64
}

/// All that is in use. Decoders must be dropped after the streams that look into them.
struct World<'a, R> {
    iters: Vec<(SubmessageIterator<'a, R>, usize, usize)>,
    subs: Vec<(usize, usize, SubMessage<'a, R>)>,
    streams: Vec<Held<'a>>,
    decoders: Vec<Box<Grib2SubmessageDecoder>>,
}

const SUBS: usize = 3;
const STREAMS: usize = 2;

/// Does things in an order chosen until the depth is reached, then finishes what is held.
fn live<R: Grib2Read>(cx: &mut Ctx, gs: &[&Grib2<R>], fs: &[&c08::File], depth: usize, log: &mut Vec<String>) -> Result<(), String> {
    let mut w = World { iters: vec![], subs: vec![], streams: vec![], decoders: vec![] };
    for k in 0..2 {
        let f = k % gs.len();
        w.iters.push((gs[f].iter(), f, 0));
    }
    let want = |f: usize, k: usize| -> &obs::SubObs { &fs[f].want()[k] };
    for _ in 0..depth {
        // what can be done now
        let mut ops: Vec<(u8, usize)> = vec![];
        for k in 0..w.iters.len() {
            if w.subs.len() < SUBS {
                ops.push((0, k));
            }
        }
        for k in 0..w.subs.len() {
            ops.push((1, k));
            ops.push((2, k));
            if w.streams.len() < STREAMS {
                ops.push((3, k));
                ops.push((4, k));
            }
        }
        for k in 0..w.streams.len() {
            ops.push((5, k));
            ops.push((6, k));
        }
        let (op, k) = ops[cx.choose(ops.len())];
        log.push(format!("{}{k}", ["next of iterator ", "look at submessage ", "drop submessage ", "decode submessage ", "coordinates of submessage ", "step stream ", "finish stream "][op as usize]));
        match op {
            0 => {
                let (it, f, at) = &mut w.iters[k];
                let expected = fs[*f].want().get(*at);
                match (it.next(), expected) {
                    (None, None) => {}
                    (Some((i, s)), Some(x)) => {
                        if i != x.index {
                            return Err(format!("submessage {i:?} instead of {:?}", x.index));
                        }
                        w.subs.push((*f, *at, s));
                        *at += 1;
                    }
                    (a, _) => return Err(format!("iterator at {at}: {:?}", a.map(|a| a.0))),
                }
            }
            1 => {
                let (f, at, s) = &w.subs[k];
                let x = want(*f, *at);
                let mut m = obs::meta(x.index, s);
                m.values = x.values.clone();
                if m != *x {
                    return Err(format!("submessage {:?} reads {m:?}, not {x:?}", x.index));
                }
            }
            2 => {
                w.subs.remove(k);
            }
            3 => {
                let (f, at, s) = w.subs.remove(k);
                let x = want(f, at);
                let name = format!("values of {:?}", x.index);
                let d = match (Grib2SubmessageDecoder::from(s).map_err(|e| obs::err(&e)), &x.values) {
                    (Ok(d), _) => Box::new(d),
                    (Err(e), Err(y)) if e == *y => continue,
                    (Err(e), _) => return Err(format!("{name}: {e}")),
                };
                // The box stays where it is until the streams are gone (see World).
                let held: &'static Grib2SubmessageDecoder = unsafe { &*(&*d as *const _) };
                w.decoders.push(d);
                match (held.dispatch().map_err(|e| obs::err(&e)), &x.values) {
                    (Ok(it), Ok(v)) => w.streams.push(Held {
                        name,
                        it: Box::new(it.map(|v| obs::bits(v) as u64)),
                        want: v.iter().map(|v| *v as u64).collect(),
                        at: 0,
                    }),
                    (Err(e), Err(y)) if e == *y => {}
                    (a, b) => return Err(format!("{name}: {:?}, not {b:?}", a.map(|_| "decoded"))),
                }
            }
            4 => {
                let (f, at, s) = &w.subs[k];
                let x = want(*f, *at);
                match (s.latlons().map_err(|e| obs::err(&e)), &x.latlons) {
                    (Ok(it), Ok(v)) => w.streams.push(Held {
                        name: format!("coordinates of {:?}", x.index),
                        it: Box::new(it.map(pair)),
                        want: v.iter().map(|v| (v.0 as u64) << 32 | v.1 as u64).collect(),
                        at: 0,
                    }),
                    (Err(e), Err(y)) if e == *y => {}
                    (a, b) => return Err(format!("coordinates of {:?}: {:?}, not {:?}", x.index, a.map(|_| "some"), b.as_ref().map(|_| "some"))),
                }
            }
            5 => w.streams[k].step()?,
            _ => {
                let mut s = w.streams.remove(k);
                s.drain()?;
            }
        }
    }
    for s in &mut w.streams {
        s.drain()?;
    }
    for (f, at, s) in w.subs.drain(..) {
        let x = want(f, at);
        let mut m = obs::meta(x.index, &s);
        m.values = obs::values(s);
        if m != *x {
            return Err(format!("at last, submessage {:?} reads {m:?}, not {x:?}", x.index));
        }
    }
    Ok(())
}

fn held(cx: &mut Ctx, fs: &[c08::File], depth: usize) -> Leaf {
    let f = &fs[cx.choose(fs.len())];
    let other = cx.choose(2);
    let buffered = cx.choose(2) == 1;
    let two: Vec<&c08::File> = if other == 1 { vec![f, &fs[1]] } else { vec![f] };
    let mut log = vec![];
    let r = guard("holding and using", || {
        if buffered {
            let gs: Vec<_> = two.iter().map(|f| grib::from_reader(BufReader::with_capacity(9, Cursor::new(&f.bytes))).map_err(|e| obs::err(&e))).collect::<Result<_, _>>()?;
            live(cx, &gs.iter().collect::<Vec<_>>(), &two, depth, &mut log)
        } else {
            let gs: Vec<_> = two.iter().map(|f| grib::from_slice(&f.bytes).map_err(|e| obs::err(&e))).collect::<Result<_, _>>()?;
            live(cx, &gs.iter().collect::<Vec<_>>(), &two, depth, &mut log)
        }
    });
    let what = || format!("{}{}, read from {}: {log:?}", f.name, if other == 1 { format!(" and {}", fs[1].name) } else { String::new() }, if buffered { "a small buffer" } else { "a slice" });
    match r {
        Ok(Ok(())) => Ok(hash_of(&log)),
        Ok(Err(m)) => fail("what is held together is not independent", format!("{}: {m}", what())),
        Err(mut e) => {
            e.msg = format!("{}: {}", what(), e.msg);
            Err(e)
        }
    }
}

const ADAPTORS: [&str; 22] = [
    "last", "collect", "count", "zip with itself", "zip with the next", "peekable", "max_by_key", "min_by_key", "reduce", "fold into a list", "skip", "step_by", "take", "chain",
    "partition", "unzip", "filter", "enumerate", "collect, sorted backwards", "scan", "find", "nth of the rest",
];

/// The adaptors of the standard library on the iterator of submessages.
fn adapted<R: Grib2Read>(g: &Grib2<R>, which: usize, n: usize) -> Vec<((usize, usize), SubMessage<'_, R>)> {
    type Item<'a, R> = ((usize, usize), SubMessage<'a, R>);
    let it = g.iter();
    let key = |x: &Item<R>| x.0;
    match which {
        0 => it.last().into_iter().collect(),
        1 => it.collect(),
        2 => {
            let c = it.count();
            g.iter().take(c).collect()
        }
        3 => it.zip(g).flat_map(|(a, b)| [a, b]).collect(),
        4 => it.zip(g.iter().skip(n)).flat_map(|(a, b)| [a, b]).collect(),
        5 => {
            let mut p = it.peekable();
            let mut v: Vec<Item<R>> = vec![];
            while let Some(x) = p.next() {
                if p.peek().is_some_and(|y| key(y) < key(&x)) {
                    return v;
                }
                v.push(x);
            }
            v
        }
        6 => it.max_by_key(key).into_iter().collect(),
        7 => it.min_by_key(key).into_iter().collect(),
        8 => it.reduce(|a, b| if n % 2 == 0 { a } else { b }).into_iter().collect(),
        9 => it.fold(vec![], |mut v, x| {
            v.push(x);
            v
        }),
        10 => it.skip(n).collect(),
        11 => it.step_by(n + 1).collect(),
        12 => it.take(n).collect(),
        13 => it.chain(g.submessages()).collect(),
        14 => {
            let (mut a, b): (Vec<_>, Vec<_>) = it.partition(|x| (x.0 .0 + x.0 .1) % 2 == 0);
            a.extend(b);
            a
        }
        15 => {
            let (a, b): (Vec<_>, Vec<_>) = it.unzip();
            a.into_iter().zip(b).collect()
        }
        16 => it.filter(|x| (x.0 .0 + x.0 .1) % 2 == n % 2).collect(),
        17 => it.enumerate().filter(|(k, _)| k % 2 == n % 2).map(|x| x.1).collect(),
        18 => {
            let mut v: Vec<_> = it.collect();
            v.sort_by_key(|x| std::cmp::Reverse(key(x)));
            v
        }
        19 => it.scan(0, |_, x| Some(x)).collect(),
        20 => {
            let mut it = it;
            let a = it.find(|x| x.0 .0 + x.0 .1 >= n);
            let b = it.next();
            a.into_iter().chain(b).collect()
        }
        _ => {
            let mut it = it;
            let a = it.next();
            let b = it.nth(n);
            a.into_iter().chain(b).collect()
        }
    }
}

/// Indices of what an adaptor is to give, from a list of all.
fn expected(all: &[(usize, usize)], which: usize, n: usize) -> Vec<(usize, usize)> {
    let it = || all.iter().copied();
    let even = |x: &(usize, usize)| (x.0 + x.1) % 2 == 0;
    match which {
        0 | 6 => it().last().into_iter().collect(),
        7 => it().next().into_iter().collect(),
        8 if n % 2 == 0 => it().next().into_iter().collect(),
        8 => it().last().into_iter().collect(),
        3 => it().flat_map(|x| [x, x]).collect(),
        4 => it().zip(it().skip(n)).flat_map(|(a, b)| [a, b]).collect(),
        10 => it().skip(n).collect(),
        11 => it().step_by(n + 1).collect(),
        12 => it().take(n).collect(),
        13 => it().chain(it()).collect(),
        14 => it().filter(even).chain(it().filter(|x| !even(x))).collect(),
        16 => it().filter(|x| (x.0 + x.1) % 2 == n % 2).collect(),
        17 => it().enumerate().filter(|(k, _)| k % 2 == n % 2).map(|x| x.1).collect(),
        18 => it().rev().collect(),
        20 => match all.iter().position(|x| x.0 + x.1 >= n) {
            None => vec![],
            Some(p) => all[p..all.len().min(p + 2)].to_vec(),
        },
        21 => all.iter().take(1).chain(all.iter().skip(1).nth(n)).copied().collect(),
        _ => all.to_vec(),
    }
}

fn adaptors(cx: &mut Ctx, fs: &[c08::File], most: usize) -> Leaf {
    let f = &fs[cx.choose(fs.len())];
    let which = cx.choose(ADAPTORS.len());
    let n = cx.choose(most);
    let backwards = cx.choose(2) == 1;
    let all: Vec<_> = f.want().iter().map(|s| s.index).collect();
    let name = || format!("{}: {} with {n}, used {}", f.name, ADAPTORS[which], if backwards { "backwards" } else { "in order" });
    let r = guard("adaptors", || {
        let g = grib::from_slice(&f.bytes).map_err(|e| obs::err(&e))?;
        let mut got = adapted(&g, which, n);
        let ids: Vec<_> = got.iter().map(|x| x.0).collect();
        let want = expected(&all, which, n);
        if ids != want {
            return Err(format!("submessages {ids:?}, not {want:?}"));
        }
        if backwards {
            got.reverse();
        }
        for (i, s) in got {
            let x = f.want().iter().find(|x| x.index == i).unwrap();
            let mut m = obs::meta(i, &s);
            m.values = obs::values(s);
            if m != *x {
                return Err(format!("submessage {i:?} reads {m:?}, not {x:?}"));
            }
        }
        Ok(ids)
    });
    match r {
        Ok(Ok(ids)) => Ok(hash_of(&(which, ids))),
        Ok(Err(m)) => fail("an adaptor gives something else", format!("{}: {m}", name())),
        Err(mut e) => {
            e.msg = format!("{}: {}", name(), e.msg);
            Err(e)
        }
    }
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every order of obtaining, holding, using and dropping submessages, decoders and streams of values and coordinates of one or two files up to the depth; every adaptor of the standard library on the iterator of submessages; each thing compared with what it is when it is alone".into();
    let fs = c08::files();
    rep.explore("adaptors", 0, |cx| adaptors(cx, &fs, 6));
    let depth = rep.tier(6, 7);
    rep.explore(&format!("held, depth {depth}"), 0, |cx| held(cx, &fs, depth));
}
