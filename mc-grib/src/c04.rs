//! C04: I/O failures are reported, never turn into different data, and leave the file usable.
use crate::{c03, obs, rdr::*};
use grib::{Grib2Read, Grib2SubmessageDecoder};
use mccore::{ensure, fail, guard, hash_of, Ctx, Leaf, Report};

/// Opening fails or gives the very file; then every submessage fails or gives its own data.
fn whole(cx: &mut Ctx, fs: &[c03::File]) -> Leaf {
    let k = cx.choose(fs.len());
    let f = &fs[k];
    let want = f.valid()?;
    let env = Env::new(cx, Policy::Fail);
    let rdr = Rdr::new(env.clone(), &f.bytes);
    let opened = guard("from_reader", || grib::from_reader(rdr).map_err(|e| obs::err(&e)))?;
    let log = || env.borrow().log.join("; ");
    let failed = env.borrow().failed;
    let g = match opened {
        Err(e) => {
            ensure!(failed > 0, format!("open {}", f.name), "file {}: rejected with {e} without any failure", f.name);
            ensure!(
                e == "ReadError",
                format!("open-error {} {}", f.name, log()),
                "file {}: {}: reported as {e}",
                f.name,
                log()
            );
            return Ok(hash_of(&(k, e)));
        }
        Ok(g) => g,
    };
    ensure!(
        failed == 0,
        format!("open-swallowed {} {}", f.name, log()),
        "file {}: {}: opening went on as if nothing had happened, with {} submessages (of {})",
        f.name,
        log(),
        g.len(),
        want.len
    );
    // everything known from opening is right even if decoding fails
    let mut before = 0;
    let mut outcome = vec![];
    let got = guard("observe", || {
        let mut subs: Vec<(obs::SubObs, usize)> = vec![];
        for (index, s) in &g {
            let mut m = obs::meta(index, &s);
            m.values = obs::values(s);
            let now = env.borrow().failed;
            subs.push((m, now - before));
            before = now;
        }
        (g.len(), subs, g.sections().map(obs::SectObs::of).collect::<Vec<_>>())
    })?;
    ensure!(
        got.0 == want.len && got.2 == want.sections && got.1.len() == want.subs.len(),
        format!("shape {} {}", f.name, log()),
        "file {}: {}: different submessages or sections",
        f.name,
        log()
    );
    for ((m, nfail), w) in got.1.iter().zip(&want.subs) {
        if *nfail == 0 {
            ensure!(
                m == w,
                format!("other {} {}", f.name, log()),
                "file {}: {}: submessage {:?}, whose own reads did not fail, differs: {:?} instead of {:?}",
                f.name,
                log(),
                m.index,
                m,
                w
            );
        } else {
            let mut m2 = m.clone();
            m2.values = w.values.clone();
            ensure!(
                m2 == *w,
                format!("meta {} {}", f.name, log()),
                "file {}: {}: metadata of submessage {:?} differ",
                f.name,
                log(),
                m.index
            );
            match &m.values {
                Err(e) if e == "ReadError" => {}
                v => {
                    return fail(
                        format!("swallowed {} {}", f.name, log()),
                        format!(
                            "file {}: {}: decoding submessage {:?} gives {v:?} instead of an I/O error",
                            f.name,
                            log(),
                            m.index
                        ),
                    )
                }
            }
        }
        outcome.push((m.index, m.values.is_ok()));
    }
    // the file stays usable
    env.borrow_mut().policy = Policy::Faithful;
    let again = guard("observe again", || obs::observe(&g))?;
    ensure!(
        again == *want,
        format!("after {} {}", f.name, log()),
        "file {}: after {}, a faithful second reading gives {} instead of {}",
        f.name,
        log(),
        c03::brief(&Ok(again)),
        c03::brief(&f.want)
    );
    Ok(hash_of(&(k, outcome)))
}

/// A failed decoding of one submessage, then any order of decodings.
fn retry(cx: &mut Ctx, f: &c03::File, depth: usize) -> Leaf {
    let want = f.valid()?;
    let env = Env::new(cx, Policy::Faithful);
    let rdr = Rdr::new(env.clone(), &f.bytes);
    let g = guard("from_reader", || grib::from_reader(rdr).map_err(|e| obs::err(&e)))?.unwrap();
    env.borrow_mut().policy = Policy::Fail;
    let mut hist = vec![];
    for _ in 0..depth {
        let n = env.borrow_mut().cx.choose(want.len);
        hist.push(n);
        let before = env.borrow().failed;
        let got = guard("decode", || {
            let (_, s) = g.iter().nth(n).unwrap();
            obs::values(s)
        })?;
        let failed = env.borrow().failed > before;
        let w = if failed { Err("ReadError".to_string()) } else { want.subs[n].values.clone() };
        ensure!(
            got == w,
            format!("retry {hist:?} {}", env.borrow().log.join("; ")),
            "decodings {hist:?} with {}: the last gives {got:?} instead of {w:?}",
            env.borrow().log.join("; ")
        );
    }
    let failed = env.borrow().failed;
    Ok(hash_of(&(hist, failed)))
}

/// The raw section reading operations of the reader.
fn raw(cx: &mut Ctx, f: &c03::File) -> Leaf {
    let want = f.valid()?;
    let secs: Vec<&obs::SectObs> = want.sections.iter().filter(|s| s.num != 0 && s.num != 8).collect();
    let k = cx.choose(secs.len());
    let s = secs[k];
    let info = grib::SectionInfo {
        num: s.num,
        offset: s.offset,
        size: s.size,
        body: None,
    };
    let env = Env::new(cx, Policy::Fail);
    let mut r = grib::SeekableGrib2Reader::new(Rdr::new(env.clone(), &f.bytes));
    let got = guard("read_sect_payload_as_slice", || r.read_sect_payload_as_slice(&info).map_err(|e| obs::perr(&e)))?;
    let failed = env.borrow().failed > 0;
    match got {
        Ok(b) => ensure!(
            !failed && b[..] == f.bytes[s.offset + 5..s.offset + s.size],
            format!("raw {k}"),
            "section {} at {}: failure {failed}, wrong content {b:?}",
            s.num,
            s.offset
        ),
        Err(e) => ensure!(failed && e == "ReadError", format!("raw {k}"), "section {} at {}: {e}", s.num, s.offset),
    }
    env.borrow_mut().policy = Policy::Faithful;
    let again = guard("read_sect_payload_as_slice", || r.read_sect_payload_as_slice(&info).map_err(|e| obs::perr(&e)))?;
    ensure!(
        again.as_deref() == Ok(&f.bytes[s.offset + 5..s.offset + s.size]),
        format!("raw-again {k}"),
        "section {} at {}: second reading gives {again:?}",
        s.num,
        s.offset
    );
    Ok(hash_of(&(k, failed)))
}

/// A decoder made before a failure elsewhere keeps its data.
fn kept(cx: &mut Ctx, f: &c03::File) -> Leaf {
    let want = f.valid()?;
    let env = Env::new(cx, Policy::Faithful);
    let g = guard("from_reader", || grib::from_reader(Rdr::new(env.clone(), &f.bytes)).map_err(|e| obs::err(&e)))?.unwrap();
    let a = env.borrow_mut().cx.choose(want.len);
    let b = env.borrow_mut().cx.choose(want.len);
    let taken = env.borrow_mut().cx.choose(3);
    let got = guard("decode", || {
        let d = Grib2SubmessageDecoder::from(g.iter().nth(a).unwrap().1).map_err(|e| obs::err(&e));
        let d = match d {
            Ok(d) => d,
            Err(e) => return Err(e),
        };
        let mut it = match d.dispatch() {
            Ok(i) => i,
            Err(e) => return Err(obs::err(&e)),
        };
        let mut v: Vec<u32> = it.by_ref().take(taken).map(obs::bits).collect();
        env.borrow_mut().policy = Policy::Fail;
        let _ = obs::values(g.iter().nth(b).unwrap().1);
        v.extend(it.take(obs::CAP).map(obs::bits));
        Ok(v)
    })?;
    ensure!(
        got == want.subs[a].values,
        format!("kept {a} {b} {taken}"),
        "decoding {a}, interrupted after {taken} values by a decoding of {b} with {}: {got:?} instead of {:?}",
        env.borrow().log.join("; "),
        want.subs[a].values
    );
    let failed = env.borrow().failed;
    Ok(hash_of(&(a, b, failed)))
}

pub fn run(rep: &mut Report) {
    rep.rule = "Every execution of open, list, describe, coordinates and decode over the sample files in which up to the given number of read or seek calls fail (three kinds of error); each operation must report its failure or give exactly the data of a fault-free run, and a fault-free re-reading must give everything".into();
    let fs: Vec<c03::File> = c03::files().into_iter().filter(|f| f.is_valid).collect();
    rep.explore("one-failure", 1, |cx| whole(cx, &fs));
    let some: Vec<c03::File> = c03::files()
        .into_iter()
        .filter(|f| f.is_valid)
        .collect();
    rep.explore("two-failures", 2, |cx| whole(cx, &some));
    rep.explore("three-failures", 3, |cx| whole(cx, &some));
    if !rep.quick() {
        rep.explore("four-failures", 4, |cx| whole(cx, &some));
    }
    let multi = c03::files().into_iter().find(|f| f.name == "multi").unwrap();
    let d = rep.tier(5, 6);
    rep.explore("retry", 2, |cx| retry(cx, &multi, d));
    rep.explore("raw", 1, |cx| raw(cx, &multi));
    rep.explore("kept", 2, |cx| kept(cx, &multi));
}
