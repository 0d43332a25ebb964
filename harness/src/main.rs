//! Executes commands against the real crate and records what it did, one JSON event per command.
//! Input (stdin): one command per line, space separated; texts in hex, numbers as 16 hex digits of
//! their bits. Output (stdout): one JSON object per command, flushed, in command order.
//! Numbers are recorded as [hi, lo], the signed 32-bit halves of the bit pattern (see Float64.tla).
use chrono::prelude::*;
use satellite::io::{self, Satrec, SatrecParseError};
use satellite::propogation::dpper::DpperOpsMode;
#[cfg(feature = "stages")]
use satellite::propogation::{
    dpper::{dpper, DpperInit, DpperOptions},
    dscom::{dscom, DscomOptions},
    dsinit::{dsinit, DsinitOptions},
    initl::{initl, InitlOptions},
};
#[cfg(any(feature = "integrator", feature = "stages"))]
use satellite::propogation::dspace::{dspace, DspaceOptions};
use satellite::propogation::initl::InitlMethod;
use satellite::propogation::sgp4::{sgp4, SGP4Error, SGP4Result};
use satellite::propogation::sgp4init::{sgp4init, SGP4InitOptions};
use satellite::propogation::{gstime, propogate_datetime};
use satellite::{constants, doppler_factor, ext, transforms};
use satellite::{Bearing, Geodedic, TopoCentric, Vec3};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- encoding
fn num(x: f64) -> String {
    let b = if x.is_nan() { f64::NAN.to_bits() & 0x7fff_ffff_ffff_ffff } else { x.to_bits() };
    format!("[{},{}]", (b >> 32) as u32 as i32, b as u32 as i32)
}
/// Integers as TLC can hold them.
fn int(x: impl TryInto<i32> + PartialOrd + Default) -> i32 {
    let low = x < Default::default();
    x.try_into().unwrap_or(if low { -i32::MAX } else { i32::MAX })
}
fn nums(xs: &[f64]) -> String {
    let v: Vec<String> = xs.iter().map(|x| num(*x)).collect();
    format!("[{}]", v.join(","))
}
fn bytes(s: &str) -> String {
    let v: Vec<String> = s.bytes().map(|b| b.to_string()).collect();
    format!("[{}]", v.join(","))
}
fn unhex(s: &str) -> String {
    if s == "-" {
        return String::new();
    }
    let b: Vec<u8> = (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect();
    String::from_utf8(b).expect("commands carry valid UTF-8")
}
fn f(s: &str) -> f64 {
    f64::from_bits(u64::from_str_radix(s, 16).unwrap())
}
fn guarded<T>(g: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(g)).ok()
}

// ---------------------------------------------------------------- records
#[cfg(feature = "fields")]
macro_rules! float_fields {
    ($m:ident, $r:expr) => {
        $m!($r; epochdays ndot nddot bstar inclo nodeo ecco mo no a argpo alta altp jdsatepoch
            aycof con41 cc1 cc4 cc5 d2 d3 d4 delmo eta argpdot omgcof sinmao t t2cof t3cof t4cof
            t5cof x1mth2 x7thm1 mdot nodedot xlcof xmcof nodecf irez d2201 d2211 d3210 d3222 d4410
            d4422 d5220 d5232 d5421 d5433 dedt del1 del2 del3 didt dmdt dnodt domdt e3 ee2 peo pgho
            pho pinco plo se2 se3 sgh2 sgh3 sgh4 sh2 sh3 si2 si3 sl2 sl3 sl4 gsto xfact xgh2 xgh3
            xgh4 xh2 xh3 xi2 xi3 xl2 xl3 xl4 xlamo zmol zmos atime xli xni)
    };
}
#[cfg(not(feature = "fields"))]
macro_rules! float_fields {
    ($m:ident, $r:expr) => {
        $m!($r; epochdays ndot nddot bstar inclo nodeo ecco mo no a alta altp jdsatepoch gsto)
    };
}
macro_rules! collect {
    ($r:expr; $($n:ident)*) => { vec![$($r.$n),*] };
}
/// Fingerprint of everything the record holds except its name (and, if asked, the error flag).
fn fingerprint(r: &Satrec) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    let mut eat = |b: u64| {
        for k in 0..8 {
            h ^= (b >> (8 * k)) & 0xff;
            h = h.wrapping_mul(0x100000001b3);
        }
    };
    let fl: Vec<f64> = float_fields!(collect, r);
    for x in fl {
        eat(if x.is_nan() { 1 } else { x.to_bits() });
    }
    eat(r.error as u64);
    eat(r.epochyr as u64);
    eat(r.isimp as u64);
    eat((r.method == InitlMethod::D) as u64);
    eat((r.operationmode == DpperOpsMode::A) as u64);
    for b in r.satnum.bytes() {
        eat(b as u64);
    }
    format!("{:016x}", h)
}
fn rec_json(r: &Satrec) -> String {
    let mut s = String::from("{\"k\":\"rec\"");
    write!(s, ",\"named\":{},\"name\":{}", r.name.is_some(), bytes(r.name.as_deref().unwrap_or(""))).unwrap();
    write!(s, ",\"satnum\":{},\"epochyr\":{},\"error\":{}", bytes(&r.satnum), int(r.epochyr), int(r.error)).unwrap();
    for (n, x) in [
        ("epochdays", r.epochdays), ("ndot", r.ndot), ("nddot", r.nddot), ("bstar", r.bstar),
        ("inclo", r.inclo), ("nodeo", r.nodeo), ("ecco", r.ecco), ("argpo", r.argpo), ("mo", r.mo),
        ("no", r.no), ("a", r.a), ("alta", r.alta), ("altp", r.altp), ("jd", r.jdsatepoch),
    ] {
        write!(s, ",\"{}\":{}", n, num(x)).unwrap();
    }
    write!(s, ",\"fp\":\"{}\"}}", fingerprint(r)).unwrap();
    s
}
fn err_json(e: &SatrecParseError) -> String {
    match e {
        SatrecParseError::FloatParseError(n, lo, hi, t) => format!(
            "{{\"k\":\"float\",\"name\":\"{}\",\"lo\":{},\"hi\":{},\"text\":{}}}", n, int(*lo), int(*hi), bytes(t)),
        SatrecParseError::IntParseError(n, lo, hi, t) => format!(
            "{{\"k\":\"int\",\"name\":\"{}\",\"lo\":{},\"hi\":{},\"text\":{}}}", n, int(*lo), int(*hi), bytes(t)),
        SatrecParseError::CompoundError(n, t) => format!(
            "{{\"k\":\"compound\",\"name\":\"{}\",\"lo\":0,\"hi\":0,\"text\":{}}}", n, bytes(t)),
        SatrecParseError::Sgp4InitError(e) => format!("{{\"k\":\"init\",\"code\":{}}}", int(e.code())),
        SatrecParseError::InvalidTLELineCheckFailed => "{\"k\":\"linecheck\"}".to_string(),
        SatrecParseError::InvalidTLEBadLineCount => "{\"k\":\"linecount\"}".to_string(),
        SatrecParseError::SatrecMultiError(i, e) => {
            format!("{{\"k\":\"multi\",\"at\":{},\"cause\":{}}}", int(*i), err_json(e))
        }
        #[allow(unreachable_patterns)]
        _ => "{\"k\":\"unknown\"}".to_string(),
    }
}
/// Distinct texts in order of appearance, numbered from 1 (0: beyond the first 400).
#[derive(Default)]
struct Kinds {
    all: Vec<String>,
    seen: HashMap<String, usize>,
}
impl Kinds {
    fn of(&mut self, s: String) -> usize {
        if let Some(k) = self.seen.get(&s) {
            return *k;
        }
        if self.all.len() == 400 {
            return 0;
        }
        self.all.push(s.clone());
        self.seen.insert(s, self.all.len());
        self.all.len()
    }
}
fn parse_out(r: Option<Result<Satrec, SatrecParseError>>) -> String {
    match r {
        None => "{\"k\":\"panic\"}".to_string(),
        Some(Ok(r)) => rec_json(&r),
        Some(Err(e)) => err_json(&e),
    }
}
fn prop_out(r: &Option<Result<SGP4Result, SGP4Error>>) -> String {
    match r {
        None => "{\"k\":\"panic\"}".to_string(),
        Some(Ok(p)) => format!(
            "{{\"k\":\"ok\",\"r\":{},\"v\":{}}}",
            nums(&[p.position.x, p.position.y, p.position.z]),
            nums(&[p.velocity.x, p.velocity.y, p.velocity.z])
        ),
        Some(Err(e)) => format!("{{\"k\":\"err\",\"code\":{}}}", int(e.code())),
    }
}
fn regime(r: &Satrec) -> String {
    format!(
        "{{\"deep\":{},\"isimp\":{},\"irez\":{},\"gsto\":{},\"n\":{},\"modea\":{}}}",
        r.method == InitlMethod::D, int(r.isimp as i64), int(r.irez as i64), num(r.gsto), num(r.no),
        r.operationmode == DpperOpsMode::A
    )
}

struct World {
    slots: HashMap<String, Satrec>,
    integ: HashMap<String, (f64, f64, f64)>,
}

fn utc(a: &[&str]) -> DateTime<Utc> {
    let p = |i: usize| a[i].parse::<i64>().unwrap();
    Utc.from_utc_datetime(
        &NaiveDate::from_ymd_opt(p(0) as i32, p(1) as u32, p(2) as u32)
            .unwrap()
            .and_hms_nano_opt(p(3) as u32, p(4) as u32, p(5) as u32, p(6) as u32)
            .unwrap(),
    )
}
fn utc_json(a: &[&str]) -> String {
    format!("[{}]", a[0..7].join(","))
}
fn vec3(a: &[&str]) -> Vec3 {
    Vec3 { x: f(a[0]), y: f(a[1]), z: f(a[2]) }
}
fn ins(a: &[&str]) -> String {
    nums(&a.iter().map(|s| f(s)).collect::<Vec<f64>>())
}
fn vals(r: Option<Vec<f64>>) -> String {
    match r {
        None => "{\"k\":\"panic\"}".to_string(),
        Some(v) => format!("{{\"k\":\"val\",\"x\":{}}}", nums(&v)),
    }
}

#[cfg(feature = "integrator")]
fn integrate(r: &Satrec, t: f64, st: (f64, f64, f64)) -> [f64; 9] {
    let o = dspace(DspaceOptions {
        irez: r.irez, d2201: r.d2201, d2211: r.d2211, d3210: r.d3210, d3222: r.d3222, d4410: r.d4410,
        d4422: r.d4422, d5220: r.d5220, d5232: r.d5232, d5421: r.d5421, d5433: r.d5433, dedt: r.dedt,
        del1: r.del1, del2: r.del2, del3: r.del3, didt: r.didt, dmdt: r.dmdt, dnodt: r.dnodt,
        domdt: r.domdt, argpo: r.argpo, argpdot: r.argpdot, t, tc: t, gsto: r.gsto, xfact: r.xfact,
        xlamo: r.xlamo, no: r.no, atime: st.0, em: r.ecco, argpm: r.argpo, inclm: r.inclo, xli: st.1,
        mm: r.mo, xni: st.2, nodem: r.nodeo, nm: r.no,
    });
    [o.atime, o.xli, o.xni, o.em, o.argpm, o.inclm, o.mm, o.nodem, o.nm]
}

#[cfg(feature = "stages")]
macro_rules! named {
    ($r:expr; $($n:ident)*) => { vec![$((stringify!($n), $r.$n)),*] };
}
#[cfg(feature = "stages")]
fn fields(r: Option<Vec<(&'static str, f64)>>) -> String {
    match r {
        None => "{\"k\":\"panic\"}".to_string(),
        Some(v) => {
            let x: Vec<String> = v.iter().map(|(n, x)| format!("\"{}\":{}", n, num(*x))).collect();
            format!("{{\"k\":\"val\",\"x\":{{{}}}}}", x.join(","))
        }
    }
}
/// The stages of the theory, each called on its own.
#[cfg(feature = "stages")]
fn stage(w: &mut World, a: &[&str]) -> String {
    let n = |i: usize| f(a[i]);
    let mode = |s: &str| if s == "a" { DpperOpsMode::A } else { DpperOpsMode::I };
    match a[0] {
        // mode epoch ecco inclo no
        "SINITL" => format!("\"mode\":\"{}\",\"in\":{},\"out\":{}", a[1], ins(&a[2..]), fields(guarded(|| {
            let o = initl(InitlOptions {
                opsmode: mode(a[1]), method: InitlMethod::N, satn: "00000".to_string(),
                epoch: n(2), ecco: n(3), inclo: n(4), no: n(5),
            });
            named!(o; no ainv ao con41 con42 cosio cosio2 eccsq omeosq posq rp rteosq sinio gsto)
        }))),
        // epoch ep argpp tc inclp nodep np
        "SDSCOM" => format!("\"in\":{},\"out\":{}", ins(&a[1..]), fields(guarded(|| {
            let o = dscom(DscomOptions {
                epoch: n(1), ep: n(2), argpp: n(3), tc: n(4), inclp: n(5), nodep: n(6), np: n(7),
            });
            named!(o; snodm cnodm sinim cosim sinomm cosomm day e3 ee2 em emsq gam peo pgho pho pinco plo rtemsq
                se2 se3 sgh2 sgh3 sgh4 sh2 sh3 si2 si3 sl2 sl3 sl4 s1 s2 s3 s4 s5 s6 s7 ss1 ss2 ss3 ss4 ss5 ss6 ss7
                sz1 sz2 sz3 sz11 sz12 sz13 sz21 sz22 sz23 sz31 sz32 sz33 xgh2 xgh3 xgh4 xh2 xh3 xi2 xi3 xl2 xl3 xl4
                nm z1 z2 z3 z11 z12 z13 z21 z22 z23 z31 z32 z33 zmol zmos)
        }))),
        // slot init mode t ep inclp nodep argpp mp
        "SDPPER" => {
            let mut rec = w.slots[a[1]].clone();
            rec.t = n(4);
            let out = guarded(|| {
                let o = dpper(&rec, DpperOptions {
                    init: if a[2] == "y" { DpperInit::Y } else { DpperInit::N },
                    opsmode: mode(a[3]), inclo: rec.inclo,
                    ep: n(5), inclp: n(6), nodep: n(7), argpp: n(8), mp: n(9),
                });
                named!(o; ep inclp nodep argpp mp)
            });
            format!("\"init\":{},\"mode\":\"{}\",\"in\":{},\"out\":{}", a[2] == "y", a[3], ins(&a[4..]), fields(out))
        }
        // epoch ecco argpo inclo mo no nodeo gsto mdot nodedot xpidot em nm inclm argpm nodem mm t tc
        "SDSINIT" => format!("\"in\":{},\"out\":{}", ins(&a[1..]), fields(guarded(|| {
            let c = dscom(DscomOptions {
                epoch: n(1), ep: n(12), argpp: n(3), tc: 0.0, inclp: n(4), nodep: n(7), np: n(13),
            });
            let o = dsinit(DsinitOptions {
                cosim: c.cosim, sinim: c.sinim, s1: c.s1, s2: c.s2, s3: c.s3, s4: c.s4, s5: c.s5,
                ss1: c.ss1, ss2: c.ss2, ss3: c.ss3, ss4: c.ss4, ss5: c.ss5, sz1: c.sz1, sz3: c.sz3,
                sz11: c.sz11, sz13: c.sz13, sz21: c.sz21, sz23: c.sz23, sz31: c.sz31, sz33: c.sz33,
                z1: c.z1, z3: c.z3, z11: c.z11, z13: c.z13, z21: c.z21, z23: c.z23, z31: c.z31, z33: c.z33,
                emsq: c.emsq, ecco: n(2), eccsq: n(2) * n(2), argpo: n(3), mo: n(5), no: n(6), nodeo: n(7),
                gsto: n(8), mdot: n(9), nodedot: n(10), xpidot: n(11), em: n(12), nm: n(13), inclm: n(14),
                argpm: n(15), nodem: n(16), mm: n(17), t: n(18), tc: n(19), irez: 0.0, atime: 0.0,
                d2201: 0.0, d2211: 0.0, d3210: 0.0, d3222: 0.0, d4410: 0.0, d4422: 0.0, d5220: 0.0, d5232: 0.0,
                d5421: 0.0, d5433: 0.0, dedt: 0.0, didt: 0.0, dmdt: 0.0, dnodt: 0.0, domdt: 0.0, del1: 0.0,
                del2: 0.0, del3: 0.0, xfact: 0.0, xlamo: 0.0, xli: 0.0, xni: 0.0,
            });
            named!(o; em argpm inclm mm nm nodem irez atime d2201 d2211 d3210 d3222 d4410 d4422 d5220 d5232 d5421
                d5433 dedt didt dmdt dndt dnodt domdt del1 del2 del3 xfact xlamo xli xni)
        }))),
        // slot t tc em argpm inclm mm nodem nm
        _ => {
            let r = w.slots[a[1]].clone();
            let out = guarded(|| {
                let o = dspace(DspaceOptions {
                    irez: r.irez, d2201: r.d2201, d2211: r.d2211, d3210: r.d3210, d3222: r.d3222, d4410: r.d4410,
                    d4422: r.d4422, d5220: r.d5220, d5232: r.d5232, d5421: r.d5421, d5433: r.d5433, dedt: r.dedt,
                    del1: r.del1, del2: r.del2, del3: r.del3, didt: r.didt, dmdt: r.dmdt, dnodt: r.dnodt,
                    domdt: r.domdt, argpo: r.argpo, argpdot: r.argpdot, t: n(2), tc: n(3), gsto: r.gsto,
                    xfact: r.xfact, xlamo: r.xlamo, no: r.no, atime: 0.0, em: n(4), argpm: n(5), inclm: n(6),
                    xli: r.xlamo, mm: n(7), xni: r.no, nodem: n(8), nm: n(9),
                });
                named!(o; em argpm inclm mm nodem dndt nm)
            });
            format!("\"in\":{},\"out\":{}", ins(&a[2..]), fields(out))
        }
    }
}

fn run(w: &mut World, a: &[&str]) -> String {
    // a request to a record that was refused
    let needs: Vec<&str> = match a[0] {
        "INIT" | "PROP" | "PROPDT" | "CLONE" | "DSR" | "DSF" | "SDPPER" | "SDSPACE" => vec![a[1]],
        "PAR" => a[1..].iter().map(|j| j.split(':').next().unwrap()).collect(),
        _ => vec![],
    };
    if needs.iter().any(|s| !w.slots.contains_key(*s)) {
        return "\"out\":{\"k\":\"absent\"},\"runs\":[]".to_string();
    }
    match a[0] {
        // ------------------------------------------------------------ texts
        "PS" | "TL" => {
            let (l1, l2) = (unhex(a[1]), unhex(a[2]));
            let out = if a[0] == "PS" {
                guarded(|| io::parse_satrec(&l1, &l2))
            } else {
                guarded(|| io::twoline2satrec(&l1, &l2))
            };
            format!("\"l1\":{},\"l2\":{},\"out\":{}", bytes(&l1), bytes(&l2), parse_out(out))
        }
        "PA" => {
            let t = unhex(a[1]);
            format!("\"text\":{},\"out\":{}", bytes(&t), parse_out(guarded(|| io::parse(&t))))
        }
        "PM" => {
            let t = unhex(a[1]);
            let out = match guarded(|| io::parse_multiple(&t)) {
                None => "{\"k\":\"panic\"}".to_string(),
                Some((recs, errs)) => {
                    let r: Vec<String> = recs.iter().map(rec_json).collect();
                    let e: Vec<String> = errs.iter().map(err_json).collect();
                    format!("{{\"k\":\"cat\",\"recs\":[{}],\"errs\":[{}]}}", r.join(","), e.join(","))
                }
            };
            format!("\"text\":{},\"out\":{}", bytes(&t), out)
        }
        // a catalogue of a text repeated many times; the answer as the distinct
        // records and causes, and which of them stands where
        "PR" => {
            let n: usize = a[1].parse().expect("count");
            let t = unhex(a[2]);
            let tail = unhex(a[3]);
            let whole = t.repeat(n) + &tail;
            let out = match guarded(|| io::parse_multiple(&whole)) {
                None => "{\"k\":\"panic\"}".to_string(),
                Some((recs, errs)) => {
                    let (mut kinds, mut rs) = (Kinds::default(), vec![]);
                    for r in recs.iter() {
                        rs.push(kinds.of(rec_json(r)).to_string());
                    }
                    let (mut causes, mut at, mut es) = (Kinds::default(), vec![], vec![]);
                    for e in errs.iter() {
                        if let SatrecParseError::SatrecMultiError(i, c) = e {
                            at.push(int(*i).to_string());
                            es.push(causes.of(err_json(c)).to_string());
                        } else {
                            at.push("-1".to_string());
                            es.push(causes.of(err_json(e)).to_string());
                        }
                    }
                    format!(
                        "{{\"k\":\"cat\",\"kinds\":[{}],\"recs\":[{}],\"causes\":[{}],\"at\":[{}],\"errs\":[{}]}}",
                        kinds.all.join(","), rs.join(","), causes.all.join(","), at.join(","), es.join(",")
                    )
                }
            };
            format!("\"n\":{},\"text\":{},\"tail\":{},\"out\":{}", n, bytes(&t), bytes(&tail), out)
        }
        // ------------------------------------------------------------ orbits
        "NEW" => {
            w.slots.insert(a[1].to_string(), Satrec::zero());
            format!("\"s\":\"{}\"", a[1])
        }
        "INIT" => {
            let mode = if a[2] == "a" { DpperOpsMode::A } else { DpperOpsMode::I };
            let o = SGP4InitOptions {
                opsmode: mode, satn: "00000".to_string(), epoch: f(a[3]), xbstar: f(a[4]), xecco: f(a[5]),
                xargpo: f(a[6]), xinclo: f(a[7]), xmo: f(a[8]), xno: f(a[9]), xnodeo: f(a[10]),
            };
            let rec = w.slots.get_mut(a[1]).expect("slot");
            let out = guarded(|| sgp4init(rec, o));
            format!(
                "\"s\":\"{}\",\"mode\":\"{}\",\"el\":{},\"out\":{},\"flag\":{},\"regime\":{},\"fp\":\"{}\"",
                a[1], a[2], ins(&a[3..11]), prop_out(&out), int(rec.error), regime(rec), fingerprint(rec)
            )
        }
        "LOAD" => {
            let (l1, l2) = (unhex(a[2]), unhex(a[3]));
            let out = guarded(|| io::twoline2satrec(&l1, &l2));
            let mut extra = String::new();
            if let Some(Ok(r)) = &out {
                write!(extra, ",\"flag\":{},\"regime\":{},\"fp\":\"{}\"", int(r.error), regime(r), fingerprint(r)).unwrap();
                w.slots.insert(a[1].to_string(), r.clone());
            }
            // the elements as the text decoder reads them, before initialisation
            let el = match guarded(|| io::parse_satrec(&l1, &l2)) {
                Some(Ok(p)) => nums(&[
                    p.jdsatepoch - 2433281.5, p.bstar, p.ecco, p.argpo, p.inclo, p.mo, p.no, p.nodeo,
                ]),
                _ => "[]".to_string(),
            };
            format!(
                "\"s\":\"{}\",\"l1\":{},\"l2\":{},\"el\":{},\"out\":{}{}",
                a[1], bytes(&l1), bytes(&l2), el, parse_out(out), extra
            )
        }
        "PROP" => {
            let t = f(a[2]);
            let rec = w.slots.get_mut(a[1]).expect("slot");
            let out = guarded(|| sgp4(rec, t));
            format!("\"s\":\"{}\",\"t\":{},\"out\":{},\"flag\":{}", a[1], num(t), prop_out(&out), int(rec.error))
        }
        "PROPDT" => {
            let time = utc(&a[2..]);
            let rec = w.slots.get(a[1]).expect("slot");
            let before = fingerprint(rec);
            let out = guarded(|| propogate_datetime(rec, time));
            format!(
                "\"s\":\"{}\",\"utc\":{},\"out\":{},\"before\":\"{}\",\"after\":\"{}\",\"jd\":{}",
                a[1], utc_json(&a[2..]), prop_out(&out), before, fingerprint(rec), num(rec.jdsatepoch)
            )
        }
        "CLONE" => {
            let r = w.slots.get(a[1]).expect("slot").clone();
            let out = format!("\"s\":\"{}\",\"d\":\"{}\",\"same\":{}", a[1], a[2],
                fingerprint(&r) == fingerprint(&w.slots[a[1]]) && r.name == w.slots[a[1]].name);
            w.slots.insert(a[2].to_string(), r);
            out
        }
        // LAW name p: what the session is about
        "LAW" => format!("\"law\":\"{}\",\"p\":{}", a[1], num(f(a[2]))),
        // PAR s:t,t,t s:t,t,t ... : each slot in a thread of its own, all at once
        #[cfg(feature = "threads")]
        "PAR" => {
            let mut jobs = vec![];
            for j in &a[1..] {
                let (s, ts) = j.split_once(':').unwrap();
                let ts: Vec<f64> = ts.split(',').map(f).collect();
                jobs.push((s.to_string(), w.slots.remove(s).expect("slot"), ts));
            }
            let barrier = std::sync::Arc::new(std::sync::Barrier::new(jobs.len()));
            let handles: Vec<_> = jobs
                .into_iter()
                .map(|(s, mut rec, ts)| {
                    let barrier = barrier.clone();
                    std::thread::spawn(move || {
                        barrier.wait();
                        let mut outs = vec![];
                        for t in ts {
                            let out = guarded(|| sgp4(&mut rec, t));
                            outs.push(format!(
                                "{{\"s\":\"{}\",\"t\":{},\"out\":{},\"flag\":{}}}",
                                s, num(t), prop_out(&out), int(rec.error)
                            ));
                        }
                        (s, rec, outs)
                    })
                })
                .collect();
            let mut all = vec![];
            for h in handles {
                let (s, rec, outs) = h.join().unwrap();
                w.slots.insert(s, rec);
                all.extend(outs);
            }
            format!("\"runs\":[{}]", all.join(","))
        }
        // deep-space secular update: resumed from the previous one of this slot, or from epoch
        #[cfg(feature = "integrator")]
        "DSR" | "DSF" => {
            let t = f(a[2]);
            let rec = w.slots.get(a[1]).expect("slot");
            let fresh = (0.0, rec.xlamo, rec.no);
            let st = if a[0] == "DSF" { fresh } else { *w.integ.get(a[1]).unwrap_or(&fresh) };
            let out = guarded(|| integrate(rec, t, st));
            if a[0] == "DSR" {
                if let Some(o) = &out {
                    w.integ.insert(a[1].to_string(), (o[0], o[1], o[2]));
                }
            }
            format!("\"s\":\"{}\",\"t\":{},\"st\":{},\"out\":{}", a[1], num(t), nums(&[st.0, st.1, st.2]),
                vals(out.map(|o| o.to_vec())))
        }
        #[cfg(feature = "stages")]
        "SINITL" | "SDSCOM" | "SDPPER" | "SDSINIT" | "SDSPACE" => stage(w, a),
        // ------------------------------------------------------------ the documented use, end to end
        // TRACK route l1 l2 utc(7) lat lon h: from text to the bearing of an observer
        "TRACK" => {
            let (l1, l2) = (unhex(a[2]), unhex(a[3]));
            let time = utc(&a[4..]);
            let obs = |h: f64| Geodedic { latitude: f(a[11]), longitude: f(a[12]), height: h };
            let out = guarded(|| {
                let rec = match a[1] {
                    "two" => io::twoline2satrec(&l1, &l2),
                    "one" => io::parse(&format!("{}\n{}", l1, l2)),
                    _ => {
                        let (mut recs, mut errs) = io::parse_multiple(&format!("TITLE\n{}\n{}\n", l1, l2));
                        match (recs.len(), errs.len()) {
                            (1, 0) => Ok(recs.remove(0)),
                            (0, 1) => Err(match errs.remove(0) {
                                SatrecParseError::SatrecMultiError(_, e) => *e,
                                e => e,
                            }),
                            _ => return "{\"k\":\"lost\"}".to_string(),
                        }
                    }
                };
                let rec = match rec {
                    Err(e) => return err_json(&e),
                    Ok(r) => r,
                };
                let p = match propogate_datetime(&rec, time) {
                    Err(e) => return format!("{{\"k\":\"err\",\"code\":{}}}", int(e.code())),
                    Ok(p) => p,
                };
                let (r, v) = (&p.position, &p.velocity);
                let g = gstime::gstime_datetime(time);
                let fixed = transforms::eci_to_ecf(r, g);
                let vfixed = transforms::eci_to_ecf(v, g);
                let geo = transforms::eci_to_geodedic(r, g);
                let look = transforms::ecf_to_look_angles(&obs(f(a[13])), &fixed);
                let below = Geodedic { latitude: geo.latitude, longitude: geo.longitude, height: 0.0 };
                let low = transforms::ecf_to_look_angles(&below, &fixed);
                let back = transforms::ecf_to_eci(&fixed, g);
                let dop = doppler_factor::doppler_factor(
                    transforms::geodedic_to_ecf(&obs(f(a[13]))),
                    Vec3 { x: fixed.x, y: fixed.y, z: fixed.z },
                    vfixed,
                );
                vals(Some(vec![
                    r.x, r.y, r.z, v.x, v.y, v.z, g, fixed.x, fixed.y, fixed.z,
                    geo.latitude, geo.longitude, geo.height, look.azimuth, look.elevation, look.range,
                    low.azimuth, low.elevation, low.range, back.x, back.y, back.z, dop,
                ]))
            });
            format!("\"route\":\"{}\",\"l1\":{},\"l2\":{},\"utc\":{},\"obs\":{},\"out\":{}", a[1], bytes(&l1), bytes(&l2),
                utc_json(&a[4..]), ins(&a[11..14]), out.unwrap_or("{\"k\":\"panic\"}".to_string()))
        }
        // ------------------------------------------------------------ time
        "JDAY" => format!("\"in\":{},\"out\":{}", ins(&a[1..]),
            vals(guarded(|| vec![ext::jday(f(a[1]), f(a[2]), f(a[3]), f(a[4]), f(a[5]), f(a[6]), f(a[7]))]))),
        "JDDT" => {
            let t = utc(&a[1..]);
            format!("\"utc\":{},\"out\":{}", utc_json(&a[1..]), vals(guarded(|| vec![ext::jday_datetime(t)])))
        }
        "D2M" => {
            let y: u64 = a[1].parse().unwrap();
            format!("\"year\":{},\"days\":{},\"out\":{}", y, num(f(a[2])), vals(guarded(|| {
                let m = ext::days2mdhms(y, f(a[2]));
                vec![m.month, m.day, m.hour, m.minute, m.second]
            })))
        }
        "GST" => format!("\"in\":{},\"out\":{}", ins(&a[1..]), vals(guarded(|| vec![gstime::gstime(f(a[1]))]))),
        "GSTDT" => {
            let t = utc(&a[1..]);
            format!("\"utc\":{},\"out\":{}", utc_json(&a[1..]), vals(guarded(|| vec![gstime::gstime_datetime(t)])))
        }
        // ------------------------------------------------------------ frames
        "E2F" | "F2E" | "E2G" => {
            let v = vec3(&a[1..]);
            let g = f(a[4]);
            let out = guarded(|| match a[0] {
                "E2F" => { let o = transforms::eci_to_ecf(&v, g); vec![o.x, o.y, o.z] }
                "F2E" => { let o = transforms::ecf_to_eci(&v, g); vec![o.x, o.y, o.z] }
                _ => { let o = transforms::eci_to_geodedic(&v, g); vec![o.latitude, o.longitude, o.height] }
            });
            format!("\"in\":{},\"out\":{}", ins(&a[1..]), vals(out))
        }
        "G2F" => {
            let g = Geodedic { latitude: f(a[1]), longitude: f(a[2]), height: f(a[3]) };
            format!("\"in\":{},\"out\":{}", ins(&a[1..]), vals(guarded(|| {
                let o = transforms::geodedic_to_ecf(&g); vec![o.x, o.y, o.z]
            })))
        }
        "TOPO" | "LOOK" => {
            let g = Geodedic { latitude: f(a[1]), longitude: f(a[2]), height: f(a[3]) };
            let s = vec3(&a[4..]);
            format!("\"in\":{},\"out\":{}", ins(&a[1..]), vals(guarded(|| if a[0] == "TOPO" {
                let TopoCentric { top_s, top_e, top_z } = transforms::topocentric(&g, &s);
                vec![top_s, top_e, top_z]
            } else {
                let Bearing { azimuth, elevation, range } = transforms::ecf_to_look_angles(&g, &s);
                vec![azimuth, elevation, range]
            })))
        }
        "T2L" => {
            let t = TopoCentric { top_s: f(a[1]), top_e: f(a[2]), top_z: f(a[3]) };
            format!("\"in\":{},\"out\":{}", ins(&a[1..]), vals(guarded(|| {
                let Bearing { azimuth, elevation, range } = transforms::topocentric_to_look_angles(&t);
                vec![azimuth, elevation, range]
            })))
        }
        "DOP" => format!("\"in\":{},\"out\":{}", ins(&a[1..]), vals(guarded(|| {
            vec![doppler_factor::doppler_factor(vec3(&a[1..]), vec3(&a[4..]), vec3(&a[7..]))]
        }))),
        "VEC" => format!("\"in\":{},\"out\":{}", ins(&a[1..]), vals(guarded(|| {
            let (p, q) = (vec3(&a[1..]), vec3(&a[4..]));
            let (s, d) = (p.add(&q), p.subtract(&q));
            vec![p.range(&q), s.x, s.y, s.z, d.x, d.y, d.z]
        }))),
        "ANG" => {
            let x = f(a[2]);
            format!("\"fn\":\"{}\",\"in\":{},\"out\":{}", a[1], num(x), vals(guarded(|| vec![match a[1] {
                "radians_to_degrees" => transforms::radians_to_degrees(x),
                "degrees_to_radians" => transforms::degrees_to_radians(x),
                "degrees_lat" => transforms::degrees_lat(x),
                "degrees_long" => transforms::degrees_long(x),
                "radians_lat" => transforms::radians_lat(x),
                "radians_long" => transforms::radians_long(x),
                other => unreachable!("{}", other),
            }])))
        }
        "CONST" => format!("\"out\":{}", vals(Some(vec![
            constants::DEG_2_RAD, constants::RAD_TO_DEG, constants::KM_TO_MI, constants::MI_TO_KM,
            constants::TWO_PI, constants::C,
        ]))),
        other => format!("\"out\":{{\"k\":\"unsupported\"}},\"runs\":[],\"cmd\":\"{}\"", other),
    }
}

/// One session in a world of its own; each event goes to `emit` as soon as it is there.
fn session(cmds: &[String], mut emit: impl FnMut(String)) {
    let mut w = World { slots: HashMap::new(), integ: HashMap::new() };
    for line in cmds {
        let a: Vec<&str> = line.split(' ').collect();
        let body = run(&mut w, &a);
        emit(format!("{{\"ev\":\"{}\",{}}}\n", a[0], body));
    }
}

/// `harness`: the sessions one after another. `harness beside N`: N threads share them out, in the
/// order given, and each finished session is written in one piece, after a line with its number.
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut sessions: Vec<Vec<String>> = vec![];
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        if line == "SESSION" {
            sessions.push(vec![]);
        } else {
            sessions.last_mut().unwrap().push(line);
        }
    }
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 2 && args[1] == "beside" {
        let (sessions, next) = (&sessions, &std::sync::atomic::AtomicUsize::new(0));
        std::thread::scope(|scope| {
            for _ in 0..args[2].parse().unwrap() {
                scope.spawn(move || loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if k >= sessions.len() {
                        break;
                    }
                    let mut text = format!("{}\n", k);
                    session(&sessions[k], |e| text.push_str(&e));
                    let mut out = std::io::stdout().lock();
                    out.write_all(text.as_bytes()).unwrap();
                    out.flush().unwrap();
                });
            }
        });
        return;
    }
    let mut out = std::io::stdout().lock();
    for s in &sessions {
        out.write_all(b"{\"ev\":\"SESSION\"}\n").unwrap();
        out.flush().unwrap();
        session(s, |e| {
            out.write_all(e.as_bytes()).unwrap();
            out.flush().unwrap();
        });
    }
}
