//! C12: a configuration reports exactly what the event attributes say.
use crate::dump::Cap;
use crate::enc::*;
use crate::engine::*;
use crate::env::*;
use crate::spec::*;
use perf_event_data::endian::*;
use perf_event_data::parse::*;
use perf_event_data::*;

fn g64(a: &[u8; 136], o: usize) -> u64 {
    u64::from_ne_bytes(a[o..o + 8].try_into().unwrap())
}
/// What the attribute struct says, by kernel offsets.
fn read_attr(a: &[u8; 136]) -> Cfg {
    Cfg { st: g64(a, 24), rf: g64(a, 32), sid_all: g64(a, 40) >> 18 & 1 == 1, bst: g64(a, 72), ru: g64(a, 80), ri: g64(a, 96) }
}

/// The observable settings of a configuration against the attributes.
fn same<E: Endian>(p: &ParseConfig<E>, c: &Cfg) -> R {
    let st = p.sample_type().bits();
    if (st ^ c.st) & st::ALL != 0 {
        return Err(format!("sample_type {:#x} reported as {st:#x}", c.st));
    }
    let f = p.read_format().bits();
    if (f ^ c.rf) & rf::ALL != 0 {
        return Err(format!("read_format {:#x} reported as {f:#x}", c.rf));
    }
    if (f & !rf::ALL != 0) != (c.rf & !rf::ALL != 0) {
        return Err(format!("unsupported read_format bits of {:#x} reported as {f:#x}", c.rf));
    }
    if p.regs_user() != c.ru || p.regs_intr() != c.ri {
        return Err(format!("register masks {:#x} {:#x} reported as {:#x} {:#x}", c.ru, c.ri, p.regs_user(), p.regs_intr()));
    }
    let n = SampleId::estimate_len(p);
    if n != c.trailer() {
        return Err(format!("identity trailer of {} bytes estimated as {n}", c.trailer()));
    }
    Ok(())
}

/// Decode a sample and a record with trailer under the configuration.
fn behave<E: Endian + Clone>(w: &mut W, p: &ParseConfig<E>, c: &Cfg, big: bool) -> R {
    let c = Cfg { st: c.st & st::ALL, ..*c };
    for ty in [9u32, 13] {
        let mut e = Enc::new(big, 5);
        framed(&mut e, ty, 0, |e| {
            if ty == 9 {
                sample(e, &c, &Sm::S)
            } else {
                body(e, ty, &c, &N0);
                trailer(e, &c)
            }
        });
        let d = e.v;
        let mut a = std::mem::take(&mut w.a);
        let mut b = std::mem::take(&mut w.b);
        let m = frame(&d, 0, None, &c, big, View::Meta, Opt::default(), &mut a);
        b.clear();
        let mut q = Parser::new(&d[..], p.clone());
        let r = q.parse_record(Cap(&mut b));
        w.trans += m.steps;
        w.traces += 1;
        w.state(if m.err == 0 { a.hash() } else { m.err as u64 });
        let ok = match &r {
            Ok(()) => m.err == 0 && a == b,
            Err(e) => kind(e) & m.err != 0,
        };
        let res = if ok {
            // parsing a record (with misc flags of its own) leaves the settings alone
            same(q.config(), &c)
        } else {
            Err(format!("a record of type {ty} under {c:x?}\n input {}\n model: {} {}\n implementation: {} {}", crate::dump::hex(&d, 400), errs(m.err), a.show(), r.map_or_else(|e| e.to_string(), |_| "ok".into()), b.show()))
        };
        w.a = a;
        w.b = b;
        res?;
    }
    Ok(())
}

fn probe(w: &mut W, a: &[u8; 136], deep: bool) -> R {
    let c = read_attr(a);
    let p = ParseConfig::<Little>::from(attr(a));
    let tell = |e: String| format!("attributes {}: {e}", crate::dump::hex(a, 136));
    w.traces += 1;
    w.trans += 1;
    same(&p, &c).map_err(tell)?;
    if deep {
        // counter words are finding KF3 of C02
        let mut a2 = *a;
        let bst = c.bst & !BR_COUNTERS;
        a2[72..80].copy_from_slice(&bst.to_ne_bytes());
        let c = Cfg { bst, ..c };
        let p = ParseConfig::<CustL0>::from(attr(&a2));
        behave(w, &p, &c, false).map_err(tell)?;
    } else {
        w.state(mix(c.st) ^ c.rf ^ mix(c.ru ^ mix(c.ri)) ^ c.sid_all as u64);
    }
    Ok(())
}

/// A custom byte order with a default.
#[derive(Clone, Copy, Debug)]
struct CustL0;
impl Default for CustL0 {
    fn default() -> Self {
        CustL0
    }
}
unsafe impl Endian for CustL0 {
    fn convert_u16(&self, b: [u8; 2]) -> u16 {
        CustL.convert_u16(b)
    }
    fn convert_u32(&self, b: [u8; 4]) -> u32 {
        CustL.convert_u32(b)
    }
    fn convert_u64(&self, b: [u8; 8]) -> u64 {
        CustL.convert_u64(b)
    }
}

pub fn suites(t: Tier) -> Vec<Suite> {
    let mut v = vec![];
    const BITS: u64 = 1088;
    v.push(suite("attr_bit_pairs", "all-zero, all-one and fully configured attribute structs with every pair of the 1088 bits flipped", 3 * BITS * (BITS + 1) / 2, |i, w| {
        let mut c = Ch(i);
        let base = c.u(3);
        let x = c.0;
        // pair (hi, lo) with lo <= hi
        let mut hi = (((8.0 * x as f64 + 1.0).sqrt() - 1.0) / 2.0) as u64;
        while (hi + 1) * (hi + 2) / 2 <= x {
            hi += 1
        }
        while hi * (hi + 1) / 2 > x {
            hi -= 1
        }
        let lo = x - hi * (hi + 1) / 2;
        let mut a = match base {
            0 => [0u8; 136],
            1 => [0xff; 136],
            _ => Cfg { st: st::ALL, rf: rf::ALL, sid_all: true, bst: BR_HW_INDEX, ru: 0x7f, ri: 0xf0 }.attr_bytes(),
        };
        for b in if lo == hi { vec![lo] } else { vec![lo, hi] } {
            a[b as usize / 8] ^= 1 << (b % 8);
        }
        probe(w, &a, true)
    }));
    v.push(suite("flag_words", "all 2^16 values of each 16-bit quarter of the attribute flag word and of branch_sample_type x both fillings of the rest", 65536 * 4 * 2 * 2, |i, w| {
        let mut c = Ch(i);
        let x = c.n(65536) as u16;
        let q = c.u(4);
        let at = [40, 72][c.u(2)];
        let ones = c.b();
        let mut a = Cfg { st: st::BRANCH_STACK | st::TID | st::IDENTIFIER, ..Default::default() }.attr_bytes();
        for b in &mut a[at..at + 8] {
            *b = if ones { 0xff } else { 0 }
        }
        a[at + 2 * q..at + 2 * q + 2].copy_from_slice(&x.to_ne_bytes());
        probe(w, &a, true)
    }));
    v.push(suite("sample_types", "all 2^25 sample types, with rotating settings of everything else", 1 << 25, |i, w| {
        let x = mix(i);
        let c = Cfg { st: i, rf: x & 31, sid_all: x >> 5 & 1 == 1, bst: x >> 6, ru: mix(x), ri: mix(x + 1) };
        probe(w, &c.attr_bytes(), false)
    }));
    let sets = match t {
        Tier::Quick => near_sets(25, 5),
        Tier::Thorough => (0..1 << 25).collect(),
    };
    let what = t.pick("all sample types with at most 5 flags set or at most 5 clear", "all 2^25 sample types");
    v.push(suite("sample_types_behaviour", format!("{what}: decoded, sample_id_all and hardware index both ways"), 4 * sets.len() as u64, move |i, w| {
        let mut c = Ch(i);
        let sid_all = c.b();
        let bst = if c.b() { BR_HW_INDEX } else { !(BR_HW_INDEX | BR_COUNTERS) };
        let s = *c.of(&sets);
        let cf = Cfg { st: s, rf: rf::ALL, sid_all, bst, ru: 5, ri: 2 };
        probe(w, &cf.attr_bytes(), true)
    }));
    v.push(suite("read_formats", "all 32 known read formats x no, one or two unknown bits x 32 sample types", 32 * (1 + 59 + 59 * 58 / 2) * 32, |i, w| {
        let mut c = Ch(i);
        let known = c.n(32);
        let s = [0, st::READ, st::READ | st::TID, st::ALL][c.u(4)] | [0, st::BRANCH_STACK][c.u(2)];
        let sid_all = c.b();
        let bst = [0, BR_HW_INDEX][c.u(2)];
        let mut x = c.0;
        let mut u = 0u64;
        if x > 59 {
            x -= 60;
            let mut a = 0;
            while x >= 58 - a {
                x -= 58 - a;
                a += 1;
            }
            u = 1 << (5 + a) | 1 << (5 + a + 1 + x)
        } else if x > 0 {
            u = 1 << (5 + x - 1)
        }
        let cf = Cfg { st: s, rf: known | u, sid_all, bst, ru: 1, ri: 1 };
        probe(w, &cf.attr_bytes(), true)
    }));
    let two = std::sync::Arc::new(near_sets(25, 2));
    let two2 = two.clone();
    v.push(suite("endians", "sample types with at most 2 flags set or clear x 11 read formats (four with unknown bits) x sample_id_all x hardware index x 7 x 7 chains of byte orders", two.len() as u64 * 44 * 49, move |i, w| {
        let mut c = Ch(i);
        let k1 = *c.of(&EKS);
        let k2 = *c.of(&EKS);
        let rf = *c.of(&[0, 1, 2, 4, 8, 16, 31, 1 << 5, 1 << 40 | 8, 1 << 63, !0 << 5 | 4]);
        let sid_all = c.b();
        let bst = if c.b() { BR_HW_INDEX } else { 0 };
        let x = *c.of(&two);
        let cf = Cfg { st: x, rf, sid_all, bst, ru: mix(x), ri: mix(x + 1) };
        with_endian!(k1, e1 => {
            let p = config(&cf, e1);
            with_endian!(k2, e2 => {
                let q = p.clone().with_endian(e2);
                same(&p, &cf).and_then(|_| same(&q, &cf)).map_err(|m| format!("{k1:?} then {k2:?}: {m}"))?;
                // the byte order is the one asked for
                let ends = (q.endian().convert_u16([1, 2]), q.endian().convert_u32([1, 2, 3, 4]), q.endian().convert_u64([1, 2, 3, 4, 5, 6, 7, 8]));
                let want = if k2.big() { (0x0102, 0x01020304, 0x0102030405060708) } else { (0x0201, 0x04030201, 0x0807060504030201) };
                if ends != want {
                    return Err(format!("{k1:?} then {k2:?}: wrong byte order {ends:x?}"));
                }
                if !k2.big() || cf.st & st::BRANCH_STACK == 0 {
                    if !k2.native() {
                        behave(w, &q, &cf, k2.big())?;
                    }
                }
                w.traces += 1;
                w.trans += 2;
                Ok(())
            })
        })
    }));
    v.push(suite("misc_isolation", "records with all 2^16 misc values, then a further record from the same parser: the settings and the second record are undisturbed", 65536 * 4, |i, w| {
        let mut c = Ch(i);
        let misc = c.n(65536) as u16;
        let x = c.n(4);
        let cf = Cfg { st: st::ALL, rf: rf::ALL & !(rf::GROUP * (x & 1)), sid_all: x & 2 == 0, bst: [0, BR_HW_INDEX][(x & 1) as usize], ru: 0x8001, ri: u64::MAX };
        let mut e = Enc::new(false, misc as u64);
        let first = [14u32, 15, 11, 77][x as usize];
        for (ty, m) in [(first, misc), (9, 0), (15, !misc)] {
            framed(&mut e, ty, m, |e| {
                if ty == 9 {
                    sample(e, &cf, &Sm::S)
                } else {
                    body(e, ty, &cf, &Body::N { name: 3, pad: 0 });
                    trailer(e, &cf)
                }
            });
        }
        let d = e.v;
        let mut p = Parser::new(&d[..], config(&cf, CustL));
        let mut at = 0;
        let mut a = std::mem::take(&mut w.a);
        let mut b = std::mem::take(&mut w.b);
        let mut res = Ok(());
        for n in 0..3 {
            let m = frame(&d, at, None, &cf, false, View::Meta, Opt::default(), &mut a);
            b.clear();
            let r = p.parse_record(Cap(&mut b));
            at += m.used.unwrap();
            w.trans += m.steps;
            w.traces += 1;
            w.state(a.hash());
            if r.is_err() || m.err != 0 || a != b {
                res = Err(format!("record {n} of a sequence whose first record has misc {misc:#x}: {:?}\n model: {}\n implementation: {}", r.err(), a.show(), b.show()));
                break;
            }
            res = same(p.config(), &cf);
            if res.is_err() {
                break;
            }
        }
        w.a = a;
        w.b = b;
        res
    }));
    v.push(suite("sub_parser_config", "the body parser handed out by parse_metadata carries the same settings: sample types with at most 2 flags set or clear x 7 read formats x sample_id_all x hardware index x 16 misc values", two2.len() as u64 * 28 * 16, move |i, w| {
        let mut c = Ch(i);
        let misc = 1u16 << c.n(16);
        let rf = *c.of(&[0, 1, 2, 4, 8, 16, 31]);
        let sid_all = c.b();
        let bst = if c.b() { BR_HW_INDEX } else { 0 };
        let x = *c.of(&two2);
        let cf = Cfg { st: x, rf, sid_all, bst, ru: mix(x), ri: mix(x + 1) };
        let mut e = Enc::new(false, 1);
        framed(&mut e, 14, misc, |e| trailer(e, &cf));
        let d = e.v;
        let mut p = Parser::new(&d[..], config(&cf, Little));
        w.traces += 1;
        w.trans += 2;
        w.state(x);
        let (q, _) = p.parse_metadata().map_err(|e| e.to_string())?;
        same(q.config(), &cf).map_err(|m| format!("sub-parser: {m}"))?;
        same(p.config(), &cf)
    }));
    v.push(suite("default", "a default configuration selects nothing", 1, |_, w| {
        w.traces += 1;
        w.trans += 1;
        w.state(1);
        let p = ParseConfig::<Little>::default();
        same(&p, &Cfg::default())?;
        behave(w, &ParseConfig::<CustL0>::default(), &Cfg::default(), false)
    }));
    v
}
