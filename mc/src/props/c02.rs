//! C02: samples decode exactly under every sample configuration.
use super::c01::with_src;
use crate::dump::K;
use crate::enc::*;
use crate::engine::*;
use crate::env::*;
use crate::spec::*;
use perf_event_data::parse::ParseResult;
use perf_event_data::Registers;

pub const FULL: Cfg = Cfg { st: st::ALL, rf: rf::ALL, sid_all: true, bst: BR_HW_INDEX, ru: 0x8000_0000_0000_0005, ri: 0x6 };
const ALLOW: Allow = Allow { f1: true };

pub fn one(w: &mut W, c: &Cfg, s: &Sm, ek: EK, api: Api, k: usize, what: &dyn Fn() -> String) -> R {
    let mut e = Enc::new(ek.big(), 5);
    framed(&mut e, 9, 0, |e| sample(e, c, s));
    let d = e.v;
    with_src(k, d.len(), &mut |x| check(w, &d, c, ek, api, x, ALLOW, what))
}

pub fn suites(t: Tier) -> Vec<Suite> {
    let mut v = vec![];

    // every sample_type set
    let modes: &'static [(u64, u64, Sm, EK, usize)] = match t {
        Tier::Quick => &[(rf::ALL, BR_HW_INDEX, Sm::S, EK::Native, 0)],
        Tier::Thorough => &[
            (rf::ALL, BR_HW_INDEX, Sm::S, EK::Native, 0),
            (RF1, 0, Sm::S, EK::Native, 1),
            (rf::GROUP, 0, Sm::S, EK::Big, 0),
            (rf::ID | rf::GROUP, BR_HW_INDEX, Sm::Z, EK::CustL, 2),
            (0, BR_HW_INDEX, Sm::Z, EK::Native, 0),
        ],
    };
    v.push(suite("all_sets", format!("all 2^25 sample_type sets x {} modes (read format, hw index, part lengths, byte order, source)", modes.len()), (1 << 25) * modes.len() as u64, move |i, w| {
        let st = i & st::ALL;
        let (rf, bst, sm, ek, k) = modes[(i >> 25) as usize];
        let c = Cfg { st, rf, bst, ..FULL };
        one(w, &c, &sm, ek, Api::Visit, k, &|| format!("sample_type {st:#x}"))
    }));

    // sets over variable-length parts only, other fields alternately on: every source and interface
    const VAR: [u64; 8] = [st::READ, st::CALLCHAIN, st::RAW, st::BRANCH_STACK, st::REGS_USER, st::STACK_USER, st::REGS_INTR, st::AUX];
    const APIS3: [Api; 3] = [Api::Visit, Api::Rec, Api::Meta];
    const EKX: [EK; 3] = [EK::Native, EK::Big, EK::CustL];
    v.push(suite("var_sets", "all subsets of the 8 variable parts x fixed fields none/all/even/odd x 4 read formats x hw index x 4 sources x 3 byte orders x 3 interfaces", 256 * 4 * 4 * 2 * 4 * 9, move |i, w| {
        let mut c = Ch(i);
        let m = c.n(256);
        let mut s = 0;
        for (j, b) in VAR.iter().enumerate() {
            if m >> j & 1 == 1 {
                s |= b
            }
        }
        let vars: u64 = VAR.iter().sum();
        s |= *c.of(&[0, st::ALL, 0x5555_5555, 0xaaaa_aaaa]) & st::ALL & !vars;
        let rf = *c.of(&[rf::ALL, RF1, rf::GROUP, 0]);
        let bst = if c.b() { BR_HW_INDEX } else { 0 };
        let k = c.u(4);
        let ek = *c.of(&EKX);
        let api = *c.of(&APIS3);
        one(w, &Cfg { st: s, rf, bst, ..FULL }, &Sm::S, ek, api, k, &|| format!("sample_type {s:#x} rf {rf:#x}"))
    }));

    // lengths of all parts against each other
    const STK: [(usize, usize); 5] = [(0, 0), (8, 0), (8, 8), (16, 5), (3, 2)];
    v.push(suite("part_lengths", "group 0/1/3 x callchain 0/1/4 x raw 0..9 x lbr 0/1/2 x user abi 0..3 x intr abi 0/2 x 5 stacks x aux 0/1/8 x hw index x 4 sources x 2 byte orders", 3 * 3 * 10 * 3 * 4 * 2 * 5 * 3 * 2 * 4 * 2, move |i, w| {
        let mut c = Ch(i);
        let nr = *c.of(&[0, 1, 3]);
        let cc = *c.of(&[0, 1, 4]);
        let raw = c.u(10);
        let lbr = c.u(3);
        let abi_u = c.n(4);
        let abi_i = *c.of(&[0, 2]);
        let (stack, dyn_) = *c.of(&STK);
        let aux = *c.of(&[0, 1, 8]);
        let bst = if c.b() { BR_HW_INDEX } else { 0 };
        let k = c.u(4);
        let ek = if c.b() { EK::Big } else { EK::Native };
        let sm = Sm { nr, cc, raw, lbr, abi_u, abi_i, stack, dyn_, aux };
        one(w, &Cfg { bst, ..FULL }, &sm, ek, Api::Visit, k, &|| format!("all fields, {sm:?}"))
    }));

    // one part at a time, every length and the large ones
    const LARGE: [usize; 22] =
        [100, 126, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 2049, 4095, 4096, 8191, 8192, 8193, 16383, 16384, 20000, 60000];
    v.push(suite("part_sweep", "6 parts x length 0..66 and 22 larger ones up to 60000 bytes x alone / all fields / followed by one field x 4 sources x 3 byte orders", 6 * 89 * 3 * 4 * 3, move |i, w| {
        let mut c = Ch(i);
        let part = c.u(6);
        let l = c.u(89);
        let n = if l < 67 { l } else { LARGE[l - 67] };
        let with = c.u(3);
        let k = c.u(4);
        let ek = *c.of(&EKX);
        let mut sm = Sm::S;
        let (bit, unit) = match part {
            0 => (st::READ, 24),
            1 => (st::CALLCHAIN, 8),
            2 => (st::RAW, 1),
            3 => (st::BRANCH_STACK, 24),
            4 => (st::STACK_USER, 1),
            _ => (st::AUX, 1),
        };
        if n * unit > 64000 || (k == 3 && n * unit > 3000) {
            return Ok(());
        }
        match part {
            0 => sm.nr = n,
            1 => sm.cc = n,
            2 => sm.raw = n,
            3 => sm.lbr = n,
            4 => {
                sm.stack = n;
                sm.dyn_ = n - n / 3
            }
            _ => sm.aux = n,
        }
        let s = match with {
            0 => bit,
            1 => st::ALL,
            _ => bit | st::CGROUP | st::ADDR | st::ID,
        };
        one(w, &Cfg { st: s, ..FULL }, &sm, ek, Api::Visit, k, &|| format!("part {part} length {n}"))
    }));

    // register masks
    const ABI: [u64; 5] = [0, 1, 2, 3, u64::MAX];
    v.push(suite("reg_masks", "every single-bit, two-bit and low-n-bits mask x user/intr/both x 5 abi values x 3 sources x 2 byte orders", (64 * 64 + 65) * 3 * 5 * 3 * 2, move |i, w| {
        let mut c = Ch(i);
        let m = c.n(64 * 64 + 65);
        let mask = if m < 4096 {
            1u64 << (m / 64) | 1 << (m % 64)
        } else {
            match m - 4096 {
                64 => u64::MAX,
                n => (1 << n) - 1,
            }
        };
        let which = c.u(3);
        let abi = *c.of(&ABI);
        let k = c.u(3);
        let ek = if c.b() { EK::Big } else { EK::Native };
        let (mut s, mut ru, mut ri) = (st::PERIOD | st::WEIGHT | st::PHYS_ADDR, !mask, mask.rotate_left(7));
        if which != 1 {
            s |= st::REGS_USER;
            ru = mask
        }
        if which != 0 {
            s |= st::REGS_INTR;
            ri = mask
        }
        if which == 2 {
            ri = mask.rotate_left(9) & !0x10
        }
        let sm = Sm { abi_u: abi, abi_i: if which == 2 { abi ^ 2 } else { abi }, ..Sm::S };
        one(w, &Cfg { st: s, ru, ri, ..FULL }, &sm, ek, Api::Visit, k, &|| format!("register mask {mask:#x} abi {abi:#x} {which}"))
    }));

    // read formats inside samples
    v.push(suite("read_format", "all 32 read formats x each unknown bit or none x group size 0..4 x following fields x 3 sources x 3 byte orders", 32 * 60 * 5 * 2 * 3 * 3, move |i, w| {
        let mut c = Ch(i);
        let mut f = c.n(32);
        let x = c.n(60);
        if x > 0 {
            f |= 1 << (x + 4)
        }
        let nr = c.u(5);
        let s = st::READ | if c.b() { st::ALL } else { 0 };
        let k = c.u(3);
        let ek = *c.of(&EKX);
        one(w, &Cfg { st: s, rf: f, ..FULL }, &Sm { nr, ..Sm::S }, ek, Api::Visit, k, &|| format!("read_format {f:#x} nr {nr}"))
    }));

    // stack size / dyn_size
    const DYN: [u64; 8] = [0, 1, 1 << 16, 1 << 31, 1 << 32, 1 << 63, u64::MAX - 7, u64::MAX];
    let sx = t.pick(40u64, 100);
    v.push(suite("stack", format!("stack size 0..{sx} x dyn_size 0..{sx}+8 (and 8 hostile) x following fields x 4 sources x 2 byte orders"), sx * (sx + 16) * 2 * 4 * 2, move |i, w| {
        let mut c = Ch(i);
        let size = c.u(sx as usize);
        let d = c.n(sx + 16);
        let dyn_ = if d < sx + 8 { d } else { DYN[(d - sx - 8) as usize] };
        let s = st::STACK_USER | if c.b() { st::WEIGHT | st::AUX | st::CGROUP } else { 0 };
        let k = c.u(4);
        let ek = if c.b() { EK::Big } else { EK::Native };
        one(w, &Cfg { st: s, ..FULL }, &Sm { stack: size, dyn_: dyn_ as usize, ..Sm::S }, ek, Api::Visit, k, &|| format!("stack size {size} dyn_size {dyn_:#x}"))
    }));

    // truncation of every sample shape at every length
    let shp = samples();
    let lens: Vec<u64> = shp.iter().map(|s| s.bytes(false).len() as u64).collect();
    let total: u64 = lens.iter().sum();
    {
        let (shp, lens) = (shp.clone(), lens.clone());
        v.push(suite("short_bodies", format!("{} sample shapes shortened to every length x 3 sources x 3 byte orders", shp.len()), total * 9, move |i, w| {
            let mut c = Ch(i);
            let k = c.u(3);
            let ek = *c.of(&EKX);
            let (j, x) = pick(&lens, c.0);
            let s = &shp[j];
            if x < 8 {
                return Ok(());
            }
            let mut d = s.bytes(ek.big());
            d.truncate(x as usize);
            let n = x as u16;
            d[6..8].copy_from_slice(&if ek.big() { n.to_be_bytes() } else { n.to_le_bytes() });
            with_src(k, d.len(), &mut |y| check(w, &d, &s.cfg, ek, Api::Visit, y, ALLOW, &|| format!("{} shortened to {x}", s.name)))
        }));
    }
    {
        let bits: Vec<u64> = lens.iter().map(|l| l * 8).collect();
        v.push(suite("bit_flips", format!("every single bit of {} sample shapes flipped x 3 sources x native and custom order", shp.len()), total * 8 * 6, move |i, w| {
            let mut c = Ch(i);
            let k = c.u(3);
            let ek = *c.of(&[EK::Native, EK::CustL]);
            let (j, x) = pick(&bits, c.0);
            let s = &shp[j];
            let mut d = s.bytes(false);
            d[x as usize / 8] ^= 1 << (x % 8);
            with_src(k, d.len(), &mut |y| check(w, &d, &s.cfg, ek, Api::Visit, y, ALLOW, &|| format!("{} with bit {x} flipped", s.name)))
        }));
    }

    // options of the branch stack
    v.push(suite("branch_options", "each branch_sample_type bit (and with hw index) x 0..3 entries x 3 sources; bit 19 is finding KF3", 64 * 2 * 4 * 3, move |i, w| {
        let mut c = Ch(i);
        let b = c.n(64);
        let bst = 1 << b | if c.b() { BR_HW_INDEX } else { 0 };
        let lbr = c.u(4);
        let k = c.u(3);
        let cf = Cfg { st: st::BRANCH_STACK | st::REGS_USER | st::WEIGHT | st::CGROUP, bst, ..FULL };
        let sm = Sm { lbr, ..Sm::S };
        if bst & BR_COUNTERS == 0 || lbr == 0 {
            return one(w, &cf, &sm, EK::Native, Api::Visit, k, &|| format!("branch_sample_type {bst:#x}, {lbr} entries"));
        }
        // KF3: the per-entry counters that follow the branch stack are not skipped
        let mut e = Enc::new(false, 5);
        framed(&mut e, 9, 0, |e| sample(e, &cf, &sm));
        let d = e.v;
        let (mut a, mut b2) = (Default::default(), Default::default());
        let strict = frame(&d, 0, None, &cf, false, View::Meta, Opt::default(), &mut a);
        let mut out = Ok(());
        with_src(k, d.len(), &mut |x| {
            let r = exec(&d, &cf, EK::Native, Api::Visit, x, &[], &mut b2);
            w.trans += strict.steps;
            w.traces += 1;
            if r.err == 0 && a == b2 {
                return Ok(());
            }
            let q = frame(&d, 0, None, &cf, false, View::Meta, Opt { no_counters: true, ..Default::default() }, &mut a);
            out = if (q.err == 0) == (r.err == 0) && (q.err == 0 && a == b2 || q.err & r.err != 0) {
                w.known("KF3", || format!("branch_sample_type {bst:#x}, {lbr} entries"))
            } else {
                Err(format!("branch_sample_type {bst:#x}, {lbr} entries: neither the kernel layout nor finding KF3: {} {}", errs(r.err), b2.show()))
            };
            Ok(())
        })?;
        out
    }));

    // sample_type bits the kernel does not define must not disturb the others
    v.push(suite("undefined_bits", "each sample_type bit 25..63 x 4 base sets x 2 sources", 39 * 4 * 2, move |i, w| {
        let mut c = Ch(i);
        let b = 25 + c.n(39);
        let s = *c.of(&[0, st::ALL, st::IP | st::CALLCHAIN, st::AUX]) | 1 << b;
        let k = c.u(2);
        one(w, &Cfg { st: s, ..FULL }, &Sm::S, EK::Native, Api::Visit, k, &|| format!("sample_type {s:#x}"))
    }));

    let ns = notables(samples());
    v.push(suite("notable_values", format!("{} x 3 byte orders x 2 sources", ns.what()), ns.total * 3 * 2, move |i, w| {
        let mut c = Ch(i);
        let ek = *c.of(&[EK::Native, EK::Big, EK::CustL]);
        let k = c.u(2) * 2;
        let (s, m) = ns.get(c.0);
        let d = s.bytes_with(ek.big(), m);
        with_src(k, d.len(), &mut |x| check(w, &d, &s.cfg, ek, Api::Visit, x, Allow { f1: true }, &|| format!("{} with {m:x?}", s.name)))
    }));
    let ps = pairs(samples());
    v.push(suite("field_pairs", format!("{} x native and custom order", ps.what()), ps.total * 2, move |i, w| {
        let mut c = Ch(i);
        let ek = *c.of(&[EK::Native, EK::CustL]);
        let (s, m) = ps.get(c.0);
        let d = s.bytes_with(ek.big(), m);
        with_src(0, d.len(), &mut |x| check(w, &d, &s.cfg, ek, Api::Visit, x, Allow { f1: true }, &|| format!("{} with {m:x?}", s.name)))
    }));
    // special field contents
    // the public register parsers, called on their own
    v.push(suite("registers", "Registers::parse_user / parse_intr and the user's own mix of both: every single-bit, two-bit and low-n-bits mask x 6 abi values x 3 calls x enough data, one byte short, cut at the abi x 9 sources x 3 byte orders", (64 * 64 + 65) * 6 * 3 * 3 * 9 * 3, |i, w| {
        let mut c = Ch(i);
        let ek = *c.of(&[EK::Native, EK::Big, EK::CustL]);
        let k = *c.of(&[0, 1, 5, 6, 8, 9, 12, 14, 15]);
        let how = c.u(3);
        let cut = c.u(3);
        let abi = *c.of(&[0u64, 1, 2, 3, 1 << 32, u64::MAX]);
        let m = c.0;
        let mask = if m < 4096 {
            1u64 << (m / 64) | 1 << (m % 64)
        } else {
            match m - 4096 {
                64 => u64::MAX,
                n => (1 << n) - 1,
            }
        };
        if mask.count_ones() > 3 && matches!(k, 5 | 12 | 14) {
            return Ok(());
        }
        let cf = Cfg { ru: mask, ri: !mask.rotate_left(3), st: st::REGS_INTR, ..Cfg::default() };
        let mut e = Enc::new(ek.big(), 47);
        e.u64(abi);
        let nu = if abi == 0 { 0 } else { cf.ru.count_ones() };
        let ni = if abi == 0 { 0 } else { cf.ri.count_ones() };
        let mut n = [nu, ni, nu + ni][how];
        if how == 2 {
            for _ in 0..nu {
                e.w64()
            }
            e.u64(abi);
            n = ni
        }
        for _ in 0..n {
            e.w64()
        }
        match cut {
            0 => e.fill(5),
            1 => e.v.truncate(e.v.len() - 1),
            _ => e.v.truncate(7),
        }
        let buf = Buf::new(&e.v, 0);
        let d = buf.get();
        let mut s = Spec::new(d, ek.big());
        w.a.clear();
        let mut r = Ok(());
        if how != 1 {
            r = s.regs(K::ru_abi, K::ru_mask, K::ru_regs, cf.ru, &mut w.a);
        }
        if how != 0 && r.is_ok() {
            r = s.regs(K::ri_abi, K::ri_mask, K::ri_regs, cf.ri, &mut w.a);
        }
        w.trans += s.steps + 1;
        w.traces += 1;
        w.state(w.a.hash());
        super::c04::many(k, d.len(), &mut |x| {
            let b = &mut w.b;
            b.clear();
            let got = on3!(d, &cf, ek, x, p => {
                let r = (|| {
                    if how != 1 {
                        let x = p.parse_with(|p| Registers::parse_user(p))?;
                        b.u(K::ru_abi, u64::from(x.abi));
                        b.u(K::ru_mask, x.mask);
                        b.ws(K::ru_regs, &x.regs);
                    }
                    if how != 0 {
                        let x = Registers::parse_intr(&mut p)?;
                        b.u(K::ri_abi, u64::from(x.abi));
                        b.u(K::ri_mask, x.mask);
                        b.ws(K::ri_regs, &x.regs);
                    }
                    ParseResult::Ok(())
                })();
                match r {
                    Ok(()) => (0, p.parse_rest().ok().map(|r| r.len())),
                    Err(e) => (kind(&e), None),
                }
            });
            agree(&r, &s, &w.a, got, &w.b).map_err(|e| format!("registers {how} with mask {mask:#x} abi {abi:#x} on {} bytes {ek:?} {x:?}\n {e}", d.len()))
        })
    }));
    let vs = values(samples());
    v.push(suite("field_values", format!("{} sample shapes x {VALUES} x 3 byte orders x 3 interfaces x 4 sources", vs.sh.len()), vs.total * 3 * 3 * 4, move |i, w| {
        let mut c = Ch(i);
        let ek = *c.of(&[EK::Native, EK::Big, EK::CustL]);
        let api = *c.of(&[Api::Visit, Api::Rec, Api::Meta]);
        let k = c.u(4);
        let (s, m) = vs.get(c.0);
        let d = s.bytes_with(ek.big(), m);
        with_src(k, d.len(), &mut |x| check(w, &d, &s.cfg, ek, api, x, Allow { f1: true }, &|| format!("{} with {m:?}", s.name)))
    }));
    v
}

pub fn pick(lens: &[u64], mut x: u64) -> (usize, u64) {
    let mut j = 0;
    while x >= lens[j] {
        x -= lens[j];
        j += 1;
    }
    (j, x)
}
