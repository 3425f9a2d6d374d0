//! A peer cannot force large allocations.
use crate::alloc::measure;
use crate::c12::script;
use crate::engine::*;
use crate::fx::*;
use bip324::{Error, Role};

const LIM: usize = 1 << 20;
/// Largest announcement.
const TOP: usize = 0xff_ffff;
fn interesting(t: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for c in [MAX_CONTENTS, 1 << 22, 5_000_000, 1 << 23, 0x7f_ffff, 0xc0_0000, 0xff_0000, TOP] {
        let r = t.q(24usize, 300);
        v.extend((c.saturating_sub(r)..=(c + r).min(TOP)).filter(|x| *x > MAX_CONTENTS));
    }
    for b in 0..24 {
        for base in [MAX_CONTENTS + 1, TOP, 1 << 23, 5_555_555] {
            let x = base ^ (1usize << b);
            if x > MAX_CONTENTS && x <= TOP {
                v.push(x)
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
fn too_big<T: std::fmt::Debug>(r: &Out<T>) -> bool {
    matches!(r, Out::Lib(Error::PacketTooBig))
}
/// A fresh connection; the announcement comes as packet `before` of the session, or during the
/// handshake after that many decoys.
fn announce(cx: &Cx, drv: Drv, role: Role, in_hs: bool, before: usize, n: usize, split: usize, garbage: usize) {
    let mut p = script(role, garbage);
    p.hs = (0..if in_hs { before } else { 1 }).map(|k| (128u8, contents(5, k))).collect();
    p.session.clear();
    if !in_hs {
        p.hs.push((0, vec![]));
        p.session = (0..before).map(|k| ((k % 2 * 128) as u8, contents(k as u64, 3 * k))).collect();
    }
    let net = Net::new(cx, Some(p.clone()));
    net.l().rd_max = split;
    cx.seed_fill(3);
    // the length prefix needs the reference state after all scripted packets: `rf` keeps it
    let arm = |net: &Net| {
        let mut g = net.l();
        if let Some(r) = g.rf.as_mut() {
            let b = r.send.only_len(n as u32);
            g.inb.extend(b);
            return true;
        }
        false
    };
    if in_hs {
        net.l().announce = Some(n as u32);
    }
    let (r, big, peak) = measure(|| connect(cx, drv, &net, MAGIC, role, None, None));
    let got = |w: &str, ok: bool, r: String, big: usize, peak: usize| {
        cx.check(ok, || format!("{w}: announcing {n} bytes of contents: {r}"));
        cx.check(big < LIM && peak < LIM, || format!("{w}: announcing {n} bytes makes it allocate {big} bytes at once, {peak} in all"));
    };
    if in_hs {
        let s = match &r {
            Out::Ok(_) => "completes".to_string(),
            Out::Io(k, _) => format!("{k:?}"),
            Out::Lib(e) => format!("{e:?}"),
            Out::Wait => "waits for the body".into(),
        };
        got("handshake", too_big(&match r { Out::Ok(_) => Out::Ok(()), Out::Io(k, x) => Out::Io(k, x), Out::Lib(e) => Out::Lib(e), Out::Wait => Out::Wait }), s, big, peak);
        return;
    }
    let Out::Ok(mut c) = r else { cx.fail("handshake fails") };
    for k in 0..before {
        let x = c.read(cx, &net);
        cx.check(matches!(&x, Out::Ok((d, b)) if *d == (k % 2 == 1) && *b == contents(k as u64, 3 * k)), || format!("packet {k}: {}", short(&x)));
    }
    cx.check(arm(&net), || "no keys".into());
    let (r, big, peak) = measure(|| c.read(cx, &net));
    got("session", too_big(&r), short(&r), big, peak);
}
fn fresh(cx: &Cx, t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let in_hs = cx.flag("during the handshake");
    let n = cx.pick("announced", &interesting(t));
    let before = cx.pick("packets before", &t.q(vec![0usize, 2], vec![0, 1, 2, 5]));
    let g = cx.pick("garbage", &[0usize, 12]);
    for split in [usize::MAX, 1] {
        cx.case(&(n, before, in_hs, split, g));
        announce(cx, drv, role, in_hs, before, n, split, g);
    }
}
/// Next to key changes.
fn late(cx: &Cx, t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let before = cx.pick("packets before", &t.q(vec![222usize, 223, 224], vec![221, 222, 223, 224, 446, 447, 448, 671]));
    let n = cx.pick("announced", &[MAX_CONTENTS + 1, MAX_CONTENTS + 16, MAX_CONTENTS + 17, 1 << 22, TOP]);
    cx.case(&(n, before));
    announce(cx, drv, Role::Initiator, false, before, n, usize::MAX, 0);
}
/// Every announcement above the limit (thorough: all of them; quick: a dense grid), thousands per
/// session: none of them makes the reader allocate.  Only the first of a session must be reported
/// as too big; afterwards any error will do.
fn sweep(cx: &Cx, t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let per = 4096usize;
    let chunks = (TOP - MAX_CONTENTS).div_ceil(per);
    let c = cx.choose("range", chunks);
    let step = t.q(257, 1);
    let p = { let mut p = script(Role::Responder, 0); p.session.clear(); p };
    let net = Net::new(cx, Some(p));
    cx.seed_fill(3);
    let Out::Ok(mut conn) = connect(cx, drv, &net, MAGIC, Role::Responder, None, None) else { cx.fail("handshake fails") };
    let lo = MAX_CONTENTS + 1 + c * per;
    let mut first = true;
    let mut tb = 0;
    for n in (lo..(lo + per).min(TOP + 1)).step_by(step) {
        {
            let mut g = net.l();
            g.ops = 0;
            let b = g.rf.as_mut().map(|r| r.send.only_len(n as u32)).unwrap_or([0; 3]);
            let at = g.inb.len();
            if at > 10_000 {
                let pos = g.pos;
                g.inb.drain(..pos);
                g.pos = 0;
            }
            g.inb.extend(b);
        }
        let (r, big, peak) = measure(|| conn.read(cx, &net));
        cx.case(&n);
        cx.check(big < LIM && peak < LIM, || format!("announcing {n}: allocates {big} bytes at once, {peak} in all"));
        cx.check(!first || too_big(&r), || format!("announcing {n}: {}", short(&r)));
        cx.check(!matches!(r, Out::Ok(_)), || format!("announcing {n}: a packet is delivered"));
        tb += too_big(&r) as u64;
        first = false;
    }
    cx.outcome(if tb > 1 { "every one refused as too big" } else { "reader stops after the first" });
}
/// Session packets up to the limit are delivered, whatever the splitting; the allocation entry
/// point agrees.
fn delivered(cx: &Cx, t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let n = cx.pick("contents", &t.q(
        vec![MAX_CONTENTS, MAX_CONTENTS - 1, MAX_CONTENTS - 15, MAX_CONTENTS - 16, MAX_CONTENTS - 17, 3_999_999, 4_000_000, 1 << 21, 70_000],
        (MAX_CONTENTS - 40..=MAX_CONTENTS).chain([1 << 21, 3_000_000, 2_000_000, 1_000_000, 65_535, 65_536, 70_000]).collect::<Vec<_>>(),
    ));
    let max = cx.pick("bytes per read", &[usize::MAX, 65_536]);
    let mut p = script(role, 3);
    p.session = vec![(0, contents(1, n)), (128, vec![]), (0, contents(2, n / 3))];
    let net = Net::new(cx, Some(p.clone()));
    net.l().rd_max = max;
    let Out::Ok(mut c) = connect(cx, drv, &net, MAGIC, role, None, None) else { cx.fail("handshake fails") };
    for (h, w) in &p.session {
        let x = c.read(cx, &net);
        match x {
            Out::Ok((d, b)) => cx.check(d == (*h == 128) && b == *w, || format!("packet of {} bytes of contents read as {} bytes", w.len(), b.len())),
            x => cx.fail(format!("packet of {} bytes of contents: {}", w.len(), short(&x))),
        }
    }
    cx.case(&(n, max));
}
/// Handshake decoys well within the limit are skipped.
fn hs_decoys(cx: &Cx, t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let n = cx.pick("contents", &t.q(vec![3_999_997usize, 3_999_990, 1_000_000], vec![3_999_997, 3_999_996, 3_999_990, 3_900_000, 2_000_000, 1_000_000, 65_535]));
    let fin = cx.flag("completing packet large");
    let mut p = script(Role::Initiator, 3);
    p.hs = if fin { vec![(128, vec![1; 9]), (0, contents(1, n))] } else { vec![(128, contents(1, n)), (0, vec![])] };
    p.session = vec![(0, vec![7; 7])];
    let net = Net::new(cx, Some(p));
    let r = connect(cx, drv, &net, MAGIC, Role::Initiator, None, None);
    let Out::Ok(mut c) = r else { cx.fail(format!("handshake with a packet of {n} bytes of contents fails")) };
    cx.check(c.read(cx, &net) == Out::Ok((false, vec![7; 7])), || "packet after a large handshake packet".into());
    cx.case(&(n, fin));
}
/// The allocating decryption entry point: limit, error, allocation and the state afterwards.
fn to_vec(cx: &Cx, t: Tier) {
    let from = cx.pick("sender", &ROLES);
    let n = cx.pick("contents", &t.q(
        vec![MAX_CONTENTS - 1, MAX_CONTENTS, MAX_CONTENTS + 1, MAX_CONTENTS + 2, MAX_CONTENTS + 15, MAX_CONTENTS + 16, MAX_CONTENTS + 17, MAX_CONTENTS + 18, 5_000_000, TOP],
        (MAX_CONTENTS - 3..MAX_CONTENTS + 40).chain([1 << 22, 5_000_000, 1 << 23, TOP - 1, TOP]).collect::<Vec<_>>(),
    ));
    let good = cx.flag("valid tag");
    let (mut s, mut r, mut d) = pair_at(cx, 16, 1, 1).towards(from);
    let _ = &mut s;
    let c = contents(3, n);
    let mut ct = d.clone().packet(&c, false, &[]);
    if !good {
        let l = ct.len();
        ct[l - 1] ^= 1;
    }
    let len = r.decrypt_packet_len(ct[..3].try_into().unwrap());
    cx.check(len == n + 17, || format!("length {len}"));
    let (o, big, _) = measure(|| open(Api::ToVec, &mut r, &ct[3..], None));
    if n > MAX_CONTENTS {
        cx.check(o.res == Err(Error::PacketTooBig), || format!("{n} bytes of contents: {}", short(&o.res)));
        cx.check(big < LIM, || format!("{n} bytes of contents: allocates {big} bytes for a refused packet"));
        // the refused packet can still be opened into a caller's buffer
        if good {
            let o = open(Api::Decrypt, &mut r, &ct[3..], None);
            cx.check(matches!(&o.res, Ok((_, b)) if b[1..] == c[..]), || "packet refused by the allocating entry point cannot be decrypted into a buffer".into());
        }
    } else if good {
        cx.check(matches!(&o.res, Ok((_, b)) if b.len() == n + 1 && b[1..] == c[..]), || format!("{n} bytes of contents: {}", short(&o.res.as_ref().map(|x| x.1.len()))));
    } else {
        cx.check(matches!(o.res, Err(Error::Decryption(_))), || format!("{n} bytes of contents, wrong tag: {}", short(&o.res)));
    }
    let _ = d.packet(&c, false, &[]);
    cx.case(&(n, good));
}
/// Nothing piles up: whatever the peer sends, memory in use stays in the order of the packet under
/// way (buffers of up to 1 MB besides are nobody's business).
fn pile(cx: &Cx, t: Tier) {
    let drv = cx.pick("driver", &DRVS);
    let role = cx.pick("role", &ROLES);
    let what = cx.pick("sent", &["handshake decoys", "packets", "decoys", "altered packets", "garbage", "replies"]);
    let (n, size) = match what {
        "garbage" => (1, 6_000_000),
        _ => cx.pick("packets", &t.q(vec![(60usize, 100_000usize), (4000, 1000)], vec![(60, 100_000), (4000, 1000), (20_000, 200), (400, 100_000), (5, 3_999_990)])),
    };
    let max = match what {
        "garbage" => cx.pick("bytes per read", &[usize::MAX, 1000, 64, 7, 1]),
        _ => cx.pick("bytes per read", &t.q(vec![usize::MAX], vec![usize::MAX, 1000, 50])),
    };
    let mut p = script(role, 3);
    p.session.clear();
    let body: Vec<(u8, Vec<u8>)> = (0..n).map(|k| (if what.ends_with("decoys") { 128 } else { 0 }, vec![k as u8; size])).collect();
    match what {
        "handshake decoys" => p.hs = body.into_iter().chain([(0, vec![])]).collect(),
        "garbage" | "replies" => {}
        _ => p.session = body,
    }
    cx.seed_fill(3);
    let net = if what == "garbage" {
        let mut b = p.ell().to_vec();
        b.resize(size, 0x11);
        Net::raw(cx, b, End::Block)
    } else {
        Net::new(cx, Some(p.clone()))
    };
    {
        let mut g = net.l();
        g.rd_max = max;
        // outgoing bytes do not land in memory that is counted, but keep the vector from moving about
        if what == "replies" {
            g.out.reserve(n * (size + 40) + 10_000);
        }
        if what == "altered packets" {
            let each = size + 20;
            g.tamper = Some(Box::new(move |v: &mut Vec<u8>| {
                let s = v.len() - n * each;
                for k in 0..n {
                    v[s + k * each + 3 + (k * 7) % (size + 17)] ^= 1;
                }
            }));
        }
    }
    let bound = 4 * size.min(5_000_000) + LIM;
    let bound = if what == "garbage" { LIM } else { bound };
    let see = |w: String, peak: usize| cx.check(peak < bound, || format!("{n} {what} of {size} bytes: {peak} bytes in use {w}"));
    let (r, _, peak) = measure(|| connect(cx, drv, &net, MAGIC, role, None, None));
    see("during the handshake".into(), peak);
    let mut c = match (r, what) {
        (Out::Ok(c), w) if w != "garbage" => c,
        (Out::Ok(_), _) => cx.fail("handshake completes without a terminator"),
        (Out::Wait, "garbage") => cx.fail("garbage without a terminator is never refused"),
        (_, "garbage") => return cx.case(&what),
        (x, _) => cx.fail(format!("{what}: handshake: {}", match x { Out::Io(k, _) => format!("{k:?}"), Out::Lib(e) => format!("{e:?}"), _ => "waits".into() })),
    };
    let reply = payload(false, &vec![9; size]);
    let (_, _, peak) = measure(|| {
        for k in 0..n {
            net.l().ops = 0;
            match what {
                "replies" => {
                    let r = c.write(cx, &net, &reply);
                    cx.check(r == Out::Ok(()), || format!("write {k}: {}", short(&r)));
                }
                "packets" | "decoys" => {
                    let r = c.read(cx, &net);
                    cx.check(matches!(&r, Out::Ok((_, b)) if b.len() == size && b[0] == k as u8), || format!("packet {k} of {size} bytes: {}", short(&r)));
                }
                "altered packets" => {
                    let r = c.read(cx, &net);
                    cx.check(!matches!(r, Out::Ok(_)), || format!("altered packet {k} is delivered"));
                }
                _ => break,
            }
        }
    });
    see("after the handshake".into(), peak);
    cx.case(&(what, n, size, max));
}
pub fn check(t: Tier) -> Check {
    let mut c = Check::new("C16", "model_checking",
        "the real drivers under an allocation monitor, the peer announcing every boundary length (thorough: every one of the 12.8 million too large lengths) during and after the handshake, both drivers and roles, next to key changes, and sending nothing more; packets at and below the limit are delivered; floods of decoys, packets, altered packets, garbage and replies, memory in use bounded by the packet under way; the allocating decryption entry point at and around the limit");
    c.add("announcement on a fresh connection", 0, move |cx| fresh(cx, t));
    c.add("announcement next to key changes", 0, move |cx| late(cx, t));
    c.add_long("every announcement", 0, 600, move |cx| sweep(cx, t));
    c.add("delivered up to the limit", 0, move |cx| delivered(cx, t));
    c.add("large handshake packets", 0, move |cx| hs_decoys(cx, t));
    c.add("nothing piles up", 0, move |cx| pile(cx, t));
    c.add("allocating entry point", 0, move |cx| to_vec(cx, t));
    c
}
