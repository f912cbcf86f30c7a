//! "One value changed": four pieces in which much happens, and every piece that differs from one of them in one
//! value - a velocity, key, channel, start or end of a note, a control's value, time or channel, the resolution,
//! a pause put in, a note doubled or left out.  Each is judged by the reference.
use crate::engine::*;
use crate::p_midi::*;
use crate::p_real::*;
use crate::p_song::*;
use crate::smf::*;

#[derive(Clone, Copy)]
struct N {
    ch: u8,
    key: u8,
    vel: u8,
    on: u32,
    off: u32,
}
struct Base {
    ctl: Vec<Timed>,
    notes: Vec<N>,
    tpb: u16,
}

fn n(ch: u8, key: u8, on: u32, off: u32) -> N {
    N { ch, key, vel: 100, on, off }
}

/// chords, drums, changes, a pause
fn medley() -> Base {
    let mut b = Base { ctl: vec![], notes: vec![], tpb: 480 };
    let mut open: Vec<(usize, u8, u8)> = vec![];
    for (t, e) in everything() {
        match e {
            Ev::On(c, k, v) => {
                open.push((b.notes.len(), c, k));
                b.notes.push(N { ch: c, key: k, vel: v, on: t, off: 0 });
            }
            Ev::Off(c, k) => {
                let i = open.iter().position(|o| o.1 == c && o.2 == k).unwrap();
                b.notes[open.remove(i).0].off = t;
            }
            e => b.ctl.push((t, e)),
        }
    }
    b
}

/// all eight voices in use again and again, by five channels
fn crowd() -> Base {
    let mut v = vec![];
    for (k, t) in [0u32, 96, 240].iter().enumerate() {
        let l = if k == 1 { 96 } else { 84 };
        for j in 0..3 {
            v.push(n(0, 60 + 4 * j + k as u8, *t, t + l - 6 * j as u32));
        }
        v.push(n(1, 40, *t, t + l));
        v.push(n(1, 52, *t + 6, t + l));
        v.push(n(9, 42, *t, t + 12));
        v.push(n(9, 38, *t + 12, t + 24));
        v.push(n(2, 70, *t, t + 48));
        v.push(n(2, 72, *t + 48, t + l));
        v.push(n(4, 76 - k as u8, t + 24, t + l));
    }
    Base { ctl: vec![(0, Ev::Cc(0, 7, 90)), (0, Ev::Pc(2, 40)), (100, Ev::Pc(4, 73)), (200, Ev::Cc(0, 7, 20)), (210, Ev::Tempo(300_000))], notes: v, tpb: 24 }
}

/// six channels hold a note, the others take turns on the voices that are left
fn turns() -> Base {
    let mut v: Vec<N> = (0..6).map(|c| n(10 + c, 36 + 2 * c, 0, 400)).collect();
    let mut t = 0;
    for i in 0..16u32 {
        let c = [0u8, 1, 9, 2, 0, 9, 3, 1][(i % 8) as usize];
        let key = if c == 9 { [38, 42, 40][(i % 3) as usize] } else { 55 + (i * 5 % 12) as u8 };
        v.push(n(c, key, t, t + [20, 12][(i / 8) as usize]));
        t += if i % 5 == 4 { 30 } else { 20 };
    }
    let ctl = vec![
        (0, Ev::Cc(0, 7, 90)),
        (0, Ev::Cc(1, 7, 30)),
        (0, Ev::Pc(0, 40)),
        (0, Ev::Pc(1, 56)),
        (0, Ev::Cc(9, 7, 70)),
        (70, Ev::Pc(2, 8)),
        (130, Ev::Cc(3, 7, 50)),
        (170, Ev::Pc(0, 73)),
        (200, Ev::Cc(0, 7, 120)),
        (220, Ev::Pc(9, 5)),
    ];
    Base { ctl, notes: v, tpb: 24 }
}

/// a passage played four times by each of two channels, which loops replace
fn refrain() -> Base {
    let mut v = vec![];
    for c in 0..2u8 {
        for r in 0..4u32 {
            let t = r * 96 + if r > 1 { 24 } else { 0 };
            for (i, &(key, l, gap)) in [(60u8, 12u32, 0u32), (62, 12, 12), (62, 6, 0), (65, 18, 6), (48, 24, 6)].iter().enumerate() {
                let at = [0u32, 12, 36, 42, 66][i];
                let _ = gap;
                v.push(n(c, key + c, t + at, t + at + l));
            }
        }
    }
    Base { ctl: vec![(0, Ev::Cc(0, 7, 90)), (0, Ev::Pc(1, 40)), (216, Ev::Cc(1, 7, 64)), (216, Ev::Tempo(700_000))], notes: v, tpb: 24 }
}

pub struct Edited {
    pub tracks: Vec<Trk>,
    pub tpb: u16,
    /// the change cannot make the piece need other voices
    pub fits: bool,
    pub what: usize,
}

pub const EDIT: &str = "four pieces (a medley with chords and drums; eight voices in use throughout; channels taking turns on two voices; a refrain) with one value changed in every way: velocity, key, channel, start and end of each note (and doubled on each channel, and left out); value, time and channel of each control; all velocities, all keys, two channels exchanged; a pause put in at each place; 60 resolutions";

const TEMPOS: [u32; 14] = [1, 1000, 46_875, 65_535, 65_536, 131_072, 234_375, 400_000, 500_000, 524_288, 1_000_000, 8_388_608, 12_000_000, 16_777_215];

pub fn edited(cx: &mut Ctx) -> Option<Edited> {
    let which = cx.choose(4);
    let mut b = [medley, crowd, turns, refrain][which]();
    let end = b.notes.iter().map(|n| n.off).max().unwrap();
    let step = b.tpb as u32 / 24;
    let kind = cx.choose(16);
    let thorough = cx.thorough;
    let mut fits = false;
    match kind {
        0 => {
            let i = cx.choose(b.notes.len());
            b.notes[i].vel = 1 + cx.choose(127) as u8;
            fits = true;
        }
        1 => {
            let i = cx.choose(b.notes.len());
            b.notes[i].key = cx.choose(128) as u8;
        }
        2 => {
            let i = cx.choose(b.notes.len());
            b.notes[i].ch = cx.choose(16) as u8;
        }
        3 => {
            let i = cx.choose(b.notes.len());
            let cells = if thorough { end as usize } else { 60 };
            let off = (b.notes[i].off as usize).min(end as usize);
            b.notes[i].on = (cx.choose(cells) * off / cells) as u32;
        }
        4 => {
            let i = cx.choose(b.notes.len());
            let far = [1u32, 2, 3, 5, 50, 126 * step, 127 * step, 128 * step, 254 * step, 255 * step, 1 << 14, 1 << 16];
            let cells = if thorough { end as usize } else { 60 };
            let k = cx.choose(cells + far.len());
            let on = b.notes[i].on;
            b.notes[i].off = if k < cells { on + 1 + (end - on) * k as u32 / cells as u32 } else { end + far[k - cells] };
        }
        5 => {
            let v = 1 + cx.choose(127) as u8;
            b.notes.iter_mut().for_each(|n| n.vel = v);
            fits = true;
        }
        6 => {
            let d = cx.choose(130) as i16 - 65;
            let drums = cx.flag();
            for n in b.notes.iter_mut() {
                if drums || n.ch != 9 {
                    let k = n.key as i16 + d;
                    if k < 0 || k > 127 {
                        return None;
                    }
                    n.key = k as u8;
                }
            }
            fits = true;
        }
        7 => {
            let c = cx.choose(16) as u8;
            let d = cx.choose(16) as u8;
            if c >= d {
                return None;
            }
            let f = |x: u8| if x == c { d } else if x == d { c } else { x };
            b.notes.iter_mut().for_each(|n| n.ch = f(n.ch));
            for (_, e) in b.ctl.iter_mut() {
                *e = rechannel(e, &f, &|_, k| k);
            }
            fits = which != 1 && which != 2;
        }
        8 => {
            let i = cx.choose(b.ctl.len());
            b.ctl[i].1 = match b.ctl[i].1 {
                Ev::Pc(c, _) => Ev::Pc(c, cx.choose(128) as u8),
                Ev::Cc(c, k, _) => Ev::Cc(c, k, cx.choose(128) as u8),
                _ => Ev::Tempo(cx.pick(&TEMPOS)),
            };
            fits = true;
        }
        9 => {
            let i = cx.choose(b.ctl.len());
            let cells = if thorough { end as usize } else { 120 };
            b.ctl[i].0 = (cx.choose(cells + 3) * end as usize / cells) as u32;
            fits = true;
        }
        10 => {
            let i = cx.choose(b.ctl.len());
            let c = cx.choose(16) as u8;
            b.ctl[i].1 = rechannel(&b.ctl[i].1, &|_| c, &|_, k| k);
            fits = true;
        }
        11 => {
            let mut times: Vec<u32> = b.notes.iter().flat_map(|n| vec![n.on, n.off]).chain(b.ctl.iter().map(|c| c.0)).collect();
            times.sort();
            times.dedup();
            let at = cx.pick(&times);
            let d = cx.pick(&[1u32, 2, 3, 4, 5, 7, 11, 19, 21, 23, 100, 126, 127, 128, 254, 255, 256, 127 * 20, 128 * 20, 1 << 14, 1 << 16, (1 << 16) + 1, 127 * 600]);
            // a note that ends at this time ends before or after the pause
            let keep = cx.flag();
            let later = |t: u32, stay: bool| if t > at || t == at && !stay { t + d } else { t };
            for n in b.notes.iter_mut() {
                n.on = later(n.on, false);
                n.off = later(n.off, keep);
            }
            b.ctl.iter_mut().for_each(|c| c.0 = later(c.0, keep));
            fits = true;
        }
        12 => {
            let all = [1u16, 2, 3, 5, 7, 10, 11, 12, 13, 15, 16, 17, 19, 20, 23, 25, 29, 30, 31, 32, 36, 40, 47, 48, 49, 50, 60, 64, 71, 72, 73, 80, 90, 95, 96, 97, 100, 120, 128, 144, 160, 168, 180, 192, 200, 240, 256, 300, 360, 384, 500, 512, 600, 768, 960, 1000, 1024, 1920, 3840, 10080, 15360, 32767];
            b.tpb = cx.pick(&all);
            fits = true;
        }
        13 => {
            let i = cx.choose(b.notes.len());
            let mut twin = b.notes[i];
            twin.ch = cx.choose(16) as u8;
            if twin.ch == b.notes[i].ch {
                return None;
            }
            let before = cx.flag();
            b.notes.insert(if before { i } else { i + 1 }, twin);
        }
        14 => {
            let i = cx.choose(b.notes.len());
            b.notes.remove(i);
            fits = true;
        }
        _ => {
            // one control left out
            let i = cx.choose(b.ctl.len());
            b.ctl.remove(i);
            fits = true;
        }
    }
    if b.notes.iter().any(|n| n.off <= n.on) {
        return None;
    }
    let mut t = b.ctl.clone();
    for n in &b.notes {
        t.push((n.on, Ev::On(n.ch, n.key, n.vel)));
        t.push((n.off, Ev::Off(n.ch, n.key)));
    }
    t.sort_by_key(|(t, e)| (*t, e.prio()));
    cx.state(&t);
    let tpb = b.tpb;
    cx.desc(|| format!("resolution {}: {:?}", tpb, t));
    Some(Edited { tracks: vec![t], tpb: b.tpb, fits, what: kind })
}

pub fn look_edited(what: Look) -> Family {
    fam("one value changed", EDIT, move |cx| {
        let x = match edited(cx) {
            None => return Ok(Out::Skip),
            Some(x) => x,
        };
        let s = match convert(cx, &Smf::new(x.tpb, x.tracks.clone())) {
            Err(e) if !x.fits && refused(&e) => return Ok(Out::Skip),
            r => r?,
        };
        look_at(what, &x.tracks, x.tpb, &s)
    })
}

/// every note on one voice, or an error; with up to two notes more
pub fn voices_edited() -> Family {
    fam("one value changed", &format!("{}; and with one note more, of every velocity (selected keys and channels), in the middle of one of the chords", EDIT), |cx| {
        let mut x = match edited(cx) {
            None => return Ok(Out::Skip),
            Some(x) => x,
        };
        if x.what == 14 {
            // another note instead of the one left out
            let on: Vec<u32> = x.tracks[0].iter().filter(|(_, e)| matches!(e, Ev::On(..))).map(|e| e.0).collect();
            let at = on[on.len() / 2] + 1;
            let (c, k) = cx.pick(&[(0u8, 30u8), (3, 90), (9, 42), (9, 40)]);
            let v = 1 + cx.choose(127) as u8;
            x.tracks.push(vec![(at, Ev::On(c, k, v)), (at + 3, Ev::Off(c, k))]);
        }
        check_voices(cx, x.tracks)
    })
}

/// with and without loops, and their bytes
pub fn loops_edited(check: crate::p_loop::Check) -> Family {
    fam("one value changed", EDIT, move |cx| {
        let x = match edited(cx) {
            None => return Ok(Out::Skip),
            Some(x) => x,
        };
        let smf = Smf::new(x.tpb, x.tracks);
        if !x.fits && convert(cx, &smf).is_err() {
            return Ok(Out::Skip);
        }
        let (plain, opt) = crate::p_loop::both(cx, &smf)?;
        check(&plain, &opt).map(Out::Ok)
    })
}

pub fn encoding_edited() -> Family {
    fam("one value changed", EDIT, move |cx| {
        let x = match edited(cx) {
            None => return Ok(Out::Skip),
            Some(x) => x,
        };
        let s = match crate::spc::convert_at(&cx.path("i.mid"), &Smf::new(x.tpb, x.tracks).bytes(), 0.2, true, false) {
            Err(e) if !x.fits && refused(&e) => return Ok(Out::Skip),
            r => r?,
        };
        let (parts, tracks) = crate::p_loop::parse_song(&s)?;
        crate::p_loop::check_encoding(&s, &parts, &tracks).map(Out::Ok)
    })
}

/// the same song from other encodings
pub fn layouts_edited() -> Family {
    fam("one value changed", &format!("{}; in six encodings, with controls and notes in tracks of their own", EDIT), |cx| {
        let x = match edited(cx) {
            None => return Ok(Out::Skip),
            Some(x) => x,
        };
        let base = Smf::new(x.tpb, x.tracks);
        let mut vs = vec![];
        for i in 0..6 {
            let mut b = base.clone();
            b.running = i & 1 > 0;
            b.vel0 = i & 2 > 0;
            b.off_vel = [0, 127, 64][i / 2];
            if i == 3 {
                b.format = 0;
            }
            if i > 3 {
                let notes = |e: &Timed| matches!(e.1, Ev::On(..) | Ev::Off(..));
                let (a, c): (Trk, Trk) = base.tracks[0].iter().cloned().partition(|e| notes(e));
                b.tracks = if i == 4 { vec![a, c] } else { vec![c, a] };
            }
            vs.push(b);
        }
        same(cx, &base, &vs)
    })
}

/// accepted exactly when the channels can be shared out: one note at a time on each channel
pub fn accept_edited() -> Family {
    fam("one value changed", &format!("{}; only the first of the notes of a channel that sound together, and three times over on further channels", EDIT), |cx| {
        let x = match edited(cx) {
            None => return Ok(Out::Skip),
            Some(x) => x,
        };
        let mut t = thin(&x.tracks);
        if cx.flag() {
            let used: Vec<u8> = (0..16).filter(|c| t[0].iter().any(|(_, e)| e.ch() == Some(*c))).collect();
            let free: Vec<u8> = (0..16).filter(|c| !used.contains(c)).collect();
            let at = t[0].clone();
            for k in 0..2usize {
                let f = |c: u8| used.iter().position(|u| *u == c).and_then(|i| free.get(i * 2 + k)).cloned().unwrap_or(16);
                t.push(at.iter().filter(|(_, e)| e.ch().map_or(false, |c| f(c) < 16)).map(|(at, e)| (*at + 3 * (k as u32 + 1), rechannel(e, &f, &|_, k| k))).collect());
            }
            t.retain(|t| !t.is_empty());
        }
        if read_piece(&t).notes.iter().any(|n| n.off.is_none()) {
            return Ok(Out::Skip);
        }
        check_accept(cx, t, x.tpb)
    })
}

pub fn survives_edited() -> Family {
    fam("one value changed", EDIT, |cx| {
        let x = match edited(cx) {
            None => return Ok(Out::Skip),
            Some(x) => x,
        };
        let by = Smf::new(x.tpb, x.tracks).bytes();
        Ok(Out::Ok(survive(cx, &by, &[true, false])?.0))
    })
}

pub const TRACKS: &str = "four pieces cut into 1 to 40 tracks by time or by turns of events, or every kind of event in a track of its own, with up to 40 empty tracks or tracks with text only before, between or after them";

pub fn in_tracks(cx: &mut Ctx) -> (Vec<Trk>, u16) {
    let which = cx.choose(4);
    let b = [medley, crowd, turns, refrain][which]();
    let mut t = b.ctl.clone();
    for n in &b.notes {
        t.push((n.on, Ev::On(n.ch, n.key, n.vel)));
        t.push((n.off, Ev::Off(n.ch, n.key)));
    }
    t.sort_by_key(|(t, e)| (*t, e.prio()));
    let how = cx.choose(3);
    let n = [1usize, 2, 3, 5, 8, 9, 15, 16, 17, 18, 24, 31, 32, 33, 40][if how == 2 { 0 } else { cx.choose(15) }];
    let mut tracks: Vec<Trk> = vec![];
    if how < 2 {
        tracks = vec![vec![]; n];
        let len = (t.len() + n - 1) / n;
        for (i, e) in t.iter().enumerate() {
            // events at one time and of one kind stay in the order of the tracks
            let k = if how == 0 { i / len } else { (0..n).map(|j| (i + j) % n).find(|&k| tracks.iter().skip(k + 1).all(|l| l.iter().all(|x| x.0 != e.0 || x.1.prio() != e.1.prio()))).unwrap_or(n - 1) };
            tracks[k].push(e.clone());
        }
    } else {
        for k in 0..5 {
            let f = |e: &Ev| match e {
                Ev::Tempo(_) => 0,
                Ev::Pc(..) => 1,
                Ev::Cc(..) => 2,
                Ev::On(9, ..) | Ev::Off(9, ..) => 3,
                _ => 4,
            };
            tracks.push(t.iter().filter(|e| f(&e.1) == k).cloned().collect());
        }
        tracks.rotate_left(cx.choose(5));
    }
    let empty = cx.pick(&[0usize, 1, 2, 14, 15, 16, 40]);
    let filler: Trk = if empty > 0 && cx.flag() { vec![(0, Ev::Meta(3, b"name".to_vec())), (50, Ev::Meta(1, b"word".to_vec()))] } else { vec![] };
    if empty > 0 {
        let fill = vec![filler; empty];
        match cx.choose(3) {
            0 => tracks = [fill, tracks].concat(),
            1 => tracks = [tracks, fill].concat(),
            _ => {
                let (a, c) = tracks.split_at(tracks.len() / 2);
                tracks = [a, &fill, c].concat();
            }
        }
    }
    cx.state(&tracks);
    cx.desc(|| format!("piece {}, resolution {}, {} tracks (way {}, {} of them empty)", which, b.tpb, tracks.len(), how, empty));
    (tracks, b.tpb)
}

pub fn look_tracks(what: Look) -> Family {
    fam("many tracks", TRACKS, move |cx| {
        let (tracks, tpb) = in_tracks(cx);
        let s = convert(cx, &Smf::new(tpb, tracks.clone()))?;
        look_at(what, &tracks, tpb, &s)
    })
}

pub fn layouts_tracks() -> Family {
    fam("many tracks", TRACKS, move |cx| {
        let (tracks, tpb) = in_tracks(cx);
        // one track with everything, simultaneous events of one kind in the order of the tracks
        let mut t: Trk = tracks.concat();
        t.sort_by_key(|(t, e)| (*t, e.prio()));
        let base = Smf::new(tpb, vec![t]);
        let mut b = base.clone();
        b.tracks = tracks;
        same(cx, &base, &[b])
    })
}

pub const COUNTS: &str = "1 to 40 events of each of twelve kinds, and numbers at and around powers of two up to 65536 (thorough: 262144), then notes, drums and changes on other channels: notes on one channel or three, chords, drum hits, tempo, volume and program changes, text and system exclusive events, keys struck again, key pressures and bends, pauses, controls all at one time";

pub fn in_counts(cx: &mut Ctx) -> (Vec<Trk>, u16) {
    let kind = cx.choose(12);
    let mut ns: Vec<usize> = (1..41).collect();
    for p in &[64usize, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536] {
        ns.extend(&[*p - 1, *p, *p + 1]);
    }
    ns.extend(&[100, 200, 300, 500, 1000, 2000, 5000, 10000, 20000, 30000, 40000, 50000, 60000]);
    if cx.thorough {
        ns.extend(&[131071, 131072, 131073, 262144]);
    }
    let n = cx.pick(&ns);
    // the large ones once
    let (c, tpb) = if n > 600 { ([0u8, 13][n % 2], [24u16, 480][n / 2 % 2]) } else { (cx.pick(&[0u8, 13]), cx.pick(&[24u16, 480])) };
    let u = tpb as u32 / 24;
    let mut t: Trk = vec![];
    let mut now = 0u32;
    let mut held = None;
    if kind == 9 || kind == 7 {
        t.push((0, Ev::On(c, 60, 90)));
        held = Some((c, 60));
    }
    for i in 0..n {
        let k = 40 + (i * 7 % 41) as u8;
        let l = u * [3, 2, 5][i % 3];
        let mut note = |t: &mut Trk, now: &mut u32, c: u8, k: u8, v: u8, l: u32| {
            t.push((*now, Ev::On(c, k, v)));
            t.push((*now + l, Ev::Off(c, k)));
            *now += l;
        };
        match kind {
            0 => note(&mut t, &mut now, c, k, 1 + (i % 127) as u8, l),
            1 => note(&mut t, &mut now, [c, 2, 5][i % 3], k, 100, l),
            2 => {
                for j in 0..3u8 {
                    t.push((now, Ev::On(c, k + 4 * j, 100)));
                }
                for j in 0..3u8 {
                    t.push((now + l, Ev::Off(c, k + 4 * j)));
                }
                now += l;
            }
            3 => note(&mut t, &mut now, 9, [38, 42, 40, 51][i % 4], 100, l),
            4 => {
                t.push((now, Ev::Tempo(200_000 + (i % 700) as u32 * 1000)));
                note(&mut t, &mut now, c, k, 100, l);
            }
            5 => {
                t.push((now, Ev::Cc(c, 7, (i % 128) as u8)));
                note(&mut t, &mut now, c, k, 100, l);
            }
            6 => {
                t.push((now, Ev::Pc(c, (i % 128) as u8)));
                note(&mut t, &mut now, c, k, 100, l);
            }
            7 => {
                now += 1;
                t.push((now, if i % 2 == 0 { Ev::Meta(1, vec![b'a'; i % 5]) } else { Ev::Sysex(vec![1, 2, 0xf7]) }));
            }
            8 => {
                t.push((now, Ev::On(c, 60, 1 + (i % 127) as u8)));
                now += l;
                held = Some((c, 60));
            }
            9 => {
                now += 1;
                t.push((now, if i % 2 == 0 { Ev::Poly(c, 60, (i % 128) as u8) } else { Ev::Bend(c, 1, (i % 128) as u8) }));
            }
            10 => {
                note(&mut t, &mut now, c, k, 100, l);
                now += u * [7, 1, 130][i % 3];
            }
            _ => t.push((now, Ev::Cc(c, [1, 10, 11, 64, 91][i % 5], (i % 128) as u8))),
        }
    }
    if let Some((c, k)) = held {
        now += u;
        t.push((now, Ev::Off(c, k)));
    }
    // what comes after
    t.extend(vec![(now, Ev::Tempo(400_000)), (now, Ev::Pc(c, 73)), (now, Ev::Cc(c, 7, 33)), (now, Ev::Pc(6, 56)), (now, Ev::Cc(6, 7, 77))]);
    for r in 0..2u32 {
        for j in 0..3u8 {
            t.push((now, Ev::On(c, 48 + 5 * j + r as u8, 60)));
            t.push((now + 12 * u, Ev::Off(c, 48 + 5 * j + r as u8)));
        }
        t.push((now, Ev::On(6, 70, 110)));
        t.push((now + 6 * u, Ev::Off(6, 70)));
        t.push((now, Ev::On(9, 40 - r as u8, 80)));
        t.push((now + 9 * u, Ev::Off(9, 40 - r as u8)));
        now += 14 * u;
        t.push((now, Ev::Cc(6, 7, 20)));
        t.push((now, Ev::Pc(6, 0)));
        t.push((now, Ev::Tempo(600_000)));
    }
    t.sort_by_key(|(t, e)| (*t, e.prio()));
    cx.state(&(kind, n, c, tpb));
    cx.desc(|| format!("{} events of kind {} on channel {}, resolution {}", n, kind, c, tpb));
    (vec![t], tpb)
}

pub fn look_counts(what: Look) -> Family {
    fam("many events", COUNTS, move |cx| {
        let (tracks, tpb) = in_counts(cx);
        let s = convert(cx, &Smf::new(tpb, tracks.clone()))?;
        look_at(what, &tracks, tpb, &s)
    })
}

pub fn layouts_counts() -> Family {
    fam("many events", COUNTS, move |cx| {
        let (tracks, tpb) = in_counts(cx);
        let base = Smf::new(tpb, tracks);
        let t = &base.tracks[0];
        // the notes' events in tracks by channel; the others in one before or after them
        let by = |c: u8| -> Trk { t.iter().filter(|e| matches!(e.1, Ev::On(x, ..) | Ev::Off(x, ..) if x == c)).cloned().collect() };
        let rest: Trk = t.iter().filter(|e| !matches!(e.1, Ev::On(..) | Ev::Off(..))).cloned().collect();
        let mut split: Vec<Trk> = (0..16).map(by).filter(|t| !t.is_empty()).collect();
        split.push(rest);
        let mut b = base.clone();
        b.tracks = split;
        let mut c = base.clone();
        c.running = !c.running;
        same(cx, &base, &[b, c])
    })
}
pub fn survives_counts() -> Family {
    fam("many events", COUNTS, move |cx| {
        let (tracks, tpb) = in_counts(cx);
        let n: usize = tracks[0].len();
        let smf = Smf::new(tpb, tracks).bytes();
        Ok(Out::Ok(survive(cx, &smf, if n < 2000 { &[true, false] } else { &[false] })?.0))
    })
}

/// What happens within a step: events a fraction of a step, a step and a bit, or none apart.
pub fn look_fine(what: Look) -> Family {
    fam("fractions of a step", "a note (or none), then every history of four (thorough: five) starts and ends of notes of a channel, program, volume, tempo and portamento changes that are 0, 0.35, 0.65 or 1.5 steps apart, then two more notes; with and without portamento, program and volume beforehand; at three resolutions", move |cx| {
        let (tpb, unit) = cx.pick(&[(480u16, 1u32), (100, 0), (24, 2)]);
        let form = cx.choose(5);
        if unit != 1 && form > 1 && !cx.thorough {
            return Ok(Out::Skip);
        }
        let lead = cx.pick(&[0u32, 7]);
        let deltas: [u32; 4] = match unit {
            0 => [0, 1, 3, 6],
            1 => [0, 7, 13, 30],
            _ => [0, 1, 2, 12],
        };
        let long = tpb as u32 / 2;
        let mut t: Trk = vec![];
        if form & 1 == 1 {
            t.push((0, Ev::Cc(0, 65, 127)));
        }
        if form & 2 == 2 {
            t.push((0, Ev::Pc(0, 40)));
            t.push((0, Ev::Cc(0, 7, 90)));
        }
        let mut now = lead;
        let mut key = 50u8;
        let mut held = None;
        if form < 4 {
            t.push((now, Ev::On(0, key, 100)));
            held = Some(key);
            key += 1;
            now += long;
        }
        let mut n = 0;
        for _ in 0..if cx.thorough { 5 } else { 4 } {
            let e = cx.choose(6);
            now += cx.pick(&deltas);
            n += 1;
            match e {
                0 => match held.take() {
                    Some(k) => t.push((now, Ev::Off(0, k))),
                    None => {
                        t.push((now, Ev::On(0, key, 20 + 8 * n)));
                        held = Some(key);
                        key += 1;
                    }
                },
                1 => {
                    // the next at once
                    if let Some(k) = held.take() {
                        t.push((now, Ev::Off(0, k)));
                    }
                    t.push((now, Ev::On(0, key, 20 + 8 * n)));
                    held = Some(key);
                    key += 1;
                }
                2 => t.push((now, Ev::Pc(0, [73, 8, 56, 0, 24][n as usize % 5]))),
                3 => t.push((now, Ev::Cc(0, 7, 30 + n))),
                4 => t.push((now, Ev::Cc(0, 65, if form & 1 == 1 { 0 } else { 64 }))),
                _ => t.push((now, Ev::Tempo(300_000 + 50_000 * n as u32))),
            }
            cx.state(&(tpb, form, lead, &t));
        }
        for gap in [0u32, 40] {
            if let Some(k) = held.take() {
                t.push((now, Ev::Off(0, k)));
            }
            now += gap;
            t.push((now, Ev::On(0, key, 90)));
            held = Some(key);
            key += 1;
            now += long;
        }
        t.push((now, Ev::Off(0, key - 1)));
        cx.desc(|| format!("resolution {} {:?}", tpb, t));
        t.sort_by_key(|(t, e)| (*t, e.prio()));
        let tracks = vec![t];
        let s = convert(cx, &Smf::new(tpb, tracks.clone()))?;
        look_at(what, &tracks, tpb, &s)
    })
}
