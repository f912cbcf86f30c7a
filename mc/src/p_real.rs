//! Families over real pieces: the MIDI files in /repo/sample, cut, thinned out, mixed and transposed.
use crate::engine::*;
use crate::p_loop::*;
use crate::p_midi::*;
use crate::p_rom::*;
use crate::p_song::*;
use crate::smf::*;
use crate::spc::*;
use std::sync::OnceLock;

#[derive(Clone)]
pub struct Real {
    pub name: String,
    pub bytes: Vec<u8>,
    pub tpb: u16,
    pub tracks: Vec<Trk>,
    pub end: u32,
}

/// A reader of Standard MIDI Files of its own.
pub fn parse(b: &[u8]) -> Option<(u16, Vec<Trk>)> {
    fn num(b: &[u8], p: &mut usize) -> Option<u32> {
        let mut v = 0;
        loop {
            let c = *b.get(*p)?;
            *p += 1;
            v = v << 7 | (c & 0x7f) as u32;
            if c < 0x80 {
                return Some(v);
            }
        }
    }
    if b.get(..8)? != b"MThd\0\0\0\x06" {
        return None;
    }
    let tpb = u16::from_be_bytes([*b.get(12)?, *b.get(13)?]);
    let mut p = 14;
    let mut tracks = vec![];
    while p + 8 <= b.len() {
        let l = u32::from_be_bytes([b[p + 4], b[p + 5], b[p + 6], b[p + 7]]) as usize;
        let is_track = &b[p..p + 4] == b"MTrk";
        p += 8;
        let end = p + l;
        if !is_track {
            p = end;
            continue;
        }
        let mut t = 0;
        let mut st = 0u8;
        let mut trk = vec![];
        while p < end {
            t += num(b, &mut p)?;
            let mut s = *b.get(p)?;
            if s >= 0x80 {
                p += 1;
                if s < 0xf0 {
                    st = s;
                }
            } else {
                s = st;
            }
            if s >= 0xf0 {
                let ty = if s == 0xff {
                    p += 1;
                    b[p - 1]
                } else {
                    0
                };
                let n = num(b, &mut p)? as usize;
                let d = b.get(p..p + n)?.to_vec();
                p += n;
                let e = match (s, ty) {
                    (0xff, 0x51) if n == 3 => Ev::Tempo((d[0] as u32) << 16 | (d[1] as u32) << 8 | d[2] as u32),
                    (0xff, 0x2f) => continue,
                    (0xff, _) => Ev::Meta(ty, d),
                    (0xf0, _) => Ev::Sysex(d),
                    _ => Ev::Escape(d),
                };
                trk.push((t, e));
                continue;
            }
            let c = s & 15;
            let x = *b.get(p)?;
            let n = if s >> 4 == 12 || s >> 4 == 13 { 1 } else { 2 };
            let y = if n == 2 { *b.get(p + 1)? } else { 0 };
            p += n;
            let e = match s >> 4 {
                8 => Ev::Off(c, x),
                9 if y == 0 => Ev::Off(c, x),
                9 => Ev::On(c, x, y),
                10 => Ev::Poly(c, x, y),
                11 => Ev::Cc(c, x, y),
                12 => Ev::Pc(c, x),
                13 => Ev::Press(c, x),
                _ => Ev::Bend(c, x, y),
            };
            trk.push((t, e));
        }
        tracks.push(trk);
    }
    Some((tpb, tracks))
}

pub fn reals() -> &'static Vec<Real> {
    static R: OnceLock<Vec<Real>> = OnceLock::new();
    R.get_or_init(|| {
        let mut v = vec![];
        let mut names: Vec<_> = std::fs::read_dir("/repo/sample").map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
        names.sort();
        for p in names {
            if p.extension().map_or(false, |e| e == "mid") {
                let bytes = std::fs::read(&p).unwrap_or_default();
                if let Some((tpb, tracks)) = parse(&bytes) {
                    let end = tracks.iter().flatten().map(|x| x.0).max().unwrap_or(0);
                    v.push(Real { name: p.file_name().unwrap().to_string_lossy().to_string(), bytes, tpb, tracks, end });
                }
            }
        }
        v
    })
}

/// the part from `a` up to `b`, begun with the programs, volumes and tempo in force
pub fn cut(tracks: &[Trk], a: u32, b: u32) -> Vec<Trk> {
    tracks
        .iter()
        .map(|t| {
            let mut state: Vec<Ev> = vec![];
            let mut out: Trk = vec![];
            let mut held: Vec<(u8, u8)> = vec![];
            for (at, e) in t {
                match e {
                    Ev::On(c, k, _) => {
                        if *at >= a && *at < b {
                            held.push((*c, *k));
                            out.push((*at - a, e.clone()));
                        }
                    }
                    Ev::Off(c, k) => {
                        if let Some(i) = held.iter().position(|x| *x == (*c, *k)) {
                            held.remove(i);
                            out.push(((*at).min(b) - a, e.clone()));
                        }
                    }
                    Ev::Meta(..) => {}
                    e => {
                        if *at < a {
                            let same = |x: &Ev| match (x, e) {
                                (Ev::Cc(c, k, _), Ev::Cc(d, l, _)) => c == d && k == l,
                                (Ev::Pc(c, _), Ev::Pc(d, _)) | (Ev::Bend(c, ..), Ev::Bend(d, ..)) => c == d,
                                (Ev::Tempo(_), Ev::Tempo(_)) => true,
                                _ => false,
                            };
                            state.retain(|x| !same(x));
                            state.push(e.clone());
                        } else if *at < b {
                            out.push((*at - a, e.clone()));
                        }
                    }
                }
            }
            out.sort_by_key(|x| x.0);
            state.into_iter().map(|e| (0, e)).chain(out).collect()
        })
        .filter(|t: &Trk| !t.is_empty())
        .collect()
}

fn channels(tracks: &[Trk]) -> Vec<u8> {
    let mut c: Vec<u8> = tracks.iter().flatten().filter_map(|(_, e)| if let Ev::On(c, ..) = e { Some(*c) } else { None }).collect();
    c.sort();
    c.dedup();
    c
}
pub fn rechannel(e: &Ev, f: &dyn Fn(u8) -> u8, key: &dyn Fn(u8, u8) -> u8) -> Ev {
    match e.clone() {
        Ev::On(c, k, v) => Ev::On(f(c), key(c, k), v),
        Ev::Off(c, k) => Ev::Off(f(c), key(c, k)),
        Ev::Poly(c, k, v) => Ev::Poly(f(c), key(c, k), v),
        Ev::Cc(c, k, v) => Ev::Cc(f(c), k, v),
        Ev::Pc(c, p) => Ev::Pc(f(c), p),
        Ev::Press(c, v) => Ev::Press(f(c), v),
        Ev::Bend(c, l, h) => Ev::Bend(f(c), l, h),
        e => e,
    }
}
/// only the first of the notes of a channel that sound together
pub fn thin(tracks: &[Trk]) -> Vec<Trk> {
    let all = merged(tracks);
    let mut cur: [Option<u8>; 16] = [None; 16];
    let mut out = vec![];
    for (t, e) in all {
        match e {
            Ev::On(c, k, _) => {
                if cur[c as usize].is_some() {
                    continue;
                }
                cur[c as usize] = Some(k);
            }
            Ev::Off(c, k) => {
                if cur[c as usize] != Some(k) {
                    continue;
                }
                cur[c as usize] = None;
            }
            _ => {}
        }
        out.push((t, e));
    }
    vec![out]
}

pub struct Excerpt {
    pub tpb: u16,
    pub tracks: Vec<Trk>,
    /// may need more voices than there are
    pub mixed: bool,
}

pub const REAL: &str = "the 34 real pieces in the repository: whole and in 24 (thorough: 96) cuts, all channels, each alone and all but each, as written, transposed down and up, at another resolution, two copies a little apart, with portamento, and mixed with the next piece";

/// a piece, a part of it, some of its channels, in one of several forms
pub fn excerpt(cx: &mut Ctx, forms: &[u8]) -> Option<Excerpt> {
    let r = reals();
    if r.is_empty() {
        return None;
    }
    let i = cx.choose(r.len());
    let form = cx.pick(forms);
    let parts = if cx.thorough { 96 } else { 24 };
    let w = cx.choose(parts + 1);
    let bounds = |x: &Real| if w == 0 { (0, x.end + 1) } else { ((x.end as u64 * (w as u64 - 1) / parts as u64) as u32, (x.end as u64 * w as u64 / parts as u64) as u32) };
    let (a, b) = bounds(&r[i]);
    let mut tracks = cut(&r[i].tracks, a, b);
    let chans = channels(&tracks);
    let sub = cx.choose(1 + 2 * chans.len().max(1));
    if sub > 0 {
        if chans.len() < 2 {
            return None;
        }
        let c = chans[(sub - 1) / 2];
        let only = sub % 2 == 1;
        if !only && chans.len() == 2 {
            return None;
        }
        for t in tracks.iter_mut() {
            t.retain(|(_, e)| e.ch().map_or(true, |x| (x == c) == only));
        }
    }
    let mut tpb = r[i].tpb;
    let mut mixed = false;
    let keep = |c: u8| c;
    let shift = |d: i16| move |c: u8, k: u8| if c == 9 { k } else { (k as i16 + d).max(0).min(127) as u8 };
    let map = |ts: Vec<Trk>, f: &dyn Fn(u8) -> u8, key: &dyn Fn(u8, u8) -> u8, later: u32| -> Vec<Trk> { ts.into_iter().map(|t| t.into_iter().map(|(x, e)| (x + later, rechannel(&e, f, key))).collect()).collect() };
    match form {
        0 => {}
        1 => tracks = map(tracks, &keep, &shift(-50), 0),
        2 => tracks = map(tracks, &keep, &shift(35), 1),
        3 => tpb = if tpb == 480 { 100 } else { 480 },
        4 | 5 => {
            let used = channels(&tracks);
            let (other, later) = if form == 4 {
                (tracks.clone(), 5)
            } else {
                let o = &r[(i + 1) % r.len()];
                let (a, b) = bounds(o);
                (cut(&o.tracks, a, b), 0)
            };
            let free: Vec<u8> = (0..16).filter(|c| *c != 9 && !used.contains(c)).collect();
            let theirs = channels(&other);
            let to = |c: u8| match theirs.iter().position(|x| *x == c) {
                Some(_) if c == 9 && !used.contains(&9) => 9,
                Some(n) => free[n % free.len()],
                None => 15,
            };
            let mut other = map(other, &to, &shift(1), later);
            for t in other.iter_mut() {
                t.retain(|(_, e)| !matches!(e, Ev::Tempo(_)) && e.ch() != Some(15));
            }
            tracks.extend(other);
            mixed = true;
        }
        6 => {
            let chans = channels(&tracks);
            for t in tracks.iter_mut() {
                if let Some(c) = t.iter().find_map(|(_, e)| e.ch()) {
                    if chans.contains(&c) {
                        t.splice(0..0, vec![(0, Ev::Cc(c, 65, 127)), (0, Ev::Cc(c, 37, (w * 5) as u8 & 127))]);
                    }
                }
            }
        }
        _ => unreachable!(),
    }
    tracks.retain(|t| !t.is_empty());
    if channels(&tracks).is_empty() {
        return None;
    }
    // the distance of struck-again keys and the like is the piece's own affair
    cx.state(&(i, form, w, sub));
    let name = r[i].name.clone();
    cx.desc(|| format!("{} from tick {} to {}, channel choice {}, form {}, resolution {}", name, a, b, sub, form, tpb));
    Some(Excerpt { tpb, tracks, mixed })
}

/// the excerpt's song; None if there are too many voices
fn song(cx: &mut Ctx, x: &Excerpt) -> Result<Option<midi2spc::nspc::Song>, String> {
    match convert(cx, &Smf::new(x.tpb, x.tracks.clone())) {
        Err(e) if refused(&e) && (x.mixed || read_piece(&x.tracks).poly > 8) => Ok(None),
        r => r.map(Some),
    }
}

/// notes of the piece that only one note of the song can be, and the other way round
pub fn pairs<'a>(p: &'a Piece, tpb: u16, pl: &'a Play) -> Vec<(&'a RNote, &'a Heard)> {
    let near = |h: &Heard, n: &RNote| (h.start as i64 * tpb as i64 - n.on as i64 * 24).abs() <= 3 * tpb as i64 && (is_snare(n) || h.byte == fold(n.key));
    let rel: Vec<&RNote> = p.notes.iter().filter(|n| n.off.map_or(false, |o| o > n.on)).collect();
    let mut hs: Vec<&Heard> = pl.notes.iter().collect();
    hs.sort_by_key(|h| h.start);
    let mut out = vec![];
    let window = |n: &RNote| {
        let lo = (n.on as u64 * 24 / tpb as u64).saturating_sub(4);
        let i = hs.partition_point(|h| h.start < lo);
        let j = hs.partition_point(|h| h.start <= lo + 9);
        (i, j)
    };
    for n in &rel {
        let (i, j) = window(n);
        let c: Vec<&&Heard> = hs[i..j].iter().filter(|h| near(h, n)).collect();
        if c.len() != 1 {
            continue;
        }
        let lo = (c[0].start.saturating_sub(4) * tpb as u64 / 24) as u32;
        let hi = (c[0].start + 4) * tpb as u64 / 24 + 1;
        let (a, b) = (p.notes.partition_point(|m| m.on < lo), p.notes.partition_point(|m| (m.on as u64) <= hi));
        if p.notes[a..b].iter().filter(|m| near(c[0], m)).count() == 1 {
            out.push((*n, *c[0]));
        }
    }
    out
}

macro_rules! excerpt_or_skip {
    ($cx:expr, $forms:expr) => {
        match excerpt($cx, $forms) {
            None => return Ok(Out::Skip),
            Some(x) => x,
        }
    };
}
macro_rules! song_or_skip {
    ($cx:expr, $x:expr) => {
        match song($cx, $x)? {
            None => return Ok(Out::Skip),
            Some(s) => s,
        }
    };
}

pub fn loops(check: Check) -> Family {
    fam("real pieces", REAL, move |cx| {
        let x = excerpt_or_skip!(cx, &[0, 3, 4, 5, 6]);
        let smf = Smf::new(x.tpb, x.tracks.clone());
        if x.mixed && convert(cx, &smf).is_err() {
            return Ok(Out::Skip);
        }
        let (plain, opt) = both(cx, &smf)?;
        check(&plain, &opt).map(Out::Ok)
    })
}
pub fn encoding() -> Family {
    fam("real pieces", REAL, move |cx| {
        let x = excerpt_or_skip!(cx, &[0, 1, 5, 6]);
        let p = cx.path("i.mid");
        let by = Smf::new(x.tpb, x.tracks.clone()).bytes();
        let s = match convert_at(&p, &by, 0.2, true, false) {
            Err(e) if x.mixed && refused(&e) => return Ok(Out::Skip),
            r => r?,
        };
        let (parts, tracks) = parse_song(&s)?;
        check_encoding(&s, &parts, &tracks).map(Out::Ok)
    })
}
#[derive(Clone, Copy, PartialEq)]
pub enum Look {
    Notes,
    Ranges,
    Times,
    Gates,
    Lengths,
    Instruments,
    Volumes,
    Drums,
    Tempo,
}
pub fn look(what: Look) -> Family {
    fam("real pieces", REAL, move |cx| {
        let x = excerpt_or_skip!(cx, &[0, 1, 2, 3, 4, 5, 6]);
        let s = song_or_skip!(cx, &x);
        look_at(what, &x.tracks, x.tpb, &s)
    })
}
pub fn look_at(what: Look, tracks: &[Trk], tpb: u16, s: &midi2spc::nspc::Song) -> Res {
    let p = read_piece(tracks);
    let pl = play(s)?;
    match what {
        Look::Notes => {
            check_notes(tracks, tpb, s)?;
        }
        Look::Ranges => {
            check_ranges(s)?;
            check_notes(tracks, tpb, s)?;
        }
        Look::Lengths => check_lengths(&p, tpb, &pl)?,
        Look::Tempo => return check_tempo(tracks, tpb, 0.2, s),
        Look::Times => {
            for (n, h) in pairs(&p, tpb, &pl) {
                check_time(n, h, tpb)?;
            }
        }
        Look::Gates => {
            for (n, h) in pairs(&p, tpb, &pl) {
                check_gate(n, h, tpb)?;
            }
        }
        Look::Instruments | Look::Drums => {
            let drums = what == Look::Drums;
            let mut snare = None;
            for (n, h) in pairs(&p, tpb, &pl) {
                if (n.ch == 9) != drums {
                    continue;
                }
                let want = if is_snare(n) {
                    Some(19)
                } else if n.ch == 9 {
                    Some(12)
                } else {
                    n.prog.map(|x| INSTRUMENTS[x as usize])
                };
                if want.is_some() && h.instr != want {
                    return Err(format!("{:?} plays with instrument {:?} instead of {:?}", n, h.instr, want));
                }
                if is_snare(n) && *snare.get_or_insert(h.byte) != h.byte {
                    return Err(format!("snares at two pitches, {:#x} and {:#x}", snare.unwrap(), h.byte));
                }
            }
        }
        Look::Volumes => {
            for (n, h) in pairs(&p, tpb, &pl) {
                check_volume(n, h)?;
            }
        }
    }
    Ok(Out::Ok(hash(&pl.items)))
}

/// A piece in which a bit of everything happens: chords on two channels, drums, changes of program, volume and
/// tempo, the same key again, a pause.
pub fn everything() -> Trk {
    let mut t: Trk = vec![
        (0, Ev::Tempo(400_000)),
        (0, Ev::Pc(0, 40)),
        (0, Ev::Cc(0, 7, 90)),
        (0, Ev::Cc(1, 7, 40)),
        (10, Ev::Pc(1, 56)),
        (400, Ev::Cc(0, 7, 30)),
        (420, Ev::Pc(0, 73)),
        (640, Ev::Tempo(650_000)),
        (700, Ev::Cc(1, 7, 110)),
        (820, Ev::Pc(1, 8)),
        (820, Ev::Cc(9, 7, 80)),
    ];
    let notes = [
        (0u8, 60u8, 20u32, 200u32),
        (0, 64, 20, 220),
        (1, 48, 40, 240),
        (0, 67, 220, 380),
        (9, 38, 240, 260),
        (9, 42, 300, 320),
        (0, 60, 440, 600),
        (0, 65, 440, 600),
        (1, 52, 480, 760),
        (0, 60, 600, 680),
        (9, 40, 720, 740),
        (1, 55, 780, 900),
        (1, 59, 800, 960),
        (9, 49, 900, 940),
        (0, 62, 900, 980),
        (0, 69, 920, 980),
    ];
    for &(c, k, a, b) in &notes {
        t.push((a, Ev::On(c, k, 100)));
        t.push((b, Ev::Off(c, k)));
    }
    t.sort_by_key(|(t, e)| (*t, e.prio()));
    t
}
pub const OTHER: &str = "a piece with chords, drums, and changes of program, volume and tempo, with an event that concerns none of them at every place: every controller but 5, 7, 37 and 65 with the values 0, 1, 63, 64, 65, 127 on four channels, every key pressure, channel pressure and many bends, every type of meta event, texts, system exclusive events and escapes of every length to 300 bytes";
/// The piece with one other event in it; None: no such case.
pub fn with_other(cx: &mut Ctx, end: bool) -> Option<(Trk, Trk)> {
    let base = everything();
    let ev = match cx.choose(8) {
        0 => {
            let c = cx.choose(128) as u8;
            if [5, 7, 37, 65].contains(&c) {
                return None;
            }
            let ch = cx.pick(&[0u8, 1, 9, 4]);
            Ev::Cc(ch, c, cx.pick(&[0, 1, 63, 64, 65, 127]))
        }
        1 => {
            let ch = cx.pick(&[0u8, 1, 9, 4]);
            let k = cx.pick(&[60u8, 64, 48, 42, 1, 127]);
            Ev::Poly(ch, k, cx.choose(128) as u8)
        }
        2 => {
            let ch = cx.pick(&[0u8, 1, 9, 4]);
            Ev::Press(ch, cx.choose(128) as u8)
        }
        3 => {
            let ch = cx.pick(&[0u8, 1, 9, 4]);
            let lo = cx.pick(&[0u8, 1, 64, 127]);
            Ev::Bend(ch, lo, cx.choose(128) as u8)
        }
        4 => {
            let k = cx.choose(128) as u8;
            if k == 0x2f || k == 0x51 {
                return None;
            }
            let l = cx.pick(&[0usize, 1, 2, 3, 5]);
            Ev::Meta(k, vec![7; l])
        }
        k => {
            let l = cx.choose(308);
            let l = if l <= 300 { l } else { [511, 512, 1000, 4095, 4096, 16383, 16384][l - 301] };
            match k {
                5 => Ev::Meta(1, vec![b't'; l]),
                6 => {
                    let mut d = vec![0x11; l];
                    d.push(0xf7);
                    Ev::Sysex(d)
                }
                _ => Ev::Escape(vec![0x11; l]),
            }
        }
    };
    let place = cx.choose(base.len() + end as usize);
    let t = if place == base.len() {
        base[place - 1].0 + 40
    } else {
        // halfway between the events around
        let a = if place == 0 { 0 } else { base[place - 1].0 };
        (a + base[place].0) / 2
    };
    let mut w = base.clone();
    w.insert(place, (t, ev));
    cx.state(&w);
    Some((base, w))
}
pub fn others(what: Look) -> Family {
    fam("other events", OTHER, move |cx| {
        let (_, t) = match with_other(cx, true) {
            None => return Ok(Out::Skip),
            Some(x) => x,
        };
        cx.desc(|| format!("{:?}", t));
        let tr = vec![t];
        let s = convert(cx, &Smf::new(480, tr.clone()))?;
        look_at(what, &tr, 480, &s)
    })
}
pub fn others_change_nothing() -> Family {
    fam("other events", &format!("{}; the song is that of the piece without it", OTHER.replace("every controller but 5, 7, 37 and 65 with the values 0, 1, 63, 64, 65, 127 on four channels, ", "")), |cx| {
        let (a, b) = match with_other(cx, false) {
            None => return Ok(Out::Skip),
            Some(x) => x,
        };
        if let Some(_) = b.iter().find(|(_, e)| if let Ev::Cc(_, c, _) = e { *c != 7 } else { false }) {
            return Ok(Out::Skip);
        }
        cx.desc(|| format!("{:?}", b));
        let mut w = Smf::new(480, vec![b]);
        w.running = cx.flag();
        same(cx, &Smf::new(480, vec![a]), &[w])
    })
}
pub fn voices() -> Family {
    fam("real pieces", REAL, |cx| {
        let x = excerpt_or_skip!(cx, &[0, 3, 4, 5]);
        check_voices(cx, x.tracks)
    })
}
pub fn accept() -> Family {
    fam("real pieces", &format!("{}; only the first of the notes of a channel that sound together", REAL), |cx| {
        let x = excerpt_or_skip!(cx, &[0, 1, 4, 5]);
        let mut t = thin(&x.tracks);
        // three and six times over, on further channels
        let times = cx.pick(&[1usize, 3, 6]);
        let used = channels(&t);
        let one = t[0].clone();
        for k in 1..times {
            let free: Vec<u8> = (0..16).filter(|c| !channels(&t).contains(c)).collect();
            if free.len() < used.len() {
                return Ok(Out::Skip);
            }
            let f = |c: u8| used.iter().position(|u| *u == c).map_or(15, |i| free[i]);
            let d: Trk = one.iter().filter(|(_, e)| e.ch().map_or(false, |c| used.contains(&c))).map(|(at, e)| (*at + 7 * k as u32, rechannel(e, &f, &|_, k| k))).collect();
            t.push(d);
        }
        let p = read_piece(&t);
        if p.notes.iter().any(|n| n.off.is_none()) {
            return Ok(Out::Skip);
        }
        check_accept(cx, t, x.tpb)
    })
}
pub fn layouts() -> Family {
    fam("real pieces", &format!("{}; in 12 encodings, in one track, in a track for each channel", REAL), |cx| {
        let x = excerpt_or_skip!(cx, &[0, 4, 5, 6]);
        let base = Smf::new(x.tpb, x.tracks.clone());
        let all = merged(&x.tracks);
        let mut vs = vec![];
        for i in 0..12 {
            let mut b = base.clone();
            b.running = i & 1 > 0;
            b.vel0 = i & 2 > 0;
            b.off_vel = [0, 64, 127][i / 4];
            b.eot = if i % 3 == 0 { 999 } else { 0 };
            if i % 4 == 3 {
                b.format = 0;
                b.tracks = vec![all.clone()];
            }
            if i % 4 == 1 && !x.mixed {
                // simultaneous notes of different channels keep their order only where no track split reorders them
                let mut order: Vec<u8> = vec![];
                let mut ok = true;
                for w in all.windows(2) {
                    if let (Some(c), Some(d)) = (w[0].1.ch(), w[1].1.ch()) {
                        if w[0].0 == w[1].0 && w[0].1.prio() == w[1].1.prio() && c > d {
                            ok = false;
                        }
                    }
                }
                for c in 0..16 {
                    order.push(c);
                }
                if ok {
                    b.tracks = std::iter::once(all.iter().filter(|(_, e)| e.ch().is_none()).cloned().collect::<Trk>())
                        .chain(order.iter().map(|c| all.iter().filter(|(_, e)| e.ch() == Some(*c)).cloned().collect()))
                        .filter(|t: &Trk| !t.is_empty())
                        .collect();
                }
            }
            vs.push(b);
        }
        same(cx, &base, &vs)
    })
}
pub fn survives() -> Family {
    fam("real pieces", &format!("{}, converted with and without optimisation", REAL), |cx| {
        let x = excerpt_or_skip!(cx, &[0, 1, 2, 3, 4, 5, 6]);
        let by = Smf::new(x.tpb, x.tracks).bytes();
        Ok(Out::Ok(survive(cx, &by, &[true, false])?.0))
    })
}
/// the files as they are, through the reader and the reference's own
pub fn as_they_are() -> Family {
    fam("sample files", "the 34 sample files, byte for byte, against the reference's reading of them", |cx| {
        let r = reals();
        if r.is_empty() {
            return Ok(Out::Skip);
        }
        let x = &r[cx.choose(r.len())];
        cx.state(&x.name);
        cx.desc(|| x.name.clone());
        let p = cx.path("i.mid");
        let s = convert_at(&p, &x.bytes, 0.2, false, false)?;
        let t = convert(cx, &Smf::new(x.tpb, x.tracks.clone()))?;
        if song_json(&s) != song_json(&t) {
            return Err("the file and its events written anew give different songs".into());
        }
        check_notes(&x.tracks, x.tpb, &s).map(Out::Ok)
    })
}
/// the sample files' songs, not optimised and optimised
fn converted() -> &'static [Vec<RSong>; 2] {
    static R: OnceLock<[Vec<RSong>; 2]> = OnceLock::new();
    R.get_or_init(|| {
        let dir = std::env::temp_dir().join(format!("mc-real-{}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("harness: scratch directory");
        let get = |opt: bool| -> Vec<RSong> {
            reals()
                .iter()
                .filter_map(|x| convert_at(&dir.join("i.mid"), &x.bytes, 0.2, opt, false).ok())
                .filter_map(|s| parse_song(&s).ok())
                .map(|(parts, tracks)| RSong { parts, tracks })
                .collect()
        };
        let r = [get(false), get(true)];
        let _ = std::fs::remove_dir_all(&dir);
        r
    })
}
/// the sample files' songs with the files' names, without and with optimisation
pub fn named_songs() -> &'static [Vec<(String, RSong)>; 2] {
    static S: std::sync::OnceLock<[Vec<(String, RSong)>; 2]> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let dir = std::env::temp_dir().join(format!("mc-named-{}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("harness: scratch directory");
        let get = |opt: bool| -> Vec<(String, RSong)> {
            reals()
                .iter()
                .filter_map(|x| convert_at(&dir.join("i.mid"), &x.bytes, 0.2, opt, false).ok().map(|s| (x.name.clone(), s)))
                .filter_map(|(n, s)| parse_song(&s).ok().map(|p| (n, p)))
                .map(|(n, (parts, tracks))| (n, RSong { parts, tracks }))
                .collect()
        };
        let r = [get(false), get(true)];
        let _ = std::fs::remove_dir_all(&dir);
        r
    })
}
pub fn builds(what: What) -> Family {
    famr("real pieces", "the songs of the 34 sample files, optimised or not, from one to five of them in each bank (the first being any of them) and in every slot; chunks of the game's sizes, and main chunks of half of the data with overflow chunks of the rest, or one or 40 bytes less", move |cx| {
        let songs = &converted()[cx.choose(2)];
        if songs.is_empty() {
            return Ok(Out::Skip);
        }
        let first = cx.choose(songs.len());
        let per = cx.pick(&[1usize, 2, 3, 5, 16]);
        let step = if cx.thorough { cx.pick(&[1usize, 5, 11]) } else { 1 };
        let mut used: Vec<usize> = vec![];
        let mut banks = vec![];
        for b in 0..3 {
            let n = [15, 16, 3][b];
            banks.push(
                (0..n)
                    .map(|i| {
                        if i % (n / per.min(n)) > 0 || i / (n / per.min(n)) >= per {
                            return Def { song: None, loops: i % 2 == 0 };
                        }
                        let s = (first + used.len() * step) % songs.len();
                        let k = used.iter().position(|x| *x == s).unwrap_or_else(|| {
                            used.push(s);
                            used.len() - 1
                        });
                        Def { song: Some(k), loops: (i + first) % 3 > 0 }
                    })
                    .collect::<Vec<_>>(),
            );
        }
        let mine: Vec<RSong> = used.iter().map(|i| songs[*i].clone()).collect();
        let form = cx.choose(4);
        let spec = if form == 0 {
            RomSpec::new(crate::p_io::GAME)
        } else {
            let mut lens = [(0, 0); 3];
            for b in 0..3 {
                let total = needed(&mine, &banks[b]);
                let main = (total / 2).min(0x2b00);
                let less = [0, 1, 40][form - 1];
                lens[b] = (FIRST_DATA[b] + main, (total - main + 1).saturating_sub(less).min(0xd000 - 0x2b00 - 8).max(1));
            }
            RomSpec::new(lens)
        };
        if spec.size > 1 << 20 {
            return Ok(Out::Skip);
        }
        check_case(cx, &Case { spec, songs: mine, banks }, what)
    })
}
pub fn json() -> Family {
    fam("real pieces", &format!("{}, optimised or not, through JSON and back", REAL), |cx| {
        let opt = cx.flag();
        let x = excerpt_or_skip!(cx, &[0, 3, 5, 6]);
        let s = match convert_at(&cx.path("i.mid"), &Smf::new(x.tpb, x.tracks).bytes(), 0.2, opt, false) {
            Err(_) => return Ok(Out::Skip),
            Ok(s) => s,
        };
        let t = crate::p_use::round_trip(cx, &s)?;
        let b = crate::p_use::bare(&t)?;
        if crate::p_use::bare(&s)? != b {
            return Err("the song read back is not the song converted".into());
        }
        if song_json(&s) != song_json(&t) {
            return Err("the JSON form of the song read back differs".into());
        }
        Ok(Out::Ok(hash(&b)))
    })
}
pub fn seeds() -> Family {
    famr("real pieces", &format!("{}, optimised or not, quiet and verbose, with five seeds of the hash tables", REAL), |cx| {
        let opt = cx.flag();
        let x = excerpt_or_skip!(cx, &[0, 5]);
        let p = cx.path("i.mid");
        std::fs::write(&p, Smf::new(x.tpb, x.tracks).bytes()).unwrap();
        let want = crate::p_use::outcome(p.clone(), opt, false, 1)?;
        for s in 2..=5u64 {
            let got = crate::p_use::outcome(p.clone(), opt, s == 3, s)?;
            if got != want {
                let i = got.bytes().zip(want.bytes()).take_while(|(x, y)| x == y).count();
                let part = |s: &str| s[i.saturating_sub(80)..s.len().min(i + 80)].to_string();
                return Err(format!("hash seed {} gives ..{}.. instead of ..{}..", s, part(&got), part(&want)));
            }
        }
        Ok(Out::Ok(hash(&want)))
    })
}
