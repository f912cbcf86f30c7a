//! C04..C08, C11..C15: what a converted song plays, against the reference reading of the MIDI file.
use crate::engine::*;
use crate::smf::*;
use crate::spc::*;
use midi2spc::nspc::Song;
use serde_json::Value;
use std::collections::BTreeMap;

pub fn convert(cx: &mut Ctx, smf: &Smf) -> Result<Song, String> {
    let p = cx.path("i.mid");
    convert_at(&p, &smf.bytes(), 0.2, false, false)
}

pub struct Play {
    pub notes: Vec<Heard>,
    pub cmds: Vec<CmdAt>,
    pub totals: Vec<u64>,
    pub items: Vec<Vec<It>>,
}
pub fn play(song: &Song) -> Result<Play, String> {
    let items = flatten_all(song)?;
    let mut p = Play { notes: vec![], cmds: vec![], totals: vec![], items: vec![] };
    for (i, it) in items.iter().enumerate() {
        let (n, c) = hear(it, i)?;
        slides_arrive(it, i)?;
        p.notes.extend(n);
        p.cmds.extend(c);
        p.totals.push(total(it));
    }
    p.items = items;
    Ok(p)
}

/// every slide leads to a note that is held from there
fn slides_arrive(items: &[It], voice: usize) -> Result<(), String> {
    let mut slide = None;
    let mut t = 0u64;
    for i in items {
        match i {
            It::Cmd { op: 0xf9, p } => slide = Some(p[2]),
            It::Note { dur, .. } | It::Rest { dur } => {
                if let Some(b) = slide {
                    return Err(format!("voice {}: a slide to {:#x} under the note before {}, where no such note follows", voice, b, t));
                }
                t += *dur as u64;
            }
            It::Tie { dur, .. } => {
                slide = None;
                t += *dur as u64;
            }
            _ => {}
        }
    }
    match slide {
        Some(b) => Err(format!("voice {}: a slide to {:#x} at the end", voice, b)),
        None => Ok(()),
    }
}

/// the engine's byte for a key
pub fn fold(key: u8) -> u8 {
    let mut k = key as i32;
    while k < 24 {
        k += 12;
    }
    while k > 95 {
        k -= 12;
    }
    (k + 0x68) as u8
}
pub fn is_snare(n: &RNote) -> bool {
    n.ch == 9 && (n.key == 38 || n.key == 40)
}
pub fn level(vel: u8) -> u8 {
    (vel / 8).max(1)
}

/// steps of 1/24 beat
pub fn fl(t: u32, tpb: u16) -> u64 {
    t as u64 * 24 / tpb as u64
}
pub fn ce(t: u32, tpb: u16) -> u64 {
    (t as u64 * 24 + tpb as u64 - 1) / tpb as u64
}

/// A history of note events on several channels, chosen event by event.
pub struct Hist {
    pub trk: Trk,
    pub held: Vec<(u8, u8)>,
    pub t: u32,
    pub count: usize,
}
pub struct Alphabet<'a> {
    pub keys: &'a [(u8, u8)],
    pub vels: &'a [u8],
    pub deltas: &'a [u32],
    pub extra: &'a [Ev],
    pub repeats: bool,
    pub unmatched: bool,
}
pub fn history(cx: &mut Ctx, n: usize, a: &Alphabet) -> Hist {
    let mut h = Hist { trk: vec![], held: vec![], t: 0, count: 0 };
    for i in 0..n {
        let mut opts: Vec<Option<Ev>> = vec![None];
        for k in a.keys {
            if h.held.contains(k) {
                opts.push(Some(Ev::Off(k.0, k.1)));
                if a.repeats {
                    opts.push(Some(Ev::On(k.0, k.1, 1)));
                }
            } else {
                opts.push(Some(Ev::On(k.0, k.1, 1)));
                if a.unmatched && *k == a.keys[0] {
                    opts.push(Some(Ev::Off(k.0, k.1)));
                }
            }
        }
        opts.extend(a.extra.iter().cloned().map(Some));
        let e = cx.pick(&opts);
        let e = match e {
            None => break,
            Some(e) => e,
        };
        if i > 0 {
            h.t += cx.pick(a.deltas);
        }
        let e = match e {
            Ev::On(c, k, _) => {
                if !h.held.contains(&(c, k)) {
                    h.held.push((c, k));
                }
                h.count += 1;
                Ev::On(c, k, a.vels[(h.count - 1) % a.vels.len()])
            }
            Ev::Off(c, k) => {
                h.held.retain(|x| *x != (c, k));
                Ev::Off(c, k)
            }
            e => e,
        };
        h.trk.push((h.t, e));
        let held = h.held.clone();
        cx.state(&(h.t, &held, h.count, h.trk.last()));
    }
    h
}
pub fn release_all(h: &mut Hist, delta: u32) {
    h.t += delta;
    for (c, k) in h.held.drain(..) {
        h.trk.push((h.t, Ev::Off(c, k)));
    }
}

/// maximum matching; adj[i]: right vertices of left vertex i
fn matching(adj: &[Vec<usize>], right: usize) -> usize {
    fn aug(i: usize, round: usize, adj: &[Vec<usize>], seen: &mut [usize], m: &mut [Option<usize>]) -> bool {
        for &j in &adj[i] {
            if seen[j] != round {
                seen[j] = round;
                if m[j].is_none() || aug(m[j].unwrap(), round, adj, seen, m) {
                    m[j] = Some(i);
                    return true;
                }
            }
        }
        false
    }
    let mut m = vec![None; right];
    let mut seen = vec![usize::max_value(); right];
    (0..adj.len()).filter(|&i| aug(i, i, adj, &mut seen, &mut m)).count()
}

/// C04
pub fn check_notes(tracks: &[Trk], tpb: u16, song: &Song) -> Result<u64, String> {
    let p = read_piece(tracks);
    let pl = play(song)?;
    let exact = tpb % 24 == 0;
    let near = |h: &Heard, n: &RNote| {
        let a = h.start as i64 * tpb as i64 - n.on as i64 * 24;
        a.abs() <= 3 * tpb as i64
            && (is_snare(n) || h.byte == fold(n.key))
            && h.vel == level(n.vel)
    };
    // a note struck again at once may be heard for a step
    let rel: Vec<&RNote> = p.notes.iter().filter(|n| n.off.is_some()).collect();
    let mut order: Vec<usize> = (0..pl.notes.len()).collect();
    order.sort_by_key(|&i| pl.notes[i].start);
    let apart = |h: &Heard, n: &RNote| (h.start as i64 * tpb as i64 - n.on as i64 * 24).abs();
    // the notes are in the order of their starts: those within four steps, the closest first
    let window = |h: &Heard| -> Vec<usize> {
        let lo = (h.start.saturating_sub(4) * tpb as u64 / 24) as u32;
        let hi = (h.start + 4) * tpb as u64 / 24 + 1;
        let (i, j) = (rel.partition_point(|n| n.on < lo), rel.partition_point(|n| (n.on as u64) <= hi));
        let mut w: Vec<usize> = (i..j).filter(|&j| near(h, rel[j])).collect();
        w.sort_by_key(|&j| apart(h, rel[j]));
        w
    };
    let adj: Vec<Vec<usize>> = pl.notes.iter().map(|h| window(h)).collect();
    if matching(&adj, rel.len()) < pl.notes.len() {
        let bad = pl.notes.iter().zip(&adj).find(|(_, a)| a.is_empty()).map(|x| x.0);
        return Err(format!("plays {} notes that are not in the MIDI file's {} (e.g. {:?})", pl.notes.len() - matching(&adj, rel.len()), rel.len(), bad));
    }
    let mandatory: Vec<&RNote> = rel
        .iter()
        .filter(|n| {
            if n.off.unwrap() == n.on {
                return false;
            }
            let len = (n.off.unwrap() - n.on) as u64 * 24;
            let min = if exact { tpb as u64 } else { 2 * tpb as u64 };
            if len >= min {
                return true;
            }
            // may be missing only where a note fills its step
            let (a, b) = (fl(n.on, tpb), ce(n.off.unwrap(), tpb));
            let slack = if exact { 0 } else { 1 };
            !pl.notes.iter().any(|h| h.start <= a + slack && h.start + h.len + 2 * slack >= b && h.start + h.len >= a)
        })
        .cloned()
        .collect();
    let heard = |n: &RNote| -> Vec<usize> {
        let at = n.on as u64 * 24 / tpb as u64;
        let (i, j) = (order.partition_point(|&i| pl.notes[i].start + 5 < at), order.partition_point(|&i| pl.notes[i].start <= at + 5));
        let mut w: Vec<usize> = order[i..j].iter().cloned().filter(|&i| near(&pl.notes[i], n)).collect();
        w.sort_by_key(|&i| apart(&pl.notes[i], n));
        w
    };
    let adj: Vec<Vec<usize>> = mandatory.iter().map(|n| heard(n)).collect();
    let m = matching(&adj, pl.notes.len());
    if m < mandatory.len() {
        let bad = mandatory.iter().zip(&adj).find(|(_, a)| a.is_empty()).map(|x| x.0);
        return Err(format!("{} of {} notes are missing or have another velocity (e.g. {:?})", mandatory.len() - m, mandatory.len(), bad));
    }
    Ok(hash(&pl.notes))
}

pub fn refused(e: &str) -> bool {
    e.starts_with("refused")
}

pub fn c04(thorough: bool) -> Vec<Family> {
    let q = |a: usize, b: usize| if thorough { b } else { a };
    let mut v = vec![];
    let n = q(5, 6);
    v.push(fam("histories", &format!("every history of up to {} note events on three keys of two channels, 0 to 2.5 steps apart, with repeated and unmatched events, notes left on or released", n), move |cx| {
        let mut h = history(cx, n, &Alphabet { keys: &[(0, 60), (0, 62), (1, 60)], vels: &[100, 3, 127, 8, 64, 15], deltas: &[20, 0, 10, 50], extra: &[], repeats: true, unmatched: true });
        if h.trk.is_empty() {
            return Ok(Out::Skip);
        }
        if !h.held.is_empty() {
            match cx.choose(3) {
                0 => release_all(&mut h, 20),
                1 => release_all(&mut h, 7),
                _ => {}
            }
        }
        cx.desc(|| format!("{:?}", h.trk));
        let tr = vec![h.trk];
        let s = convert(cx, &Smf::new(480, tr.clone()))?;
        check_notes(&tr, 480, &s).map(Out::Ok)
    }));
    let n = q(4, 5);
    v.push(fam("crowded files", &crowded(n), move |cx| {
        let mut h = history(cx, n, &Alphabet { keys: &[(0, 60), (1, 61)], vels: &[100, 3, 127, 8], deltas: &[20, 0], extra: &[], repeats: true, unmatched: false });
        if h.trk.is_empty() {
            return Ok(Out::Skip);
        }
        release_all(&mut h, 20);
        let tr = crowd(cx, vec![h.trk]);
        cx.desc(|| format!("{:?}", tr));
        let s = convert(cx, &Smf::new(480, tr.clone()))?;
        check_notes(&tr, 480, &s).map(Out::Ok)
    }));
    let n = q(4, 5);
    v.push(fam("histories with other events", &format!("every history of up to {} events that also holds program, volume, tempo, pressure, pitch bend and portamento-free control events, on melodic and percussion channels", n), move |cx| {
        let extra = [Ev::Pc(0, 40), Ev::Cc(0, 7, 90), Ev::Tempo(400_000), Ev::Bend(1, 0, 0x50), Ev::Cc(9, 64, 127), Ev::Pc(9, 3), Ev::Sysex(vec![0x7e, 0xf7])];
        let mut h = history(cx, n, &Alphabet { keys: &[(0, 60), (1, 61), (9, 38), (9, 42)], vels: &[100, 3, 127, 8], deltas: &[20, 0, 30], extra: &extra, repeats: true, unmatched: false });
        if h.trk.is_empty() {
            return Ok(Out::Skip);
        }
        release_all(&mut h, 20);
        cx.desc(|| format!("{:?}", h.trk));
        let tr = vec![h.trk];
        let s = convert(cx, &Smf::new(480, tr.clone()))?;
        check_notes(&tr, 480, &s).map(Out::Ok)
    }));
    v.push(fam("velocities", "every velocity 0..127 of a note after a note of every velocity level, adjoining or after a pause, on one or two voices", |cx| {
        let a = 1 + cx.choose(127) as u8;
        let b = cx.choose(128) as u8;
        if !cx.thorough && a % 4 != 3 && a > 16 {
            return Ok(Out::Skip);
        }
        let gap = cx.pick(&[0u32, 40]);
        let form = cx.choose(3);
        let mut t = vec![(0, Ev::On(0, 60, a)), (100, Ev::Off(0, 60))];
        let s = if form == 1 { 60 } else { 100 + gap };
        if form == 2 {
            t.push((100, Ev::Pc(0, 10)));
        }
        t.push((s, Ev::On(0, 64, b)));
        t.push((s + 200, Ev::Off(0, 64)));
        t.sort_by_key(|x| x.0);
        cx.state(&t);
        cx.desc(|| format!("{:?}", t));
        let tr = vec![t];
        let s = convert(cx, &Smf::new(480, tr.clone()))?;
        check_notes(&tr, 480, &s).map(Out::Ok)
    }));
    let n = q(3, 4);
    v.push(fam("portamento", "every history of up to seven notes with one of three velocities, pauses, and portamento switched on or off, on one channel", |cx| {
        let mut trk: Trk = vec![];
        let mut t = 0;
        let mut key = 50;
        for _ in 0..7 {
            let k = cx.choose(7);
            match k {
                0 => break,
                1 | 2 | 3 => {
                    trk.push((t, Ev::On(0, key, [100, 3, 40][k - 1])));
                    t += 60;
                    trk.push((t, Ev::Off(0, key)));
                    key += 1;
                }
                4 => t += 40,
                5 => trk.push((t, Ev::Cc(0, 65, 127))),
                _ => trk.push((t, Ev::Cc(0, 65, 0))),
            }
            cx.state(&(t, &trk));
        }
        if trk.is_empty() {
            return Ok(Out::Skip);
        }
        cx.desc(|| format!("{:?}", trk));
        let tr = vec![trk];
        let s = convert(cx, &Smf::new(480, tr.clone()))?;
        check_notes(&tr, 480, &s).map(Out::Ok)
    }));
    v.push(fam("resolutions", &format!("up to {} notes of 1..60 ticks and pauses at resolutions that are and are not multiples of 24", n), move |cx| {
        let tpb = cx.pick(&[24u16, 96, 100, 120, 240, 480, 960, 1000, 7, 1]);
        let mut t = 0;
        let mut trk = vec![];
        for i in 0..n {
            if i > 0 && cx.flag() {
                break;
            }
            t += cx.pick(&[0u32, 1, 7, 25]);
            let k = 60 + i as u8;
            trk.push((t, Ev::On(0, k, 100)));
            t += cx.pick(&[1u32, 4, 10, 41, 60]);
            trk.push((t, Ev::Off(0, k)));
        }
        cx.state(&(tpb, &trk));
        cx.desc(|| format!("{} {:?}", tpb, trk));
        let tr = vec![trk];
        let s = convert(cx, &Smf::new(tpb, tr.clone()))?;
        check_notes(&tr, tpb, &s).map(Out::Ok)
    }));
    let n = q(4, 5);
    v.push(fam("chords", &format!("every sequence of {} chords of up to eight keys, struck and released in different orders, on one or several channels", n), move |cx| {
        let mut trk: Trk = vec![];
        let mut t = 0;
        let mut k = 30u8;
        let chans = cx.pick(&[1u8, 3]);
        for i in 0..n {
            let size = if i == 0 { 1 + cx.choose(8) } else { cx.choose(9) } as u8;
            if size == 0 {
                break;
            }
            let form = cx.choose(4);
            let sp = if form == 3 { 20 } else { 0 };
            for j in 0..size {
                let c = (k + j) % chans;
                trk.push((t + sp * j as u32, Ev::On(c, k + j, 50 + 8 * j)));
                let e = t + 200 + match form { 1 => 20 * j as u32, 2 => 20 * (8 - j) as u32, _ => 0 };
                trk.push((e, Ev::Off(c, k + j)));
            }
            k += size;
            t += 400;
        }
        trk.sort_by_key(|x| x.0);
        cx.state(&trk);
        cx.desc(|| format!("{:?}", trk));
        let tr = vec![trk];
        match convert(cx, &Smf::new(480, tr.clone())) {
            Err(e) if refused(&e) && chans > 1 => Ok(Out::Skip),
            r => check_notes(&tr, 480, &r?).map(Out::Ok),
        }
    }));
    let n = q(40, 120);
    v.push(fam("long pieces", &format!("pieces of {} notes in every rhythm of three lengths and pauses, on one or two channels in one or two tracks", n), move |cx| {
        let l = [cx.pick(&[20u32, 10, 37, 200]), cx.pick(&[20u32, 60, 13]), cx.pick(&[20u32, 100, 2600])];
        let g = [cx.pick(&[0u32, 7, 20]), cx.pick(&[0u32, 300]), cx.pick(&[0u32, 3000])];
        let two = cx.flag();
        let mut trks = vec![vec![]];
        let mut t = 0;
        for i in 0..n {
            let k = 40 + (i % 50) as u8;
            trks[0].push((t, Ev::On(0, k, 1 + (i * 5 % 127) as u8)));
            t += l[i % 3];
            trks[0].push((t, Ev::Off(0, k)));
            t += g[i % 3];
        }
        if two {
            let x = trks[0].iter().map(|(t, e): &Timed| (*t + 10, match e { Ev::On(_, k, v) => Ev::On(1, *k, 128 - *v), Ev::Off(_, k) => Ev::Off(1, *k), e => e.clone() })).collect();
            trks.push(x);
        }
        cx.state(&(l, g, two));
        cx.desc(|| format!("lengths {:?} gaps {:?} two channels {}", l, g, two));
        let s = convert(cx, &Smf::new(480, trks.clone()))?;
        check_notes(&trks, 480, &s).map(Out::Ok)
    }));
    let n = q(5, 6);
    v.push(fam("percussion", &crate::p_midi::PERCUSSION.replace("{}", &n.to_string()), move |cx| {
        let mut h = crate::p_midi::percussion(cx, n);
        if h.trk.is_empty() {
            return Ok(Out::Skip);
        }
        if cx.flag() {
            release_all(&mut h, 30);
        }
        cx.desc(|| format!("{:?}", h.trk));
        let tr = vec![h.trk];
        let s = convert(cx, &Smf::new(480, tr.clone()))?;
        crate::p_real::look_at(crate::p_real::Look::Notes, &tr, 480, &s)
    }));
    v.push(crate::p_real::look(crate::p_real::Look::Notes));
    v.push(crate::p_real::others(crate::p_real::Look::Notes));
    v.push(crate::p_edit::look_edited(crate::p_real::Look::Notes));
    v.push(crate::p_edit::look_tracks(crate::p_real::Look::Notes));
    v.push(crate::p_edit::look_counts(crate::p_real::Look::Notes));
    v.push(crate::p_edit::look_fine(crate::p_real::Look::Notes));
    v.push(crate::p_real::as_they_are());
    v
}

// ------------------------------------------------------------------------------------------------ C05

pub fn check_ranges(song: &Song) -> Result<(), String> {
    let v: Value = serde_json::from_str(&crate::spc::song_json(song)).unwrap();
    for (t, tr) in v["tracks"].as_array().unwrap().iter().enumerate() {
        for c in tr["commands"].as_array().unwrap() {
            let bad = |w: &str| Err(format!("channel {}: {} in {}", t, w, c));
            let k = &c["command"];
            if k.get("CallLoop").is_some() {
                continue;
            }
            let timed = k == "Rest" || k == "Tie" || k.get("Note").is_some();
            if timed {
                match c["duration"].as_u64() {
                    Some(1..=127) => {}
                    _ => return bad("duration out of range"),
                }
            }
            if let Some(x) = c["velocity"].as_u64() {
                if x > 15 {
                    return bad("velocity out of range");
                }
            }
            if let Some(x) = c["sustain"].as_u64() {
                if x > 7 {
                    return bad("gate out of range");
                }
            }
            if let Some(n) = k.get("Note") {
                if !(0x80..=0xc7).contains(&n.as_u64().unwrap()) {
                    return bad("note byte out of range");
                }
            }
            if let Some(p) = k.get("PitchSlide") {
                if !(0x80..=0xc7).contains(&p[2].as_u64().unwrap()) {
                    return bad("slide target out of range");
                }
            }
        }
    }
    flatten_all(song)?;
    Ok(())
}

pub fn c05(thorough: bool) -> Vec<Family> {
    let q = |a: usize, b: usize| if thorough { b } else { a };
    let mut v = vec![];
    v.push(fam("keys", "all 128 keys on all 16 channels: alone, long (tied), after another note, in a chord, as a slide target, after a slide, repeated, with two values of the resolution", |cx| {
        let ch = cx.choose(16) as u8;
        let key = cx.choose(128) as u8;
        let form = cx.choose(7);
        let tpb = cx.pick(&[480u16, 100]);
        let other = if key == 64 { 65 } else { 64 };
        let mut t: Trk = vec![];
        let note = |t: &mut Trk, a: u32, k: u8, b: u32| {
            t.push((a, Ev::On(ch, k, 100)));
            t.push((b, Ev::Off(ch, k)));
        };
        let porta = vec![(0, Ev::Cc(ch, 65, 127)), (0, Ev::Cc(ch, 5, 0)), (0, Ev::Cc(ch, 37, 20))];
        let mut want: Vec<u8> = vec![];
        match form {
            0 => {
                note(&mut t, 0, key, 200);
                want.push(key);
            }
            1 => {
                note(&mut t, 100, key, 6100);
                want.push(key);
            }
            2 => {
                note(&mut t, 0, other, 200);
                note(&mut t, 300, key, 500);
                want.extend(&[other, key]);
            }
            3 => {
                note(&mut t, 0, other, 400);
                note(&mut t, 100, key, 500);
                want.extend(&[other, key]);
            }
            4 => {
                t.extend(porta);
                note(&mut t, 0, other, 400);
                note(&mut t, 400, key, 800);
                want.extend(&[other, key]);
            }
            5 => {
                t.extend(porta);
                note(&mut t, 0, other, 400);
                note(&mut t, 400, key, 800);
                note(&mut t, 800, other, 1200);
                t.push((1200, Ev::Cc(ch, 65, 0)));
                note(&mut t, 1200, key, 2000);
                want.extend(&[other, key, other, key]);
            }
            _ => {
                note(&mut t, 0, key, 200);
                note(&mut t, 200, key, 400);
                want.extend(&[key, key]);
            }
        }
        t.sort_by_key(|(a, e)| (*a, e.prio()));
        cx.state(&(ch, key, form, tpb));
        cx.desc(|| format!("channel {} key {} form {} resolution {}", ch, key, form, tpb));
        let s = convert(cx, &Smf::new(tpb, vec![t]))?;
        check_ranges(&s)?;
        let pl = play(&s)?;
        let mut got: Vec<(u64, u8)> = pl.notes.iter().map(|h| (h.start, h.byte)).collect();
        got.sort();
        let snare = |k: u8| ch == 9 && (k == 38 || k == 40);
        if got.len() == want.len() {
            for (g, w) in got.iter().zip(&want) {
                if !snare(*w) && g.1 != fold(*w) {
                    return Err(format!("key {} is emitted as {:#x}, not {:#x}", w, g.1, fold(*w)));
                }
            }
        }
        Ok(Out::Ok(hash(&got)))
    }));
    let n = q(4, 5);
    v.push(fam("ranges", &format!("every history of up to {} events with extreme keys, velocities, lengths and portamento", n), move |cx| {
        let extra = [Ev::Cc(0, 65, 127), Ev::Cc(0, 65, 0), Ev::Cc(0, 5, 127), Ev::Cc(0, 7, 127), Ev::Pc(0, 127)];
        let mut h = history(cx, n, &Alphabet { keys: &[(0, 0), (0, 127), (9, 1)], vels: &[127, 1], deltas: &[20, 0, 2541, 5080, 3], extra: &extra, repeats: true, unmatched: false });
        if h.trk.is_empty() {
            return Ok(Out::Skip);
        }
        release_all(&mut h, 20);
        cx.desc(|| format!("{:?}", h.trk));
        let s = convert(cx, &Smf::new(480, vec![h.trk]))?;
        check_ranges(&s)?;
        let pl = play(&s)?;
        for h in &pl.notes {
            if h.byte < 0x80 || h.byte > 0xc7 {
                return Err(format!("byte out of range {:?}", h));
            }
            if ![fold(0), fold(127), fold(1)].contains(&h.byte) {
                return Err(format!("pitch {:#x} is none of the file's", h.byte));
            }
        }
        Ok(Out::Ok(hash(&pl.items)))
    }));
    v.push(crate::p_real::look(crate::p_real::Look::Ranges));
    v.push(crate::p_real::others(crate::p_real::Look::Ranges));
    v.push(crate::p_edit::look_edited(crate::p_real::Look::Ranges));
    v.push(crate::p_edit::look_tracks(crate::p_real::Look::Ranges));
    v.push(crate::p_edit::look_counts(crate::p_real::Look::Ranges));
    v.push(crate::p_edit::look_fine(crate::p_real::Look::Ranges));
    v
}

// ------------------------------------------------------------------------------------- C06, C07, C08

/// lengths in steps that the note may sound, by its emitted duration and gate
fn sounding(h: &Heard) -> Result<(u64, u64), String> {
    if h.gate == 0 || h.gate > 7 {
        return Err(format!("gate of {:?}", h));
    }
    if h.ties > 0 || h.slid {
        // only the last step's gate counts; nothing is folded into tied notes
        return Ok(if h.gate == 7 { (h.len, h.len) } else { (h.len * h.gate as u64 / 8, h.len) });
    }
    if h.gate == 7 {
        Ok(((h.len * 7 + 7) / 8, h.len))
    } else {
        if h.len * h.gate as u64 % 8 != 0 {
            return Err(format!("gate {} of a note of {} steps is no whole length", h.gate, h.len));
        }
        let l = h.len * h.gate as u64 / 8;
        Ok((l, l))
    }
}

/// C06 on notes with distinct keys or, on one channel, in order
fn check_times(p: &Piece, tpb: u16, pl: &Play, by_order: bool) -> Result<(), String> {
    let mut heard: Vec<&Heard> = pl.notes.iter().collect();
    let rel: Vec<&RNote> = p.notes.iter().filter(|n| n.off.map_or(false, |o| o > n.on)).collect();
    let pairs: Vec<(&RNote, &Heard)> = if by_order {
        heard.sort_by_key(|h| h.start);
        if heard.len() != rel.len() {
            return Ok(());
        }
        rel.iter().cloned().zip(heard).collect()
    } else {
        rel.iter().filter_map(|n| heard.iter().find(|h| h.byte == fold(n.key)).map(|h| (*n, *h))).collect()
    };
    for (n, h) in pairs {
        check_time(n, h, tpb)?;
    }
    Ok(())
}

pub fn check_time(n: &RNote, h: &Heard, tpb: u16) -> Result<(), String> {
    let slack = if tpb % 24 == 0 { 0 } else { 1 };
    let (a, b) = (fl(n.on, tpb), ce(n.off.unwrap(), tpb));
    let start_ok = (h.start >= a && h.start <= a + slack) || (h.adjoins && h.start >= a && h.start <= a + 1 + slack);
    if !start_ok {
        return Err(format!("{:?} starts at {}/24 beat instead of {}", n, h.start, a));
    }
    let (lo, hi) = sounding(h)?;
    let (elo, ehi) = (h.start + lo, h.start + hi);
    if ehi < b || elo > b + slack {
        return Err(format!("{:?} ends at {}..{}/24 beat instead of {}", n, elo, ehi, b));
    }
    Ok(())
}

/// C07: the note sounds until its end (where it starts is C06's matter)
pub fn check_gate(n: &RNote, h: &Heard, tpb: u16) -> Result<(), String> {
    let slack = if tpb % 24 == 0 { 0 } else { 1 };
    let (a, b) = (fl(n.on, tpb), ce(n.off.unwrap(), tpb));
    if h.start < a || h.start > a + 1 + slack || h.start > b {
        return Ok(());
    }
    let (lo, hi) = sounding(h)?;
    if hi < b - h.start || lo > b + slack - h.start {
        return Err(format!("{:?}, emitted with duration {} and gate {}, sounds for {}..{} steps instead of {}", n, h.len, h.gate, lo, hi, b - h.start));
    }
    Ok(())
}

fn mono(lens: &[u32], gaps: &[u32], n: usize, lead: u32) -> Trk {
    let mut t = lead;
    let mut trk = vec![];
    for i in 0..n {
        let k = 30 + (i % 60) as u8;
        trk.push((t, Ev::On(0, k, 100)));
        t += lens[i % lens.len()];
        trk.push((t, Ev::Off(0, k)));
        t += gaps[i % gaps.len()];
    }
    trk
}

pub fn c06(thorough: bool) -> Vec<Family> {
    let q = |a: usize, b: usize| if thorough { b } else { a };
    let mut v = vec![];
    let n = q(160, 500);
    v.push(fam("drift", &format!("{} equal notes and pauses: every resolution 1..480 (quick: a third of them) and the usual larger ones, lengths and pauses that are no whole number of steps", n), move |cx| {
        let i = cx.choose(489);
        let tpb = if i < 480 { 1 + i as u16 } else { [500u16, 600, 640, 768, 960, 1000, 1024, 1920, 15360][i - 480] };
        if !cx.thorough && i < 480 && i % 3 != 0 && tpb % 24 != 0 && tpb % 50 != 0 {
            return Ok(Out::Skip);
        }
        // lengths of at least two steps, so that none may vanish
        let base = (tpb as u32 * 2 + 23) / 24;
        let l = base + cx.pick(&[0u32, 1, 2, 5, 13, 31]);
        let g = cx.pick(&[0u32, 1, 3, 7, 10, 29]);
        let lead = cx.pick(&[0u32, 1]);
        let trk = mono(&[l], &[g], n, lead);
        cx.state(&(tpb, l, g, lead));
        cx.desc(|| format!("resolution {} notes of {} pauses of {} ticks, first at {}", tpb, l, g, lead));
        let tr = vec![trk];
        let s = convert(cx, &Smf::new(tpb, tr.clone()))?;
        let pl = play(&s)?;
        check_times(&read_piece(&tr), tpb, &pl, true)?;
        Ok(Out::Ok(hash(&pl.items)))
    }));
    let n = q(5, 6);
    v.push(fam("histories", &format!("every sequence of {} notes with lengths and pauses from a set with fractions of a step, at seven resolutions", n), move |cx| {
        let tpb = cx.pick(&[480u16, 24, 100, 120, 96, 7, 960]);
        let base = (tpb as u32 * 2 + 23) / 24;
        let (mut ls, mut gs) = (vec![], vec![]);
        for _ in 0..n {
            ls.push(base + cx.pick(&[0u32, 7, 33]));
            gs.push(cx.pick(&[0u32, 5, 40]));
        }
        let trk = mono(&ls, &gs, n, 0);
        cx.state(&(tpb, &trk));
        cx.desc(|| format!("resolution {} {:?}", tpb, trk));
        let tr = vec![trk];
        let s = convert(cx, &Smf::new(tpb, tr.clone()))?;
        let pl = play(&s)?;
        check_times(&read_piece(&tr), tpb, &pl, true)?;
        Ok(Out::Ok(hash(&pl.items)))
    }));
    v.push(fam("long notes and pauses", "a note and a pause of every length 1..1024 steps (quick: around multiples of 127 and 128, and every seventh) and up to 100000, before another note, with and without portamento", |cx| {
        let tpb = cx.pick(&[24u16, 480, 100]);
        let i = cx.choose(1030);
        let steps = if i < 1024 { 1 + i as u32 } else { [4000u32, 16256, 16257, 32767, 65536, 100000][i - 1024] };
        let near = steps % 127 < 3 || steps % 127 > 124 || steps % 128 < 2 || steps % 7 == 0;
        if !cx.thorough && !near {
            return Ok(Out::Skip);
        }
        let ticks = (steps as u64 * tpb as u64 / 24) as u32;
        let (l, g) = match cx.choose(4) {
            0 => (ticks.max(1), 0),
            1 => (ticks.max(1), tpb as u32 / 8 + 1),
            2 => (tpb as u32, ticks),
            _ => (ticks.max(1), ticks),
        };
        let off = cx.pick(&[0u32, 1]);
        let mut trk = mono(&[l + off, tpb as u32], &[g, 0], 3, 0);
        if cx.flag() {
            // the last notes are reached by slides
            trk.insert(0, (0, Ev::Cc(0, 65, 127)));
            if off == 0 {
                let end = trk.last().unwrap().0;
                trk.extend(vec![(end, Ev::On(0, 70, 100)), (end + l, Ev::Off(0, 70)), (end + l + g, Ev::On(0, 72, 100)), (end + 2 * l + g, Ev::Off(0, 72))]);
            }
        }
        cx.state(&(tpb, l, g, off, trk.len()));
        cx.desc(|| format!("resolution {} {:?}", tpb, trk));
        let tr = vec![trk];
        let s = convert(cx, &Smf::new(tpb, tr.clone()))?;
        let pl = play(&s)?;
        check_times(&read_piece(&tr), tpb, &pl, true)?;
        Ok(Out::Ok(hash(&pl.items)))
    }));
    v.push(fam("late", "a few notes with fractions of a step after a pause or a note of 2^16 to 2^32 ticks (powers of two, their neighbours and thirds), up to 700000 beats, at ten resolutions", |cx| {
        let tpb = cx.pick(&[480u16, 24, 96, 100, 960, 1000, 7, 15360, 32767, 23]);
        let x = 1u64 << (16 + cx.choose(17));
        let at = match cx.choose(5) {
            0 => x - 1,
            1 => x,
            2 => x + 1,
            3 => x / 3 * 4 + 5,
            _ => x / 24 * 29,
        };
        let form = cx.choose(3);
        // later pieces become too long
        if at > 0xffff_f000 - 20 * tpb as u64 || at / tpb as u64 > 700_000 {
            return Ok(Out::Skip);
        }
        let base = (tpb as u32 * 2 + 23) / 24;
        let mut m = mono(&[base + cx.pick(&[0u32, 1, 5])], &[cx.pick(&[0u32, 3])], 6, 0);
        if form == 1 {
            m = m.into_iter().enumerate().map(|(i, (t, e))| (if i == 0 { t } else { t + at as u32 }, e)).collect();
        } else {
            for x in m.iter_mut() {
                x.0 += at as u32;
            }
            if form == 2 {
                m.insert(0, (0, Ev::On(0, 100, 9)));
                m.insert(1, (base, Ev::Off(0, 100)));
            }
        }
        // a delta time has 28 bits
        let mut trk: Trk = vec![];
        let mut last = 0;
        for (t, e) in m {
            while t - last > 0x0fff_ffff {
                last += 0x0fff_ffff;
                trk.push((last, Ev::Meta(1, vec![65])));
            }
            last = t;
            trk.push((t, e));
        }
        cx.state(&(tpb, &trk));
        cx.desc(|| format!("resolution {} {:?}", tpb, trk));
        let tr = vec![trk];
        let s = convert(cx, &Smf::new(tpb, tr.clone()))?;
        let pl = play(&s)?;
        let p = read_piece(&tr);
        check_times(&p, tpb, &pl, true)?;
        check_lengths(&p, tpb, &pl)?;
        Ok(Out::Ok(hash(&pl.items)))
    }));
    let n = q(5, 6);
    v.push(fam("several voices", &format!("every history of up to {} starts and ends of notes on three channels, with program, volume and tempo changes in between", n), move |cx| {
        let tpb = cx.pick(&[480u16, 100]);
        let (trk, _) = unique_history(cx, n, &[0, 1], &[45, 0, 110], &[Ev::Pc(0, 40), Ev::Cc(1, 7, 9), Ev::Tempo(300_000)], 2);
        if trk.is_empty() {
            return Ok(Out::Skip);
        }
        cx.desc(|| format!("resolution {} {:?}", tpb, trk));
        let tr = vec![trk];
        let s = match convert(cx, &Smf::new(tpb, tr.clone())) {
            Err(e) if refused(&e) => return Ok(Out::Skip),
            r => r?,
        };
        let pl = play(&s)?;
        check_times(&read_piece(&tr), tpb, &pl, false)?;
        Ok(Out::Ok(hash(&pl.items)))
    }));
    v.push(crate::p_real::look(crate::p_real::Look::Times));
    v.push(crate::p_real::others(crate::p_real::Look::Times));
    v.push(crate::p_edit::look_edited(crate::p_real::Look::Times));
    v.push(crate::p_edit::look_tracks(crate::p_real::Look::Times));
    v.push(crate::p_edit::look_counts(crate::p_real::Look::Times));
    v.push(crate::p_edit::look_fine(crate::p_real::Look::Times));
    v
}

/// A history in which every note has its own key: starts, ends (oldest or newest first) and other events.
pub fn unique_history(cx: &mut Ctx, n: usize, chans: &[u8], deltas: &[u32], extra: &[Ev], max_held: usize) -> (Trk, usize) {
    let mut trk: Trk = vec![];
    let mut held: Vec<(u8, u8, u32)> = vec![];
    let mut key = 41u8; // 41.. and never 38, 40
    let mut t = 0;
    let mut count = 0;
    for i in 0..n {
        let mut opts: Vec<Option<Ev>> = vec![None];
        for &c in chans {
            if held.iter().filter(|h| h.0 == c).count() < max_held {
                opts.push(Some(Ev::On(c, key, 100)));
            }
            let mine: Vec<&(u8, u8, u32)> = held.iter().filter(|h| h.0 == c).collect();
            if let Some(h) = mine.first() {
                opts.push(Some(Ev::Off(h.0, h.1)));
            }
            if mine.len() > 1 {
                let h = mine.last().unwrap();
                opts.push(Some(Ev::Off(h.0, h.1)));
            }
        }
        opts.extend(extra.iter().cloned().map(Some));
        let e = match cx.pick(&opts) {
            None => break,
            Some(e) => e,
        };
        if i > 0 {
            // no note ends when it starts
            let just = match &e {
                Ev::Off(c, k) => held.iter().any(|h| (h.0, h.1, h.2) == (*c, *k, t)),
                _ => false,
            };
            let ds: Vec<u32> = deltas.iter().cloned().filter(|d| !just || *d > 0).collect();
            t += cx.pick(&ds);
        }
        match &e {
            Ev::On(c, k, _) => {
                held.push((*c, *k, t));
                key += 1;
                count += 1;
            }
            Ev::Off(c, k) => held.retain(|h| (h.0, h.1) != (*c, *k)),
            _ => {}
        }
        trk.push((t, e));
        cx.state(&(t, &held, trk.last()));
    }
    t += deltas[0];
    for (c, k, _) in held {
        trk.push((t, Ev::Off(c, k)));
    }
    (trk, count)
}

/// The same piece with many events that carry no music in a track of their own, before or after the others.
pub fn crowd(cx: &mut Ctx, tr: Vec<Trk>) -> Vec<Trk> {
    let n = cx.pick(if cx.thorough { &[1u32, 5, 17, 18, 19, 20, 21, 22, 23, 25, 30, 31, 32, 33, 40, 47, 50, 64, 65, 100, 128, 200] } else { &[17u32, 20, 21, 30, 40, 64, 100] });
    let kind = cx.choose(2);
    let place = cx.choose(2);
    let at_events = cx.flag();
    let mut times: Vec<u32> = tr.iter().flatten().map(|e| e.0).collect();
    times.sort();
    let last = *times.last().unwrap_or(&0);
    let ch = tr.iter().flatten().filter_map(|e| e.1.ch()).next().unwrap_or(0);
    let mut own: Trk = (0..n)
        .map(|i| {
            let t = if at_events && !times.is_empty() { times[(i as usize * times.len()) / n as usize] } else { (last as u64 * i as u64 / n as u64) as u32 };
            (t, if kind == 0 { Ev::Meta(1, vec![65]) } else { Ev::Press(ch, i as u8 & 127) })
        })
        .collect();
    own.sort_by_key(|e| e.0);
    let mut out = tr;
    if place == 0 {
        out.insert(0, own);
    } else {
        out.push(own);
    }
    out
}
pub const CROWDED: &str = "every history of up to {} events, beside 17 to 100 text or pressure events in a track before or after it, at the times of the history's events or spread evenly";
fn crowded(n: usize) -> String {
    CROWDED.replace("{}", &n.to_string())
}

pub fn c07(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let max = if thorough { 520 } else { 260 };
    let check = |trk: Trk, cx: &mut Ctx, l: u64, g: u64| -> Res {
        let s = convert(cx, &Smf::new(24, vec![trk]))?;
        let pl = play(&s)?;
        let mut ns = pl.notes.clone();
        ns.sort_by_key(|h| h.start);
        if ns.len() != 3 {
            return Err(format!("{} notes instead of 3", ns.len()));
        }
        let (lo, hi) = sounding(&ns[0])?;
        if l < lo || l > hi {
            return Err(format!("a note of {} steps followed by {} of silence is emitted with duration {} and gate {}", l, g, ns[0].len, ns[0].gate));
        }
        if ns[1].start - ns[0].start != l + g {
            return Err(format!("{} steps from start to start instead of {}", ns[1].start - ns[0].start, l + g));
        }
        if ns[2].start - ns[1].start != 8 {
            return Err(format!("the following note lasts {} steps instead of 8", ns[2].start - ns[1].start));
        }
        if ns[0].len > l + g {
            return Err("the note reaches into the next one".into());
        }
        Ok(Out::Ok(hash(&pl.items)))
    };
    v.push(fam("note and pause", &format!("every note length 1..{} with every following pause 0..{} (in steps), 8 steps per beat-24th", max, max), move |cx| {
        let l = 1 + cx.choose(max) as u32;
        let g = cx.choose(max + 1) as u32;
        cx.state(&(l, g));
        cx.desc(|| format!("note of {} steps, pause of {}", l, g));
        let t = vec![(0, Ev::On(0, 60, 100)), (l, Ev::Off(0, 60)), (l + g, Ev::On(0, 62, 100)), (l + g + 8, Ev::Off(0, 62)), (l + g + 8, Ev::On(0, 64, 90)), (l + g + 16, Ev::Off(0, 64))];
        check(t, cx, l as u64, g as u64)
    }));
    let m2 = if thorough { 140 } else { 40 };
    v.push(fam("control in the pause", &format!("note lengths and pauses up to {} steps (and around 127) with a program, volume, tempo, portamento or bend event at every place of the pause", m2), move |cx| {
        let l = cx.choose(m2 + 4) as u32;
        let l = if l < m2 as u32 { l + 1 } else { 124 + l - m2 as u32 };
        let g = 1 + cx.choose(m2) as u32;
        let at = cx.choose(g as usize + 1) as u32;
        if !cx.thorough && at > 2 && at + 2 < g && at % 5 != 0 {
            return Ok(Out::Skip);
        }
        let e = cx.pick(&[Ev::Pc(0, 40), Ev::Cc(0, 7, 50), Ev::Tempo(400_000), Ev::Cc(0, 65, 127), Ev::Bend(0, 0, 64)]);
        cx.state(&(l, g, at, &e));
        cx.desc(|| format!("note of {} steps, pause of {}, {:?} after {}", l, g, e, at));
        if at == g && e == Ev::Cc(0, 65, 127) {
            return Ok(Out::Skip);
        }
        let porta = e == Ev::Cc(0, 65, 127);
        let mut t = vec![(0, Ev::On(0, 60, 100)), (l, Ev::Off(0, 60)), (l + at, e), (l + g, Ev::On(0, 62, 100)), (l + g + 8, Ev::Off(0, 62))];
        if porta {
            t.push((l + g + 8, Ev::Cc(0, 65, 0)));
        }
        t.extend(vec![(l + g + 8, Ev::On(0, 64, 90)), (l + g + 16, Ev::Off(0, 64))]);
        check(t, cx, l as u64, g as u64)
    }));
    let m3 = if thorough { 30 } else { 16 };
    v.push(fam("two voices", &format!("every pair of notes of 1..{0} steps with pauses of 0..{1} steps after them, on two channels or as a chord of one, of different velocity", m3, m3 - 1), move |cx| {
        let (l1, g1) = (1 + cx.choose(m3) as u32, cx.choose(m3) as u32);
        let (l2, g2) = (1 + cx.choose(m3) as u32, cx.choose(m3) as u32);
        let c = if l1 <= l2 && (l1 + l2 + g1 + g2) % 3 == 0 { 0 } else { 1 };
        cx.state(&(l1, g1, l2, g2));
        cx.desc(|| format!("notes of {} and {} steps on channels 0 and {}, pauses of {} and {}", l1, l2, c, g1, g2));
        let mut t = vec![(0, Ev::On(0, 60, 90)), (l1, Ev::Off(0, 60)), (0, Ev::On(c, 50, 30)), (l2, Ev::Off(c, 50))];
        let (a, b) = (l1 + g1, l2 + g2);
        t.extend(vec![(a, Ev::On(0, 62, 8)), (a + 5, Ev::Off(0, 62)), (b, Ev::On(c, 48, 127)), (b + 6, Ev::Off(c, 48))]);
        t.sort_by_key(|(t, e)| (*t, e.prio()));
        let tr = vec![t];
        let s = convert(cx, &Smf::new(24, tr.clone()))?;
        let n = play(&s)?.notes.len();
        if n != 4 {
            return Err(format!("{} notes instead of 4", n));
        }
        crate::p_real::look_at(crate::p_real::Look::Gates, &tr, 24, &s)
    }));
    let m4 = if thorough { 400 } else { 260 };
    v.push(fam("slides and pauses", &format!("with portamento: a note of 1..{0} steps, and up to 16257, that adjoins the one before it or comes after a step, then a pause of 0..{0} steps and two more notes; portamento times shorter and longer than the note", m4), move |cx| {
        let adjoins = cx.flag();
        let far = [380u32, 381, 382, 507, 508, 509, 510, 635, 636, 1015, 1016, 1017, 4000, 16256, 16257];
        let l = cx.choose(m4 + far.len()) as u32;
        let l = if l < m4 as u32 { 1 + l } else { far[l as usize - m4] };
        let g = cx.choose(m4 + 1) as u32;
        if !cx.thorough && l > 20 && g > 20 && (l % 127 > 3 && l % 127 < 124 || g % 127 > 3 && g % 127 < 124) && (l + g) % 7 != 0 {
            return Ok(Out::Skip);
        }
        let time = if (l + g) % 2 == 0 { 1 } else { 40 };
        cx.state(&(l, g, adjoins));
        cx.desc(|| format!("slide to a note of {} steps, pause of {}, adjoining {}", l, g, adjoins));
        let a = if adjoins { 10 } else { 11 };
        let t = vec![
            (0, Ev::Cc(0, 65, 127)),
            (0, Ev::Cc(0, 37, time)),
            (0, Ev::On(0, 50, 100)),
            (10, Ev::Off(0, 50)),
            (a, Ev::On(0, 60, 80)),
            (a + l, Ev::Off(0, 60)),
            (a + l + g, Ev::On(0, 70, 100)),
            (a + l + g + 3, Ev::Off(0, 70)),
            (a + l + g + 20, Ev::On(0, 75, 100)),
            (a + l + g + 27, Ev::Off(0, 75)),
        ];
        let tr = vec![t];
        let s = convert(cx, &Smf::new(24, tr.clone()))?;
        let n = play(&s)?.notes.len();
        if n != 4 {
            return Err(format!("{} notes instead of 4", n));
        }
        crate::p_real::look_at(crate::p_real::Look::Gates, &tr, 24, &s)
    }));
    v.push(crate::p_real::look(crate::p_real::Look::Gates));
    v.push(crate::p_real::others(crate::p_real::Look::Gates));
    v.push(crate::p_edit::look_edited(crate::p_real::Look::Gates));
    v.push(crate::p_edit::look_tracks(crate::p_real::Look::Gates));
    v.push(crate::p_edit::look_counts(crate::p_real::Look::Gates));
    v.push(crate::p_edit::look_fine(crate::p_real::Look::Gates));
    v
}

pub fn check_lengths(p: &Piece, tpb: u16, pl: &Play) -> Result<(), String> {
    let exact = tpb % 24 == 0;
    let (a, b) = (fl(p.max_time, tpb), ce(p.max_time, tpb));
    let b = if exact { b } else { b + 1 };
    for (i, t) in pl.totals.iter().enumerate() {
        if pl.items[i].is_empty() {
            continue;
        }
        if *t < a || *t > b {
            return Err(format!("channel {} lasts {} steps, the file {}..{}", i, t, a, b));
        }
    }
    Ok(())
}

pub fn c08(thorough: bool) -> Vec<Family> {
    let q = |a: usize, b: usize| if thorough { b } else { a };
    let mut v = vec![];
    let n = q(5, 6);
    v.push(fam("histories", &format!("every history of up to {} events on three channels, with controls and pressure events before and after the notes, at three resolutions", n), move |cx| {
        let tpb = cx.pick(&[480u16, 24, 100]);
        let extra = [Ev::Cc(2, 7, 50), Ev::Pc(1, 40), Ev::Press(0, 3), Ev::Cc(1, 64, 0)];
        let (trk, _) = unique_history(cx, n, &[0, 1], &[45, 0, 130], &extra, 2);
        if trk.is_empty() {
            return Ok(Out::Skip);
        }
        cx.desc(|| format!("resolution {} {:?}", tpb, trk));
        let tr = vec![trk];
        let s = match convert(cx, &Smf::new(tpb, tr.clone())) {
            Err(e) if refused(&e) => return Ok(Out::Skip),
            r => r?,
        };
        let pl = play(&s)?;
        check_lengths(&read_piece(&tr), tpb, &pl)?;
        Ok(Out::Ok(hash(&pl.totals)))
    }));
    v.push(fam("distributions", "2..8 channels that stop at different times, one after another or together; file lengths around multiples of 127 steps; every place of the last event (note, control, text after it); tempo events up to the end and after it", |cx| {
        let tpb = cx.pick(&[480u16, 96, 100, 7]);
        let chans = 2 + cx.choose(7) as u8;
        let form = cx.choose(3);
        let end_steps = cx.pick(&[30u32, 126, 127, 128, 253, 254, 255, 381, 1000, 5000]);
        let frac = cx.pick(&[0u32, 1, 13]);
        let tail = cx.choose(7);
        let end = (end_steps as u64 * tpb as u64 / 24) as u32 + frac;
        let mut trks = vec![];
        for c in 0..chans {
            let (a, b) = match form {
                0 => (0, end * (c as u32 + 1) / chans as u32),
                1 => (end * c as u32 / chans as u32, end * (c as u32 + 1) / chans as u32),
                _ => (end / 3, end),
            };
            if b > a {
                trks.push(vec![(a, Ev::On(c, 60 + c, 100)), (b, Ev::Off(c, 60 + c))]);
            }
        }
        match tail {
            1 => trks[0].push((end + 100, Ev::Cc(0, 64, 0))),
            2 => trks[0].push((end + 100, Ev::Meta(1, vec![65]))),
            3 => trks.push(vec![(0, Ev::Tempo(500_000)), (end / 2, Ev::Tempo(400_000)), (end, Ev::Tempo(300_000))]),
            4 => trks.push(vec![(end + 77, Ev::Pc(3, 9))]),
            5 => trks[0].push((end + 77, Ev::Tempo(300_000))),
            6 => trks.push(vec![(0, Ev::Tempo(500_000)), (2 * end + 100, Ev::Tempo(300_000))]),
            _ => {}
        }
        cx.state(&(tpb, &trks));
        cx.desc(|| format!("resolution {} {:?}", tpb, trks));
        let s = convert(cx, &Smf::new(tpb, trks.clone()))?;
        let pl = play(&s)?;
        check_lengths(&read_piece(&trks), tpb, &pl)?;
        Ok(Out::Ok(hash(&pl.totals)))
    }));
    let n = q(120, 400);
    v.push(fam("long pieces", &format!("two channels of {} notes with different rhythms at every resolution 1..200 (quick: every fifth)", n), move |cx| {
        let tpb = 1 + cx.choose(200) as u16;
        if !cx.thorough && tpb % 5 != 0 && tpb % 24 != 0 && tpb != 1 {
            return Ok(Out::Skip);
        }
        let base = (tpb as u32 * 2 + 23) / 24;
        let a = mono(&[base + cx.pick(&[1u32, 5])], &[cx.pick(&[0u32, 3])], n, 0);
        let b: Trk = mono(&[base + 2], &[cx.pick(&[0u32, 1, 7])], n / 2, 5).into_iter().map(|(t, e)| (t, match e { Ev::On(_, k, v) => Ev::On(1, k, v), Ev::Off(_, k) => Ev::Off(1, k), e => e })).collect();
        let trks = vec![a, b];
        cx.state(&(tpb, &trks));
        cx.desc(|| format!("resolution {}, {} notes", tpb, n));
        let s = convert(cx, &Smf::new(tpb, trks.clone()))?;
        let pl = play(&s)?;
        check_lengths(&read_piece(&trks), tpb, &pl)?;
        Ok(Out::Ok(hash(&pl.totals)))
    }));
    v.push(crate::p_real::look(crate::p_real::Look::Lengths));
    v.push(crate::p_real::others(crate::p_real::Look::Lengths));
    v.push(crate::p_edit::look_edited(crate::p_real::Look::Lengths));
    v.push(crate::p_edit::look_tracks(crate::p_real::Look::Lengths));
    v.push(crate::p_edit::look_counts(crate::p_real::Look::Lengths));
    v.push(crate::p_edit::look_fine(crate::p_real::Look::Lengths));
    v
}

// ------------------------------------------------------------------------------------- C11, C12, C13

/// The table of the documentation: General MIDI program to engine instrument.
pub const INSTRUMENTS: [u8; 128] = [
    24, 24, 24, 24, 24, 24, 24, 24, 14, 14, 14, 14, 14, 14, 14, 14, 21, 21, 21, 21, 21, 9, 13, 23, 24, 24, 24, 24, 24, 24, 24, 24, 24, 24, 24, 24, 24, 24, 24, 24,
    9, 9, 9, 9, 9, 9, 15, 2, 9, 9, 9, 9, 21, 21, 21, 9, 17, 11, 18, 17, 18, 18, 18, 18, 17, 17, 11, 11, 18, 18, 18, 22, 22, 22, 13, 13, 13, 13, 8, 13,
    3, 4, 13, 6, 6, 6, 7, 7, 5, 5, 5, 21, 5, 5, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 24, 24, 24, 24, 24, 18, 9, 18, 14, 14, 2, 19, 2, 2, 2, 12,
    23, 23, 16, 8, 14, 23, 1, 23,
];

fn by_key(notes: &[Heard]) -> BTreeMap<u8, &Heard> {
    notes.iter().map(|h| (h.byte, h)).collect()
}

fn check_instruments(tr: &[Trk], s: &Song) -> Res {
    let p = read_piece(tr);
    let pl = play(s)?;
    let m = by_key(&pl.notes);
    for n in p.notes.iter().filter(|n| n.ch != 9) {
        if let (Some(prog), Some(h)) = (n.prog, m.get(&fold(n.key))) {
            if h.instr != Some(INSTRUMENTS[prog as usize]) {
                return Err(format!("{:?} plays with instrument {:?} instead of {}", n, h.instr, INSTRUMENTS[prog as usize]));
            }
        }
    }
    Ok(Out::Ok(hash(&pl.items)))
}
/// the start times of all notes do not depend on program changes
fn check_not_delayed(tr: &[Trk], tpb: u16, s: &Song) -> Result<(), String> {
    let p = read_piece(tr);
    let pl = play(s)?;
    let m = by_key(&pl.notes);
    for n in p.notes.iter().filter(|n| n.ch != 9 && n.off.map_or(false, |o| o > n.on)) {
        match m.get(&fold(n.key)) {
            None => return Err(format!("{:?} is not played", n)),
            Some(h) => {
                let a = fl(n.on, tpb);
                if h.start < a || h.start > a + 1 {
                    return Err(format!("{:?} starts at {} instead of {}", n, h.start, a));
                }
                let (lo, hi) = sounding(h)?;
                if ce(n.off.unwrap(), tpb) < h.start + lo || ce(n.off.unwrap(), tpb) > h.start + hi {
                    return Err(format!("{:?} lasts {}..{} steps", n, lo, hi));
                }
            }
        }
    }
    Ok(())
}

fn seven_fillers(t: u32) -> Vec<Trk> {
    // channels 2..8 sound all the time, so that the others have to share one voice
    (2..9u8).map(|c| vec![(0, Ev::On(c, 95, 100)), (t, Ev::Off(c, 95))]).collect()
}

pub fn c11(thorough: bool) -> Vec<Family> {
    let q = |a: usize, b: usize| if thorough { b } else { a };
    let mut v = vec![];
    v.push(fam("programs", "every program 0..127 on every melodic channel before a note, selected again, and changed during and after a note", |cx| {
        let a = cx.choose(128) as u8;
        let b = if cx.flag() { (a as usize * 7 + 41) as u8 % 128 } else { a };
        let form = cx.choose(3);
        let ch = cx.choose(16) as u8;
        if ch == 9 {
            return Ok(Out::Skip);
        }
        let t = match form {
            0 => vec![(0, Ev::Pc(ch, a)), (0, Ev::On(ch, 60, 100)), (100, Ev::Off(ch, 60)), (100, Ev::Pc(ch, b)), (200, Ev::On(ch, 61, 100)), (300, Ev::Off(ch, 61))],
            1 => vec![(0, Ev::Pc(ch, a)), (0, Ev::On(ch, 60, 100)), (60, Ev::Pc(ch, b)), (100, Ev::Off(ch, 60)), (100, Ev::On(ch, 61, 100)), (300, Ev::Off(ch, 61))],
            _ => vec![(0, Ev::On(ch, 60, 100)), (60, Ev::Pc(ch, a)), (80, Ev::Pc(ch, b)), (100, Ev::On(ch, 61, 100)), (120, Ev::Off(ch, 60)), (300, Ev::Off(ch, 61)), (400, Ev::On(ch, 62, 99)), (500, Ev::Off(ch, 62))],
        };
        cx.state(&t);
        cx.desc(|| format!("{:?}", t));
        let tr = vec![t];
        let s = convert(cx, &Smf::new(480, tr.clone()))?;
        check_not_delayed(&tr, 480, &s)?;
        check_instruments(&tr, &s)
    }));
    let n = q(6, 7);
    v.push(fam("two channels", &format!("every history of up to {} starts and ends of notes (chords of two) and program changes on two channels", n), move |cx| {
        let (trk, c) = unique_history(cx, n, &[0, 1], &[40, 0], &[Ev::Pc(0, 0), Ev::Pc(0, 40), Ev::Pc(1, 56)], 2);
        if c == 0 || !trk.iter().any(|(_, e)| if let Ev::Pc(..) = e { true } else { false }) {
            return Ok(Out::Skip);
        }
        cx.desc(|| format!("{:?}", trk));
        let tr = vec![trk];
        let s = match convert(cx, &Smf::new(480, tr.clone())) {
            Err(e) if refused(&e) => return Ok(Out::Skip),
            r => r?,
        };
        check_not_delayed(&tr, 480, &s)?;
        check_instruments(&tr, &s)
    }));
    let n = q(5, 6);
    v.push(fam("channels on one voice", &format!("every history of up to {} events of three channels, one a percussion channel, that share the only free voice", n), move |cx| {
        let mut trk: Trk = vec![];
        let mut t = 0;
        let mut key = 41;
        for _ in 0..n {
            let c = cx.choose(8);
            if c == 0 {
                break;
            }
            match c {
                1 | 2 | 3 => {
                    let ch = [0u8, 1, 9][c - 1];
                    trk.push((t, Ev::On(ch, key, 100)));
                    // program changes may fall into the note
                    let e = cx.choose(3);
                    if e > 0 {
                        trk.push((t + 20, Ev::Pc([ch, 1 - ch.min(1)][e - 1], 10 + key)));
                    }
                    t += 40;
                    trk.push((t, Ev::Off(ch, key)));
                    key += 1;
                }
                4 => trk.push((t, Ev::Pc(0, 0))),
                5 => trk.push((t, Ev::Pc(1, 56))),
                6 => trk.push((t, Ev::Pc(0, 40))),
                _ => t += 30,
            }
            cx.state(&(t, &trk));
        }
        if trk.is_empty() {
            return Ok(Out::Skip);
        }
        cx.desc(|| format!("{:?}", trk));
        let mut tr = vec![trk];
        tr.extend(seven_fillers(2000));
        let s = convert(cx, &Smf::new(480, tr.clone()))?;
        check_instruments(&tr, &s)
    }));
    let n = q(4, 5);
    v.push(fam("crowded files", &crowded(n), move |cx| {
        let (trk, c) = unique_history(cx, n, &[0, 1], &[40, 0], &[Ev::Pc(0, 0), Ev::Pc(0, 40), Ev::Pc(1, 56)], 2);
        if c == 0 || !trk.iter().any(|(_, e)| if let Ev::Pc(..) = e { true } else { false }) {
            return Ok(Out::Skip);
        }
        let tr = crowd(cx, vec![trk]);
        cx.desc(|| format!("{:?}", tr));
        let s = match convert(cx, &Smf::new(480, tr.clone())) {
            Err(e) if refused(&e) => return Ok(Out::Skip),
            r => r?,
        };
        check_not_delayed(&tr, 480, &s)?;
        check_instruments(&tr, &s)
    }));
    v.push(crate::p_real::look(crate::p_real::Look::Instruments));
    v.push(crate::p_real::others(crate::p_real::Look::Instruments));
    v.push(crate::p_edit::look_edited(crate::p_real::Look::Instruments));
    v.push(crate::p_edit::look_tracks(crate::p_real::Look::Instruments));
    v.push(crate::p_edit::look_counts(crate::p_real::Look::Instruments));
    v.push(crate::p_edit::look_fine(crate::p_real::Look::Instruments));
    v
}

pub fn check_volume(n: &RNote, h: &Heard) -> Result<(), String> {
    if let Some(vol) = n.vol {
        let mut ok = vec![vol * 2];
        ok.extend(n.vols.iter().map(|x| x * 2));
        match h.vol {
            Some(x) if ok.contains(&x) => {}
            x => return Err(format!("{:?} plays at volume {:?}, its channel had {:?}", n, x, ok)),
        }
    }
    Ok(())
}

fn check_volumes(tr: &[Trk], s: &Song) -> Res {
    let p = read_piece(tr);
    let pl = play(s)?;
    let m = by_key(&pl.notes);
    for n in p.notes.iter() {
        if let Some(h) = m.get(&fold(n.key)) {
            check_volume(n, h)?;
        }
    }
    Ok(Out::Ok(hash(&pl.items)))
}

pub fn c12(thorough: bool) -> Vec<Family> {
    let q = |a: usize, b: usize| if thorough { b } else { a };
    let mut v = vec![];
    v.push(fam("values", "every volume 0..127 before, during and after notes on eight channels", |cx| {
        let a = cx.choose(128) as u8;
        let b = cx.pick(&[0u8, 100, 127, 64]);
        let ch = cx.pick(&[0u8, 9, 5, 15, 1, 8, 10, 14]);
        let (f, g) = (cx.pick(&[0u32, 60, 100, 150]), cx.pick(&[0u32, 60, 100, 150]));
        let mut t = vec![(0, Ev::On(ch, 60, 100)), (100, Ev::Off(ch, 60)), (200, Ev::On(ch, 61, 100)), (300, Ev::Off(ch, 61)), (300, Ev::On(ch, 62, 100)), (400, Ev::Off(ch, 62)), (f, Ev::Cc(ch, 7, a)), (g + 100, Ev::Cc(ch, 7, b))];
        t.sort_by_key(|(t, e)| (*t, e.prio()));
        cx.state(&t);
        cx.desc(|| format!("{:?}", t));
        let tr = vec![t];
        let s = convert(cx, &Smf::new(480, tr.clone()))?;
        check_volumes(&tr, &s)
    }));
    v.push(fam("other controllers", "every controller but 7 with the values 0, 1, 64, 127 before, during and after notes, on all 16 channels, and of another channel", |cx| {
        let ch = cx.choose(16) as u8;
        let c = cx.choose(128) as u8;
        if c == 7 {
            return Ok(Out::Skip);
        }
        let x = cx.pick(&[0u8, 1, 64, 127]);
        let at = cx.pick(&[0u32, 10, 60, 100, 150, 200]);
        let other = cx.flag();
        let oc = if other { (ch + 1) % 16 } else { ch };
        let mut t = vec![(0, Ev::Cc(ch, 7, 90)), (10, Ev::On(ch, 60, 100)), (100, Ev::Off(ch, 60)), (200, Ev::On(ch, 61, 100)), (300, Ev::Off(ch, 61)), (320, Ev::Cc(ch, 7, 30)), (330, Ev::On(ch, 62, 100)), (400, Ev::Off(ch, 62)), (at, Ev::Cc(oc, c, x))];
        if other {
            t.push((20, Ev::On(oc, 70, 100)));
            t.push((250, Ev::Off(oc, 70)));
        }
        t.sort_by_key(|(t, e)| (*t, e.prio()));
        cx.state(&t);
        cx.desc(|| format!("{:?}", t));
        let tr = vec![t];
        let s = convert(cx, &Smf::new(480, tr.clone()))?;
        check_volumes(&tr, &s)
    }));
    let n = q(6, 7);
    v.push(fam("two channels", &format!("every history of up to {} starts and ends of notes (chords of two), volume and other control changes on two channels", n), move |cx| {
        let (trk, c) = unique_history(cx, n, &[0, 1], &[40, 0], &[Ev::Cc(0, 7, 100), Ev::Cc(0, 7, 50), Ev::Cc(1, 7, 20), Ev::Cc(0, 10, 3)], 2);
        if c == 0 || !trk.iter().any(|(_, e)| if let Ev::Cc(_, 7, _) = e { true } else { false }) {
            return Ok(Out::Skip);
        }
        cx.desc(|| format!("{:?}", trk));
        let tr = vec![trk];
        let s = match convert(cx, &Smf::new(480, tr.clone())) {
            Err(e) if refused(&e) => return Ok(Out::Skip),
            r => r?,
        };
        check_volumes(&tr, &s)
    }));
    let n = q(5, 6);
    v.push(fam("channels on one voice", &format!("every history of up to {} events of three channels, one a percussion channel, that share the only free voice", n), move |cx| {
        let mut trk: Trk = vec![];
        let mut t = 0;
        let mut key = 41;
        for _ in 0..n {
            let c = cx.choose(8);
            if c == 0 {
                break;
            }
            match c {
                1 | 2 | 3 => {
                    let ch = [0u8, 1, 9][c - 1];
                    trk.push((t, Ev::On(ch, key, 100)));
                    let e = cx.choose(3);
                    if e > 0 {
                        trk.push((t + 20, Ev::Cc([ch, 1 - ch.min(1)][e - 1], 7, key)));
                    }
                    t += 40;
                    trk.push((t, Ev::Off(ch, key)));
                    key += 1;
                }
                4 => trk.push((t, Ev::Cc(0, 7, 100))),
                5 => trk.push((t, Ev::Cc(1, 7, 20))),
                6 => trk.push((t, Ev::Cc(0, 7, 90))),
                _ => trk.push((t, Ev::Cc(9, 7, 30))),
            }
            cx.state(&(t, &trk));
        }
        if trk.is_empty() {
            return Ok(Out::Skip);
        }
        cx.desc(|| format!("{:?}", trk));
        let mut tr = vec![trk];
        tr.extend(seven_fillers(2000));
        let s = convert(cx, &Smf::new(480, tr.clone()))?;
        check_volumes(&tr, &s)
    }));
    let n = q(4, 5);
    v.push(fam("crowded files", &crowded(n), move |cx| {
        let (trk, c) = unique_history(cx, n, &[0, 1], &[40, 0], &[Ev::Cc(0, 7, 100), Ev::Cc(0, 7, 50), Ev::Cc(1, 7, 20)], 2);
        if c == 0 || !trk.iter().any(|(_, e)| if let Ev::Cc(_, 7, _) = e { true } else { false }) {
            return Ok(Out::Skip);
        }
        let tr = crowd(cx, vec![trk]);
        cx.desc(|| format!("{:?}", tr));
        let s = match convert(cx, &Smf::new(480, tr.clone())) {
            Err(e) if refused(&e) => return Ok(Out::Skip),
            r => r?,
        };
        check_volumes(&tr, &s)
    }));
    v.push(crate::p_real::look(crate::p_real::Look::Volumes));
    v.push(crate::p_real::others(crate::p_real::Look::Volumes));
    v.push(crate::p_edit::look_edited(crate::p_real::Look::Volumes));
    v.push(crate::p_edit::look_tracks(crate::p_real::Look::Volumes));
    v.push(crate::p_edit::look_counts(crate::p_real::Look::Volumes));
    v.push(crate::p_edit::look_fine(crate::p_real::Look::Volumes));
    v
}

pub fn c13(thorough: bool) -> Vec<Family> {
    let q = |a: usize, b: usize| if thorough { b } else { a };
    fn check(tr: &[Trk], s: &Song) -> Res {
        let p = read_piece(tr);
        let pl = play(s)?;
        let mut snares = std::collections::BTreeSet::new();
        let at = |t: u64| -> Vec<&Heard> { pl.notes.iter().filter(|h| h.start == t).collect() };
        for n in p.notes.iter().filter(|n| n.off.map_or(false, |o| o > n.on)) {
            let here = at(n.on as u64 / 20);
            if is_snare(n) {
                let others: Vec<u8> = p.notes.iter().filter(|o| o.ch != 9).map(|o| fold(o.key)).collect();
                let mine: Vec<&&Heard> = here.iter().filter(|h| h.instr == Some(19) && !others.contains(&h.byte)).collect();
                let want = p.notes.iter().filter(|o| o.on == n.on && is_snare(o) && o.off.map_or(false, |x| x > o.on)).count();
                if mine.len() < want {
                    return Err(format!("{:?} is not played as a snare: {:?}", n, here));
                }
                for h in &mine {
                    snares.insert(h.byte);
                }
            } else if n.ch == 9 {
                match here.iter().find(|h| h.byte == fold(n.key) && h.instr == Some(12)) {
                    Some(_) => {}
                    None => return Err(format!("{:?} should be a cymbal at its own pitch: {:?}", n, here)),
                }
            } else if let Some(prog) = n.prog {
                match here.iter().find(|h| h.byte == fold(n.key)) {
                    Some(h) if h.instr == Some(INSTRUMENTS[prog as usize]) => {}
                    x => return Err(format!("{:?} should play with instrument {}: {:?}", n, INSTRUMENTS[prog as usize], x)),
                }
            }
        }
        if snares.len() > 1 {
            return Err(format!("snares have {} pitches: {:x?}", snares.len(), snares));
        }
        Ok(Out::Ok(hash(&pl.items)))
    }
    let mut v = vec![];
    v.push(fam("keys", "every pair of percussion keys, one after the other and together, with and without a program change on the channel", |cx| {
        let a = cx.choose(128) as u8;
        let b = if cx.thorough { cx.choose(128) as u8 } else { cx.pick(&[0u8, 35, 36, 37, 38, 39, 40, 41, 42, 49, 68, 127]) };
        let pc = cx.choose(3);
        let together = cx.flag();
        if a == b && together || fold(a) == fold(b) {
            return Ok(Out::Skip);
        }
        let mut t = vec![(0, Ev::On(9, a, 100)), (40, Ev::Off(9, a))];
        let s = if together { 0 } else { 40 };
        t.extend(vec![(s, Ev::On(9, b, 100)), (s + 40, Ev::Off(9, b)), (120, Ev::On(9, a, 90)), (160, Ev::Off(9, a))]);
        match pc {
            1 => t.push((0, Ev::Pc(9, 40))),
            2 => t.push((40, Ev::Pc(9, 19))),
            _ => {}
        }
        t.sort_by_key(|(t, e)| (*t, e.prio()));
        cx.state(&t);
        cx.desc(|| format!("{:?}", t));
        let tr = vec![t];
        let s = convert(cx, &Smf::new(480, tr.clone()))?;
        check(&tr, &s)
    }));
    let n = q(5, 6);
    v.push(fam("histories", &format!("every history of up to {} drum hits (snare, side stick, cymbals), melodic notes and program changes, overlapping or not", n), move |cx| {
        let extra = [Ev::Pc(0, 40), Ev::Pc(9, 40), Ev::Pc(9, 0)];
        let mut h = history(cx, n, &Alphabet { keys: &[(9, 38), (9, 42), (9, 40), (0, 60)], vels: &[100], deltas: &[20, 0], extra: &extra, repeats: false, unmatched: false });
        if h.trk.is_empty() {
            return Ok(Out::Skip);
        }
        release_all(&mut h, 20);
        cx.desc(|| format!("{:?}", h.trk));
        let tr = vec![h.trk];
        let s = match convert(cx, &Smf::new(480, tr.clone())) {
            Err(e) if refused(&e) => return Ok(Out::Skip),
            r => r?,
        };
        check(&tr, &s)
    }));
    let n = q(6, 7);
    v.push(fam("sharing a voice", &format!("every history of up to {} events of the percussion channel and two melodic channels on the only free voice", n), move |cx| {
        let mut trk: Trk = vec![];
        let mut t = 0;
        for _ in 0..n {
            let c = cx.choose(9);
            if c == 0 {
                break;
            }
            match c {
                1..=5 => {
                    let (ch, key) = [(9u8, 38u8), (9, 42), (0, 60), (9, 40), (1, 61)][c - 1];
                    trk.push((t, Ev::On(ch, key, 100)));
                    t += 40;
                    trk.push((t, Ev::Off(ch, key)));
                }
                6 => trk.push((t, Ev::Pc(0, 40))),
                7 => trk.push((t, Ev::Pc(9, 56))),
                _ => trk.push((t, Ev::Pc(1, 115))), // a snare
            }
            cx.state(&(t, &trk));
        }
        if trk.is_empty() {
            return Ok(Out::Skip);
        }
        cx.desc(|| format!("{:?}", trk));
        let mut tr = vec![trk];
        tr.extend(seven_fillers(2000));
        let s = convert(cx, &Smf::new(480, tr.clone()))?;
        check(&tr, &s)
    }));
    let n = q(5, 6);
    v.push(fam("percussion", &crate::p_midi::PERCUSSION.replace("{}", &n.to_string()), move |cx| {
        let mut h = crate::p_midi::percussion(cx, n);
        if h.trk.is_empty() {
            return Ok(Out::Skip);
        }
        if cx.flag() {
            release_all(&mut h, 30);
        }
        cx.desc(|| format!("{:?}", h.trk));
        let tr = vec![h.trk];
        let s = convert(cx, &Smf::new(480, tr.clone()))?;
        crate::p_real::look_at(crate::p_real::Look::Drums, &tr, 480, &s)
    }));
    v.push(crate::p_real::look(crate::p_real::Look::Drums));
    v.push(crate::p_real::others(crate::p_real::Look::Drums));
    v.push(crate::p_edit::look_edited(crate::p_real::Look::Drums));
    v.push(crate::p_edit::look_tracks(crate::p_real::Look::Drums));
    v.push(crate::p_edit::look_counts(crate::p_real::Look::Drums));
    v.push(crate::p_edit::look_fine(crate::p_real::Look::Drums));
    v
}

// ------------------------------------------------------------------------------------------- C14, C15

fn tempo_values(usec: u32, factor: f32) -> Vec<u8> {
    let bpms: Vec<f64> = if usec == 0 {
        vec![f64::INFINITY]
    } else {
        let x = 6e7 / usec as f64;
        let mut v = vec![x.ceil()];
        if (x - x.round()).abs() < 1e-6 * x {
            v.push(x.round());
            v.push(x.round() + 1.0);
        }
        v
    };
    let mut out = vec![];
    for b in bpms {
        let y = b * factor as f64;
        for e in &[-1e-4, 0.0, 1e-4] {
            out.push((y + e * (1.0 + y.abs().min(1e6) * 1e-3)).floor().max(1.0).min(255.0) as u8);
        }
    }
    out.sort();
    out.dedup();
    out
}

pub fn check_tempo(tr: &[Trk], tpb: u16, factor: f32, s: &Song) -> Res {
    let p = read_piece(tr);
    let pl = play(s)?;
    let cmds: Vec<&CmdAt> = pl.cmds.iter().filter(|c| c.op == 0xe7).collect();
    if cmds.len() != p.tempos.len() {
        return Err(format!("{} tempo events, {} tempo commands", p.tempos.len(), cmds.len()));
    }
    let slack = if tpb % 24 == 0 { 0 } else { 1 };
    for (&(t, u), c) in p.tempos.iter().zip(&cmds) {
        if !tempo_values(u, factor).contains(&c.p[0]) {
            return Err(format!("tempo of {} us per beat times {} becomes {}, not {:?}", u, factor, c.p[0], tempo_values(u, factor)));
        }
        let (a, b) = (fl(t, tpb), ce(t, tpb) + slack);
        let on_time = c.time >= a && c.time <= b;
        let at_note = || pl.notes.iter().any(|h| h.voice == c.voice && h.start == c.time && c.time <= b && h.start + h.len + slack >= a);
        // a note that is never released sounds, too
        let at_held = || p.notes.iter().any(|n| n.off.is_none() && n.on <= t && fl(n.on, tpb) <= c.time && c.time <= ce(n.on, tpb) + slack);
        if !on_time && !at_note() && !at_held() {
            return Err(format!("tempo change of {}..{} takes effect at {}", a, b, c.time));
        }
    }
    Ok(Out::Ok(hash(&pl.items)))
}

pub fn c14(thorough: bool) -> Vec<Family> {
    let q = |a: usize, b: usize| if thorough { b } else { a };
    let mut v = vec![];
    v.push(fam("values", "every bpm 1..1300 exactly and one microsecond to each side, the extremes 0, 1, 255, 256, 65535, 65536, 16777215, times 15 tempo factors", |cx| {
        let i = cx.choose(1300 * 3 + 12);
        let usec = if i < 3900 {
            let u = 60_000_000 / (1 + i as u32 / 3);
            (u + i as u32 % 3).saturating_sub(1).min(0xff_ffff)
        } else {
            [0u32, 1, 2, 254, 255, 256, 257, 65535, 65536, 65537, 16_777_214, 16_777_215][i - 3900]
        };
        let f = cx.pick(&[0.2f32, 0.1, 0.15, 0.25, 0.3, 0.33, 0.4, 0.5, 0.75, 1.0, 1.5, 2.0, 0.01, 10.0, 0.0]);
        let place = cx.choose(2);
        if !cx.thorough && place == 1 && i % 7 != 0 {
            return Ok(Out::Skip);
        }
        let t = match place {
            0 => vec![(0, Ev::Tempo(usec)), (0, Ev::On(0, 60, 100)), (100, Ev::Off(0, 60))],
            _ => vec![(0, Ev::On(0, 60, 100)), (100, Ev::Off(0, 60)), (200, Ev::Tempo(usec))],
        };
        cx.state(&(usec, (f * 100.0) as u32, place));
        cx.desc(|| format!("{} us per beat, factor {}", usec, f));
        let tr = vec![t];
        let p = cx.path("i.mid");
        let s = convert_at(&p, &Smf::new(480, tr.clone()).bytes(), f, false, false)?;
        check_tempo(&tr, 480, f, &s)
    }));
    let n = q(6, 7);
    v.push(fam("placement", &format!("every history of up to {} starts and ends of notes on two channels and tempo changes, at three resolutions, tempo events in the same or in an own track", n), move |cx| {
        let tpb = cx.pick(&[480u16, 24, 100]);
        let own = cx.flag();
        let (trk, _) = unique_history(cx, n, &[0, 1], &[45, 0], &[Ev::Tempo(500_000), Ev::Tempo(301_000)], 1);
        if !trk.iter().any(|(_, e)| if let Ev::Tempo(_) = e { true } else { false }) {
            return Ok(Out::Skip);
        }
        cx.desc(|| format!("{} {:?}", tpb, trk));
        let tr = if own {
            let (a, b) = trk.into_iter().partition(|(_, e)| if let Ev::Tempo(_) = e { true } else { false });
            vec![a, b]
        } else {
            vec![trk]
        };
        let s = convert(cx, &Smf::new(tpb, tr.clone()))?;
        check_tempo(&tr, tpb, 0.2, &s)
    }));
    let n = q(4, 5);
    v.push(fam("one channel", &format!("every sequence of up to {} notes of several lengths, pauses and tempo changes in every order, with other events around", n), move |cx| {
        let mut trk: Trk = vec![];
        let mut t = 0;
        let ch = cx.pick(&[0u8, 3]);
        let mut u = 500_000;
        for i in 0..n {
            match cx.choose(7) {
                0 => break,
                1 => {
                    trk.push((t, Ev::On(ch, 60 + i as u8, 100)));
                    t += 70;
                    trk.push((t, Ev::Off(ch, 60 + i as u8)));
                }
                2 => {
                    trk.push((t, Ev::On(ch, 60 + i as u8, 100)));
                    t += 6000;
                    if cx.flag() {
                        trk.push((t - 3000, Ev::Tempo(u)));
                        u += 40_000;
                    }
                    trk.push((t, Ev::Off(ch, 60 + i as u8)));
                }
                3 => t += 110,
                4 => t += 7000,
                5 => {
                    trk.push((t, Ev::Tempo(u)));
                    u += 40_000;
                }
                _ => {
                    trk.push((t, Ev::Pc(ch, 40)));
                    trk.push((t, Ev::Cc(ch, 7, 40)));
                }
            }
            cx.state(&(t, &trk));
        }
        if !trk.iter().any(|(_, e)| if let Ev::Tempo(_) = e { true } else { false }) {
            return Ok(Out::Skip);
        }
        cx.desc(|| format!("{:?}", trk));
        let tr = vec![trk];
        let s = convert(cx, &Smf::new(480, tr.clone()))?;
        check_tempo(&tr, 480, 0.2, &s)
    }));
    let n = q(4, 5);
    v.push(fam("crowded files", &crowded(n), move |cx| {
        let (trk, _) = unique_history(cx, n, &[0, 1], &[45, 0], &[Ev::Tempo(500_000), Ev::Tempo(301_000)], 1);
        if !trk.iter().any(|(_, e)| if let Ev::Tempo(_) = e { true } else { false }) {
            return Ok(Out::Skip);
        }
        let tr = crowd(cx, vec![trk]);
        cx.desc(|| format!("{:?}", tr));
        let s = convert(cx, &Smf::new(480, tr.clone()))?;
        check_tempo(&tr, 480, 0.2, &s)
    }));
    v.push(crate::p_real::look(crate::p_real::Look::Tempo));
    v.push(crate::p_real::others(crate::p_real::Look::Tempo));
    v.push(crate::p_edit::look_edited(crate::p_real::Look::Tempo));
    v.push(crate::p_edit::look_tracks(crate::p_real::Look::Tempo));
    v.push(crate::p_edit::look_counts(crate::p_real::Look::Tempo));
    v.push(crate::p_edit::look_fine(crate::p_real::Look::Tempo));
    v
}

pub fn c15(thorough: bool) -> Vec<Family> {
    let q = |a: usize, b: usize| if thorough { b } else { a };
    /// notes in order: (start, end, key, portamento on, portamento time, may be judged)
    type Plan = Vec<(u64, u64, u8, bool, u64, bool)>;
    fn plan_of(cx: &mut Ctx, ch: u8, tpb: u16, toks: &[(usize, u32)], key: u8) -> Option<(Trk, Plan)> {
        let mut trk: Trk = vec![];
        let (mut t, mut on, mut hi, mut lo) = (0u32, false, 0u8, 0u8);
        let mut key = key;
        let mut vel = 100u8;
        let mut plan: Plan = vec![];
        let mut clean = true; // no command was emitted since the last note
        let unit = tpb as u32 / 24;
        for &(k, x) in toks {
            match k {
                0 => {
                    let l = x * unit;
                    trk.push((t, Ev::On(ch, key, vel)));
                    let pt = ((hi as u64) << 8 | lo as u64) * 24;
                    let time = ((pt + tpb as u64 - 1) / tpb as u64).max(1);
                    plan.push((fl(t, tpb), ce(t + l, tpb), key, on, time, clean));
                    t += l;
                    trk.push((t, Ev::Off(ch, key)));
                    key = (key + 3) & 127;
                    clean = true;
                }
                1 => t += x * unit,
                2 => {
                    on = x >= 64;
                    trk.push((t, Ev::Cc(ch, 65, x as u8)));
                }
                3 => {
                    hi = x as u8;
                    trk.push((t, Ev::Cc(ch, 5, hi)));
                }
                4 => {
                    lo = x as u8;
                    trk.push((t, Ev::Cc(ch, 37, lo)));
                }
                5 => {
                    trk.push((t, Ev::Cc(ch, 7, x as u8)));
                    clean = false;
                }
                6 => trk.push((t, Ev::Cc(ch, 64, x as u8))),
                7 => key = x as u8,
                8 => vel = x as u8,
                // under the note before, three steps before its end
                k if k >= 1000 => {
                    let c = match k - 1000 {
                        2 => {
                            on = x >= 64;
                            65
                        }
                        3 => {
                            hi = x as u8;
                            5
                        }
                        4 => {
                            lo = x as u8;
                            37
                        }
                        5 => 7,
                        c => c as u8,
                    };
                    if t < 3 * unit || !matches!(trk.last(), Some((_, Ev::Off(..)))) && !matches!(trk.last(), Some((_, Ev::Cc(..)))) {
                        return None;
                    }
                    trk.push((t - 3 * unit, Ev::Cc(ch, c, x as u8)));
                }
                // any other controller
                k => trk.push((t, Ev::Cc(ch, (k - 100) as u8, x as u8))),
            }
            cx.state(&(t, on, hi, lo, key));
        }
        if plan.is_empty() {
            return None;
        }
        trk.sort_by_key(|(t, e)| (*t, e.prio()));
        Some((trk, plan))
    }
    fn check(cx: &mut Ctx, ch: u8, tpb: u16, toks: &[(usize, u32)]) -> Res {
        let (trk, plan) = match plan_of(cx, ch, tpb, toks, 50) {
            Some(x) => x,
            None => return Ok(Out::Skip),
        };
        cx.desc(|| format!("{} {:?}", tpb, trk));
        let s = convert(cx, &Smf::new(tpb, vec![trk]))?;
        let pl = play(&s)?;
        judge(&pl, None, &plan)?;
        Ok(Out::Ok(hash(&pl.items[0])))
    }
    /// the notes of one voice (None: all there are) against the plan of its channel
    fn judge(pl: &Play, voice: Option<usize>, plan: &Plan) -> Result<(), String> {
        let mine = |v: usize| voice.map_or(true, |w| v == w);
        let mut ns: Vec<_> = pl.notes.iter().filter(|h| mine(h.voice)).cloned().collect();
        ns.sort_by_key(|h| h.start);
        if ns.len() != plan.len() {
            return Err(format!("{} notes, {} played", plan.len(), ns.len()));
        }
        // the items with the slides in between
        let items = &pl.items[voice.unwrap_or(0)];
        let mut slides = 0;
        for i in 0..plan.len() {
            let (a, _, key, on, time, clean) = plan[i];
            if !clean {
                continue;
            }
            let h = &ns[i];
            let want = on && i > 0 && plan[i - 1].1 == a;
            if h.byte != fold(key) {
                return Err(format!("note {} has pitch {:#x} instead of {:#x}", i, h.byte, fold(key)));
            }
            if h.slid != want {
                return Err(format!("note {} at {} is {}reached by a slide", i, a, if want { "not " } else { "" }));
            }
            if want {
                slides += 1;
                let c = pl.cmds.iter().find(|c| mine(c.voice) && c.op == 0xf9 && c.time == h.start).ok_or("no slide command")?;
                let last = match &items[c.index - 1] {
                    It::Note { dur, .. } | It::Tie { dur, .. } => *dur as u64,
                    x => return Err(format!("slide after {:?}", x)),
                };
                if c.p[2] != fold(key) {
                    return Err(format!("slide to {:#x} instead of {:#x}", c.p[2], fold(key)));
                }
                if time <= last && (c.p[0] as u64 + c.p[1] as u64 != last || c.p[1] as u64 != time) {
                    return Err(format!("slide of note {}: delay {}, {} steps; the step before lasts {} and portamento takes {}", i, c.p[0], c.p[1], last, time));
                }
            }
        }
        let n9 = pl.cmds.iter().filter(|c| mine(c.voice) && c.op == 0xf9).count();
        if plan.iter().all(|p| p.5) && n9 != slides {
            return Err(format!("{} slide commands for {} slides", n9, slides));
        }
        Ok(())
    }
    let mut v = vec![];
    let n = q(6, 7);
    v.push(fam("histories", &format!("every sequence of up to {} notes of three lengths, pauses, and portamento on/off/time changes", n), move |cx| {
        let tpb = 24;
        let all = [(0usize, 9u32), (0, 4), (0, 130), (1, 3), (2, 127), (2, 0), (3, 0), (4, 5), (6, 0)];
        let mut toks = vec![];
        for _ in 0..n {
            let c = cx.choose(all.len() + 1);
            if c == 0 {
                break;
            }
            toks.push(all[c - 1]);
        }
        check(cx, 0, tpb, &toks)
    }));
    v.push(fam("under notes", "every sequence of up to six (thorough: seven) notes, pauses and portamento changes, the changes between notes or under them, followed by two notes", |cx| {
        let n = if cx.thorough { 7 } else { 6 };
        let all = [(0usize, 9u32), (1, 4), (2, 127), (2, 0), (1002, 127), (1002, 0), (1004, 5), (1003, 0), (1005, 70)];
        let mut toks = vec![];
        let mut ctl = 0;
        for _ in 0..n {
            let c = cx.choose(all.len() + 1);
            if c == 0 {
                break;
            }
            ctl = if c == 1 { 0 } else { ctl + 1 };
            // what is under a note follows it at once
            if all[c - 1].0 >= 1000 && (toks.is_empty() || toks.iter().rev().find(|t: &&(usize, u32)| t.0 < 1000).map_or(true, |t| t.0 != 0)) || ctl > 3 {
                return Ok(Out::Skip);
            }
            toks.push(all[c - 1]);
        }
        toks.extend_from_slice(&[(0, 9), (0, 6)]);
        check(cx, 0, 24, &toks)
    }));
    v.push(fam("values", "two slides: every pair of keys (quick: every key with every eighth), every velocity of each note, every value of the volume under the note, on 15 channels, at 40 resolutions", |cx| {
        let mut toks = vec![(4usize, 2u32), (2, 127), (0, 9), (0, 9), (0, 6)];
        let mut ch = 0;
        let mut tpb = 24;
        match cx.choose(5) {
            0 => {
                let a = cx.choose(128) as u32;
                let b = cx.choose(128) as u32;
                if !cx.thorough && a % 8 > 0 && b % 8 > 0 {
                    return Ok(Out::Skip);
                }
                let at = 2 + cx.choose(2);
                toks.insert(at + 1, (7, b));
                toks.insert(at, (7, a));
            }
            1 => {
                let at = 2 + cx.choose(3);
                toks.insert(at, (8, 1 + cx.choose(127) as u32));
            }
            2 => toks.insert(3, (1005, cx.choose(128) as u32)),
            3 => {
                ch = cx.choose(16) as u8;
                if ch == 9 {
                    return Ok(Out::Skip);
                }
            }
            _ => tpb = 24 * (1 + cx.choose(40) as u16),
        }
        check(cx, ch, tpb, &toks)
    }));
    v.push(fam("times", "every portamento time 0..127 (low byte) and several high bytes against note lengths 1..260 steps (quick: a selection), at three resolutions", |cx| {
        let tpb = cx.pick(&[24u16, 480, 96]);
        let lo = cx.choose(128) as u32;
        let hi = cx.pick(&[0u32, 1, 4]);
        let l = 1 + cx.choose(260) as u32;
        if !cx.thorough && (l % 13 > 1 || l > 8 && lo % 8 > 1) && !(l > 124 && l < 130 && lo % 5 == 0) {
            return Ok(Out::Skip);
        }
        check(cx, 0, tpb, &[(3, hi), (4, lo), (2, 127), (0, l), (0, 9), (0, 4)])
    }));
    v.push(fam("all times", "every portamento time (128 by 128 values) at resolutions up to 32760, the bytes in either order, set before the first note, between notes or under the note, with notes of one step to the longest", |cx| {
        let tpb = cx.pick(&[24u16, 480, 10080, 32760]);
        let (hi, lo) = (cx.choose(128) as u32, cx.choose(128) as u32);
        let at = cx.choose(3);
        let swap = cx.flag();
        if !cx.thorough && at > 0 && (hi + lo) % 5 > 0 {
            return Ok(Out::Skip);
        }
        let l = cx.pick(&[126u32, 40]);
        let mut toks = vec![(2usize, 127u32), (0, l), (0, l), (1, 5), (0, 9), (0, 4)];
        let d = if at == 2 { 1000 } else { 0 };
        let mut t = vec![(3 + d, hi), (4 + d, lo)];
        if swap {
            t.reverse();
        }
        if at > 0 {
            toks.insert(0, (3, 1));
            toks.insert(1, (4, 1));
        }
        let i = if at == 0 { 0 } else { 4 };
        for (k, x) in t.into_iter().enumerate() {
            toks.insert(i + k, x);
        }
        check(cx, 0, tpb, &toks)
    }));
    let n = q(4, 6);
    v.push(fam("many channels", &format!("two to eight channels, in one track or a track each: one with every sequence of up to {} notes, pauses and portamento changes, the others without portamento, with their own, or with changes at other times", n), move |cx| {
        let k = cx.pick(&[2usize, 3, 8]);
        let which = cx.choose(k);
        if k == 8 && ![0, 4, 7].contains(&which) {
            return Ok(Out::Skip);
        }
        let apart = cx.flag();
        let other = cx.choose(4);
        let all = [(0usize, 9u32), (0, 4), (0, 200), (1, 3), (2, 127), (2, 0), (3, 0), (4, 5)];
        let mut toks = vec![(0, 9)];
        for _ in 0..n {
            let c = cx.choose(all.len() + 1);
            if c == 0 {
                break;
            }
            toks.push(all[c - 1]);
        }
        toks.extend_from_slice(&[(0, 7), (0, 5)]);
        let others: &[(usize, u32)] = match other {
            0 => &[(0, 9), (0, 9), (0, 9), (0, 9)],
            1 => &[(2, 127), (4, 3), (0, 9), (0, 9), (0, 9), (0, 9)],
            2 => &[(0, 5), (2, 127), (4, 7), (3, 1), (0, 14), (0, 3), (2, 0), (0, 6), (0, 3)],
            _ => &[(2, 127), (0, 300), (4, 1), (0, 9), (1, 1), (0, 9)],
        };
        let mut trks: Vec<Trk> = vec![];
        let mut plans = vec![];
        for c in 0..k {
            match plan_of(cx, c as u8, 24, if c == which { &toks } else { others }, 40 + 4 * c as u8) {
                Some((t, p)) => {
                    trks.push(t);
                    plans.push(p);
                }
                None => return Ok(Out::Skip),
            }
        }
        if !apart {
            let mut one: Trk = trks.concat();
            one.sort_by_key(|(t, e)| (*t, e.prio()));
            trks = vec![one];
        }
        cx.desc(|| format!("{:?}", trks));
        let s = convert(cx, &Smf::new(24, trks))?;
        let pl = play(&s)?;
        let all: usize = plans.iter().map(|p| p.len()).sum();
        if pl.notes.len() != all {
            return Err(format!("{} notes, {} played", all, pl.notes.len()));
        }
        let mut used = vec![];
        for (c, p) in plans.iter().enumerate() {
            let h = pl.notes.iter().find(|h| h.start == 0 && h.byte == fold(p[0].2));
            let h = h.ok_or_else(|| format!("first note of channel {} is missing", c))?;
            used.push(h.voice);
            judge(&pl, Some(h.voice), p).map_err(|e| format!("channel {}: {}", c, e))?;
        }
        Ok(Out::Ok(hash(&(used, &pl.items))))
    }));
    v.push(fam("switch values", "every value 0..127 of the portamento switch, before a note and between notes, with controls during notes", |cx| {
        let v = cx.choose(128) as u32;
        let w = cx.pick(&[0u32, 63, 64, 127]);
        let at = cx.choose(3);
        let mut toks = vec![(4usize, 2u32), (2, v), (0, 9), (0, 9), (2, w), (0, 9), (0, 9)];
        if at == 1 {
            toks.insert(4, (1, 2));
        }
        if at == 2 {
            toks.insert(3, (5, 70));
            toks.insert(6, (6, 1));
        }
        check(cx, 0, 24, &toks)
    }));
    v.push(fam("other controllers", "every controller but 5, 7, 37 and 65 with the values 0, 1, 63, 64, 127 before, between and after notes, with portamento on or off, and the portamento controllers themselves, on all 16 channels", |cx| {
        let ch = cx.choose(16) as u8;
        let c = cx.choose(128);
        if [5, 7, 37, 65].contains(&c) {
            return Ok(Out::Skip);
        }
        let x = cx.pick(&[0u32, 1, 63, 64, 127]);
        let at = cx.choose(5);
        let on = cx.pick(&[127u32, 0]);
        if ch == 9 {
            // drums have keys of their own
            return Ok(Out::Skip);
        }
        let mut toks = vec![(3usize, 0u32), (4, 3), (2, on), (0, 9), (0, 9), (1, 2), (0, 9), (0, 9)];
        toks.insert([0, 3, 4, 5, 7][at], (100 + c, x));
        check(cx, ch, 24, &toks)
    }));
    v.push(crate::p_edit::look_fine(crate::p_real::Look::Notes));
    v
}
