//! C09, C10, C16, C17: reading of MIDI files and distribution of notes over voices.
use crate::engine::*;
use crate::smf::*;
use crate::spc::*;
use ghakuf::messages::*;
use midi2spc::midi::MidiHandler;
use midi2spc::nspc::Song;
use std::path::Path;

fn q(thorough: bool, a: usize, b: usize) -> usize {
    if thorough {
        b
    } else {
        a
    }
}

pub fn read_at(path: &Path, bytes: &[u8]) -> Result<Result<MidiHandler, String>, String> {
    std::fs::write(path, bytes).unwrap();
    guarded(|| {
        let mut m = MidiHandler::new();
        match m.read(path, false) {
            Ok(()) => Ok(m),
            Err(e) => Err(e.to_string()),
        }
    })
}

/// (voice, channel, key, velocity, start, end)
type VNote = (u8, u8, u8, u32, Option<u32>);

fn voice_notes(m: &MidiHandler) -> Result<Vec<VNote>, String> {
    let mut out = vec![];
    for v in 0..8 {
        let mut cur: Option<(u8, u8, u8, u32)> = None;
        let mut last = 0;
        for (msg, t) in m.events_for_voice(v) {
            if *t < last {
                return Err(format!("voice {}: event at {} after one at {}", v, t, last));
            }
            last = *t;
            if let Message::MidiEvent { event, .. } = msg {
                match *event {
                    MidiEvent::NoteOn { ch, note, velocity } if velocity > 0 => {
                        if let Some(c) = cur {
                            return Err(format!("voice {}: note {} of channel {} starts at {} while {:?} sounds", v, note, ch, t, c));
                        }
                        cur = Some((ch, note, velocity, *t));
                    }
                    MidiEvent::NoteOff { ch, note, .. } | MidiEvent::NoteOn { ch, note, .. } => match cur.take() {
                        Some(c) if c.0 == ch && c.1 == note => out.push((c.0, c.1, c.2, c.3, Some(*t))),
                        c => return Err(format!("voice {}: note {} of channel {} ends at {}, but {:?} sounds", v, note, ch, t, c)),
                    },
                    _ => {}
                }
            }
        }
        if let Some(c) = cur {
            out.push((c.0, c.1, c.2, c.3, None));
        }
    }
    out.sort();
    Ok(out)
}

pub fn check_voices(cx: &mut Ctx, tr: Vec<Trk>) -> Res {
    let p = read_piece(&tr);
    cx.desc(|| format!("{:?}", tr));
    let path = cx.path("tune17.mid");
    match read_at(&path, &Smf::new(480, tr).bytes())? {
        Err(e) => {
            if !e.contains("tune17.mid") {
                return Err(format!("the error does not name the file: {}", e));
            }
            Ok(Out::Ok(hash(&"refused")))
        }
        Ok(m) => {
            if p.poly > 8 {
                return Err(format!("{} notes sound at once, but the file is accepted", p.poly));
            }
            let mut got = voice_notes(&m)?;
            let mut want: Vec<VNote> = p.notes.iter().map(|n| (n.ch, n.key, n.vel, n.on, n.off)).collect();
            // all snares are played at one pitch: which one is not at issue here
            let mut left = got.clone();
            for n in want.iter_mut() {
                if n.0 == 9 && (n.1 == 38 || n.1 == 40) {
                    n.1 = 255;
                } else if let Some(i) = left.iter().position(|x| x == n) {
                    left.remove(i);
                }
            }
            let mut pitch = None;
            for n in left {
                let snare = (9, 255, n.2, n.3, n.4);
                if n.0 == 9 && want.contains(&snare) && *pitch.get_or_insert(n.1) == n.1 {
                    let i = got.iter().position(|x| *x == n).unwrap();
                    got[i] = snare;
                }
            }
            want.sort();
            got.sort();
            if got != want {
                let d: Vec<_> = want.iter().filter(|n| !got.contains(n)).collect();
                let e: Vec<_> = got.iter().filter(|n| !want.contains(n)).collect();
                return Err(format!("notes (channel, key, velocity, start, end) of the file that no voice plays: {:?}; played but not in the file: {:?}", d, e));
            }
            let by_voice: Vec<usize> = (0..8).map(|v| m.events_for_voice(v).len()).collect();
            Ok(Out::Ok(hash(&by_voice)))
        }
    }
}

pub const PERCUSSION: &str = "every history of up to {} note events on snare, second snare, hi-hat and a melodic key of the same number (two or three of them), with repeated ones and ends of each of them while it does not sound";

pub fn percussion(cx: &mut Ctx, n: usize) -> crate::p_song::Hist {
    let keys: &[(u8, u8)] = cx.pick(&[&[(9u8, 40u8), (9, 38), (0, 38)] as &[(u8, u8)], &[(9, 38), (9, 40), (0, 40)], &[(9, 38), (9, 42), (9, 68)], &[(0, 40), (9, 40), (9, 38)], &[(9, 68), (9, 40)], &[(0, 42), (9, 42), (1, 42)]]);
    crate::p_song::history(cx, n, &crate::p_song::Alphabet { keys, vels: &[100, 3, 127], deltas: &[30, 0], extra: &[], repeats: true, unmatched: true })
}

pub fn c09(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let n = q(thorough, 6, 7);
    v.push(fam("histories", &format!("every history of up to {} note events on three channels (one percussion), chords, repeated and unmatched events, notes never released", n), move |cx| {
        let h = crate::p_song::history(cx, n, &crate::p_song::Alphabet { keys: &[(0, 60), (0, 62), (1, 60), (9, 42)], vels: &[100, 3, 127], deltas: &[20, 0], extra: &[], repeats: true, unmatched: true });
        if h.trk.is_empty() {
            return Ok(Out::Skip);
        }
        check_voices(cx, vec![h.trk])
    }));
    v.push(fam("one too many", "7 to 10 notes held by up to four of 16 channels (percussion or not, in every order), all of one velocity; the first, a middle or the last of them has each of the 127 velocities, comes with the others or later, is on any of 16 channels, has the highest, lowest or a middle key; released together, in order or not at all", |cx| {
        let total = 7 + cx.choose(4);
        let form = cx.choose(6);
        let which = cx.pick(&[0usize, 4, 99]).min(total - 1);
        let dim = cx.choose(3);
        let (vel, ch, key) = match dim {
            0 => (1 + cx.choose(127) as u8, None, 0),
            1 => (cx.pick(&[100u8, 3]), Some(cx.choose(16) as u8), 0),
            _ => (cx.pick(&[100u8, 3]), None, cx.choose(128) as u8),
        };
        let spread = cx.pick(&[0u32, 10]);
        let late = cx.flag();
        let off = cx.choose(3);
        let mut t: Trk = vec![];
        let mut ends: Trk = vec![];
        for i in 0..total {
            let mut c = match form {
                0 => 0,
                1 => 3,
                2 => i as u8 % 3 + 8,
                3 => i as u8 / 3,
                4 => 15 - i as u8 / 4,
                _ => [9u8, 2, 2, 2, 2, 4, 4, 9, 4, 1][i],
            };
            let mut k = 41 + 2 * i as u8;
            let mut v = 64;
            let mut on = i as u32 * spread;
            if i == which {
                v = vel;
                c = ch.unwrap_or(c);
                if dim == 2 {
                    k = key;
                }
                if late {
                    on += 200;
                }
            }
            t.push((on, Ev::On(c, k, v)));
            match off {
                0 => ends.push((1000, Ev::Off(c, k))),
                1 => ends.push((500 + 20 * i as u32, Ev::Off(c, k))),
                _ => {}
            }
        }
        t.extend(ends);
        t.sort_by_key(|e| (e.0, e.1.prio()));
        cx.state(&t);
        check_voices(cx, vec![t])
    }));
    // n channels hold some notes each; one more note on each of two channels; releases in between
    v.push(fam("around eight", "every distribution of 5 to 9 held notes over up to four channels, then every sequence of three (thorough: four) further starts and ends", move |cx| {
        let chans = 1 + cx.choose(4) as u8;
        let mut held: Vec<(u8, u8)> = vec![];
        let mut trk: Trk = vec![];
        let total = 5 + cx.choose(5);
        let mut left = total;
        let mut key = 40u8;
        let spread = cx.pick(&[0u32, 10]);
        let mut t = 0;
        for c in 0..chans {
            let k = if c + 1 == chans { left } else { cx.choose(left + 1) };
            left -= k;
            for _ in 0..k {
                trk.push((t, Ev::On(c, key, 64)));
                held.push((c, key));
                key += 1;
                t += spread;
            }
        }
        t += 100;
        let n = if cx.thorough { 4 } else { 3 };
        for _ in 0..n {
            let c = cx.choose(5);
            match c {
                0 => break,
                1 | 2 => {
                    let ch = if c == 1 { 0 } else { chans };
                    trk.push((t, Ev::On(ch, key, 64)));
                    held.push((ch, key));
                    key += 1;
                }
                3 => {
                    if held.is_empty() {
                        return Ok(Out::Skip);
                    }
                    let (c, k) = held.remove(0);
                    trk.push((t, Ev::Off(c, k)));
                }
                _ => {
                    let (c, k) = match held.pop() {
                        None => return Ok(Out::Skip),
                        Some(x) => x,
                    };
                    trk.push((t, Ev::Off(c, k)));
                }
            }
            t += cx.pick(&[30u32, 0]);
            cx.state(&(t, &held));
        }
        if cx.flag() {
            for (c, k) in held {
                trk.push((t + 50, Ev::Off(c, k)));
            }
        }
        check_voices(cx, vec![trk])
    }));
    // channels that sound in some of m slots
    let slots = q(thorough, 3, 4);
    v.push(fam("slots", &format!("four channels beside six that always sound, each sounding in any subset of {} time slots with one or two notes, in all channel orders", slots), move |cx| {
        let order = cx.choose(2);
        let mut trk: Trk = vec![];
        let full = 5u8;
        for i in 0..full {
            let c = if order == 0 { i } else { 15 - i };
            trk.push((0, Ev::On(c, 90, 64)));
            trk.push((slots as u32 * 100, Ev::Off(c, 90)));
        }
        for i in 0..4u8 {
            let c = if order == 0 { full + i } else { i };
            let mask = cx.choose(1 << slots);
            let two = mask > 0 && i < 2 && cx.flag();
            for s in 0..slots as u32 {
                if mask >> s & 1 == 1 {
                    trk.push((s * 100, Ev::On(c, 40 + s as u8, 70)));
                    trk.push((s * 100 + 100, Ev::Off(c, 40 + s as u8)));
                    if two {
                        trk.push((s * 100 + 50, Ev::On(c, 50 + s as u8, 70)));
                        trk.push((s * 100 + 100, Ev::Off(c, 50 + s as u8)));
                    }
                }
            }
            cx.state(&(order, i, mask, two, trk.len()));
        }
        trk.sort_by_key(|(t, e)| (*t, e.prio()));
        check_voices(cx, vec![trk])
    }));
    let n = q(thorough, 5, 6);
    v.push(fam("percussion", &PERCUSSION.replace("{}", &n.to_string()), move |cx| {
        let h = percussion(cx, n);
        if h.trk.is_empty() {
            return Ok(Out::Skip);
        }
        check_voices(cx, vec![h.trk])
    }));
    v.push(crate::p_real::voices());
    v.push(crate::p_edit::voices_edited());
    v
}

// ------------------------------------------------------------------------------------------------ C10

/// can the channels be shared out over eight voices
fn colourable(conflict: &[Vec<bool>], n: usize) -> bool {
    fn go(i: usize, used: usize, col: &mut Vec<usize>, conflict: &[Vec<bool>], n: usize) -> bool {
        if i == col.len() {
            return true;
        }
        for c in 0..(used + 1).min(n) {
            if (0..i).all(|j| col[j] != c || !conflict[i][j]) {
                col[i] = c;
                if go(i + 1, used.max(c + 1), col, conflict, n) {
                    return true;
                }
            }
        }
        false
    }
    go(0, 0, &mut vec![0; conflict.len()], conflict, n)
}

/// whether any two channels sound together, from the reference reading
fn fits(p: &Piece) -> bool {
    let chans: Vec<u8> = {
        let mut c: Vec<u8> = p.notes.iter().map(|n| n.ch).collect();
        c.sort();
        c.dedup();
        c
    };
    let conflict: Vec<Vec<bool>> = chans
        .iter()
        .map(|&a| {
            chans
                .iter()
                .map(|&b| {
                    a != b && p.notes.iter().filter(|n| n.ch == a).any(|x| p.notes.iter().filter(|n| n.ch == b).any(|y| x.on < y.off.unwrap() && y.on < x.off.unwrap()))
                })
                .collect()
        })
        .collect();
    colourable(&conflict, 8)
}

pub fn check_accept(cx: &mut Ctx, tr: Vec<Trk>, tpb: u16) -> Res {
    let p = read_piece(&tr);
    cx.desc(|| format!("{:?}", tr));
    let want = fits(&p);
    let path = cx.path("i.mid");
    match read_at(&path, &Smf::new(tpb, tr).bytes())? {
        Ok(_) if !want => Err("accepted, but the channels cannot be shared out over eight voices".into()),
        Err(e) if want => Err(format!("the channels fit on eight voices, but the file is refused: {}", e)),
        _ => Ok(Out::Ok(want as u64)),
    }
}

pub fn c10(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let deep = thorough;
    // slots: 8-r channels always sound, k channels have patterns over m slots
    let (k, m) = if deep { (5, 4) } else { (4, 4) };
    v.push(fam("two spare voices", &format!("six channels that always sound and {} that sound in every combination of {} time slots, in two channel orders", k, m), move |cx| {
        patterns(cx, 6, k, m)
    }));
    let (k, m) = if deep { (6, 3) } else { (5, 3) };
    v.push(fam("three spare voices", &format!("five channels that always sound and {} that sound in every combination of {} time slots", k, m), move |cx| {
        patterns(cx, 5, k, m)
    }));
    let (k, m) = if deep { (7, 3) } else { (6, 3) };
    v.push(fam("one spare voice", &format!("seven channels that always sound and {} that sound in every combination of {} time slots, nearly all disjoint", k, m), move |cx| {
        let mut used = 0usize;
        let mut masks = vec![];
        let mut budget = 2;
        for _ in 0..k {
            let x = cx.choose(1 << m);
            if x & used != 0 {
                budget -= 1;
                if budget == 0 {
                    return Ok(Out::Skip);
                }
            }
            used |= x;
            masks.push(x);
        }
        place(cx, 7, &masks, m, 0)
    }));
    // sixteen channels in two slots
    let n = q(deep, 14, 16);
    v.push(fam("many channels", &format!("{} channels that sound in the first or the second of two time slots (every distribution), with long or short notes", n), move |cx| {
        let long = cx.flag();
        let mut trk: Trk = vec![];
        for c in 0..n as u8 {
            let s = cx.choose(2) as u32;
            trk.push((s * 100, Ev::On(c, 60, 64)));
            trk.push((s * 100 + if long { 100 } else { 30 }, Ev::Off(c, 60)));
        }
        cx.state(&trk);
        trk.sort_by_key(|(t, e)| (*t, e.prio()));
        check_accept(cx, vec![trk], 480)
    }));
    // general small pieces: note events of mono channels, beside five full channels
    let n = q(deep, 6, 7);
    v.push(fam("histories", &format!("every history of up to {} starts and ends of one-note-at-a-time channels 0..3 beside six channels that always sound, with other events on silent channels", n), move |cx| {
        let mut trk: Trk = vec![];
        let mut held = [None; 4];
        let mut t = 0;
        for i in 0..n {
            let c = cx.choose(6);
            if c == 0 {
                break;
            }
            let d = if i > 0 { cx.pick(&[20u32, 0]) } else { 0 };
            t += d;
            if c == 5 {
                trk.push((t, Ev::Cc(0, 7, 40)));
                trk.push((t, Ev::Pc(1, 40)));
                continue;
            }
            let ch = c - 1;
            match held[ch] {
                None => {
                    held[ch] = Some(t);
                    trk.push((t, Ev::On(ch as u8, 60, 64)));
                }
                Some(s) if s == t => return Ok(Out::Skip),
                Some(_) => {
                    held[ch] = None;
                    trk.push((t, Ev::Off(ch as u8, 60)));
                }
            }
            cx.state(&(t, held));
        }
        t += 20;
        for ch in 0..4 {
            if held[ch].is_some() {
                trk.push((t, Ev::Off(ch as u8, 60)));
            }
        }
        if trk.is_empty() {
            return Ok(Out::Skip);
        }
        for c in 4..10 {
            trk.push((0, Ev::On(c, 60, 64)));
            trk.push((t, Ev::Off(c, 60)));
        }
        trk.sort_by_key(|(t, e)| (*t, e.prio()));
        check_accept(cx, vec![trk], 480)
    }));
    let n = q(deep, 6, 7);
    v.push(fam("one channel", &format!("a single channel (every channel number) with 0 to 8 held notes and every further sequence of {} starts and ends that keeps at most eight sounding", n), move |cx| {
        let ch = cx.pick(&[0u8, 9, 15, 4]);
        let start = cx.choose(9);
        let mut trk: Trk = vec![];
        let mut held = vec![];
        let mut key = 40u8;
        let mut t = 0;
        for _ in 0..start {
            trk.push((t, Ev::On(ch, key, 64)));
            held.push(key);
            key += 1;
        }
        t += 30;
        for _ in 0..n {
            match cx.choose(4) {
                0 => break,
                1 => {
                    if held.len() == 8 {
                        return Ok(Out::Skip);
                    }
                    trk.push((t, Ev::On(ch, key, 64)));
                    held.push(key);
                    key += 1;
                }
                x => {
                    if held.is_empty() {
                        return Ok(Out::Skip);
                    }
                    let k = if x == 2 { held.remove(0) } else { held.pop().unwrap() };
                    trk.push((t, Ev::Off(ch, k)));
                }
            }
            t += cx.pick(&[20u32, 1]);
            cx.state(&(ch, t, &held));
        }
        for k in held {
            trk.push((t, Ev::Off(ch, k)));
        }
        if trk.is_empty() {
            return Ok(Out::Skip);
        }
        cx.desc(|| format!("{:?}", trk));
        let path = cx.path("i.mid");
        match read_at(&path, &Smf::new(480, vec![trk]).bytes())? {
            Ok(_) => Ok(Out::Ok(0)),
            Err(e) => Err(format!("a channel with at most eight notes at once is refused: {}", e)),
        }
    }));
    v.push(fam("taking turns", "0 to 7 channels hold a note throughout, the other channels (9 to 16 in all) take turns on the remaining voices, one to one more than these at a time, in one to three rounds with other partners, in three orders of channels; with notes that adjoin, overlap by a tick or leave a pause", |cx| {
        let h = cx.choose(8);
        let total = 9 + cx.choose(8);
        let w = 1 + cx.choose(9 - h);
        let rounds = 1 + cx.choose(3);
        let order = cx.choose(3);
        let edge = cx.pick(&[0i32, 1, -30]);
        let name = |i: usize| -> u8 {
            (match order {
                0 => i,
                1 => 15 - i,
                _ => i * 5 % 16,
            }) as u8
        };
        let n = total - h;
        let mut trk: Trk = vec![];
        let mut slot = 0u32;
        for r in 0..rounds {
            for g in 0..(n + w - 1) / w {
                for j in 0..w {
                    let i = g * w + j;
                    if i < n {
                        // other partners in each round
                        let i = if r == 1 { (i + 1) % n } else if r == 2 { i / 2 + if i % 2 == 1 { (n + 1) / 2 } else { 0 } } else { i };
                        let c = name(h + i);
                        trk.push((slot * 100, Ev::On(c, 40 + j as u8, 70)));
                        trk.push(((slot as i32 * 100 + 100 + edge) as u32, Ev::Off(c, 40 + j as u8)));
                    }
                }
                slot += 1;
            }
        }
        for i in 0..h {
            trk.push((0, Ev::On(name(i), 90, 64)));
            trk.push((slot * 100, Ev::Off(name(i), 90)));
        }
        cx.state(&(h, total, w, rounds, order, edge));
        // each channel plays one note at a time
        if trk.iter().any(|a| trk.iter().any(|b| matches!((&a.1, &b.1), (&Ev::On(c, ..), &Ev::On(d, ..)) if c == d) && a.0 < b.0 && b.0 < (a.0 as i32 + 100 + edge) as u32)) {
            return Ok(Out::Skip);
        }
        trk.sort_by_key(|(t, e)| (*t, e.prio()));
        check_accept(cx, vec![trk], 480)
    }));
    let k = q(deep, 5, 6);
    v.push(fam("graphs", &format!("every graph on {} channels (channels that are joined sound together at some time, others never do) beside three to seven channels that sound throughout", k), move |cx| {
        let full = 3 + cx.choose(5);
        let order = cx.choose(2);
        let mut edges = vec![];
        for i in 0..k {
            for j in 0..i {
                if cx.flag() {
                    edges.push((i, j));
                }
            }
        }
        let names: Vec<u8> = (0..16).map(|i| if order == 0 { i } else { 15 - i }).collect();
        graph(cx, full, k, &edges, &names)
    }));
    v.push(fam("sixteen channels", "graphs on 9 to 16 channels: every circulant graph, crowns (two groups, each channel joined to all of the other group but one), complements of paths, cycles and of pairs; up to seven of the channels joined to all others, up to three left alone; in eight orders of channels", |cx| {
        let n = cx.pick(&[16usize, 15, 14, 13, 12, 11, 10, 9]);
        let kind = cx.choose(6);
        let full = cx.pick(&[0usize, 1, 2, 3, 5, 7]);
        let alone = cx.pick(&[0usize, 1, 3]);
        if full + alone + 2 > n {
            return Ok(Out::Skip);
        }
        let m = n - full - alone;
        let mut set = 0;
        if kind == 0 {
            for d in 1..m / 2 + 1 {
                set |= (cx.flag() as usize) << d;
            }
        }
        let adj = |i: usize, j: usize| -> bool {
            let d = (i + m - j) % m;
            let d = d.min(m - d);
            match kind {
                0 => set >> d & 1 == 1,
                // crown: i even and j odd are the groups
                1 => i % 2 != j % 2 && i / 2 != j / 2,
                2 => (i as i32 - j as i32).abs() != 1,
                3 => d != 1,
                4 => i / 2 != j / 2,
                _ => i % (m / 2 + 1) != j % (m / 2 + 1),
            }
        };
        let mut edges = vec![];
        for i in 0..m {
            for j in 0..i {
                if adj(i, j) {
                    edges.push((i, j));
                }
            }
        }
        let ord = cx.choose(if kind == 0 { 2 } else { 8 });
        let mult = [1u8, 15, 3, 5, 7, 9, 11, 13][ord];
        let names: Vec<u8> = (0..16u8).map(|i| (i.wrapping_mul(mult)) % 16).collect();
        graph(cx, full, m, &edges, &names)
    }));
    v.push(fam("brief notes", "four channels beside five or six that always sound; in each of two time slots (of 100 or 3 ticks) each is silent, sounds throughout, or for one tick at its start, middle or end, at two resolutions, in two channel orders", |cx| {
        let w = cx.pick(&[100u32, 3]);
        let full = cx.pick(&[6u8, 5]);
        let order = cx.choose(2);
        let tpb = cx.pick(&[480u16, 1]);
        if !cx.thorough && ((w == 3) != (tpb == 1) || full == 5 && order != (w == 3) as usize) {
            return Ok(Out::Skip);
        }
        let mut trk: Trk = vec![];
        for i in 0..4u8 {
            let c = if order == 0 { full + i } else { i };
            for s in 0..2u32 {
                let t = s * w;
                let (a, b) = match cx.choose(5) {
                    0 => continue,
                    1 => (t, t + w),
                    2 => (t, t + 1),
                    3 => (t + w / 2, t + w / 2 + 1),
                    _ => (t + w - 1, t + w),
                };
                trk.push((a, Ev::On(c, 40 + s as u8, 70)));
                trk.push((b, Ev::Off(c, 40 + s as u8)));
            }
            cx.state(&(w, full, order, tpb, i, &trk));
        }
        for i in 0..full {
            let c = if order == 0 { i } else { 15 - i };
            trk.push((0, Ev::On(c, 90, 64)));
            trk.push((2 * w, Ev::Off(c, 90)));
        }
        trk.sort_by_key(|(t, e)| (*t, e.prio()));
        check_accept(cx, vec![trk], tpb)
    }));
    v.push(crate::p_real::accept());
    v.push(crate::p_edit::accept_edited());
    v
}

/// full channels that sound throughout, then k channels of which those joined by an edge sound together in a slot
/// of their own, and those without an edge sound alone
fn graph(cx: &mut Ctx, full: usize, k: usize, edges: &[(usize, usize)], names: &[u8]) -> Res {
    let mut trk: Trk = vec![];
    let mut slot = 0u32;
    let mut note = |c: u8, slot: u32| {
        trk.push((slot * 20, Ev::On(c, 60, 64)));
        trk.push((slot * 20 + 20, Ev::Off(c, 60)));
    };
    for &(i, j) in edges {
        note(names[full + i], slot);
        note(names[full + j], slot);
        slot += 1;
    }
    for i in 0..k {
        note(names[full + i], slot);
        slot += 1;
    }
    for i in full + k..16 {
        note(names[i], slot);
        slot += 1;
    }
    for i in 0..full {
        trk.push((0, Ev::On(names[i], 90, 64)));
        trk.push((slot * 20, Ev::Off(names[i], 90)));
    }
    cx.state(&(full, k, edges, names));
    trk.sort_by_key(|(t, e)| (*t, e.prio()));
    check_accept(cx, vec![trk], 480)
}

fn patterns(cx: &mut Ctx, full: u8, k: usize, m: usize) -> Res {
    let order = cx.choose(2);
    let masks: Vec<usize> = (0..k).map(|_| 1 + cx.choose((1 << m) - 1)).collect();
    place(cx, full, &masks, m, order)
}
fn place(cx: &mut Ctx, full: u8, masks: &[usize], m: usize, order: usize) -> Res {
    cx.state(&(full, masks, order));
    let mut trk: Trk = vec![];
    let k = masks.len() as u8;
    for i in 0..full {
        let c = if order == 0 { i } else { k + i };
        trk.push((0, Ev::On(c, 90, 64)));
        trk.push((m as u32 * 100, Ev::Off(c, 90)));
    }
    for (i, mask) in masks.iter().enumerate() {
        let c = if order == 0 { full + i as u8 } else { i as u8 };
        for s in 0..m as u32 {
            if mask >> s & 1 == 1 {
                trk.push((s * 100, Ev::On(c, 40 + s as u8, 70)));
                trk.push((s * 100 + 100, Ev::Off(c, 40 + s as u8)));
            }
        }
    }
    trk.sort_by_key(|(t, e)| (*t, e.prio()));
    check_accept(cx, vec![trk], 480)
}

// ------------------------------------------------------------------------------------------------ C16

fn outcome(path: &Path, bytes: &[u8]) -> Result<String, String> {
    let r = guarded(|| convert_at(path, bytes, 0.2, false, false))?;
    Ok(match r {
        Ok(s) => song_json(&s),
        // the reason may name things by file position
        Err(_) => "refused".to_string(),
    })
}

pub fn same(cx: &mut Ctx, base: &Smf, variants: &[Smf]) -> Res {
    let p = cx.path("i.mid");
    let a = outcome(&p, &base.bytes())?;
    for v in variants {
        let b = outcome(&p, &v.bytes())?;
        if a != b {
            let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
            let cut = |s: &str| s[i.saturating_sub(60)..s.len().min(i + 60)].to_string();
            return Err(format!("layout changes the song: {:?} gives ..{}.. and {:?} gives ..{}..", base, cut(&a), v, cut(&b)));
        }
    }
    Ok(Out::Ok(hash(&a)))
}

fn song_history(cx: &mut Ctx, n: usize, deltas: &[u32]) -> Trk {
    use crate::p_song::*;
    let extra = [Ev::Cc(0, 7, 90), Ev::Pc(1, 40), Ev::Tempo(400_000), Ev::Cc(0, 65, 127)];
    let mut h = history(cx, n, &Alphabet { keys: &[(0, 60), (0, 64), (1, 61)], vels: &[100, 20], deltas, extra: &extra, repeats: true, unmatched: false });
    release_all(&mut h, 20);
    h.trk
}

pub fn c16(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let n = q(thorough, 4, 5);
    v.push(fam("encodings", &format!("every history of up to {} events in 24 encodings: running status, zero-velocity note-ons, release velocity, format 0, late end of track", n), move |cx| {
        let trk = song_history(cx, n, &[20, 0]);
        if trk.is_empty() {
            return Ok(Out::Skip);
        }
        cx.desc(|| format!("{:?}", trk));
        let base = Smf::new(480, vec![trk]);
        let mut vs = vec![];
        for i in 0..24 {
            let mut b = base.clone();
            b.running = i & 1 > 0;
            b.vel0 = i & 2 > 0;
            b.format = if i & 4 > 0 { 0 } else { 1 };
            b.off_vel = [0, 64, 127][i / 8];
            b.eot = if i % 5 == 0 { 3000 } else { 0 };
            vs.push(b);
        }
        same(cx, &base, &vs)
    }));
    let (n, k) = (4, q(thorough, 2, 3));
    v.push(fam("tracks", &format!("every history of up to {} events with every distribution over {} tracks that keeps the order of simultaneous events of one kind", n, k), move |cx| {
        let trk = song_history(cx, n, &[20, 0]);
        if trk.len() < 2 {
            return Ok(Out::Skip);
        }
        let mut parts = vec![vec![], vec![], vec![]];
        let mut at = vec![];
        for (t, e) in &trk {
            let k = cx.choose(k);
            if at.iter().any(|&(t2, p2, k2)| t2 == *t && p2 == e.prio() && k2 > k) {
                return Ok(Out::Skip);
            }
            at.push((*t, e.prio(), k));
            parts[k].push((*t, e.clone()));
        }
        cx.desc(|| format!("{:?} as {:?}", trk, parts));
        let base = Smf::new(480, vec![trk]);
        let mut b = base.clone();
        b.tracks = parts;
        same(cx, &base, &[b])
    }));
    let n = q(thorough, 5, 6);
    v.push(fam("simultaneous events", &format!("every history of up to {} events with every order of simultaneous events that keeps the order within note-offs, controls and note-ons", n), move |cx| {
        let trk = song_history(cx, n, &[0, 20]);
        if trk.len() < 2 {
            return Ok(Out::Skip);
        }
        let mut sorted = trk.clone();
        sorted.sort_by_key(|(t, e)| (*t, e.prio()));
        if sorted == trk {
            return Ok(Out::Skip);
        }
        cx.desc(|| format!("{:?}", trk));
        // every merge of the classes arises as a history of its own; compare each with the sorted one
        same(cx, &Smf::new(480, vec![sorted]), &[Smf::new(480, vec![trk])])
    }));
    let n = q(thorough, 3, 4);
    v.push(fam("events without music", &format!("every history of up to {} events with each of 18 other events inserted at every place, once or before every event", n), move |cx| {
        let trk = song_history(cx, n, &[20, 0]);
        if trk.is_empty() {
            return Ok(Out::Skip);
        }
        let others = [
            Ev::Meta(1, b"text".to_vec()),
            Ev::Meta(6, b"marker".to_vec()),
            Ev::Meta(3, vec![]),
            Ev::Meta(0x58, vec![4, 2, 24, 8]),
            Ev::Meta(0x59, vec![0, 0]),
            Ev::Meta(0x54, vec![0, 0, 0, 0, 0]),
            Ev::Meta(0x20, vec![1]),
            Ev::Meta(0x21, vec![0]),
            Ev::Meta(0, vec![0, 1]),
            Ev::Meta(0x7f, vec![0x51; 200]),
            Ev::Meta(0x60, vec![1, 2, 3]),
            Ev::Poly(0, 60, 50),
            Ev::Press(0, 50),
            Ev::Press(1, 0),
            Ev::Bend(0, 1, 2),
            Ev::Bend(1, 127, 127),
            Ev::Sysex(vec![0x7e, 0x7f, 9, 1, 0xf7]),
            Ev::Escape(vec![1, 2, 3]),
        ];
        let o = cx.pick(&others);
        // up to the last note or control
        let last = match trk.iter().rposition(|(_, e)| e.ch().is_some()) {
            None => return Ok(Out::Skip),
            Some(l) => l,
        };
        let place = cx.choose(last + 2);
        let all = place == last + 1;
        let early = cx.flag();
        let mut b: Trk = vec![];
        for (i, (t, e)) in trk.iter().enumerate() {
            if !all && i == place || all && i <= last {
                // at the event's time or at that of the event before it
                let tt = if early && i > 0 { trk[i - 1].0 } else { *t };
                b.push((tt, o.clone()));
            }
            b.push((*t, e.clone()));
        }
        cx.desc(|| format!("{:?} as {:?}", trk, b));
        let base = Smf::new(480, vec![trk]);
        let mut w = base.clone();
        w.tracks = vec![b];
        let mut x = w.clone();
        x.running = true;
        same(cx, &base, &[w, x])
    }));
    let n = q(thorough, 4, 5);
    v.push(fam("crowded files", &crate::p_song::CROWDED.replace("{}", &n.to_string()), move |cx| {
        let trk = song_history(cx, n, &[20, 0]);
        let last = match trk.iter().rposition(|(_, e)| e.ch().is_some()) {
            None => return Ok(Out::Skip),
            Some(l) => l,
        };
        let base = Smf::new(480, vec![trk.clone()]);
        let mut w = base.clone();
        w.tracks = crate::p_song::crowd(cx, vec![trk[..last + 1].to_vec()]);
        w.tracks.push(trk[last + 1..].to_vec());
        cx.desc(|| format!("{:?} as {:?}", trk, w.tracks));
        same(cx, &base, &[w])
    }));
    v.push(fam("escape after system exclusive", "an F7 event after an F0 event, with and without a channel event between them, before, between and after notes", |cx| {
        let a = vec![(0, Ev::On(0, 60, 100)), (50, Ev::Off(0, 60)), (100, Ev::On(0, 62, 100)), (150, Ev::Off(0, 62))];
        let i = cx.choose(4);
        let gap = cx.choose(3);
        let len = cx.pick(&[1usize, 3, 100]);
        let mut b: Trk = vec![];
        for (k, (t, e)) in a.iter().enumerate() {
            if k == i {
                b.push((*t, Ev::Sysex(vec![1, 2, 0xf7])));
                if gap == 1 {
                    b.push((*t, Ev::Meta(1, vec![65])));
                }
                if gap < 2 {
                    b.push((*t, Ev::Escape(vec![5; len])));
                }
            }
            b.push((*t, e.clone()));
            if k == i && gap == 2 {
                b.push((*t, Ev::Escape(vec![5; len])));
            }
        }
        cx.state(&(i, gap, len));
        cx.desc(|| format!("{:?}", b));
        match same(cx, &Smf::new(480, vec![a.clone()]), &[Smf::new(480, vec![b])]) {
            Err(m) if gap < 2 => Ok(Out::Fail("f7-after-f0".into(), m)),
            r => r,
        }
    }));
    v.push(fam("file sizes", "a piece of two tracks with text of every length from 0 to 300 and from 7900 to 8500 (thorough: to 17000), and with the same number of note events, so that every part of it falls on a buffer boundary", |cx| {
        let len = if cx.thorough { cx.choose(17000) } else { let i = cx.choose(900); if i < 300 { i } else { 7600 + i } };
        let running = cx.flag();
        let a: Trk = vec![(0, Ev::On(0, 60, 100)), (50, Ev::Off(0, 60)), (100, Ev::On(0, 62, 100)), (150, Ev::Off(0, 62))];
        let b: Trk = vec![(0, Ev::On(1, 50, 100)), (90, Ev::Off(1, 50)), (100, Ev::Tempo(300_000)), (100, Ev::On(1, 52, 100)), (140, Ev::Off(1, 52))];
        let mut c = a.clone();
        c.insert(0, (0, Ev::Meta(1, vec![0x4d; len])));
        cx.state(&(len, running));
        cx.desc(|| format!("text of {} bytes, running status {}", len, running));
        let base = Smf::new(480, vec![a, b.clone()]);
        let mut w = base.clone();
        w.tracks = vec![c, b];
        w.running = running;
        // where the second track's tag lies in the file
        let bytes = w.bytes();
        let at = (22..bytes.len() - 4).rev().find(|&i| &bytes[i..i + 4] == b"MTrk").unwrap();
        // the reader refills its buffer after a step back over a running status byte
        let p = cx.path("i.mid");
        let x = outcome(&p, &base.bytes())?;
        let y = outcome(&p, &bytes)?;
        if x == y {
            return Ok(Out::Ok(hash(&x)));
        }
        let m = format!("a text of {} bytes (second track header at {}) changes the outcome: {}", len, at, &y[..y.len().min(60)]);
        let straddles = (at + 1..at + 4).any(|i| i % 8192 == 0);
        if y == "refused" && (straddles || running) && tag_straddles(&w, at) {
            return Ok(Out::Fail("mtrk-at-8192".into(), m));
        }
        Err(m)
    }));
    v.push(crate::p_real::layouts());
    v.push(crate::p_edit::layouts_edited());
    v.push(crate::p_edit::layouts_tracks());
    v.push(crate::p_edit::layouts_counts());
    v.push(crate::p_real::others_change_nothing());
    v
}

/// Does the reader's buffer (8192 bytes, restarted at each running status byte) end inside the tag at `at`?
fn tag_straddles(s: &Smf, at: usize) -> bool {
    let mut start = 0usize;
    if s.running {
        // offsets of data bytes that follow a delta time directly
        let b = s.bytes();
        let mut pos = 22;
        for t in &s.tracks[..1] {
            let mut last = 0;
            let mut st = 0u8;
            for (tm, e) in t {
                pos += vlq(tm - last).len();
                last = *tm;
                let is_status = b[pos] >= 0x80;
                if !is_status {
                    // the reader had read one byte of it and steps back; a refill starts here
                    start = pos;
                }
                let (code, len) = match e {
                    Ev::On(..) => (0x90, 2),
                    Ev::Off(..) => (0x80, 2),
                    Ev::Meta(_, d) => (0xff, 1 + vlq(d.len() as u32).len() + d.len()),
                    _ => (0, 0),
                };
                let _ = (code, st);
                st = code;
                pos += is_status as usize + len;
            }
        }
    }
    (at + 1..at + 4).any(|i| (i - start) % 8192 == 0)
}

// ------------------------------------------------------------------------------------------------ C17

/// Converts as the program does; a refusal is fine, a panic is not.
pub fn survive(cx: &mut Ctx, bytes: &[u8], optimize: &[bool]) -> Result<(u64, bool), String> {
    let p = cx.path("i.mid");
    let mut h = 0;
    let mut refused = false;
    for &o in optimize {
        let r = guarded(|| convert_at(&p, bytes, 0.2, o, false))?;
        match r {
            Err(_) => refused = true,
            Ok(s) => {
                let b = guarded(|| -> Result<u64, String> {
                    let mut n = 0;
                    for i in 0..s.get_num_tracks() {
                        let (b, r) = write_track(&s, i)?;
                        n ^= hash(&(i, &b, &r));
                    }
                    Ok(n)
                })?;
                h = hash(&(h, b?));
            }
        }
    }
    Ok((h, refused))
}

pub fn c17(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let n = q(thorough, 3, 4);
    v.push(fam("histories", &format!("every history of up to {} of 30 kinds of events with any of three distances, in format 0 and 1, with and without running status, with and without optimisation", n), move |cx| {
        let all = [
            Ev::On(0, 60, 100),
            Ev::Off(0, 60),
            Ev::On(0, 60, 0),
            Ev::On(0, 61, 1),
            Ev::Off(0, 61),
            Ev::On(1, 60, 127),
            Ev::Off(1, 60),
            Ev::On(9, 38, 100),
            Ev::Off(9, 38),
            Ev::On(9, 127, 100),
            Ev::On(15, 0, 100),
            Ev::Off(15, 0),
            Ev::Cc(0, 65, 127),
            Ev::Cc(0, 5, 127),
            Ev::Cc(0, 37, 127),
            Ev::Cc(0, 7, 127),
            Ev::Cc(0, 123, 0),
            Ev::Pc(0, 127),
            Ev::Pc(9, 127),
            Ev::Poly(0, 60, 127),
            Ev::Press(0, 127),
            Ev::Bend(0, 127, 127),
            Ev::Tempo(0),
            Ev::Tempo(1),
            Ev::Tempo(0xff_ffff),
            Ev::Sysex(vec![0xf7]),
            Ev::Sysex(vec![]),
            Ev::Escape(vec![]),
            Ev::Meta(1, vec![]),
            Ev::Meta(0x2f, vec![]),
        ];
        let mut trk: Trk = vec![];
        let mut t = 0;
        for _ in 0..n {
            let c = cx.choose(all.len() + 1);
            if c == 0 {
                break;
            }
            let e = all[c - 1].clone();
            t += cx.pick(&[20u32, 0, 2600]);
            trk.push((t, e));
            cx.state(&trk);
        }
        cx.desc(|| format!("{:?}", trk));
        let mut h = 0;
        let meta_end = trk.iter().any(|(_, e)| if let Ev::Meta(0x2f, _) = e { true } else { false });
        if meta_end {
            // an end of track inside a track is malformed
            return Ok(Out::Skip);
        }
        let f7 = trk.iter().enumerate().any(|(i, (_, e))| {
            if let Ev::Escape(_) = e {
                trk[..i].iter().rev().take_while(|(_, e)| e.ch().is_none()).any(|(_, e)| if let Ev::Sysex(_) = e { true } else { false })
            } else {
                false
            }
        });
        for i in 0..4 {
            let mut s = Smf::new(480, vec![trk.clone()]);
            s.format = i & 1;
            s.running = i & 2 > 0;
            match survive(cx, &s.bytes(), &[false, true]) {
                Ok((x, _)) => h = hash(&(h, x)),
                Err(m) if f7 => return Ok(Out::Fail("f7-after-f0".into(), m)),
                Err(m) => return Err(m),
            }
        }
        Ok(Out::Ok(h))
    }));
    let n = q(thorough, 3, 4);
    v.push(fam("contexts", &format!("every continuation by up to {} of 26 kinds of events (three distances each) of eight situations: portamento with a short or a long time between notes or under a note, a chord of three, a full chord of eight, drums over a melody, two channels on one voice, a note of 300 steps; converted with and without optimisation", n), move |cx| {
        let all = [
            Ev::On(0, 60, 100),
            Ev::Off(0, 60),
            Ev::On(0, 72, 1),
            Ev::On(0, 72, 0),
            Ev::On(0, 127, 127),
            Ev::On(1, 60, 127),
            Ev::Off(1, 60),
            Ev::On(9, 38, 100),
            Ev::Off(9, 38),
            Ev::On(9, 40, 100),
            Ev::Off(9, 40),
            Ev::On(15, 0, 100),
            Ev::Off(15, 0),
            Ev::Cc(0, 65, 127),
            Ev::Cc(0, 65, 0),
            Ev::Cc(0, 5, 1),
            Ev::Cc(0, 5, 127),
            Ev::Cc(0, 37, 2),
            Ev::Cc(1, 7, 127),
            Ev::Cc(0, 123, 0),
            Ev::Pc(0, 127),
            Ev::Pc(1, 1),
            Ev::Bend(0, 127, 127),
            Ev::Poly(0, 60, 1),
            Ev::Tempo(1),
            Ev::Tempo(500_000),
        ];
        let ctx = cx.choose(8);
        let mut trk: Trk = match ctx {
            0 => vec![(0, Ev::Cc(0, 65, 127)), (0, Ev::Cc(0, 37, 5)), (0, Ev::On(0, 60, 100)), (40, Ev::Off(0, 60)), (40, Ev::On(0, 62, 100)), (80, Ev::Off(0, 62))],
            1 => vec![(0, Ev::Cc(0, 65, 127)), (0, Ev::Cc(0, 5, 127)), (0, Ev::On(0, 60, 100)), (20, Ev::Off(0, 60)), (20, Ev::On(0, 62, 100))],
            2 => vec![(0, Ev::On(0, 50, 100)), (0, Ev::On(0, 55, 100)), (0, Ev::On(0, 59, 100))],
            3 => (0..8).map(|i| (0, Ev::On(i % 2, 40 + i, 100))).collect(),
            4 => vec![(0, Ev::On(0, 50, 100)), (0, Ev::On(9, 40, 100)), (20, Ev::On(9, 38, 100)), (40, Ev::Off(9, 40))],
            5 => vec![(0, Ev::On(0, 50, 100)), (20, Ev::Off(0, 50)), (20, Ev::On(1, 50, 100)), (40, Ev::Off(1, 50)), (40, Ev::Cc(0, 7, 1))],
            6 => vec![(0, Ev::On(0, 50, 100)), (6000, Ev::Off(0, 50)), (6000, Ev::Cc(0, 65, 64))],
            _ => vec![(0, Ev::Cc(0, 65, 127)), (0, Ev::Cc(0, 5, 3)), (0, Ev::On(0, 60, 100)), (20, Ev::Off(0, 60)), (21, Ev::On(0, 62, 100)), (24, Ev::Off(0, 62))],
        };
        let mut t = trk.last().unwrap().0;
        for _ in 0..n {
            let c = cx.choose(all.len() + 1);
            if c == 0 {
                break;
            }
            t += cx.pick(&[20u32, 0, 2600]);
            trk.push((t, all[c - 1].clone()));
            cx.state(&trk);
        }
        cx.desc(|| format!("{:?}", trk));
        let (h, _) = survive(cx, &Smf::new(480, vec![trk]).bytes(), &[false, true])?;
        Ok(Out::Ok(h))
    }));
    v.push(fam("full chords", "chords of 1 to 12 notes in one channel, two, three, on drums or on drums and two more, then any two of ten kinds of events for any of the chord's keys and channels (or a key that does not sound), then the keys' release in either order", |cx| {
        let n = 1 + cx.choose(12);
        let lay = cx.choose(5);
        let ch = |i: usize| -> u8 {
            match lay {
                0 => 0,
                1 => (i % 2) as u8,
                2 => (i % 3 * 5) as u8,
                3 => 9,
                _ => [9, 3, 15][i % 3],
            }
        };
        let key = |i: usize| 36 + 3 * i as u8;
        let mut t: Trk = (0..n).map(|i| (0, Ev::On(ch(i), key(i), 100))).collect();
        let mut last = 0;
        for d in 0..2u32 {
            let kind = cx.choose(if d == 0 { 10 } else { 11 });
            if kind == 10 {
                break;
            }
            // for the second event the first, the last note or one that does not sound
            let i = if d == 0 { cx.choose(n + 1) } else { cx.pick(&[0, n - 1, n]) };
            let (c, k) = (ch(i), key(i));
            last += 20;
            t.push((
                last,
                match kind {
                    0 => Ev::Poly(c, k, 64),
                    1 => Ev::Off(c, k),
                    2 => Ev::On(c, k, 90),
                    3 => Ev::On(c, k, 0),
                    4 => Ev::On(c, k + 1, 1),
                    5 => Ev::Cc(c, 7, 50),
                    6 => Ev::Cc(c, 123, 0),
                    7 => Ev::Pc(c, k),
                    8 => Ev::Bend(c, 1, k),
                    _ => Ev::Press(c, 3),
                },
            ));
        }
        let rev = cx.flag();
        for j in 0..n {
            let i = if rev { n - 1 - j } else { j };
            t.push((last + 20, Ev::Off(ch(i), key(i))));
        }
        cx.state(&t);
        cx.desc(|| format!("{:?}", t));
        let (h, _) = survive(cx, &Smf::new(480, vec![t]).bytes(), &[false])?;
        Ok(Out::Ok(h))
    }));
    v.push(fam("values", "every pair of data values (128 by 128) of control changes (also while portamento is on), bends, key pressures and notes, every program, pressure and single data value, on a melodic channel and the drum channel, between two notes and under a note", |cx| {
        let kind = cx.choose(6);
        let c = cx.pick(&[0u8, 9]);
        let under = cx.flag();
        let (lo, hi) = (cx.choose(128) as u8, if kind < 4 { cx.choose(128) as u8 } else { 0 });
        let mut t: Trk = vec![(0, Ev::Cc(c, 65, 127)), (0, Ev::On(c, 60, 100))];
        let e = match kind {
            0 => Ev::Cc(c, lo, hi),
            1 => Ev::Bend(c, lo, hi),
            2 => Ev::Poly(c, lo, hi),
            3 => Ev::On(c, lo, hi),
            4 => Ev::Pc(c, lo),
            _ => Ev::Press(c, lo),
        };
        if under {
            t.push((10, e.clone()));
        }
        t.push((35, Ev::Off(c, 60)));
        if !under {
            t.push((35, e));
        }
        if kind == 3 && hi > 0 {
            t.push((75, Ev::Off(c, lo)));
        }
        t.push((75, Ev::On(c, 64, 90)));
        t.push((95, Ev::Off(c, 64)));
        t.push((95, Ev::On(c, 65, 90)));
        t.push((600, Ev::Off(c, 65)));
        cx.state(&t);
        cx.desc(|| format!("{:?}", t));
        let (h, refused) = survive(cx, &Smf::new(480, vec![t]).bytes(), &[false])?;
        if refused {
            return Err("refused".into());
        }
        Ok(Out::Ok(h))
    }));
    v.push(fam("portamento times", "portamento times with every low byte and nine high bytes, after previous notes of 1 to 400 steps, at four resolutions", |cx| {
        let lo = cx.choose(128) as u8;
        let hi = cx.pick(&[0u8, 1, 2, 3, 7, 63, 64, 126, 127]);
        let len = cx.pick(&[1u32, 2, 3, 5, 24, 60, 126, 127, 128, 129, 254, 400]);
        let tpb = cx.pick(&[24u16, 480, 1, 32767]);
        let l = (len * tpb as u32 + 23) / 24;
        let mut t: Trk = vec![(0, Ev::Cc(0, 65, 127)), (0, Ev::Cc(0, 37, lo)), (0, Ev::Cc(0, 5, hi))];
        for i in 0..3u32 {
            t.push((i * l, Ev::On(0, 60 + i as u8, 100)));
            t.push(((i + 1) * l, Ev::Off(0, 60 + i as u8)));
        }
        cx.state(&t);
        cx.desc(|| format!("{:?}", t));
        let (h, refused) = survive(cx, &Smf::new(tpb, vec![t]).bytes(), &[false])?;
        if refused {
            return Err("refused".into());
        }
        Ok(Out::Ok(h))
    }));
    v.push(fam("headers", "formats 0 to 3, 0 to 4 tracks (empty or not), every kind of time division including 0, 1, 32767 and SMPTE, note lengths from one tick to the largest time", |cx| {
        let format = cx.choose(4) as u16;
        let tracks = cx.choose(5);
        let tpb = cx.pick(&[480u16, 0, 1, 2, 23, 24, 32767, 0x8000, 0xe250, 0xe728, 0xffff]);
        let len = cx.pick(&[1u32, 480, 100_000]);
        let empty = cx.flag();
        let mut trks: Vec<Trk> = vec![];
        for i in 0..tracks {
            let c = i as u8;
            trks.push(if empty && i % 2 == 0 { vec![] } else { vec![(0, Ev::On(c, 60, 100)), (len, Ev::Off(c, 60)), (len, Ev::On(c, 60, 90)), (len + 10, Ev::Off(c, 60))] });
        }
        // a hundred thousand ticks at one tick per beat is too long
        if tpb < 24 && len > 20_000 {
            return Ok(Out::Skip);
        }
        cx.state(&(format, tracks, tpb, len, empty));
        cx.desc(|| format!("format {} with {} tracks, division {}, notes of {} ticks", format, tracks, tpb, len));
        let mut s = Smf::new(tpb, trks);
        s.format = format;
        let (h, refused) = survive(cx, &s.bytes(), &[false, true])?;
        if format > 1 && !refused {
            return Err(format!("format {} is accepted", format));
        }
        if format < 2 && tpb > 0 && tpb < 0x8000 && refused {
            return Err("refused".into());
        }
        Ok(Out::Ok(h))
    }));
    v.push(fam("times", "one to twenty events with the largest delta times (268435455 ticks): sums up to and beyond 32 bits, at high resolution", |cx| {
        let k = 1 + cx.choose(20);
        let what = cx.choose(4);
        let note_first = cx.flag();
        let mut t = 0u64;
        let mut body = vec![];
        let big = vlq(0x0fff_ffff);
        if note_first {
            body.extend(&[0, 0x90, 60, 100, 10, 0x80, 60, 0]);
        }
        for i in 0..k {
            body.extend(&big);
            t += 0x0fff_ffff;
            match what {
                0 => body.extend(&[0xff, 1, 0]),
                1 => body.extend(&[0xb0, 7, 100]),
                2 => body.extend(&[if i % 2 == 0 { 0x90 } else { 0x80 }, 60, 100]),
                _ => body.extend(&[0xf0, 1, 0xf7]),
            }
        }
        body.extend(&[0, 0xff, 0x2f, 0]);
        // notes last as long as the file; keep to two thousand beats of them
        let mut o = b"MThd\0\0\0\x06\0\x01\0\x01\x7f\xff".to_vec();
        o.extend(b"MTrk");
        o.extend(&(body.len() as u32).to_be_bytes());
        o.extend(&body);
        cx.state(&(k, what, note_first));
        cx.desc(|| format!("{} events of kind {} to tick {}", k, what, t));
        // up to 131072 beats: without optimisation only
        let opt: &[bool] = if t / 32767 > 20_000 { &[false] } else { &[false, true] };
        let (h, _) = survive(cx, &o, opt)?;
        Ok(Out::Ok(h))
    }));
    let n = q(thorough, 600, 2000);
    v.push(fam("repetitions", &format!("pieces of up to {} notes made of every word of one to four of four figures repeated over and over, on one or two channels, converted with optimisation", n), move |cx| {
        let len = 1 + cx.choose(4);
        let word: Vec<usize> = (0..len).map(|_| cx.choose(4)).collect();
        let count = cx.pick(&[n, 253, 254, 255, 256, 257, 258, 510, 513]);
        let two = cx.flag();
        let mut trks: Vec<Trk> = vec![vec![], vec![]];
        for c in 0..1 + two as usize {
            let mut t = 0;
            for i in 0..count {
                let (k, l, g) = [(60u8, 20u32, 0u32), (60, 20, 20), (62, 20, 0), (60, 40, 0)][word[i % len]];
                trks[c].push((t, Ev::On(c as u8, k, 100)));
                t += l;
                trks[c].push((t, Ev::Off(c as u8, k)));
                t += g;
            }
        }
        cx.state(&(&word, count, two));
        cx.desc(|| format!("figures {:?} {} times, two channels {}", word, count, two));
        let (h, refused) = survive(cx, &Smf::new(480, trks).bytes(), &[true])?;
        if refused {
            return Err("refused".into());
        }
        Ok(Out::Ok(h))
    }));
    v.push(fam("interrupted runs", "two or three runs of a passage of four or five notes, of 1 to 400 repeats in all combinations up to 2000 notes, with a note between them, on one or two channels, converted with optimisation", |cx| {
        let len = cx.pick(&[4usize, 5, 2, 1]);
        let lens: &[usize] = if cx.thorough { &[1, 2, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300] } else { &[1, 100, 128, 156, 255, 256] };
        let nr = 2 + cx.choose(2);
        let runs: Vec<usize> = (0..nr).map(|_| cx.pick(lens)).collect();
        let chans = 1 + cx.choose(2);
        if runs.iter().sum::<usize>() * len * chans > 2000 {
            return Ok(Out::Skip);
        }
        let mut trks: Vec<Trk> = vec![];
        for c in 0..chans as u8 {
            let mut trk: Trk = vec![];
            let mut t = 0;
            let mut note = |k: u8, l: u32| {
                trk.push((t, Ev::On(c, k, 100)));
                t += l;
                trk.push((t, Ev::Off(c, k)));
            };
            for n in &runs {
                for _ in 0..*n {
                    for i in 0..len {
                        note(60 + i as u8, 20);
                    }
                }
                note(80, 20);
            }
            trks.push(trk);
        }
        cx.state(&(len, &runs, chans));
        cx.desc(|| format!("{} notes, runs {:?}, {} channels", len, runs, chans));
        let (h, refused) = survive(cx, &Smf::new(480, trks).bytes(), &[true])?;
        if refused {
            return Err("refused".into());
        }
        Ok(Out::Ok(h))
    }));
    v.push(fam("channels that do not fit", "9 to 16 channels of 1, 10 or 120 notes, all but the first few of them sounding together and the first few one after another or with others, in rising, falling and alternating order", |cx| {
        let chans = 9 + cx.choose(8) as u8;
        let together = cx.choose(chans as usize + 1) as u8;
        let notes = cx.pick(&[1u32, 10, 120]);
        let order = cx.choose(3);
        let form = cx.choose(3);
        let mut t: Trk = vec![];
        let w = notes * 20;
        for i in 0..chans {
            let c = match order {
                0 => i,
                1 => chans - 1 - i,
                _ => if i % 2 == 0 { i / 2 } else { chans - 1 - i / 2 },
            };
            // when this channel plays
            let from = if i >= together {
                0
            } else {
                match form {
                    0 => 1 + i as u32,
                    1 => 1,
                    _ => 1 + i as u32 % 3,
                }
            } * w;
            for k in 0..notes {
                t.push((from + k * 20, Ev::On(c, 60, 100)));
                t.push((from + k * 20 + 15, Ev::Off(c, 60)));
            }
        }
        t.sort_by_key(|x| (x.0, x.1.prio()));
        cx.state(&(chans, together, notes, order, form));
        cx.desc(|| format!("{} channels of {} notes, the first {} of them apart (form {}), order {}", chans, notes, together, form, order));
        let (h, _) = survive(cx, &Smf::new(480, vec![t]).bytes(), &[false])?;
        Ok(Out::Ok(h))
    }));
    v.push(fam("long pauses and notes", "pauses and notes of up to 20000 beats (whole multiples and near multiples of 127 steps and of 255 repeats), converted with optimisation", |cx| {
        let steps = cx.pick(&[127u32, 254, 127 * 254, 127 * 255, 127 * 256, 127 * 257, 127 * 510, 127 * 511, 127 * 1020, 127 * 2000, 480_000]) + cx.pick(&[0u32, 1, 126]);
        let form = cx.choose(4);
        let (a, b) = (steps, steps * 2 - 1);
        let mut t: Trk = match form {
            0 => vec![(0, Ev::On(0, 60, 100)), (a, Ev::Off(0, 60))],
            1 => vec![(a, Ev::On(0, 60, 100)), (a + 10, Ev::Off(0, 60))],
            2 => vec![(0, Ev::On(0, 60, 100)), (10, Ev::Off(0, 60)), (a, Ev::On(1, 60, 100)), (b.min(480_000).max(a + 1), Ev::Off(1, 60))],
            _ => vec![(0, Ev::On(0, 60, 100)), (a / 2, Ev::Off(0, 60)), (a, Ev::On(0, 60, 100)), (a + a / 2, Ev::Off(0, 60))],
        };
        t.retain(|x| x.0 <= 480_000);
        cx.state(&t);
        cx.desc(|| format!("{:?}", t));
        let (h, refused) = survive(cx, &Smf::new(24, vec![t]).bytes(), &[false, true])?;
        if refused {
            return Err("refused".into());
        }
        Ok(Out::Ok(h))
    }));
    v.push(fam("long pieces in several voices", "pieces of up to 10000 beats in one to eight voices: one held note, notes with long pauses (alike or staggered), 250 notes in each voice, pauses of different lengths, 2000 changes of volume (up to 2000 notes and changes in all), converted with optimisation", |cx| {
        let voices = cx.pick(&[1u32, 2, 5, 8]);
        let form = cx.choose(7);
        let beats = cx.pick(&[1000u32, 4000, 10_000]);
        let end = 24 * beats;
        let mut trks: Vec<Trk> = vec![];
        for c in 0..voices {
            let n = if form < 2 { 1 } else { [2, 10, 250, 250, 1][form - 2] };
            let mut t: Trk = vec![];
            for i in 0..n {
                let (on, off) = match form {
                    0 => (0, end),
                    1 => (end - 127 * 100 - 9 * c, end - c),
                    2 => (i * (end / 2) + 1000 * c.min(i), i * (end / 2) + 10_000 + c),
                    3 => (i * (end / 10), i * (end / 10) + 24),
                    4 => (i * (end / 250), i * (end / 250) + 10),
                    5 => (i * (end / 250) + c, (i + 1) * (end / 250) - c % 3),
                    _ => (0, end),
                };
                let key = 60 + if form == 5 { (i % 5) as u8 } else { 0 };
                t.push((on, Ev::On(c as u8, key, 100)));
                t.push((off, Ev::Off(c as u8, key)));
            }
            if form == 6 {
                for i in 0..1999 / voices {
                    t.push((1 + i * (end / 2000 * voices), Ev::Cc(c as u8, 7, 100)));
                }
                t.sort_by_key(|e| (e.0, e.1.prio()));
            }
            trks.push(t);
        }
        cx.state(&(voices, form, beats));
        cx.desc(|| format!("{} voices, form {}, {} beats", voices, form, beats));
        let (h, refused) = survive(cx, &Smf::new(24, trks).bytes(), &[true])?;
        if refused {
            return Err("refused".into());
        }
        Ok(Out::Ok(h))
    }));
    v.push(fam("chords", "chords of 1 to 20 notes on 1 to 16 channels, released or not, struck together or one after another", |cx| {
        let size = 1 + cx.choose(20) as u8;
        let chans = 1 + cx.choose(16) as u8;
        let form = cx.choose(4);
        let mut t: Trk = vec![];
        for i in 0..size {
            let at = if form & 1 > 0 { 10 * i as u32 } else { 0 };
            t.push((at, Ev::On(i % chans, 40 + i, 100)));
            if form & 2 > 0 {
                t.push((500 + at, Ev::Off(i % chans, 40 + i)));
            }
        }
        t.sort_by_key(|x| x.0);
        cx.state(&t);
        cx.desc(|| format!("{:?}", t));
        let (h, refused) = survive(cx, &Smf::new(480, vec![t]).bytes(), &[false, true])?;
        if size > 8 && !refused && form & 2 > 0 && form & 1 == 0 {
            return Err("accepted".into());
        }
        Ok(Out::Ok(h))
    }));
    let _ = Song::empty as fn() -> _;
    v.push(crate::p_real::survives());
    v.push(crate::p_edit::survives_edited());
    v.push(crate::p_edit::survives_counts());
    v
}
