//! C01, C02, C03: loop optimisation and encoding.
use crate::engine::*;
use crate::smf::*;
use crate::spc::*;
use midi2spc::nspc::Song;
use serde_json::{json, Value};

pub fn both(cx: &mut Ctx, smf: &Smf) -> Result<(Song, Song), String> {
    let b = smf.bytes();
    let p = cx.path("i.mid");
    let plain = convert_at(&p, &b, 0.2, false, false)?;
    let opt = convert_at(&p, &b, 0.2, true, false)?;
    Ok((plain, opt))
}

/// Does the optimised song play what the plain one plays?
pub fn same_play(plain: &Song, opt: &Song) -> Result<u64, String> {
    let a = flatten_all(plain).map_err(|e| format!("unoptimised song: {}", e))?;
    let b = flatten_all(opt).map_err(|e| format!("optimised song: {}", e))?;
    if a.len() != b.len() {
        return Err(format!("{} channels, {} with optimisation", a.len(), b.len()));
    }
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        for (n, (p, q)) in x.iter().zip(y.iter()).enumerate() {
            if p != q {
                return Err(format!("channel {} item {}: plays {:?}, with optimisation {:?}", i, n, p, q));
            }
        }
        if x.len() != y.len() {
            return Err(format!("channel {}: {} items, with optimisation {}", i, x.len(), y.len()));
        }
    }
    Ok(hash(&b))
}

fn cmds(song: &Song) -> Vec<Vec<Value>> {
    let v: Value = serde_json::from_str(&song_json(song)).unwrap();
    v["tracks"].as_array().unwrap().iter().map(|t| t["commands"].as_array().unwrap().clone()).collect()
}
fn is_call(v: &Value) -> bool {
    v["command"].get("CallLoop").is_some()
}
fn is_slide(v: &Value) -> bool {
    v["command"].get("PitchSlide").is_some()
}
fn is_tie(v: &Value) -> bool {
    v["command"].as_str() == Some("Tie")
}

/// C02 on one pair of songs.
pub fn effective(plain: &Song, opt: &Song) -> Result<u64, String> {
    let a = cmds(plain);
    let b = cmds(opt);
    let (na, nb): (usize, usize) = (a.iter().map(|t| t.len()).sum(), b.iter().map(|t| t.len()).sum());
    if a.iter().flatten().any(is_call) {
        return Err("loop call without optimisation".into());
    }
    if nb > na {
        return Err(format!("{} commands, {} with optimisation", na, nb));
    }
    let called = b.iter().flatten().any(is_call);
    if !called {
        // look for a run of four or more commands that occurs twice, no two occurrences overlapping, and that
        // ends where they differ
        let ids: Vec<Vec<u64>> = a.iter().map(|cs| cs.iter().map(|c| hash(&c.to_string())).collect()).collect();
        for len in 4..=10 {
            let mut seen: std::collections::HashMap<&[u64], Vec<(usize, usize)>> = Default::default();
            for (t, cs) in a.iter().enumerate() {
                for i in 0..(cs.len() + 1).saturating_sub(len) {
                    // slides belong to the note before them, ties to the note they continue
                    if cs[i..i + len].iter().any(|c| is_slide(c) || is_tie(c)) || cs.get(i + len).map_or(false, |c| is_slide(c) || is_tie(c)) {
                        continue;
                    }
                    seen.entry(&ids[t][i..i + len]).or_default().push((t, i));
                }
            }
            for (_, at) in &seen {
                let overlap = at.windows(2).any(|w| w[0].0 == w[1].0 && w[0].1 + len > w[1].1);
                let next: std::collections::HashSet<_> = at.iter().map(|&(t, i)| ids[t].get(i + len)).collect();
                if at.len() > 1 && !overlap && next.len() > 1 {
                    return Err(format!("{} commands occur at {:?} (channel, command), but there is no loop", len, at));
                }
            }
        }
    }
    Ok(hash(&(na, nb, called)))
}

/// a channel written as tokens
#[derive(Clone, Debug)]
pub struct Builder {
    pub ch: u8,
    pub t: u32,
    pub trk: Trk,
    pub fresh: u32,
    pub vel: u8,
    pub step: u32,
}
impl Builder {
    pub fn new(ch: u8, step: u32) -> Builder {
        Builder { ch, t: 0, trk: vec![], fresh: 0, vel: 64, step }
    }
    pub fn note(&mut self, key: u8, steps: u32) {
        self.trk.push((self.t, Ev::On(self.ch, key, self.vel)));
        self.t += steps * self.step;
        self.trk.push((self.t, Ev::Off(self.ch, key)));
    }
    pub fn rest(&mut self, steps: u32) {
        self.t += steps * self.step;
    }
    pub fn ev(&mut self, e: Ev) {
        self.trk.push((self.t, e));
    }
    /// a note that occurs nowhere else
    pub fn unique(&mut self) {
        let k = 24 + (self.fresh % 72) as u8;
        let n = 9 + self.fresh / 72;
        self.fresh += 1;
        self.note(k, n);
    }
    pub fn word(&mut self, w: &str) {
        for c in w.bytes() {
            match c {
                b'A'..=b'H' => self.note(60 + (c - b'A') * 2, 1),
                b'a'..=b'h' => self.note(60 + (c - b'a') * 2, 2),
                b'r' => self.rest(3),
                b'R' => self.rest(40),
                b'L' => self.note(64, 200),
                b'x' => self.unique(),
                b'v' => self.vel = 100,
                b'w' => self.vel = 64,
                b'p' => self.ev(Ev::Pc(self.ch, 40)),
                b'q' => self.ev(Ev::Pc(self.ch, 56)),
                b'c' => self.ev(Ev::Cc(self.ch, 7, 80)),
                b't' => self.ev(Ev::Tempo(500_000)),
                b'u' => self.ev(Ev::Tempo(300_000)),
                b'o' => self.ev(Ev::Cc(self.ch, 65, 127)),
                b'n' => self.ev(Ev::Cc(self.ch, 65, 0)),
                b'5' => self.ev(Ev::Cc(self.ch, 5, 0)),
                // notes of eight steps with the pause after them
                b'1'..=b'4' => {
                    self.note(60 + (c - b'1') * 2, 4);
                    self.rest(4)
                }
                b'6'..=b'9' => {
                    self.note(60 + (c - b'6') * 2, 6);
                    self.rest(2)
                }
                b'S'..=b'V' => self.note(60 + (c - b'S') * 2, 8),
                _ => panic!("harness: token {}", c as char),
            }
        }
    }
}

pub type Check = fn(&Song, &Song) -> Result<u64, String>;

fn run_words(cx: &mut Ctx, chans: &[String], check: Check) -> Res {
    let mut tracks = vec![];
    let mut max = 0;
    for (i, w) in chans.iter().enumerate() {
        let mut b = Builder::new(i as u8, 20);
        b.fresh = i as u32 * 24;
        b.word(w);
        max = max.max(b.t);
        tracks.push(b.trk);
    }
    cx.state(&chans);
    let d = chans.join(" | ");
    cx.desc(|| d);
    let (p, o) = both(cx, &Smf::new(480, tracks))?;
    check(&p, &o).map(Out::Ok)
}

fn words(cx: &mut Ctx, toks: &[&str], max: usize) -> String {
    let mut s = String::new();
    for _ in 0..max {
        // 0 ends the word
        let c = cx.choose(toks.len() + 1);
        if c == 0 {
            break;
        }
        s.push_str(toks[c - 1]);
    }
    s
}

fn loop_families(thorough: bool, check: Check) -> Vec<Family> {
    let q = |a: usize, b: usize| if thorough { b } else { a };
    let mut v = vec![];
    let n = q(15, 19);
    v.push(fam("two pitches", &format!("every string of two pitches up to length {}", n), move |cx| {
        let w = words(cx, &["A", "B"], n);
        run_words(cx, &[w], check)
    }));
    let n = q(10, 13);
    v.push(fam("three symbols", &format!("every string of a pitch, the same pitch longer, and another pitch, up to length {}", n), move |cx| {
        let w = words(cx, &["A", "a", "B"], n);
        run_words(cx, &[w], check)
    }));
    let n = q(7, 9);
    v.push(fam("passages", &format!("every sequence up to {} of two four-note passages, their parts and separators", n), move |cx| {
        let w = words(cx, &["ABCD", "EFGH", "ABC", "A", "x"], n);
        run_words(cx, &[w], check)
    }));
    let n = q(6, 8);
    v.push(fam("lengths and velocities", &format!("every sequence up to {} of passages with other lengths, pauses and velocities at their borders", n), move |cx| {
        let w = words(cx, &["ABCD", "vABCDw", "aBCd", "r", "A", "aBCr", "x"], n);
        run_words(cx, &[w], check)
    }));
    let n = q(6, 8);
    v.push(fam("controls", &format!("every sequence up to {} of passages with program, volume, tempo changes and long notes", n), move |cx| {
        let w = words(cx, &["ABCD", "pABCD", "qAB", "cABCt", "L", "LABCD", "x"], n);
        run_words(cx, &[w], check)
    }));
    let n = q(7, 9);
    v.push(fam("gates", &format!("every sequence up to {} of passages that differ in the split between note and pause", n), move |cx| {
        let w = words(cx, &["1234", "6789", "17", "STUV", "1834", "x"], n);
        run_words(cx, &[w], check)
    }));
    v.push(fam("one difference", "two to four copies of a passage of five notes, equal but for one value (key, length, gate, velocity, program, volume, tempo, portamento time) at every place, in every order of the values, with every separation", move |cx| {
        let kind = cx.choose(9);
        let at = cx.choose(6);
        let copies = 2 + cx.choose(3);
        let sep = cx.choose(3);
        let vals: Vec<usize> = (0..copies).map(|_| cx.choose(2)).collect();
        let chans = cx.choose(2) + 1;
        let mut tracks = vec![];
        for ch in 0..chans {
            let mut b = Builder::new(ch as u8, 20);
            b.fresh = 24 * ch as u32;
            for (n, &v) in vals.iter().enumerate() {
                let v = if ch == 1 { 1 - v } else { v };
                for i in 0..5usize {
                    let (mut key, mut len, mut rest) = (60 + i as u8, 4, 4);
                    if i == at || at == 5 {
                        match (kind, v) {
                            (0, 1) => key += 12,
                            (1, 1) => len += 8,
                            (2, 1) => {
                                len += 2;
                                rest -= 2;
                            }
                            (3, 1) => b.vel = 100,
                            (4, _) => b.ev(Ev::Pc(ch as u8, [40, 56][v])),
                            (5, _) => b.ev(Ev::Cc(ch as u8, 7, [80, 81][v])),
                            (6, _) => b.ev(Ev::Tempo([500_000, 300_000][v])),
                            (7, _) => {
                                b.ev(Ev::Cc(ch as u8, 37, [40, 80][v]));
                                b.ev(Ev::Cc(ch as u8, 65, 127));
                                rest = 0;
                            }
                            (8, 1) => rest += 7,
                            _ => {}
                        }
                    }
                    b.note(key, len);
                    b.vel = 64;
                    if kind == 7 {
                        b.ev(Ev::Cc(ch as u8, 65, 0));
                    }
                    b.rest(rest);
                }
                if sep == 1 || (sep == 2 && n % 2 == 1) {
                    b.unique();
                }
            }
            tracks.push(b.trk);
        }
        cx.state(&(kind, at, &vals, sep, chans));
        cx.desc(|| format!("difference {} at {}, values {:?}, separation {}, {} channels", kind, at, vals, sep, chans));
        let (p, o) = both(cx, &Smf::new(480, tracks))?;
        check(&p, &o).map(Out::Ok)
    }));
    v.push(fam("two values", "passages of five notes that differ in one value in the middle, for every pair of values: keys 24..95, lengths 1..260 steps, velocities and volumes 0..127, programs 0..127, tempos of 1..255, pauses 0..200 steps; each passage twice, apart or in turn", move |cx| {
        let kind = cx.choose(7);
        let (lo, hi) = [(24u32, 95u32), (1, 260), (1, 127), (0, 127), (0, 127), (1, 255), (0, 200)][kind];
        let x = lo + cx.choose((hi - lo) as usize) as u32;
        let y = x + 1 + cx.choose((hi - x) as usize) as u32;
        let mut b = Builder::new(0, 20);
        for (n, v) in [x, y, y, x, x, y].iter().enumerate() {
            b.note(60, 4);
            b.note(62, 5);
            let (mut key, mut len, mut rest) = (64u8, 4, 0);
            match kind {
                0 => key = *v as u8,
                1 => len = *v,
                2 => b.vel = *v as u8,
                3 => b.ev(Ev::Cc(0, 7, *v as u8)),
                4 => b.ev(Ev::Pc(0, *v as u8)),
                5 => b.ev(Ev::Tempo((12_000_000.0 / (*v as f64 + 0.5)) as u32)),
                _ => rest = *v,
            }
            b.note(key, len);
            b.vel = 64;
            b.rest(rest);
            b.note(65, 4);
            b.note(67, 7);
            if n != 2 {
                b.unique();
            }
        }
        cx.state(&(kind, x, y));
        cx.desc(|| format!("kind {} values {} {}", kind, x, y));
        let (p, o) = both(cx, &Smf::new(480, vec![b.trk]))?;
        check(&p, &o).map(Out::Ok)
    }));
    let n = q(6, 8);
    v.push(fam("slides", &format!("every sequence up to {} of passages with portamento", n), move |cx| {
        let w = words(cx, &["oABCDn", "ABCD", "oABn", "o", "n", "xABCr", "rL"], n);
        run_words(cx, &[w], check)
    }));
    let n = q(4, 5);
    v.push(fam("two channels", &format!("every pair of sequences up to {} of passages on two channels", n), move |cx| {
        let t = ["ABCD", "ABCDE", "CDEF", "x", "vABCDwr"];
        let a = words(cx, &t, n);
        let b = words(cx, &t, n);
        run_words(cx, &[a, b], check)
    }));
    let n = q(3, 4);
    v.push(fam("three channels", &format!("every triple of sequences up to {} of passages on three channels", n), move |cx| {
        let t = ["ABCD", "ABCDABCD", "BCDE", "xABCr"];
        let a = words(cx, &t, n);
        let b = words(cx, &t, n);
        let c = words(cx, &t, n);
        run_words(cx, &[a, b, c], check)
    }));
    v.push(fam("repeat counts", "a passage of 1..12 notes repeated 1..60 times, and up to 600 times for short ones, with and without a tail and on one or two channels", move |cx| {
        let len = 1 + cx.choose(12);
        let max = if len <= 4 && thorough { 600 } else if len <= 4 { 270 } else { 60 };
        let step = if max > 100 { 1 } else { 1 };
        let n = 1 + cx.choose(max) * step;
        if n > 60 && n % 8 > 1 && n < 250 && !(thorough) {
            return Ok(Out::Skip);
        }
        let tail = if n > 60 { 0 } else { cx.choose(3) };
        let mut b = Builder::new(0, 20);
        for _ in 0..n {
            for i in 0..len {
                b.note(60 + i as u8, 1 + (i as u32 % 3));
            }
        }
        match tail {
            1 => b.note(50, 4),
            2 => b.rest(5),
            _ => {}
        }
        cx.state(&(len, n, tail));
        cx.desc(|| format!("{} notes x {}, tail {}", len, n, tail));
        let mut tracks = vec![b.trk.clone()];
        if tail == 2 {
            tracks.push(b.trk.iter().map(|(t, e)| (*t, match e { Ev::On(_, k, v) => Ev::On(1, *k, *v), Ev::Off(_, k) => Ev::Off(1, *k), e => e.clone() })).collect());
        }
        let (p, o) = both(cx, &Smf::new(480, tracks))?;
        check(&p, &o).map(Out::Ok)
    }));
    v.push(fam("interrupted runs", "one to three runs of a passage of 1, 2, 4 or 5 notes, each of 1 to 257 repeats (at and around 1, 127, 128, 254, 255, 256), with a note, a longer note, a pause or nothing between the runs, up to 2000 notes, on one or two channels", move |cx| {
        let len = cx.pick(&[4usize, 5, 1, 2]);
        let lens: &[usize] = if thorough { &[1, 2, 3, 126, 127, 128, 129, 253, 254, 255, 256, 257] } else { &[1, 2, 127, 128, 129, 255, 256] };
        let nr = 1 + cx.choose(3);
        let runs: Vec<usize> = (0..nr).map(|_| cx.pick(lens)).collect();
        let chans = 1 + cx.choose(2);
        if runs.iter().sum::<usize>() * len * chans > 2000 {
            return Ok(Out::Skip);
        }
        let sep = cx.choose(3);
        let mut tracks = vec![];
        for ch in 0..chans {
            let mut b = Builder::new(ch as u8, 20);
            b.fresh = 24 * ch as u32;
            for n in &runs {
                for _ in 0..*n {
                    for i in 0..len {
                        b.note(60 + i as u8, 1 + i as u32);
                    }
                }
                match sep {
                    0 => b.note(90, 3),
                    1 => b.unique(),
                    _ => b.rest(3),
                }
            }
            tracks.push(b.trk);
        }
        cx.state(&(len, &runs, sep, chans));
        cx.desc(|| format!("{} notes, runs {:?}, separation {}, {} channels", len, runs, sep, chans));
        let (p, o) = both(cx, &Smf::new(480, tracks))?;
        check(&p, &o).map(Out::Ok)
    }));
    v.push(fam("many passages", "2 to 260 (thorough: 320) different passages of four notes, all repeated in the same or the reverse order or each twice in a row, on one or two channels", move |cx| {
        let n = cx.pick(if thorough { &[2usize, 3, 5, 9, 17, 33, 65, 120, 130, 250, 260, 320] } else { &[2usize, 3, 5, 9, 17, 33, 65, 130, 260] });
        let order = cx.choose(4);
        let two = cx.flag();
        let mut tracks = vec![];
        for ch in 0..1 + two as usize {
            let mut b = Builder::new(ch as u8, 20);
            let pass = |b: &mut Builder, i: usize| {
                for k in 0..4 {
                    b.note(30 + ((i >> (2 * k)) & 3) as u8 * 4 + 20 * (k == 0) as u8, 1 + (i % 5) as u32 + k as u32);
                }
                b.note(24 + (i % 71) as u8, 9);
            };
            for i in 0..n {
                pass(&mut b, i);
                if order == 0 {
                    pass(&mut b, i);
                }
                b.unique();
            }
            if order > 0 {
                for i in 0..n {
                    let i = match order {
                        1 => i,
                        2 => n - 1 - i,
                        _ => i * 7 % n,
                    };
                    pass(&mut b, i);
                    b.note(100, 1 + (i % 97) as u32);
                }
            }
            tracks.push(b.trk);
        }
        cx.state(&(n, order, two));
        cx.desc(|| format!("{} passages, order {}, two channels {}", n, order, two));
        let (p, o) = both(cx, &Smf::new(480, tracks))?;
        check(&p, &o).map(Out::Ok)
    }));
    v.push(fam("eight channels", "one to eight channels, each with a passage of its own twice, a passage shared with the others once or twice, or neither, in every combination", move |cx| {
        let n = 1 + cx.choose(8);
        let what: Vec<usize> = (0..n).map(|_| cx.choose(4)).collect();
        let mut tracks = vec![];
        for (ch, w) in what.iter().enumerate() {
            let mut b = Builder::new(ch as u8, 20);
            b.fresh = 60 * ch as u32;
            let own = |b: &mut Builder| {
                for k in 0..4 {
                    b.note(40 + 5 * ch as u8 + k, 4 + k as u32);
                }
            };
            match w {
                0 => b.unique(),
                1 => {
                    own(&mut b);
                    b.unique();
                    own(&mut b);
                    b.unique();
                }
                2 => {
                    b.unique();
                    b.word("ABCD");
                    b.unique();
                }
                _ => {
                    b.word("ABCD");
                    b.unique();
                    b.word("ABCDABCD");
                }
            }
            tracks.push(b.trk);
        }
        cx.state(&what);
        cx.desc(|| format!("channels {:?} (0 neither, 1 own passage twice, 2 shared once, 3 shared three times)", what));
        let (p, o) = both(cx, &Smf::new(480, tracks))?;
        check(&p, &o).map(Out::Ok)
    }));
    v.push(fam("long passages", "a passage of every length 4..80 and at and around 100, 127, 128, 200, 255, 256, 300, 400 and 512 notes, two to four times, directly after one another or with a note between them, with or without a tail, on one channel or shared by two", move |cx| {
        let lens: Vec<usize> = (4..=80).chain([100usize, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 400, 511, 512, 513].iter().cloned()).collect();
        let len = lens[cx.choose(lens.len())];
        let times = 2 + cx.choose(3);
        let sep = cx.flag();
        let tail = cx.choose(3);
        let two = cx.flag();
        if len * times * (1 + two as usize) > 2000 {
            return Ok(Out::Skip);
        }
        let mut tracks = vec![];
        for ch in 0..1 + two as u8 {
            let mut b = Builder::new(ch, 20);
            b.fresh = 500 + 40 * ch as u32;
            for _ in 0..times {
                for i in 0..len {
                    b.note(30 + (i % 61) as u8, 1 + (i / 61) as u32);
                }
                if sep {
                    b.unique();
                }
            }
            match tail {
                0 => (),
                1 => b.unique(),
                _ => for i in 0..len / 2 {
                    b.note(30 + (i % 61) as u8, 1 + (i / 61) as u32);
                },
            }
            tracks.push(b.trk);
        }
        cx.state(&(len, times, sep, tail, two));
        cx.desc(|| format!("passage of {} notes {} times, separated {}, tail {}, two channels {}", len, times, sep, tail, two));
        let (p, o) = both(cx, &Smf::new(480, tracks))?;
        check(&p, &o).map(Out::Ok)
    }));
    let n = q(7, 8);
    v.push(fam("nested repeats", &format!("every sequence up to {} of passages that contain one another", n), move |cx| {
        let w = words(cx, &["ABCDABCD", "ABCDABCDE", "BCDA", "ABABABAB", "AAAAA", "xx"], n);
        run_words(cx, &[w], check)
    }));
    v.push(crate::p_real::loops(check));
    v.push(crate::p_edit::loops_edited(check));
    v
}

pub fn c01(thorough: bool) -> Vec<Family> {
    let mut v = loop_families(thorough, same_play);
    v.push(fam("one long loop", "a passage of 258 notes (thorough: also 260, 512 and 1000) repeated until the piece has more than 65536 notes, and shorter pieces", |cx| {
        let (len, n) = cx.pick(&[(258usize, 255usize), (300, 20), (258, 40), (512, 129), (1000, 66), (260, 257)][..if cx.thorough { 6 } else { 3 }]);
        let mut b = Builder::new(0, 20);
        for _ in 0..n {
            for i in 0..len {
                b.note(40 + ((i * i / 7 + i) % 50) as u8, 1);
            }
        }
        cx.state(&(len, n));
        cx.desc(|| format!("{} notes x {}", len, n));
        let (p, o) = both(cx, &Smf::new(480, vec![b.trk]))?;
        same_play(&p, &o).map(Out::Ok)
    }));
    v
}
pub fn c02(thorough: bool) -> Vec<Family> {
    loop_families(thorough, effective)
}

// ------------------------------------------------------------------------------------------------ C03

/// JSON text of a command with its opcode and parameters
fn command(op: u8, p: &[u8]) -> (Value, String) {
    let names = [
        "SetInstrument", "Pan", "PanFade", "Vibrato", "VibratoOff", "MasterVolume", "MasterVolumeFade", "Tempo", "TempoFade", "GlobalTranspose",
        "ChannelTranspose", "Tremolo", "TremoloOff", "ChannelVolume", "ChannelVolumeFade", "CallLoop", "VibratoFade", "PitchEnvelopeTo",
        "PitchEnvelopeFrom", "PitchEnvelopeOff", "Tuning", "EchoVolume", "EchoOff", "EchoParams", "EchoVolumeFade", "PitchSlide", "PercussionPatchBase",
    ];
    let n = names[(op - 0xe0) as usize];
    let v = match p.len() {
        0 => json!(n),
        1 => json!({ n: p[0] }),
        _ => json!({ n: p }),
    };
    (v, n.to_string())
}

fn pc(d: Option<u8>, v: Option<u8>, s: Option<u8>, c: Value) -> Value {
    json!({"duration": d, "velocity": v, "sustain": s, "command": c})
}

/// one command of a song in the reference's terms
#[derive(Clone, Debug, Hash)]
pub enum RC {
    /// byte, duration, velocity and gate (both or none)
    N(u8, u8, Option<(u8, u8)>),
    Tie(u8),
    Rest(u8),
    C(u8, Vec<u8>),
    Call(usize, u8),
    /// a note, tie or rest with a velocity or gate of its own
    V(Option<u8>, Option<u8>, Box<RC>),
}
pub fn rc_json(c: &RC) -> Value {
    match c {
        RC::N(b, d, vg) => pc(Some(*d), vg.map(|x| x.0), vg.map(|x| x.1), json!({ "Note": b })),
        RC::Tie(d) => pc(Some(*d), None, None, json!("Tie")),
        RC::Rest(d) => pc(Some(*d), None, None, json!("Rest")),
        RC::C(op, p) => pc(None, None, None, command(*op, p).0),
        RC::Call(t, n) => pc(Some(0), Some(0), Some(0), json!({"CallLoop": [t, n]})),
        RC::V(v, g, c) => {
            let c = rc_json(c);
            json!({"duration": c["duration"], "velocity": v, "sustain": g, "command": c["command"]})
        }
    }
}
pub fn song_value(parts: &[usize], tracks: &[Vec<RC>]) -> Value {
    json!({"parts": [{"tracks": parts}],
        "tracks": tracks.iter().map(|t| json!({"commands": t.iter().map(rc_json).collect::<Vec<_>>()})).collect::<Vec<_>>()})
}
pub fn load_song(cx: &Ctx, v: &Value) -> Song {
    let p = cx.path("s.json");
    std::fs::write(&p, v.to_string()).unwrap();
    Song::from_json(&p)
}
/// What a track plays, without a preamble.  A note without a velocity keeps the one in force, and has the
/// default one when its own track (with the loops called so far) has set none.
pub fn expect_items(tracks: &[Vec<RC>], t: usize, vq: &mut Option<u8>, out: &mut Vec<It>) -> bool {
    let mut own = false;
    for c in &tracks[t] {
        match c {
            RC::N(b, d, vg) => {
                match vg {
                    Some((v, g)) => *vq = Some(g << 4 | v),
                    None => {
                        if !own {
                            *vq = Some(0x7d)
                        }
                    }
                }
                own = true;
                out.push(It::Note { byte: *b, dur: *d, vq: *vq });
            }
            RC::V(v, g, c) => {
                let old = if own { vq.unwrap() } else { 0x7d };
                *vq = Some(g.unwrap_or(old >> 4) << 4 | v.unwrap_or(old & 15));
                own = true;
                out.push(match **c {
                    RC::N(b, d, _) => It::Note { byte: b, dur: d, vq: *vq },
                    RC::Tie(d) => It::Tie { dur: d, vq: *vq },
                    RC::Rest(d) => It::Rest { dur: d },
                    _ => panic!("harness: {:?}", c),
                });
            }
            RC::Tie(d) => {
                out.push(It::Tie { dur: *d, vq: *vq });
            }
            RC::Rest(d) => {
                out.push(It::Rest { dur: *d });
            }
            RC::C(op, p) => {
                out.push(It::Cmd { op: *op, p: p.clone() });
            }
            RC::Call(x, n) => {
                for _ in 0..*n {
                    own |= expect_items(tracks, *x, vq, out);
                }
            }
        }
    }
    own
}
pub fn preamble(first: bool) -> Vec<It> {
    let c = |op, p: u8| It::Cmd { op, p: vec![p] };
    if first {
        vec![c(0xfa, 0x19), c(0xe5, 0xc8), c(0xed, 0xc8)]
    } else {
        vec![c(0xed, 0xc8)]
    }
}
pub fn expect_part(parts: &[usize], tracks: &[Vec<RC>], i: usize) -> Vec<It> {
    if tracks[parts[i]].is_empty() {
        return vec![];
    }
    // channels may share a track
    let mut out = preamble(parts[i] == parts[0]);
    expect_items(tracks, parts[i], &mut None, &mut out);
    out
}

pub fn check_encoding(song: &Song, parts: &[usize], tracks: &[Vec<RC>]) -> Result<u64, String> {
    let got = flatten_all(song)?;
    for i in 0..parts.len() {
        let want = expect_part(parts, tracks, i);
        if got[i] != want {
            let n = got[i].iter().zip(&want).take_while(|(a, b)| a == b).count();
            return Err(format!("channel {} item {}: bytes say {:?}, song says {:?}", i, n, got[i].get(n), want.get(n)));
        }
    }
    // a part track reports its own loop calls, in order
    let a = assemble(song)?;
    for t in 0..tracks.len() {
        let want: Vec<usize> = tracks[t].iter().filter_map(|c| if let RC::Call(x, _) = c { Some(*x) } else { None }).collect();
        let mut refs = a.tracks[t].1.clone();
        refs.sort_by_key(|r| r.1);
        let have: Vec<usize> = refs.iter().map(|r| r.0).collect();
        if have != want {
            return Err(format!("track {}: loop references {:?}, calls {:?}", t, have, want));
        }
    }
    Ok(hash(&got))
}

pub fn c03(thorough: bool) -> Vec<Family> {
    let q = |a: usize, b: usize| if thorough { b } else { a };
    let mut v = vec![];
    v.push(fam("opcodes", "every command with 0, 1, 127, 128, 255 and distinct values for its parameters; every value of single parameters; at three places of a track", |cx| {
        let op = 0xe0 + cx.choose(27) as u8;
        if op == 0xef {
            return Ok(Out::Skip);
        }
        let n = PARAMS[(op - 0xe0) as usize];
        let p: Vec<u8> = if n == 1 {
            vec![cx.choose(256) as u8]
        } else {
            (0..n).map(|_| cx.pick(&[0u8, 1, 2, 127, 128, 200, 255])).collect()
        };
        let at = cx.choose(4);
        let part = cx.choose(2);
        let note = RC::N(0x90, 8, Some((9, 7)));
        let c = RC::C(op, p);
        let t = match at {
            0 => vec![c.clone(), note],
            1 => vec![note.clone(), c.clone(), note],
            2 => vec![RC::Rest(8), c.clone(), c.clone(), note],
            _ => vec![note, c.clone()],
        };
        let tracks = if part == 0 { vec![t] } else { vec![vec![RC::Rest(3)], t] };
        let parts: Vec<usize> = (0..tracks.len()).collect();
        cx.state(&tracks);
        cx.desc(|| format!("{:?}", tracks));
        let s = load_song(cx, &song_value(&parts, &tracks));
        check_encoding(&s, &parts, &tracks).map(Out::Ok)
    }));
    v.push(fam("notes", "every note byte 80..C7, duration 1..127 and velocity/gate pair, each pair following another", |cx| {
        let t = match cx.choose(5) {
            4 => {
                let (v, g) = (1 + cx.choose(15) as u8, 1 + cx.choose(7) as u8);
                let k = cx.choose(15 + 7);
                let (v2, g2) = if k < 15 { (Some(1 + k as u8), None) } else { (None, Some(k as u8 - 14)) };
                let first = RC::N(0x90, 8, Some((v, g)));
                let x = match cx.choose(3) {
                    0 => RC::N(0x91, 8, None),
                    1 => RC::Tie(8),
                    _ => RC::Rest(9),
                };
                let x = RC::V(v2, g2, Box::new(x));
                if cx.choose(2) == 0 { vec![first, x, RC::N(0x92, 8, None)] } else { vec![x, first] }
            }
            0 => {
                let b = 0x80 + cx.choose(0x48) as u8;
                let b2 = cx.pick(&[0x80, 0x90, 0xc7]);
                vec![RC::N(b, 8, Some((9, 7))), RC::N(b2, 8, Some((9, 7)))]
            }
            1 => {
                let d = 1 + cx.choose(127) as u8;
                let d2 = 1 + cx.choose(127) as u8;
                match cx.choose(3) {
                    0 => vec![RC::N(0x90, d, Some((9, 7))), RC::N(0x91, d2, Some((9, 7)))],
                    1 => vec![RC::Rest(d), RC::N(0x91, d2, Some((9, 7)))],
                    _ => vec![RC::N(0x90, d, Some((9, 7))), RC::Tie(d2), RC::Rest(d)],
                }
            }
            2 => {
                let (v, g) = (1 + cx.choose(15) as u8, 1 + cx.choose(7) as u8);
                let (v2, g2) = (1 + cx.choose(15) as u8, 1 + cx.choose(7) as u8);
                vec![RC::N(0x90, 8, Some((v, g))), RC::N(0x91, 8, Some((v2, g2))), RC::N(0x92, 8, None)]
            }
            _ => {
                let (v, g) = (1 + cx.choose(15) as u8, 1 + cx.choose(7) as u8);
                let d = 1 + cx.choose(127) as u8;
                vec![RC::Rest(d), RC::N(0x90, d, Some((v, g))), RC::Tie(d), RC::N(0x90, d, Some((v, g)))]
            }
        };
        let tracks = vec![t];
        cx.state(&tracks);
        cx.desc(|| format!("{:?}", tracks));
        let s = load_song(cx, &song_value(&[0], &tracks));
        check_encoding(&s, &[0], &tracks).map(Out::Ok)
    }));
    fn item(cx: &mut Ctx, loops: usize) -> Option<RC> {
        let n = 14 + loops;
        Some(match cx.choose(n) {
            10 => RC::V(Some(12), None, Box::new(RC::N(0x91, 8, None))),
            11 => RC::V(None, Some(5), Box::new(RC::N(0x91, 9, None))),
            12 => RC::V(Some(10), Some(7), Box::new(RC::Tie(8))),
            13 => RC::V(Some(9), None, Box::new(RC::Rest(8))),
            0 => return None,
            1 => RC::N(0x90, 8, Some((9, 7))),
            2 => RC::N(0x90, 9, Some((9, 7))),
            3 => RC::N(0x90, 8, Some((10, 7))),
            4 => RC::N(0x90, 8, Some((9, 3))),
            5 => RC::N(0x91, 8, None),
            6 => RC::Rest(8),
            7 => RC::Rest(127),
            8 => RC::Tie(8),
            9 => RC::C(0xe0, vec![0x7d]),
            k => RC::Call(1 + (k - 14) % 2, 1 + ((k - 14) / 2) as u8 * 2),
        })
    }
    fn seq(cx: &mut Ctx, n: usize, loops: usize) -> Vec<RC> {
        let mut t = vec![];
        for _ in 0..n {
            match item(cx, loops) {
                None => break,
                Some(c) => t.push(c),
            }
        }
        t
    }
    let n = q(5, 6);
    v.push(fam("state in force", &format!("every sequence up to {} of notes, rests, ties and commands that share or change duration, velocity and gate", n), move |cx| {
        let t = seq(cx, n, 0);
        if t.is_empty() {
            return Ok(Out::Skip);
        }
        let tracks = vec![t];
        cx.state(&tracks);
        cx.desc(|| format!("{:?}", tracks));
        let s = load_song(cx, &song_value(&[0], &tracks));
        check_encoding(&s, &[0], &tracks).map(Out::Ok)
    }));
    let (n, m) = (q(3, 4), 2);
    v.push(fam("state across loops", &format!("every sequence up to {} that calls two loops once or three times, for every pair of loops up to {} commands", n, m), move |cx| {
        let t = seq(cx, n, 4);
        if !t.iter().any(|c| if let RC::Call(..) = c { true } else { false }) {
            return Ok(Out::Skip);
        }
        let l1 = seq(cx, m, 0);
        let uses2 = t.iter().any(|c| if let RC::Call(2, _) = c { true } else { false });
        let l2 = if uses2 { if thorough { seq(cx, m, 0) } else { vec![cx.pick(&[RC::Rest(8), RC::N(0x92, 9, Some((10, 7)))])] } } else { vec![RC::Rest(5)] };
        if l1.is_empty() || l2.is_empty() {
            return Ok(Out::Skip);
        }
        let tracks = vec![t, l1, l2];
        cx.state(&tracks);
        cx.desc(|| format!("{:?}", tracks));
        let s = load_song(cx, &song_value(&[0], &tracks));
        check_encoding(&s, &[0], &tracks).map(Out::Ok)
    }));
    v.push(fam("loop calls", "loop calls with every count 1..255 to each of up to 12 tracks, at every place among up to eight channels", |cx| {
        let chans = 1 + cx.choose(8);
        let loops = 1 + cx.choose(4);
        let at = cx.choose(chans);
        let target = cx.choose(loops);
        let count = if chans == 1 && loops == 1 { 1 + cx.choose(255) as u8 } else { cx.pick(&[1u8, 2, 3, 255]) };
        let before = cx.choose(3);
        let mut tracks: Vec<Vec<RC>> = (0..chans).map(|i| vec![RC::N(0x90 + i as u8, 8, Some((9, 7)))]).collect();
        for _ in 0..before {
            tracks[at].push(RC::C(0xe0, vec![3]));
        }
        tracks[at].push(RC::Call(chans + target, count));
        if before == 2 {
            tracks[at].push(RC::Call(chans + (target + 1) % loops, 2));
        }
        for l in 0..loops {
            tracks.push(vec![RC::N(0xa0 + l as u8, 4 + l as u8, Some((4, 5))), RC::Rest(3)]);
        }
        let parts: Vec<usize> = (0..chans).collect();
        cx.state(&tracks);
        cx.desc(|| format!("{:?}", tracks));
        let s = load_song(cx, &song_value(&parts, &tracks));
        check_encoding(&s, &parts, &tracks).map(Out::Ok)
    }));
    v.push(fam("large songs", "tracks with a loop call behind 0 to 70000 bytes (every length to 600, and around powers of two), songs with 1 to 400 loops, called in turn or backwards", |cx| {
        let (parts, tracks) = if cx.flag() {
            let n = cx.choose(301 + 40);
            let n = if n < 301 { n } else { 1 << ((n - 301) / 4 + 6) };
            let n = if n > 300 { n + cx.choose(2) - 1 } else { n };
            (vec![0], large(n, 1, 0))
        } else {
            let n = cx.pick(&[1usize, 2, 15, 16, 17, 127, 128, 129, 247, 248, 253, 254, 255, 256, 257, 258, 300, 400]);
            let c = 1 + cx.choose(3);
            ((0..c).collect(), large(3, n, c))
        };
        cx.state(&tracks);
        cx.desc(|| format!("{} tracks, the first of {} commands", tracks.len(), tracks[0].len()));
        let s = load_song(cx, &song_value(&parts, &tracks));
        check_encoding(&s, &parts, &tracks).map(Out::Ok)
    }));
    v.push(fam("converted songs", "optimised songs of every sequence up to 5 of passages decode to the commands of their own JSON form", move |cx| {
        let toks = ["ABCD", "vABCDw", "aBCr", "L", "pc", "oABCDn"];
        let n = if thorough { 6 } else { 5 };
        let w = words(cx, &toks, n);
        let mut b = Builder::new(0, 20);
        b.word(&w);
        cx.state(&w);
        cx.desc(|| w.clone());
        let by = Smf::new(480, vec![b.trk]).bytes();
        let p = cx.path("i.mid");
        let s = convert_at(&p, &by, 0.2, true, false)?;
        let (parts, tracks) = parse_song(&s)?;
        check_encoding(&s, &parts, &tracks).map(Out::Ok)
    }));
    v.push(crate::p_real::encoding());
    v.push(crate::p_edit::encoding_edited());
    v
}

/// A channel with a loop call behind `fill` two-byte commands, or `chans` channels that share `loops` loops.
pub fn large(fill: usize, loops: usize, chans: usize) -> Vec<Vec<RC>> {
    let note = |i: usize| RC::N(0x80 + (i % 0x48) as u8, 1 + (i % 97) as u8, Some((1 + (i % 15) as u8, 1 + (i % 7) as u8)));
    if chans == 0 {
        let mut t = vec![note(1)];
        t.extend((0..fill).map(|i| RC::C(0xe1, vec![(i * 7) as u8])));
        t.extend(vec![RC::Call(1, 2), note(2), RC::Call(1, 1), note(3)]);
        return vec![t, vec![note(4), RC::Rest(9), note(5)]];
    }
    let mut tracks: Vec<Vec<RC>> = (0..chans).map(|c| vec![note(c)]).collect();
    for i in 0..loops {
        for c in 0..chans {
            let l = if c == 1 { loops - 1 - i } else { i };
            if c < 2 || l % 5 == 0 {
                tracks[c].push(RC::Call(chans + l, 1 + (i % 3) as u8));
            }
        }
    }
    for i in 0..loops {
        // two numbers tell every loop from the others
        tracks.push(vec![note(i), note(i / 0x48 + 7)]);
    }
    tracks
}

/// A converted song's JSON form in the reference's terms.
pub fn parse_song(s: &Song) -> Result<(Vec<usize>, Vec<Vec<RC>>), String> {
    let v: Value = serde_json::from_str(&song_json(s)).unwrap();
    let parts = v["parts"][0]["tracks"].as_array().ok_or("no parts")?.iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let mut tracks = vec![];
    for t in v["tracks"].as_array().ok_or("no tracks")? {
        let mut cs = vec![];
        for c in t["commands"].as_array().ok_or("no commands")? {
            let d = c["duration"].as_u64().unwrap_or(0) as u8;
            let vel = c["velocity"].as_u64().map(|x| x as u8).filter(|x| *x > 0);
            let sus = c["sustain"].as_u64().map(|x| x as u8).filter(|x| *x > 0);
            let vg = match (vel, sus) {
                (Some(v), Some(s)) => Some((v, s)),
                (None, None) => None,
                _ => return Err(format!("velocity without gate: {}", c)),
            };
            let k = &c["command"];
            let r = if k == "Rest" {
                RC::Rest(d)
            } else if k == "Tie" {
                // a slid note's velocity comes into force with its tie
                match vg {
                    Some((v, g)) => RC::V(Some(v), Some(g), Box::new(RC::Tie(d))),
                    None => RC::Tie(d),
                }
            } else if let Some(n) = k.get("Note") {
                RC::N(n.as_u64().unwrap() as u8, d, vg)
            } else if let Some(n) = k.get("CallLoop") {
                RC::Call(n[0].as_u64().unwrap() as usize, n[1].as_u64().unwrap() as u8)
            } else {
                let mut found = None;
                for op in 0xe0u8..=0xfa {
                    let n = PARAMS[(op - 0xe0) as usize];
                    let (val, name) = command(op, &vec![0; n]);
                    if n == 0 && *k == val {
                        found = Some(RC::C(op, vec![]));
                    } else if let Some(x) = k.get(&name) {
                        let p = if n == 1 { vec![x.as_u64().unwrap() as u8] } else { x.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() };
                        found = Some(RC::C(op, p));
                    }
                }
                found.ok_or_else(|| format!("unknown command {}", k))?
            };
            cs.push(r);
        }
        tracks.push(cs);
    }
    Ok((parts, tracks))
}
