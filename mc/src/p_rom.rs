//! C18..C21, C23, C25, C26, C28, C29: what a build does to a ROM.
use crate::engine::*;
use crate::p_loop::*;
use crate::spc::*;
use failure::Error;
use midi2spc::manifest::{Bank, Manifest};
use midi2spc::nspc::Song;
use midi2spc::rom;
use std::path::{Path, PathBuf};

pub fn q(thorough: bool, a: usize, b: usize) -> usize {
    if thorough {
        b
    } else {
        a
    }
}

pub const FIRST_DATA: [usize; 3] = [0x36, 0x46, 0x46];

// ------------------------------------------------------------------------------------------------ ROMs

#[derive(Clone, Debug, Hash)]
pub struct Chain {
    /// offset in the file
    pub at: usize,
    /// audio address and length
    pub chunks: Vec<(u16, usize)>,
}
#[derive(Clone, Debug, Hash)]
pub struct RomSpec {
    pub size: usize,
    /// LoROM addresses of the low bytes of the three pointers
    pub base: [u32; 3],
    pub chains: Vec<Chain>,
    /// set bit 15 of the addresses, as the console's memory map has it
    pub high: bool,
    /// what is in the ROM besides pointers and chunk headers
    pub fill: u8,
}

pub fn pc(a: u32) -> usize {
    (((a >> 16) as usize) << 15) | (a as usize & 0x7fff)
}
pub fn snes(at: usize, high: bool) -> u32 {
    (((at >> 15) as u32) << 16) | (at as u32 & 0x7fff) | if high { 0x8000 } else { 0 }
}
fn fill(i: usize) -> u8 {
    let x = (i as u32).wrapping_mul(0x9E37_79B9);
    ((x >> 24) as u8) | 1
}

pub struct Area {
    pub main: usize,
    pub main_len: usize,
    pub over: usize,
    pub over_len: usize,
    pub over_aram: u16,
    /// the main chunk is the last of its chain
    pub last: bool,
}

impl RomSpec {
    pub fn new(lens: [(usize, usize); 3]) -> RomSpec {
        let mut at = 0x1000;
        let mut chains = vec![];
        for &(m, o) in &lens {
            let mut chunks = vec![(0xd000, m)];
            if o > 0 {
                chunks.push((0x2b00, o));
            }
            let len: usize = chunks.iter().map(|c| c.1 + 4).sum::<usize>() + 4;
            chains.push(Chain { at, chunks });
            at += len + 3;
        }
        let size = (at + 0x7ff) / 0x400 * 0x400;
        RomSpec { size, base: [0x914, 0x926, 0x932], chains, high: true, fill: 0 }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut r: Vec<u8> = match self.fill {
            0 => (0..self.size).map(fill).collect(),
            1 => vec![0; self.size],
            2 => vec![0xff; self.size],
            3 => (0..self.size).map(|i| i as u8).collect(),
            _ => (0..self.size).map(|i| if i % 3 == 0 { 0 } else { 0xd0 }).collect(),
        };
        for (b, c) in self.chains.iter().enumerate() {
            let a = snes(c.at, self.high);
            r[pc(self.base[b])] = a as u8;
            r[pc(self.base[b] + 4)] = (a >> 8) as u8;
            r[pc(self.base[b] + 8)] = (a >> 16) as u8;
            let mut at = c.at;
            for (aram, len) in &c.chunks {
                r[at..at + 4].copy_from_slice(&[*len as u8, (*len >> 8) as u8, *aram as u8, (*aram >> 8) as u8]);
                at += 4 + len;
            }
            r[at..at + 4].copy_from_slice(&[0, 0, 0x00, 0x08]);
        }
        r
    }
    pub fn area(&self, b: usize) -> Option<Area> {
        let c = &self.chains[b];
        let mut at = c.at;
        for (i, (aram, len)) in c.chunks.iter().enumerate() {
            if *aram == 0xd000 {
                let next = at + 4 + len;
                let n = c.chunks.get(i + 1).cloned();
                let (over_aram, over_len) = n.unwrap_or((0, 0));
                return Some(Area { main: at + 4, main_len: *len, over: next + 4, over_len, over_aram, last: n.is_none() });
            }
            at += 4 + len;
        }
        None
    }
}

// ------------------------------------------------------------------------------------------------ songs

#[derive(Clone, Debug, Hash)]
pub struct RSong {
    pub parts: Vec<usize>,
    pub tracks: Vec<Vec<RC>>,
}
impl RSong {
    pub fn song(&self) -> Song {
        serde_json::from_value(song_value(&self.parts, &self.tracks)).expect("song")
    }
    pub fn sizes(&self) -> Vec<usize> {
        let s = self.song();
        (0..self.tracks.len()).map(|i| write_track(&s, i).unwrap().0.len()).collect()
    }
}
/// a song of one of the shapes, recognisable by `id`
pub fn shape(k: usize, id: usize) -> RSong {
    let n = |t: usize, d: u8| RC::N(0x80 + ((id * 11 + t * 3) % 0x48) as u8, d, Some((1 + (id % 15) as u8, 7)));
    let many = |t: usize, k: usize| -> Vec<RC> { (0..k).map(|i| RC::N(0x80 + ((id * 11 + t * 3 + i) % 0x48) as u8, 1 + (i % 90) as u8, Some((1 + (id % 15) as u8, 1 + (i % 7) as u8)))).collect() };
    let (parts, tracks) = match k {
        0 => (vec![0], vec![vec![n(0, 8)]]),
        1 => (vec![0, 1], vec![vec![n(0, 8), RC::Rest(8)], vec![n(1, 16)]]),
        // a loop
        2 => (vec![0], vec![vec![n(0, 8), RC::Call(1, 3)], vec![n(1, 9), RC::Rest(4)]]),
        // two channels and two loops, called from both
        3 => (vec![0, 1], vec![vec![RC::Call(2, 2), n(0, 8), RC::Call(3, 1)], vec![RC::Call(3, 2), n(1, 5)], vec![n(2, 7)], vec![n(3, 3), RC::Rest(9)]]),
        // all eight channels
        4 => ((0..8).collect(), (0..8).map(|t| vec![n(t, 8)]).collect()),
        // an empty channel between others
        5 => (vec![0, 1, 2], vec![vec![n(0, 8)], vec![], vec![n(2, 8)]]),
        6 => (vec![0, 1], vec![many(0, 20), many(1, 33)]),
        7 => (vec![0, 1, 2], vec![many(0, 150), { let mut t = many(1, 40); t.insert(20, RC::Call(3, 2)); t }, vec![RC::Call(3, 1), n(0, 4)], many(3, 60)]),
        // exactly one big track
        8 => (vec![0], vec![many(0, 200)]),
        _ => panic!("harness: shape"),
    };
    RSong { parts, tracks }
}

/// what is assigned to a slot
#[derive(Clone, Debug, Hash)]
pub struct Def {
    pub song: Option<usize>,
    pub loops: bool,
}

pub const NAMES: [&str; 3] = ["overworld", "indoor", "ending"];

pub struct Case {
    pub spec: RomSpec,
    pub songs: Vec<RSong>,
    pub banks: Vec<Vec<Def>>,
}

pub fn manifest_of(banks: &[Vec<Def>]) -> Manifest {
    let mut m = Manifest::single_song(Path::new("song0.json"));
    for b in 0..3 {
        let bank: &mut Bank = &mut m.banks[b];
        bank.name = NAMES[b].into();
        bank.songs = banks[b]
            .iter()
            .map(|d| {
                let mut s = match d.song {
                    Some(n) => midi2spc::manifest::Song::default(&PathBuf::from(format!("song{}.json", n))),
                    None => midi2spc::manifest::Song::empty(),
                };
                s.tempo_factor = 0.2;
                s.loops = d.loops;
                s
            })
            .collect();
    }
    m
}

pub fn build(rom: &Path, case: &Case, verbose: bool) -> Result<(), String> {
    let songs = &case.songs;
    let conv = move |p: &Path, _f: f32| -> Result<Song, Error> {
        let n: usize = p.to_str().unwrap().trim_start_matches("song").trim_end_matches(".json").parse().unwrap();
        Ok(songs[n].song())
    };
    let m = manifest_of(&case.banks);
    let base = case.spec.base;
    match guarded(|| rom::write(&m, rom, base, &conv, verbose)) {
        Err(p) => Err(format!("(panic) {}", p)),
        Ok(r) => r.map_err(|e| e.to_string()),
    }
}

/// Placement in order: does every bank fit?  None: not specified.
pub fn fits(case: &Case) -> Vec<Option<bool>> {
    let sizes: Vec<Vec<usize>> = case.songs.iter().map(|s| s.sizes()).collect();
    (0..3)
        .map(|b| {
            let a = match case.spec.area(b) {
                None => return Some(false),
                Some(a) => a,
            };
            let (mut off, mut cap, mut over) = (FIRST_DATA[b], a.main_len, false);
            let mut place = |n: usize| -> bool {
                if off + n > cap {
                    if over || n > a.over_len {
                        return false;
                    }
                    over = true;
                    off = 0;
                    cap = a.over_len;
                }
                off += n;
                true
            };
            let mut ok = true;
            'all: for d in &case.banks[b] {
                if !place(if d.loops { 24 } else { 20 }) {
                    ok = false;
                    break;
                }
                if let Some(s) = d.song {
                    for n in &sizes[s] {
                        if *n > 0 && !place(*n) {
                            ok = false;
                            break 'all;
                        }
                    }
                }
            }
            if a.last {
                // a main chunk without one after it: only a bank that fits it must be accepted or refused
                return None;
            }
            Some(ok)
        })
        .collect()
}

/// audio memory after the chunks of a bank have been loaded
pub struct Aram(pub Vec<Option<u8>>);
impl Aram {
    pub fn load(rom: &[u8], base: u32) -> Result<Aram, String> {
        let p = |o: u32| rom.get(pc(base + o)).cloned().ok_or("pointer outside the ROM".to_string());
        let a = (p(8)? as u32) << 16 | (p(4)? as u32) << 8 | p(0)? as u32;
        let mut at = pc(a);
        let mut m = vec![None; 0x10000];
        loop {
            let h = rom.get(at..at + 4).ok_or("chunk outside the ROM")?;
            let (len, aram) = (h[0] as usize | (h[1] as usize) << 8, h[2] as usize | (h[3] as usize) << 8);
            if len == 0 {
                return Ok(Aram(m));
            }
            let d = rom.get(at + 4..at + 4 + len).ok_or("chunk outside the ROM")?;
            for (i, x) in d.iter().enumerate() {
                m[(aram + i) & 0xffff] = Some(*x);
            }
            at += 4 + len;
        }
    }
    pub fn word(&self, a: usize) -> Result<usize, String> {
        Ok(self.get(a)? as usize | (self.get(a + 1)? as usize) << 8)
    }
}
impl Mem for Aram {
    fn get(&self, a: usize) -> Result<u8, String> {
        self.0.get(a).cloned().unwrap_or(None).ok_or_else(|| format!("{:#x} is not loaded", a))
    }
    fn target(&self, a: usize) -> Result<usize, String> {
        self.word(a + 1)
    }
}

/// what a slot plays
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Slot {
    pub loops: bool,
    /// the looping song jumps to its own start
    pub own: bool,
    /// per channel; None: silent
    pub chans: Vec<Option<Vec<It>>>,
}
pub fn play_slot(m: &Aram, slot: usize) -> Result<Slot, String> {
    let song = m.word(0xd000 + slot * 2)?;
    if song == 0 {
        return Err("no song".into());
    }
    let part = m.word(song)?;
    if part < 0x100 {
        return Err(format!("song at {:#x} has no part", song));
    }
    let n = m.word(song + 2)?;
    let (loops, own) = match n {
        0 => (false, false),
        0xff => {
            let t = m.word(song + 4)?;
            if m.word(song + 6)? != 0 {
                return Err("part list goes on after its loop".into());
            }
            (true, t == song)
        }
        x => return Err(format!("second entry of the part list is {:#x}", x)),
    };
    let mut chans = vec![];
    for c in 0..8 {
        let t = m.word(part + 2 * c)?;
        chans.push(if t == 0 {
            None
        } else {
            let mut out = vec![];
            read_stream(m, t, &mut Force { dur: None, vq: None }, &mut out, 0, &mut vec![]).map_err(|e| format!("channel {} at {:#x}: {}", c, t, e))?;
            Some(out)
        });
    }
    Ok(Slot { loops, own, chans })
}
pub fn play_all(rom: &[u8], base: [u32; 3], counts: &[usize]) -> Result<Vec<Slot>, String> {
    let mut v = vec![];
    let mut slot = 0;
    for b in 0..3 {
        let m = Aram::load(rom, base[b])?;
        for _ in 0..counts[b] {
            v.push(play_slot(&m, slot).map_err(|e| format!("slot {} ({}): {}", slot, NAMES[b], e))?);
            slot += 1;
        }
    }
    Ok(v)
}
pub fn expect_slot(d: &Def, songs: &[RSong]) -> Slot {
    let mut chans: Vec<Option<Vec<It>>> = vec![None; 8];
    if let Some(s) = d.song {
        let s = &songs[s];
        for i in 0..s.parts.len() {
            if !s.tracks[s.parts[i]].is_empty() {
                chans[i] = Some(expect_part(&s.parts, &s.tracks, i));
            }
        }
    }
    Slot { loops: d.loops, own: d.loops, chans }
}

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Play,
    Areas,
    Fit,
    Header,
}

pub fn check_case(cx: &mut Ctx, case: &Case, what: What) -> Res {
    cx.desc(|| format!("chains {:?}, banks {:?}, songs {:?}", case.spec.chains, case.banks, case.songs.iter().map(|s| s.sizes()).collect::<Vec<_>>()));
    let p = cx.path("rom.smc");
    let before = case.spec.bytes();
    std::fs::write(&p, &before).unwrap();
    let r = build(&p, case, false);
    let after = std::fs::read(&p).map_err(|e| e.to_string())?;
    let f = fits(case);
    cx.state(&(&f, r.is_ok(), &case.spec, &case.banks));
    if what == What::Fit {
        if let Err(e) = &r {
            if after != before {
                return Err(format!("the build fails ({}), but the ROM has changed", e));
            }
            if e.starts_with("(panic)") {
                return Err(format!("the build does not report an error: {}", e));
            }
            if f.iter().all(|x| *x == Some(true)) {
                return Err(format!("everything fits, but the build fails: {}", e));
            }
            let named = (0..3).any(|b| f[b] != Some(true) && e.to_lowercase().contains(NAMES[b]));
            if !named {
                return Err(format!("the error does not name the bank that does not fit ({:?}): {}", f, e));
            }
        } else if f.iter().any(|x| *x == Some(false)) {
            return Err(format!("the build succeeds, but not everything fits ({:?})", f));
        }
        return Ok(Out::Ok(hash(&(r.is_ok(), f))));
    }
    if let Err(e) = r {
        if e.starts_with("(panic)") {
            return Err(e);
        }
        // whether it may fail is another property's question
        return if what == What::Areas && after != before { Err(format!("a failed build ({}) changed the ROM", e)) } else { Ok(Out::Ok(0)) };
    }
    let counts: Vec<usize> = case.banks.iter().map(|b| b.len()).collect();
    match what {
        What::Play => {
            let got = play_all(&after, case.spec.base, &counts)?;
            let want: Vec<Slot> = case.banks.iter().flatten().map(|d| expect_slot(d, &case.songs)).collect();
            for i in 0..want.len() {
                if got[i].chans != want[i].chans {
                    return Err(format!("slot {} plays {:?} instead of {:?}", i, got[i].chans, want[i].chans));
                }
            }
            Ok(Out::Ok(hash(&after)))
        }
        What::Areas => {
            if after.len() != before.len() {
                return Err(format!("the ROM's length changes from {} to {}", before.len(), after.len()));
            }
            let mut may = vec![false; before.len()];
            let mut first = 0;
            for b in 0..3 {
                let a = case.spec.area(b).ok_or("built without a main chunk")?;
                for i in a.main..a.main + a.main_len {
                    may[i] = true;
                }
                for i in a.over..a.over + a.over_len {
                    may[i] = true;
                }
                for i in a.main..(a.main + first * 2).min(a.main + FIRST_DATA[b]) {
                    may[i] = false;
                }
                first += counts[b];
            }
            if let Some(i) = (0..before.len()).find(|&i| before[i] != after[i] && !may[i]) {
                return Err(format!("byte {:#x} changes from {:#x} to {:#x}", i, before[i], after[i]));
            }
            Ok(Out::Ok(hash(&after)))
        }
        What::Header => {
            let got = play_all(&after, case.spec.base, &counts)?;
            let mut slot = 0;
            for b in 0..3 {
                let m = Aram::load(&after, case.spec.base[b])?;
                for d in &case.banks[b] {
                    let g = &got[slot];
                    if g.loops != d.loops {
                        return Err(format!("slot {} loops: {}, asked for {}", slot, g.loops, d.loops));
                    }
                    if g.loops && !g.own {
                        return Err(format!("slot {} does not jump back to its own start", slot));
                    }
                    let e = expect_slot(d, &case.songs);
                    let (gs, es): (Vec<bool>, Vec<bool>) = (g.chans.iter().map(|c| c.is_some()).collect(), e.chans.iter().map(|c| c.is_some()).collect());
                    if gs != es {
                        return Err(format!("slot {}: channels in use {:?}, song has {:?}", slot, gs, es));
                    }
                    let mut first = true;
                    for c in g.chans.iter().flatten() {
                        let want = preamble(first && g.chans[0].is_some());
                        first = false;
                        if c.len() < want.len() || c[..want.len()] != want[..] {
                            return Err(format!("slot {}: a channel starts with {:?} instead of {:?}", slot, &c[..want.len().min(c.len())], want));
                        }
                    }
                    slot += 1;
                }
                for i in slot * 2..FIRST_DATA[b] {
                    if m.0[0xd000 + i] != Some(0) {
                        return Err(format!("byte {} after the song table of the {} bank is not zero", i, NAMES[b]));
                    }
                }
            }
            Ok(Out::Ok(hash(&after)))
        }
        What::Fit => unreachable!(),
    }
}

fn def(song: Option<usize>, loops: bool) -> Def {
    Def { song, loops }
}

/// data needed in all by a bank's songs
pub fn needed(songs: &[RSong], bank: &[Def]) -> usize {
    bank.iter().map(|d| if d.loops { 24 } else { 20 } + d.song.map_or(0, |s| songs[s].sizes().iter().sum::<usize>())).sum()
}

fn layout_families(thorough: bool, what: What) -> Vec<Family> {
    let mut v = vec![];
    let shapes = q(thorough, 5, 7);
    v.push(famr("every main chunk size", &format!("each bank in turn with every pair of songs of {} shapes (channels, loops, empty channels, silent songs), looping or not, every size of the main chunk from none of the songs to all of them, and overflow chunks that hold all, all but one byte, or just the rest", shapes), move |cx| {
        let bank = cx.choose(3);
        let (a, b) = (cx.choose(shapes + 1), cx.choose(shapes + 1));
        let songs: Vec<RSong> = [a, b].iter().enumerate().filter(|x| *x.1 > 0).map(|(i, k)| shape([0, 3, 2, 5, 4, 1, 6][k - 1], i)).collect();
        let mut defs = vec![];
        let mut n = 0;
        for k in &[a, b] {
            let loops = cx.flag();
            defs.push(def(if *k > 0 { n += 1; Some(n - 1) } else { None }, loops));
        }
        if !cx.thorough && defs[0].loops != defs[1].loops && a != b {
            return Ok(Out::Skip);
        }
        let total = needed(&songs, &defs);
        let step = if cx.thorough || total < 60 { 1 } else { 2 + total / 60 };
        let at = cx.choose(total / step + 3);
        let at = (at * step).min(total + 1);
        let over = match cx.choose(4) {
            0 => total,
            1 => (total - at.min(total)).max(1),
            2 => (total - at.min(total)).saturating_sub(1).max(1),
            _ => 20,
        };
        let mut lens = [(0x100, 40); 3];
        lens[bank] = (FIRST_DATA[bank] + at, over);
        let mut banks = vec![vec![def(None, false)]; 3];
        banks[bank] = defs;
        check_case(cx, &Case { spec: RomSpec::new(lens), songs, banks }, what)
    }));
    v.push(famr("every overflow chunk size", "three songs with loops in one bank, main chunk sizes at every track boundary (and one byte to each side), every overflow chunk size from one byte to all of the data", move |cx| {
        let kind = cx.choose(3);
        let songs: Vec<RSong> = [[0, 2, 1], [3, 5, 0], [2, 3, 6]][kind].iter().enumerate().map(|(i, k)| shape(*k, i)).collect();
        let bank = if cx.thorough { cx.choose(3) } else { kind };
        let defs: Vec<Def> = (0..3).map(|i| def(Some(i), i != 1)).collect();
        let mut cuts = vec![0];
        for d in &defs {
            let h = if d.loops { 24 } else { 20 };
            let l = *cuts.last().unwrap();
            cuts.push(l + h);
            for n in songs[d.song.unwrap()].sizes() {
                let l = *cuts.last().unwrap();
                cuts.push(l + n);
            }
        }
        let total = *cuts.last().unwrap();
        let at = cx.pick(&cuts) + cx.choose(3);
        let at = at.saturating_sub(1);
        let over = 1 + cx.choose(total + 1);
        if !cx.thorough && over > 60 && over % 3 != 0 && over + 3 < total.saturating_sub(at) {
            return Ok(Out::Skip);
        }
        let mut lens = [(0x100, 40); 3];
        lens[bank] = (FIRST_DATA[bank] + at, over);
        let mut banks = vec![vec![def(None, true)]; 3];
        banks[bank] = defs;
        check_case(cx, &Case { spec: RomSpec::new(lens), songs, banks }, what)
    }));
    v.push(famr("numbers of songs", "0 to 4 songs in each of the first two banks and 0 to 3 in the last, of different shapes, in large and in tight chunks", move |cx| {
        let counts = [cx.choose(5), cx.choose(5), cx.choose(4)];
        let tight = cx.choose(3);
        let songs: Vec<RSong> = (0..6).map(|k| shape(k, k)).collect();
        let mut k = 0;
        let banks: Vec<Vec<Def>> = counts
            .iter()
            .map(|n| {
                (0..*n)
                    .map(|_| {
                        k += 1;
                        def(if k % 5 == 4 { None } else { Some(k % 6) }, k % 3 > 0)
                    })
                    .collect()
            })
            .collect();
        let mut lens = [(0, 0); 3];
        for b in 0..3 {
            let n = needed(&songs, &banks[b]);
            lens[b] = match tight {
                0 => (FIRST_DATA[b] + n + 100, 100),
                1 => (FIRST_DATA[b] + n, 1),
                _ => (FIRST_DATA[b] + n / 2, n.max(1)),
            };
        }
        check_case(cx, &Case { spec: RomSpec::new(lens), songs, banks }, what)
    }));
    v.push(famr("full banks", "15, 16 and 3 songs of up to seven shapes in every rotation, in chunks of the game's sizes and in chunks that split at every song", move |cx| {
        let rot = cx.choose(7);
        let big = cx.choose(2);
        let cut = cx.choose(20);
        let songs: Vec<RSong> = (0..34).map(|i| shape(if big == 1 && i % 5 == 2 { 7 } else { (i + rot) % 7 }, i)).collect();
        let mut k = 0;
        let banks: Vec<Vec<Def>> = [15, 16, 3]
            .iter()
            .map(|n| {
                (0..*n)
                    .map(|_| {
                        k += 1;
                        def(Some(k - 1), (k + rot) % 3 > 0)
                    })
                    .collect()
            })
            .collect();
        let mut lens = [(11694, 1672), (11455, 1292), (4192, 4152)];
        if cut > 0 {
            for b in 0..3 {
                let n = needed(&songs, &banks[b]);
                lens[b] = (FIRST_DATA[b] + n * cut / 20, n * (20 - cut) / 20 + if cut % 3 == 0 { 400 } else { 0 });
            }
        }
        check_case(cx, &Case { spec: RomSpec::new(lens), songs, banks }, what)
    }));
    v.push(famr("chains", "the main chunk at every place of chains of one to four chunks at various audio addresses and sizes, in every bank, with the songs in the main chunk, split, or too big", move |cx| {
        let len = 1 + cx.choose(4);
        let place = cx.choose(len);
        let bank = cx.choose(3);
        let fit = cx.choose(3);
        let aram = cx.pick(&[0x2b00u16, 0x2900, 0xcf00, 0xd100, 0x0200, 0xff00]);
        let songs = vec![shape(3, 0), shape(1, 1)];
        let defs = vec![def(Some(0), true), def(Some(1), false)];
        let n = needed(&songs, &defs);
        let mut chunks = vec![];
        for i in 0..len {
            if i == place {
                chunks.push((0xd000, FIRST_DATA[bank] + match fit { 0 => n, 1 => n / 2, _ => 30 }));
            } else if i == place + 1 {
                // audio addresses do not wrap around
                chunks.push((aram, match fit { 0 => 5, 1 => n.min(0x100), _ => n / 2 }));
            } else {
                chunks.push((0x3c00 + i as u16 * 0x100, 7 + 20 * i));
            }
        }
        let mut spec = RomSpec::new([(0x100, 40); 3]);
        spec.size = 0x4000;
        spec.chains[bank] = Chain { at: 0x2800, chunks };
        let mut banks = vec![vec![def(None, false)]; 3];
        banks[bank] = defs;
        check_case(cx, &Case { spec, songs, banks }, what)
    }));
    v.push(famr("large songs", "songs with a loop call behind up to 40 KB of data and songs with up to 400 loops, in each bank, in the main chunk, in the overflow chunk (up to 41 KB), or split, or one byte too large", move |cx| {
        let bank = cx.choose(3);
        let place = cx.choose(5);
        let s = if cx.flag() {
            let n = cx.pick(&[20usize, 110, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 250, 254, 255, 256, 2000, 2040, 4080, 5000, 0x3ff8, 0x3ffc, 0x4000, 0x4004, 19000]);
            RSong { parts: vec![0], tracks: large(n, 1, 0) }
        } else {
            let n = cx.pick(&[3usize, 100, 127, 128, 254, 255, 256, 257, 400]);
            let c = 1 + cx.choose(3);
            RSong { parts: (0..c).collect(), tracks: large(3, n, c) }
        };
        let songs = vec![s, shape(2, 3)];
        let defs = vec![def(Some(0), true), def(Some(1), false)];
        let n = needed(&songs, &defs);
        let head = FIRST_DATA[bank];
        let (m, o) = match place {
            0 => (head + n, 30),
            1 => (head + 24, n - 24),
            2 => (head, n),
            3 => (head + n / 2, n),
            _ => (head, n - 1),
        };
        // audio memory ends at 0x10000, and the overflow chunk must not reach the main chunk
        if m > 0x3000 || o > 0xd000 - 0x2b00 {
            return Ok(Out::Skip);
        }
        let mut spec = RomSpec::new([(0x100, 40); 3]);
        spec.size = 0x18000;
        spec.chains[bank] = Chain { at: 0x4000, chunks: vec![(0x3f00, 3), (0xd000, m), (0x2b00, o), (0x0a00, 5)] };
        let mut banks = vec![vec![def(None, false)]; 3];
        banks[bank] = defs;
        check_case(cx, &Case { spec, songs, banks }, what)
    }));
    v.push(famr("ROM sizes", SIZES, move |cx| {
        let spec = rom_sizes(cx);
        let songs = vec![shape(3, 0), shape(1, 1), shape(0, 2), shape(2, 3)];
        let banks = vec![vec![def(Some(0), true), def(Some(1), false)], vec![def(Some(2), true)], vec![def(Some(3), true)]];
        check_case(cx, &Case { spec, songs, banks }, what)
    }));
    v.push(famr("three chains", THREE, move |cx| {
        let spec = match three_chains(cx) {
            None => return Ok(Out::Skip),
            Some(s) => s,
        };
        let songs = vec![shape(3, 0), shape(1, 1), shape(0, 2), shape(2, 3)];
        let banks = vec![vec![def(Some(0), true), def(Some(1), false)], vec![def(Some(2), true)], vec![def(Some(3), true)]];
        check_case(cx, &Case { spec, songs, banks }, what)
    }));
    v.push(famr("overflow addresses", "overflow chunks at 1030 audio addresses from 0200 to CFF0 (every high byte with five low bytes), in each bank, with songs split before a song, before a track or inside a song", move |cx| {
        let hi = 2 + cx.choose(0xce);
        let lo = cx.pick(&[0usize, 1, 0x10, 0x80, 0xf0]);
        let bank = cx.choose(3);
        let cut = cx.choose(3);
        let songs = vec![shape(3, 0), shape(1, 1), shape(5, 2)];
        let defs = vec![def(Some(0), hi % 2 == 0), def(Some(1), lo > 0), def(Some(2), true)];
        let n = needed(&songs, &defs);
        let over = n.min(0xd000 - (hi << 8 | lo));
        let first = needed(&songs, &defs[..1]);
        let main = FIRST_DATA[bank] + [first, first + 24, n - 9][cut];
        let mut spec = RomSpec::new([(0x100, 40); 3]);
        spec.size = 0x4000;
        spec.chains[bank] = Chain { at: 0x2800, chunks: vec![(0xd000, main), ((hi << 8 | lo) as u16, over)] };
        let mut banks = vec![vec![def(None, false)]; 3];
        banks[bank] = defs;
        check_case(cx, &Case { spec, songs, banks }, what)
    }));
    v.push(famr("ROM contents", "ROMs full of zeros, of FF, of counted bytes, or of zeros and D0 before the build, with each bank's songs in the main chunk, split at any of 20 places, or too large, and songs of every shape", move |cx| {
        let fill = 1 + cx.choose(4) as u8;
        let bank = cx.choose(3);
        let cut = cx.choose(21);
        let short = cx.choose(3);
        let k = cx.choose(8);
        let songs = vec![shape(k, 0), shape((k + 3) % 8, 1)];
        let defs = vec![def(Some(0), k % 2 == 0), def(None, true), def(Some(1), k % 3 == 0)];
        let n = needed(&songs, &defs);
        let main = FIRST_DATA[bank] + n * cut / 20;
        let over = match short {
            0 => n,
            1 => n - n * cut / 20 + 30,
            _ => 40,
        };
        let mut spec = RomSpec::new([(0x100, 40); 3]);
        spec.size = 0x8000;
        spec.fill = fill;
        spec.chains[bank] = Chain { at: 0x2800, chunks: vec![(0x3f00, 3), (0xd000, main), (0x2b00, over)] };
        let mut banks = vec![vec![def(None, false)]; 3];
        banks[bank] = defs;
        check_case(cx, &Case { spec, songs, banks }, what)
    }));
    if what == What::Play {
        v.push(famr("channels that share tracks", "songs of one to four tracks played by up to eight channels: every assignment for up to four, every one of two tracks for more; in each bank, in the main chunk or split before a track", move |cx| {
            let n = 1 + cx.choose(8);
            let k = if n > 4 { 2 } else { 1 + cx.choose(4) };
            let parts: Vec<usize> = (0..n).map(|_| cx.choose(k)).collect();
            let mut tracks: Vec<Vec<RC>> = (0..k).map(|i| vec![RC::N(0x90 + i as u8, 5, Some((5, 5)))]).collect();
            if k > 1 && cx.flag() {
                tracks[0].push(RC::Call(k, 2));
                tracks[1].push(RC::Call(k, 3));
                tracks.push(vec![RC::N(0xa0, 9, Some((3, 3)))]);
            }
            let bank = cx.choose(3);
            let songs = vec![RSong { parts, tracks }];
            let mut banks = vec![vec![def(None, false)]; 3];
            banks[bank] = vec![def(Some(0), n % 2 == 0), def(None, true), def(Some(0), true)];
            let mut lens = [(0x100, 40); 3];
            let total = needed(&songs, &banks[bank]);
            let cut = cx.choose(3);
            lens[bank] = (FIRST_DATA[bank] + [total, 24 + songs[0].sizes()[0], total - 9][cut], total);
            check_case(cx, &Case { spec: RomSpec::new(lens), songs, banks }, what)
        }));
    }
    if what == What::Header {
        v.push(famr("channels", "songs of one to eight channels, each empty or not, looping or not, in each bank", move |cx| {
            let n = 1 + cx.choose(8);
            let mut tracks = vec![];
            for i in 0..n {
                tracks.push(if i > 0 && i < 6 && cx.flag() { vec![] } else { vec![RC::N(0x90 + i as u8, 5, Some((5, 5)))] });
            }
            let loops = cx.flag();
            let bank = cx.choose(3);
            let songs = vec![RSong { parts: (0..n).collect(), tracks }];
            let mut banks = vec![vec![def(None, false)]; 3];
            banks[bank] = vec![def(Some(0), loops), def(None, loops)];
            check_case(cx, &Case { spec: RomSpec::new([(0x200, 40); 3]), songs, banks }, what)
        }));
        v.push(famr("channel orders", "songs of up to four tracks whose channels are any ordered selection of them (the other tracks being loops or unused), each track empty or not, looping or not, in each bank", move |cx| {
            let n = 1 + cx.choose(4);
            let mut left: Vec<usize> = (0..n).collect();
            let mut parts = vec![];
            while !left.is_empty() {
                let k = cx.choose(left.len() + if parts.is_empty() { 0 } else { 1 });
                if k == left.len() {
                    break;
                }
                parts.push(left.remove(k));
            }
            // a channel calls the first track left over
            let call = match left.first() {
                Some(l) if cx.flag() => Some(*l),
                _ => None,
            };
            let empty = cx.choose(parts.len() + 1);
            let mut tracks: Vec<Vec<RC>> = (0..n).map(|i| vec![RC::N(0x90 + i as u8, 5, Some((5, 5)))]).collect();
            if empty > 0 && n > 1 {
                tracks[parts[empty - 1]].clear();
            }
            if let Some(l) = call {
                if empty != parts.len() {
                    let last = *parts.last().unwrap();
                    tracks[last].push(RC::Call(l, 2));
                }
            }
            let loops = cx.flag();
            let bank = cx.choose(3);
            let songs = vec![RSong { parts, tracks }];
            let mut banks = vec![vec![def(None, false)]; 3];
            banks[bank] = vec![def(Some(0), loops), def(None, loops), def(Some(0), !loops)];
            check_case(cx, &Case { spec: RomSpec::new([(0x200, 40); 3]), songs, banks }, what)
        }));
    }
    v.push(crate::p_real::builds(what));
    v
}

pub fn c18(thorough: bool) -> Vec<Family> {
    let mut v = layout_families(thorough, What::Play);
    v.push(crate::p_use::shared_files());
    v
}
pub fn c19(thorough: bool) -> Vec<Family> {
    layout_families(thorough, What::Areas)
}
pub fn c20(thorough: bool) -> Vec<Family> {
    layout_families(thorough, What::Fit)
}
pub fn c26(thorough: bool) -> Vec<Family> {
    layout_families(thorough, What::Header)
}

// ------------------------------------------------------------------------------------------------ C23

pub fn c23(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let n = q(thorough, 4, 5);
    v.push(famr("build sequences", &format!("every sequence of {} builds from eight song lists (short, long, split, looping or not, silent, too big) into one ROM, then the last one once more", n), move |cx| {
        let songs: Vec<RSong> = (0..7).map(|k| shape(k, k)).collect();
        let list = |k: usize| -> Vec<Vec<Def>> {
            match k {
                0 => vec![vec![def(Some(0), true), def(Some(1), false)], vec![def(Some(2), true)], vec![def(Some(3), false)]],
                1 => vec![vec![def(Some(6), true), def(Some(3), true), def(Some(2), true)], vec![def(Some(1), false), def(None, false)], vec![def(Some(5), true), def(Some(4), true)]],
                2 => vec![vec![def(None, false); 2], vec![def(None, true); 1], vec![def(None, false)]],
                // splits every bank
                3 => vec![vec![def(Some(6), false), def(Some(6), true)], vec![def(Some(6), true), def(Some(2), true)], vec![def(Some(6), true), def(Some(3), true)]],
                // does not fit
                4 => vec![vec![def(Some(0), false)], vec![def(Some(6), false); 4], vec![]],
                5 => vec![vec![], vec![def(Some(5), true)], vec![def(Some(5), false); 2]],
                6 => vec![vec![def(Some(3), true)], vec![], vec![def(Some(0), true)]],
                _ => vec![vec![def(Some(2), false); 4], vec![def(Some(0), true); 3], vec![]],
            }
        };
        let spec = RomSpec::new([(FIRST_DATA[0] + 210, 240), (FIRST_DATA[1] + 190, 180), (FIRST_DATA[2] + 150, 260)]);
        let p = cx.path("rom.smc");
        let before = spec.bytes();
        std::fs::write(&p, &before).unwrap();
        let mut last = None;
        let mut hist = vec![];
        for _ in 0..n {
            let k = cx.choose(9);
            if k == 8 {
                break;
            }
            hist.push(k);
            let case = Case { spec: spec.clone(), songs: songs.clone(), banks: list(k) };
            let was = std::fs::read(&p).unwrap();
            match build(&p, &case, false) {
                Ok(()) => last = Some(k),
                Err(e) if e.starts_with("(panic)") => return Err(e),
                Err(_) => {
                    if std::fs::read(&p).unwrap() != was {
                        return Err("a failed build changed the ROM".into());
                    }
                }
            }
            cx.state(&(&hist, last));
        }
        cx.desc(|| format!("song lists {:?}", hist));
        let k = match last {
            None => return Ok(Out::Skip),
            Some(k) => k,
        };
        let case = Case { spec: spec.clone(), songs: songs.clone(), banks: list(k) };
        let counts: Vec<usize> = case.banks.iter().map(|b| b.len()).collect();
        let now = std::fs::read(&p).unwrap();
        build(&p, &case, false)?;
        if std::fs::read(&p).unwrap() != now {
            return Err("building the same songs again changes the ROM".into());
        }
        let p2 = cx.path("fresh.smc");
        std::fs::write(&p2, &before).unwrap();
        build(&p2, &case, false)?;
        let fresh = std::fs::read(&p2).unwrap();
        if now.len() != fresh.len() {
            return Err("the ROM's length depends on earlier builds".into());
        }
        let (a, b) = (play_all(&now, spec.base, &counts)?, play_all(&fresh, spec.base, &counts)?);
        for i in 0..a.len() {
            if a[i] != b[i] {
                return Err(format!("slot {} plays {:?} after earlier builds and {:?} without them", i, a[i], b[i]));
            }
        }
        Ok(Out::Ok(hash(&now)))
    }));
    v.push(famr("pairs of builds", &format!("every ordered pair of song lists of 81 (two songs of nine kinds: silent, one to eight channels, empty channels, loops, long; looping or not by turns) in each bank, one built after the other with the main chunk holding {} of the songs, the last one twice", if thorough { "0 to 10 tenths" } else { "3 or 7 tenths" }), move |cx| {
        let bank = cx.choose(3);
        let (a, b) = (cx.choose(81), cx.choose(81));
        let cut = if cx.thorough { cx.choose(11) } else { cx.pick(&[3usize, 7]) };
        let songs: Vec<RSong> = (0..16).map(|k| shape(k % 8, k)).collect();
        let list = |x: usize, second: bool| -> Vec<Def> {
            let s = |k: usize| k.checked_sub(1).map(|k| k + if second { 8 } else { 0 });
            vec![def(s(x % 9), x % 2 == 0), def(s(x / 9), x % 3 > 0)]
        };
        let n = needed(&songs, &list(a, false)).max(needed(&songs, &list(b, true)));
        let mut lens = [(0x100, 80); 3];
        lens[bank] = (FIRST_DATA[bank] + n * cut / 10, n);
        let spec = RomSpec::new(lens);
        let case = |l: Vec<Def>| -> Case {
            let mut banks = vec![vec![def(None, false)]; 3];
            banks[bank] = l;
            Case { spec: spec.clone(), songs: songs.clone(), banks }
        };
        cx.state(&(bank, a, b, cut));
        cx.desc(|| format!("{:?} after {:?}, chunks {:?}", list(b, true), list(a, false), lens));
        let p = cx.path("rom.smc");
        std::fs::write(&p, spec.bytes()).unwrap();
        build(&p, &case(list(a, false)), false)?;
        let c = case(list(b, true));
        build(&p, &c, false)?;
        let now = std::fs::read(&p).unwrap();
        build(&p, &c, false)?;
        if std::fs::read(&p).unwrap() != now {
            return Err("building the same songs again changes the ROM".into());
        }
        let counts: Vec<usize> = c.banks.iter().map(|b| b.len()).collect();
        let got = play_all(&now, spec.base, &counts)?;
        let want: Vec<Slot> = c.banks.iter().flatten().map(|d| expect_slot(d, &songs)).collect();
        if got != want {
            return Err(format!("plays {:?} instead of {:?}", got, want));
        }
        Ok(Out::Ok(hash(&now)))
    }));
    v.push(famr("full manifests", "two builds in a row of full banks in different rotations and sizes into a ROM of the game's layout, each once more", |cx| {
        let spec = RomSpec::new([(11694, 1672), (11455, 1292), (4192, 4152)]);
        let p = cx.path("rom.smc");
        std::fs::write(&p, spec.bytes()).unwrap();
        let mut prints = vec![];
        for _ in 0..2 {
            let rot = cx.choose(7);
            let big = cx.choose(2);
            let songs: Vec<RSong> = (0..34).map(|i| shape(if big == 1 && i % 5 == 2 { 7 } else { (i + rot) % 7 }, i + rot)).collect();
            let mut k = 0;
            let banks: Vec<Vec<Def>> = [15, 16, 3].iter().map(|n| (0..*n).map(|_| { k += 1; def(Some(k - 1), (k + rot) % 3 > 0) }).collect()).collect();
            let want: Vec<Slot> = banks.iter().flatten().map(|d| expect_slot(d, &songs)).collect();
            let case = Case { spec: spec.clone(), songs, banks };
            cx.state(&(rot, big, &prints));
            if build(&p, &case, false).is_err() {
                return Ok(Out::Skip);
            }
            let a = std::fs::read(&p).unwrap();
            build(&p, &case, false)?;
            if std::fs::read(&p).unwrap() != a {
                return Err("building the same songs again changes the ROM".into());
            }
            if play_all(&a, spec.base, &[15, 16, 3])? != want {
                return Err("a slot does not play its song of the last build".into());
            }
            prints.push(hash(&a));
        }
        Ok(Out::Ok(hash(&prints)))
    }));
    v
}

// ------------------------------------------------------------------------------------------------ C25

/// the slots of a single-song command
fn single(all: bool) -> Vec<Vec<Def>> {
    [15usize, 16, 3].iter().enumerate().map(|(b, n)| (0..*n).map(|i| if all || b == 0 && i == 10 { def(Some(0), true) } else { def(None, false) }).collect()).collect()
}
fn judge_single(rom: &[u8], case: &Case) -> Res {
    let got = play_all(rom, case.spec.base, &[15, 16, 3])?;
    for (i, d) in case.banks.iter().flatten().enumerate() {
        let g = &got[i];
        if d.song.is_some() {
            if *g != expect_slot(d, &case.songs) {
                return Err(format!("slot {} plays {:?} instead of the song", i, g));
            }
        } else {
            let silent = g.chans.iter().flatten().all(|c| !c.iter().any(|x| if let It::Note { .. } = x { true } else { false }));
            if g.loops || !silent {
                return Err(format!("slot {} is no silent song that ends: {:?}", i, g));
            }
        }
    }
    Ok(Out::Ok(hash(&got)))
}

pub fn c25(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    v.push(famr("songs", "songs of nine shapes (one to eight channels, loops, empty channels, large) with each command, in chunks of the game's sizes, larger and tight ones, from JSON files and through the library's own calls", move |cx| {
        let k = cx.choose(9);
        let all = cx.flag();
        let lib = cx.choose(3);
        let id = cx.choose(if thorough { 15 } else { 3 });
        let s = shape(k, id * 3);
        let size = cx.choose(4);
        let n = needed(&[s.clone()], &[def(Some(0), true)]);
        let lens = match size {
            0 => [(11694, 1672), (11455, 1292), (4192, 4152)],
            1 => [(0x3000, 0x7000); 3],
            2 => [(FIRST_DATA[0] + 15 * n, 1), (FIRST_DATA[1] + 16 * n, 1), (FIRST_DATA[2] + 3 * n, 1)],
            _ => [(FIRST_DATA[0] + 7 * n + 90, 10 * n), (FIRST_DATA[1] + 8 * n + 13, 10 * n), (FIRST_DATA[2] + 2 * n + 5, 2 * n)],
        };
        // audio memory ends at 0x10000
        let lens = [0, 1, 2].map(|b: usize| (lens[b].0.min(0x3000), lens[b].1.min(0x7000)));
        let mut spec = RomSpec::new(lens);
        if lib == 2 {
            spec.base = [0x814, 0x826, 0x832];
        }
        cx.state(&(k, all, lib, id, size));
        cx.desc(|| format!("shape {} all {} library {} sizes {:?}", k, all, lib, lens));
        let rom_p = cx.path("rom.smc");
        std::fs::write(&rom_p, spec.bytes()).unwrap();
        let song_p = cx.path("the song.json");
        std::fs::write(&song_p, song_value(&s.parts, &s.tracks).to_string()).unwrap();
        let sp = song_p.clone();
        let r = guarded(|| {
            if lib > 0 {
                let (a, b) = (song_p.to_str().unwrap(), rom_p.to_str().unwrap());
                if all {
                    midi2spc::write_all_overworld(a, b, spec.base, true, false)
                } else {
                    midi2spc::write_file_select(a, b, spec.base, true, false)
                }
            } else {
                let conv = |p: &Path, f: f32| -> Result<Song, Error> {
                    if p != sp || (f - 0.2).abs() > 1e-6 {
                        return Err(failure::err_msg(format!("asked for {:?} at {}", p, f)));
                    }
                    Ok(s.song())
                };
                if all {
                    rom::write_all_overworld(&song_p, &rom_p, spec.base, &conv, false)
                } else {
                    rom::write_file_select(&song_p, &rom_p, spec.base, &conv, false)
                }
            }
        })?;
        let case = Case { spec: spec.clone(), songs: vec![s], banks: single(all) };
        let f = fits(&case);
        if let Err(e) = r {
            if f.iter().all(|x| *x == Some(true)) {
                return Err(format!("fails: {}", e));
            }
            return Ok(Out::Ok(1));
        }
        judge_single(&std::fs::read(&rom_p).unwrap(), &case)
    }));
    v.push(famr("places", "a song of one to four channels with each command, in main chunks of every size from none to all of the data of the first, second or last bank, overflow chunks of all of it, the rest, or a byte less; after nothing, or after one of the commands has filled the ROM with another song", move |cx| {
        let k = cx.pick(&[0usize, 2, 3, 4]);
        let all = cx.flag();
        let s = shape(k, 1);
        let old = cx.choose(3);
        let b = cx.choose(3);
        let banks = single(all);
        let n = needed(&[s.clone()], &banks[b]);
        if old > 0 && (b + k) % 3 > 0 && !cx.thorough {
            return Ok(Out::Skip);
        }
        let cut = cx.choose(n + 2);
        let rest = cx.choose(3);
        let mut lens = [(0x2400, 0x2400); 3];
        lens[b] = (FIRST_DATA[b] + cut, [n, n.saturating_sub(cut), n.saturating_sub(cut + 1)][rest].max(1));
        let mut spec = RomSpec::new(lens);
        spec.high = old == 1;
        cx.state(&(k, all, old, b, cut, rest));
        cx.desc(|| format!("shape {} all {} before {} bank {} sizes {:?}", k, all, old, b, lens[b]));
        let rom_p = cx.path("rom.smc");
        std::fs::write(&rom_p, spec.bytes()).unwrap();
        let song_p = cx.path("song");
        if old > 0 {
            let o = shape(1, 7);
            let conv = |_: &Path, _: f32| -> Result<Song, Error> { Ok(o.song()) };
            // this may fail, too
            let _ = guarded(|| if old == 1 { rom::write_all_overworld(&song_p, &rom_p, spec.base, &conv, false) } else { rom::write_file_select(&song_p, &rom_p, spec.base, &conv, false) });
        }
        let case = Case { spec: spec.clone(), songs: vec![s], banks };
        let conv = |_: &Path, _: f32| -> Result<Song, Error> { Ok(case.songs[0].song()) };
        let r = guarded(|| if all { rom::write_all_overworld(&song_p, &rom_p, spec.base, &conv, false) } else { rom::write_file_select(&song_p, &rom_p, spec.base, &conv, false) });
        if let Err(e) = r.and_then(|r| r.map_err(|e| e.to_string())) {
            return if fits(&case).iter().all(|x| *x == Some(true)) { Err(format!("fails: {}", e)) } else { Ok(Out::Ok(1)) };
        }
        judge_single(&std::fs::read(&rom_p).unwrap(), &case)
    }));
    v.push(famr("real pieces", "the 34 sample files, converted with and without optimisation, by each command, in chunks larger than they need (all slots: for those that fit 16 times)", move |cx| {
        let opt = cx.flag();
        let all = cx.flag();
        let (name, s) = {
            let c = &crate::p_real::named_songs()[opt as usize];
            if c.is_empty() {
                return Ok(Out::Skip);
            }
            &c[cx.choose(c.len())]
        };
        let spec = RomSpec::new([(0x3000, 0xa000); 3]);
        cx.state(&(opt, all, name));
        cx.desc(|| format!("{} optimised {} all {}", name, opt, all));
        let rom_p = cx.path("rom.smc");
        let mid = cx.path("piece.mid");
        std::fs::write(&rom_p, spec.bytes()).unwrap();
        std::fs::write(&mid, &crate::p_real::reals().iter().find(|r| r.name == *name).unwrap().bytes).unwrap();
        let (a, b) = (mid.to_str().unwrap(), rom_p.to_str().unwrap());
        let case = Case { spec: spec.clone(), songs: vec![s.clone()], banks: single(all) };
        let r = guarded(|| if all { midi2spc::write_all_overworld(a, b, spec.base, opt, false) } else { midi2spc::write_file_select(a, b, spec.base, opt, false) });
        if let Err(e) = r.and_then(|r| r.map_err(|e| e.to_string())) {
            return if fits(&case).iter().all(|x| *x == Some(true)) { Err(format!("fails: {}", e)) } else { Ok(Out::Ok(1)) };
        }
        judge_single(&std::fs::read(&rom_p).unwrap(), &case)
    }));
    v
}

// ------------------------------------------------------------------------------------------------ C28

fn fake_expected(spec: &RomSpec) -> Vec<u8> {
    let rom = spec.bytes();
    let mut o = vec![0u8; rom.len()];
    for b in 0..3 {
        for k in &[0u32, 4, 8] {
            let i = pc(spec.base[b] + k);
            o[i] = rom[i];
        }
        let mut at = spec.chains[b].at;
        loop {
            o[at..at + 4].copy_from_slice(&rom[at..at + 4]);
            let len = rom[at] as usize | (rom[at + 1] as usize) << 8;
            if len == 0 {
                break;
            }
            at += 4 + len;
        }
    }
    o
}

const THREE: &str = "the chains of the three banks at every three of 14 places (equal and different offsets in ROM banks, equal low bytes and equal high bytes, next to each other, across bank borders), of two shapes each with equal lengths and audio addresses, ROM pointers in two places";

/// places that differ in one byte of the address only, and neighbours
const PLACES: [usize; 14] = [0x1000, 0x1100, 0x1280, 0x8000, 0x9000, 0x9100, 0xff80, 0x10000, 0x11000, 0x1100 + 0x10000, 0x17fff, 0x19000, 0x1b000, 0x21000];
fn three_chains(cx: &mut Ctx) -> Option<RomSpec> {
    let mut spec = RomSpec::new([(0x100, 80), (0x100, 80), (0x100, 80)]);
    spec.size = 0x22000;
    spec.high = cx.flag();
    if cx.flag() {
        spec.base = [0x8010, 0x18010, 0x38010];
    }
    let mut used: Vec<(usize, usize)> = spec.base.iter().map(|b| (pc(*b), pc(*b) + 9)).collect();
    for b in 0..3 {
        let at = cx.pick(&PLACES);
        let chunks = if cx.flag() { vec![(0xd000, 0xb0)] } else { vec![(0x4000, 3), (0xd000, 0x8a), (0x2b00, 0x40)] };
        let len = chunks.iter().map(|c| c.1 + 4).sum::<usize>() + 4;
        if used.iter().any(|u| u.0 < at + len && at < u.1) {
            return None;
        }
        used.push((at, at + len));
        spec.chains[b] = Chain { at, chunks };
    }
    Some(spec)
}

const SIZES: &str = "ROMs of 34 sizes from 32 KB to 8 MB (powers of two, 1.5, 2.5, 3, 5 and 6 MB, each also with the 512 bytes of a copier's header, a byte or less than a bank more or less), with the chain of each bank ending at the last byte, short of it or at the ROM's start, and pointers at the ROM's end or its start";

fn rom_sizes(cx: &mut Ctx) -> RomSpec {
    let bank = cx.choose(3);
    let mut sizes: Vec<usize> = vec![];
    for s in &[0x8000usize, 0x10000, 0x40000, 0x80000, 0x100000, 0x180000, 0x200000, 0x280000, 0x300000, 0x400000, 0x500000, 0x600000, 0x800000] {
        sizes.push(*s);
        if *s >= 0x100000 && *s < 0x800000 {
            sizes.push(*s + 0x200);
        }
        if *s == 0x100000 || *s == 0x200000 || *s == 0x400000 {
            sizes.extend(&[*s + 1, *s - 1, *s + 0x4000, *s - 0x200]);
        }
    }
    let size = cx.pick(&sizes);
    let mut spec = RomSpec::new([(0x100, 80), (0x100, 80), (0x100, 80)]);
    spec.size = size;
    let chunks = vec![(0x4000u16, 3usize), (0xd000, FIRST_DATA[bank] + 60), (0x2b00, 160)];
    let len: usize = chunks.iter().map(|c| c.1 + 4).sum::<usize>() + 4;
    match cx.choose(4) {
        0 => spec.chains[bank] = Chain { at: size - len, chunks },
        1 => spec.chains[bank] = Chain { at: size - len - 0x1234, chunks },
        2 => spec.chains[bank] = Chain { at: 0x10, chunks },
        _ => {}
    }
    let c = &spec.chains[bank];
    let end = c.at + len;
    match cx.choose(3) {
        0 => {}
        // the pointers at the very end, if the chain is not there
        1 if end <= size - 0x20 => spec.base[(bank + 1) % 3] = snes(size - 9, true),
        2 if end <= size - 0x20 => spec.base[bank] = snes(size - 9, false),
        _ => spec.base[bank] = snes(0, true),
    }
    spec
}

pub fn c28(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let check = |cx: &mut Ctx, spec: RomSpec, bank: usize, other: usize| -> Res {
        cx.state(&spec);
        cx.desc(|| format!("{:?}, earlier output {}", spec, other));
        let rom_bytes = spec.bytes();
        let (a, b) = (cx.path("real.smc"), cx.path("fake.smc"));
        std::fs::write(&a, &rom_bytes).unwrap();
        let _ = std::fs::remove_file(&b);
        match other {
            1 => std::fs::write(&b, b"").unwrap(),
            2 => std::fs::write(&b, vec![0xaa; 100]).unwrap(),
            3 => std::fs::write(&b, vec![0xaa; spec.size]).unwrap(),
            4 => std::fs::write(&b, vec![0xaa; spec.size + 77]).unwrap(),
            5 => std::fs::write(&b, vec![0xaa; 2 * spec.size]).unwrap(),
            _ => {}
        }
        guarded(|| rom::gen_fake_rom(&a, &b, spec.base))?.map_err(|e| format!("fails: {}", e))?;
        if std::fs::read(&a).unwrap() != rom_bytes {
            return Err("the original ROM has changed".into());
        }
        let got = std::fs::read(&b).unwrap();
        let want = fake_expected(&spec);
        if got.len() != want.len() {
            return Err(format!("the dummy has {} bytes, the original {}", got.len(), want.len()));
        }
        if let Some(i) = (0..want.len()).find(|&i| got[i] != want[i]) {
            return Err(format!("byte {:#x} of the dummy is {:#x} instead of {:#x}", i, got[i], want[i]));
        }
        if spec.area(0).map(|a| a.main) == spec.area(1).map(|a| a.main) || spec.area(1).map(|a| a.main) == spec.area(2).map(|a| a.main) || spec.area(0).map(|a| a.main) == spec.area(2).map(|a| a.main) {
            return Ok(Out::Ok(hash(&got)));
        }
        // builds go the same way in both
        let songs = vec![shape(3, 0), shape(1, 1)];
        let mut banks = vec![vec![def(None, false)]; 3];
        banks[bank] = vec![def(Some(0), true), def(Some(1), false)];
        let case = Case { spec: spec.clone(), songs, banks };
        let (ra, rb) = (build(&a, &case, false), build(&b, &case, false));
        if ra.is_ok() != rb.is_ok() {
            return Err(format!("building into the original: {:?}, into the dummy: {:?}", ra, rb));
        }
        if ra.is_ok() {
            let counts: Vec<usize> = case.banks.iter().map(|b| b.len()).collect();
            let x = play_all(&std::fs::read(&a).unwrap(), spec.base, &counts)?;
            let y = play_all(&std::fs::read(&b).unwrap(), spec.base, &counts)?;
            if x != y {
                return Err("songs built into the dummy play differently".into());
            }
        }
        Ok(Out::Ok(hash(&got)))
    };
    let chains = q(thorough, 4, 5);
    v.push(famr("layouts", &format!("chains of one to {} chunks with the main chunk at every place, several chunk sizes, two banks sharing a chain, chains in several ROM banks, other pointer addresses; earlier output none, shorter, longer, of the same length", chains), move |cx| {
        let len = 1 + cx.choose(chains);
        let place = cx.choose(len);
        let bank = cx.choose(3);
        let big = cx.pick(&[1usize, 0x102, 0x7000, 0x8000, 0x80ff, 0xfffe]);
        let far = cx.choose(3);
        let shared = cx.flag();
        let other = cx.choose(6);
        let mut spec = RomSpec::new([(0x200, 40); 3]);
        spec.size = [0x18000, 0x20000, 0x28001][far];
        if far == 2 {
            spec.base = [0x14, 0x18123, 0x1a000];
        }
        let chunks = (0..len).map(|i| (if i == place { 0xd000 } else { 0x2b00 + 0x300 * i as u16 }, if i == place { 0x180 } else if i == 0 { big } else { 30 + i * 33 })).collect();
        spec.chains[bank] = Chain { at: [0x2800, 0x8000, 0x10004][far], chunks };
        if shared {
            spec.chains[(bank + 1) % 3] = spec.chains[bank].clone();
        }
        check(cx, spec, bank, other)
    }));
    v.push(famr("ROM sizes", SIZES, move |cx| {
        let spec = rom_sizes(cx);
        let (bank, other) = (1, cx.choose(2) * 4);
        check(cx, spec, bank, other)
    }));
    v.push(famr("three chains", THREE, move |cx| {
        let spec = match three_chains(cx) {
            None => return Ok(Out::Skip),
            Some(s) => s,
        };
        check(cx, spec, 0, 0)
    }));
    v
}

// ------------------------------------------------------------------------------------------------ C29

pub fn c29(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let check = |cx: &mut Ctx, spec: RomSpec| -> Res {
        cx.state(&spec);
        cx.desc(|| format!("{:?}", spec));
        let songs = vec![shape(3, 0), shape(1, 1), shape(0, 2), shape(2, 3)];
        let banks = vec![vec![def(Some(0), true), def(Some(1), false)], vec![def(Some(2), true)], vec![def(Some(3), true)]];
        let case = Case { spec: spec.clone(), songs, banks };
        let missing: Vec<usize> = (0..3).filter(|&b| spec.area(b).is_none()).collect();
        let p = cx.path("rom.smc");
        let before = spec.bytes();
        std::fs::write(&p, &before).unwrap();
        let r = build(&p, &case, false);
        let after = std::fs::read(&p).unwrap();
        let f = fits(&case);
        match r {
            Ok(()) => {
                if !missing.is_empty() {
                    return Err("succeeds without a chunk for audio address D000".into());
                }
                let got = play_all(&after, spec.base, &[2, 1, 1])?;
                let want: Vec<Slot> = case.banks.iter().flatten().map(|d| expect_slot(d, &case.songs)).collect();
                if got != want {
                    return Err(format!("plays {:?} instead of {:?}", got, want));
                }
                if after.len() != before.len() {
                    return Err(format!("the ROM's length changes from {} to {}", before.len(), after.len()));
                }
                let areas: Vec<Area> = (0..3).filter_map(|b| spec.area(b)).collect();
                let within = |i: usize| areas.iter().any(|a| (i >= a.main && i < a.main + a.main_len) || (i >= a.over && i < a.over + a.over_len));
                if let Some(i) = (0..before.len()).find(|&i| before[i] != after[i] && !within(i)) {
                    return Err(format!("byte {:#x}, outside the chunks for songs, changes from {:#x} to {:#x}", i, before[i], after[i]));
                }
                Ok(Out::Ok(hash(&after)))
            }
            Err(e) => {
                if after != before {
                    return Err(format!("fails ({}) and changes the ROM", e));
                }
                if e.starts_with("(panic)") {
                    return Err(e);
                }
                if f.iter().all(|x| *x == Some(true)) {
                    return Err(format!("the chunks are there, but the build fails: {}", e));
                }
                if f.iter().any(|x| x.is_none()) && missing.is_empty() {
                    return Ok(Out::Ok(2));
                }
                if !(0..3).any(|b| f[b] != Some(true) && e.to_lowercase().contains(NAMES[b])) {
                    return Err(format!("the error names none of the banks {:?}: {}", missing, e));
                }
                Ok(Out::Ok(1))
            }
        }
    };
    v.push(famr("chain places", "the chain of each bank at every kind of place of eight ROM banks (start, end, across a bank border), in every bank order, with addresses in either form", move |cx| {
        let bank = cx.choose(3);
        let rb = cx.choose(8);
        let within = if cx.thorough { cx.choose(0x8000 / 0x10) * 0x10 + cx.choose(16) % 5 } else { cx.choose(128) * 0x100 + rb };
        let high = cx.flag();
        let mut spec = RomSpec::new([(0x100, 80), (0x100, 80), (0x100, 80)]);
        spec.size = 0x48000;
        spec.high = high;
        let at = rb * 0x8000 + within;
        if at < 0x2000 {
            return Ok(Out::Skip);
        }
        spec.chains[bank] = Chain { at, chunks: vec![(0x4000, 3), (0xd000, FIRST_DATA[bank] + 60), (0x2b00, 160)] };
        check(cx, spec)
    }));
    v.push(famr("ROM sizes", SIZES, move |cx| {
        let spec = rom_sizes(cx);
        check(cx, spec)
    }));
    v.push(famr("three chains", THREE, move |cx| match three_chains(cx) {
        None => Ok(Out::Skip),
        Some(spec) => check(cx, spec),
    }));
    v.push(famr("pointer places", "the pointers of each bank anywhere in eight ROM banks, given with and without bit 15", move |cx| {
        let bank = cx.choose(3);
        let rb = cx.choose(8) as u32;
        let within = if cx.thorough { cx.choose(0x800) as u32 * 0x10 } else { cx.choose(0x80) as u32 * 0x100 + rb * 3 };
        let high = cx.flag();
        let within = within.min(0x7ff7);
        let mut spec = RomSpec::new([(0x100, 80), (0x100, 80), (0x100, 80)]);
        let used = spec.size + 0x100;
        spec.size = 0x40000;
        if rb == 0 && (within as usize) < used {
            return Ok(Out::Skip);
        }
        spec.base[bank] = rb << 16 | within | if high { 0x8000 } else { 0 };
        check(cx, spec)
    }));
    v.push(famr("high banks", "the chain or the pointers of each bank in every bank of a 4 MB ROM (up to 7D), at three places in it", move |cx| {
        let bank = cx.choose(3);
        let rb = cx.choose(0x7e - 4) + 4;
        let within = cx.pick(&[0usize, 0x4321, 0x7e00]);
        let pointers = cx.flag();
        let high = cx.flag();
        let mut spec = RomSpec::new([(0x100, 80), (0x100, 80), (0x100, 80)]);
        spec.size = 0x400000;
        spec.high = high;
        if pointers {
            spec.base[bank] = (rb as u32) << 16 | within as u32 | if high { 0x8000 } else { 0 };
        } else {
            spec.chains[bank] = Chain { at: rb * 0x8000 + within, chunks: vec![(0x4000, 3), (0xd000, FIRST_DATA[bank] + 60), (0x2b00, 160)] };
        }
        check(cx, spec)
    }));
    v.push(famr("pointer distances", "every place of two banks' pointers relative to each other that does not overlap, interleaved or apart", move |cx| {
        let d = 1 + cx.choose(24) as u32;
        let e = 1 + cx.choose(48) as u32;
        let mut spec = RomSpec::new([(0x100, 80), (0x100, 80), (0x100, 80)]);
        spec.base = [0x900, 0x900 + d, 0x900 + e];
        let mut all: Vec<u32> = spec.base.iter().flat_map(|b| vec![*b, b + 4, b + 8]).collect();
        all.sort();
        all.dedup();
        if all.len() < 9 {
            return Ok(Out::Skip);
        }
        check(cx, spec)
    }));
    v.push(famr("chunk lengths", "a chunk of every length of 16 bits' worth of bit patterns (powers of two, their neighbours, sums of two powers) before the main chunk, or as the overflow chunk, in each bank", move |cx| {
        let bank = cx.choose(3);
        let x = 1usize << cx.choose(16);
        let len = match cx.choose(18) {
            0 => x,
            1 => x - 1,
            k => x | 1 << (k - 2),
        };
        let over = cx.flag();
        if len == 0 || over && (len < 160 || len > 0xd000 - 0x0800) {
            return Ok(Out::Skip);
        }
        let mut spec = RomSpec::new([(0x100, 80), (0x100, 80), (0x100, 80)]);
        spec.size = 0x1c000;
        let main = (0xd000, FIRST_DATA[bank] + 60);
        spec.chains[bank] = Chain { at: 0x4000, chunks: if over { vec![(0x0700, 3), main, (0x0800, len)] } else { vec![(0x0700, len), main, (0x2b00, 160)] } };
        check(cx, spec)
    }));
    v.push(famr("main chunk lengths", "main chunks of every length up to 12 KB that is a sum of two powers of two or next to it, in each bank", move |cx| {
        let bank = cx.choose(3);
        let len = (1usize << cx.choose(14)) + (1usize << cx.choose(14)) + cx.choose(3) - 1;
        if len < FIRST_DATA[bank] || len > 0x3000 {
            return Ok(Out::Skip);
        }
        let mut spec = RomSpec::new([(0x100, 80), (0x100, 80), (0x100, 80)]);
        spec.size = 0x1c000;
        spec.chains[bank] = Chain { at: 0x4000, chunks: vec![(0x0700, 3), (0xd000, len), (0x2b00, 160)] };
        check(cx, spec)
    }));
    let n = q(thorough, 3, 4);
    v.push(famr("chains", &format!("chains of 1 to {} chunks with audio addresses 2B00, D000, CFFF, D001, E000, 00D0, 0000, 1D00 in every order in each bank, the songs in the main chunk or split", n), move |cx| {
        let bank = cx.choose(3);
        let len = 1 + cx.choose(n);
        let split = cx.flag();
        let mut chunks: Vec<(u16, usize)> = vec![];
        for _ in 0..len {
            let a = cx.pick(&[0x2b00u16, 0xd000, 0xcfff, 0xd001, 0x00d0, 0x0000, 0x1d00, 0xe000]);
            if a == 0xd000 && chunks.iter().any(|c| c.0 == 0xd000) {
                return Ok(Out::Skip);
            }
            // neighbours of the main chunk must not be loaded over it
            let after_main = chunks.last().map_or(false, |c| c.0 == 0xd000);
            let l = match a {
                0xd000 => FIRST_DATA[bank] + if split { 30 } else { 110 },
                0xcfff => 1,
                _ => if split && after_main { 120 } else { 9 },
            };
            if a == 0x00d0 && l > 9 || a == 0 && l > 9 {
                // would be loaded over the console's registers
                return Ok(Out::Skip);
            }
            chunks.push((a, l));
        }
        let main = chunks.iter().position(|c| c.0 == 0xd000);
        if let Some(m) = main {
            if chunks[m + 1..].iter().any(|c| c.0 == 0xd001) || chunks[..m].iter().any(|_| false) {
                return Ok(Out::Skip);
            }
        }
        // a later chunk must not be loaded over the songs of the next one
        if let Some((a, l)) = main.and_then(|m| chunks.get(m + 1)).cloned() {
            let m = main.unwrap();
            if chunks[m + 2..].iter().any(|c| (c.0 as usize) < a as usize + l && (a as usize) < c.0 as usize + c.1) {
                return Ok(Out::Skip);
            }
        }
        let mut spec = RomSpec::new([(0x200, 80), (0x200, 80), (0x200, 80)]);
        spec.size = 0x6000;
        spec.chains[bank] = Chain { at: 0x4000, chunks };
        check(cx, spec)
    }));
    v
}
