//! Reading of converted songs: the bytes of their tracks as the sound engine reads them.
use midi2spc::midi::MidiHandler;
use midi2spc::nspc::Song;
use std::io::Cursor;
use std::path::Path;

/// number of parameter bytes of the commands E0..FA, as this program defines them
pub const PARAMS: [usize; 27] = [1, 1, 2, 3, 0, 1, 2, 1, 2, 1, 1, 3, 0, 1, 1, 3, 1, 3, 3, 0, 1, 3, 0, 3, 3, 3, 1];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum It {
    Note { byte: u8, dur: u8, vq: Option<u8> },
    Tie { dur: u8, vq: Option<u8> },
    Rest { dur: u8 },
    Cmd { op: u8, p: Vec<u8> },
}

pub struct Asm {
    pub tracks: Vec<(Vec<u8>, Vec<(usize, usize)>)>,
    pub part: Vec<usize>,
}

pub fn write_track(song: &Song, i: usize) -> Result<(Vec<u8>, Vec<(usize, usize)>), String> {
    let mut c = Cursor::new(Vec::new());
    let mut refs = vec![];
    song.write_track(&mut c, i, &mut refs).map_err(|e| format!("write_track failed: {}", e))?;
    Ok((c.into_inner(), refs.iter().map(|r| (r.target_track, r.ref_pos as usize)).collect()))
}

pub fn assemble(song: &Song) -> Result<Asm, String> {
    let mut tracks = vec![];
    for i in 0..song.get_num_tracks() {
        tracks.push(write_track(song, i)?);
    }
    Ok(Asm { tracks, part: song.get_part_tracks(0).to_vec() })
}

#[derive(Clone, Copy)]
pub struct Force {
    pub dur: Option<u8>,
    pub vq: Option<u8>,
}

/// where a reader gets bytes and loop targets from
pub trait Mem {
    fn get(&self, addr: usize) -> Result<u8, String>;
    /// the stream address the loop command at `addr` (its opcode) calls
    fn target(&self, addr: usize) -> Result<usize, String>;
}

const MAX_ITEMS: usize = 2_000_000;

/// Reads a stream from `addr` to its terminator; returns the address after the terminator.
pub fn read_stream<M: Mem>(m: &M, mut addr: usize, f: &mut Force, out: &mut Vec<It>, depth: usize, calls: &mut Vec<(usize, u8)>) -> Result<usize, String> {
    loop {
        if out.len() > MAX_ITEMS {
            return Err("endless track".into());
        }
        let mut b = m.get(addr)?;
        if b == 0 {
            return Ok(addr + 1);
        }
        if b < 0x80 {
            f.dur = Some(b);
            addr += 1;
            b = m.get(addr)?;
            if b < 0x80 {
                f.vq = Some(b);
                addr += 1;
                b = m.get(addr)?;
            }
            if b < 0x80 {
                return Err(format!("no command after the duration at {:#x}", addr));
            }
            if b > 0xc9 {
                // the engine executes the note or command byte that follows
                if b < 0xe0 {
                    return Err(format!("percussion byte {:#x} at {:#x}", b, addr));
                }
            }
        }
        if b <= 0xc9 {
            let dur = f.dur.ok_or_else(|| format!("note without a duration at {:#x}", addr))?;
            addr += 1;
            out.push(match b {
                0xc8 => It::Tie { dur, vq: f.vq },
                0xc9 => It::Rest { dur },
                _ => It::Note { byte: b, dur, vq: f.vq },
            });
            continue;
        }
        if b < 0xe0 || b > 0xfa {
            return Err(format!("byte {:#x} at {:#x} is no command of a converted song", b, addr));
        }
        let n = PARAMS[(b - 0xe0) as usize];
        let mut p = vec![];
        for i in 0..n {
            p.push(m.get(addr + 1 + i)?);
        }
        if b == 0xef {
            let target = m.target(addr)?;
            calls.push((target, p[2]));
            if depth > 0 {
                return Err("loop inside a loop".into());
            }
            if p[2] == 0 {
                return Err("loop called zero times".into());
            }
            for _ in 0..p[2] {
                read_stream(m, target, f, out, depth + 1, calls)?;
            }
        } else {
            out.push(It::Cmd { op: b, p });
        }
        addr += 1 + n;
    }
}

struct AsmMem<'a>(&'a Asm);
const SHIFT: usize = 24;
impl<'a> Mem for AsmMem<'a> {
    fn get(&self, a: usize) -> Result<u8, String> {
        let (t, i) = (a >> SHIFT, a & ((1 << SHIFT) - 1));
        self.0.tracks.get(t).and_then(|t| t.0.get(i)).cloned().ok_or_else(|| format!("track {} runs off its end", t))
    }
    fn target(&self, a: usize) -> Result<usize, String> {
        let (t, i) = (a >> SHIFT, a & ((1 << SHIFT) - 1));
        let r: Vec<_> = self.0.tracks[t].1.iter().filter(|r| r.1 == i + 1).collect();
        if r.len() != 1 {
            return Err(format!("{} references for the loop call at {:#x} of track {}", r.len(), i, t));
        }
        if r[0].0 >= self.0.tracks.len() {
            return Err(format!("loop call to track {} of {}", r[0].0, self.0.tracks.len()));
        }
        Ok(r[0].0 << SHIFT)
    }
}

/// The items a part track plays.
pub fn flatten(asm: &Asm, track: usize) -> Result<Vec<It>, String> {
    let mut out = vec![];
    if asm.tracks[track].0.is_empty() {
        return Ok(out);
    }
    let mut f = Force { dur: None, vq: None };
    let mut calls = vec![];
    let end = read_stream(&AsmMem(asm), track << SHIFT, &mut f, &mut out, 0, &mut calls)? & ((1 << SHIFT) - 1);
    if end != asm.tracks[track].0.len() {
        return Err(format!("track {} has bytes after its terminator", track));
    }
    if calls.len() != asm.tracks[track].1.len() {
        return Err(format!("track {}: {} loop calls, {} references", track, calls.len(), asm.tracks[track].1.len()));
    }
    Ok(out)
}

pub fn flatten_all(song: &Song) -> Result<Vec<Vec<It>>, String> {
    let a = assemble(song)?;
    let mut v = vec![];
    for i in 0..a.tracks.len() {
        // every track, also those only called as loops, is terminated exactly once
        let t = &a.tracks[i].0;
        if !a.part.contains(&i) && !t.is_empty() {
            let mut f = Force { dur: Some(1), vq: None };
            let end = read_stream(&AsmMem(&a), i << SHIFT, &mut f, &mut vec![], 0, &mut vec![])? & ((1 << SHIFT) - 1);
            if end != t.len() {
                return Err(format!("loop track {} has bytes after its terminator", i));
            }
        }
    }
    for &t in &a.part {
        if t >= a.tracks.len() {
            return Err(format!("part names track {} of {}", t, a.tracks.len()));
        }
        v.push(flatten(&a, t)?);
    }
    Ok(v)
}

pub fn total(items: &[It]) -> u64 {
    items
        .iter()
        .map(|i| match i {
            It::Note { dur, .. } | It::Tie { dur, .. } | It::Rest { dur } => *dur as u64,
            _ => 0,
        })
        .sum()
}

/// a note as it is heard on a channel
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Heard {
    pub start: u64,
    /// emitted duration (a folded rest included)
    pub len: u64,
    pub byte: u8,
    pub vel: u8,
    pub gate: u8,
    pub ties: usize,
    pub instr: Option<u8>,
    pub vol: Option<u8>,
    /// reached by a slide
    pub slid: bool,
    /// the item before it is a note or tie
    pub adjoins: bool,
    pub voice: usize,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct CmdAt {
    pub time: u64,
    pub op: u8,
    pub p: Vec<u8>,
    pub voice: usize,
    pub index: usize,
}

/// Notes and commands of one channel.
pub fn hear(items: &[It], voice: usize) -> Result<(Vec<Heard>, Vec<CmdAt>), String> {
    let mut notes: Vec<Heard> = vec![];
    let mut cmds = vec![];
    let (mut t, mut instr, mut vol) = (0u64, None, None);
    let mut slide: Option<u8> = None;
    let mut sounding = false;
    for (index, i) in items.iter().enumerate() {
        match i {
            It::Note { byte, dur, vq } => {
                let vq = vq.ok_or("note without a velocity")?;
                notes.push(Heard { start: t, len: *dur as u64, byte: *byte, vel: vq & 15, gate: vq >> 4, ties: 0, instr, vol, slid: false, adjoins: sounding, voice });
                sounding = true;
                slide = None;
                t += *dur as u64;
            }
            It::Tie { dur, vq } => {
                if !sounding {
                    return Err(format!("tie without a note at {} on channel {}", t, voice));
                }
                if let Some(b) = slide.take() {
                    let vq = vq.ok_or("tie without a velocity")?;
                    notes.push(Heard { start: t, len: *dur as u64, byte: b, vel: vq & 15, gate: vq >> 4, ties: 0, instr, vol, slid: true, adjoins: true, voice });
                } else {
                    let n = notes.last_mut().unwrap();
                    n.len += *dur as u64;
                    n.ties += 1;
                }
                t += *dur as u64;
            }
            It::Rest { dur } => {
                sounding = false;
                slide = None;
                t += *dur as u64;
            }
            It::Cmd { op, p } => {
                match op {
                    0xe0 => instr = Some(p[0]),
                    0xed => vol = Some(p[0]),
                    0xf9 => slide = Some(p[2]),
                    _ => {}
                }
                cmds.push(CmdAt { time: t, op: *op, p: p.clone(), voice, index });
            }
        }
    }
    Ok((notes, cmds))
}

// ------------------------------------------------------------------------------------------ conversion

/// The conversion as the program does it.  Err: the program refused (or panicked).
pub fn convert_at(path: &Path, bytes: &[u8], factor: f32, optimize: bool, verbose: bool) -> Result<Song, String> {
    std::fs::write(path, bytes).unwrap();
    let mut m = MidiHandler::new();
    m.read(path, verbose).map_err(|e| format!("refused: {}", e))?;
    Song::from_midi(&m, factor, optimize, verbose).map_err(|e| format!("refused: {}", e))
}

pub fn song_json(s: &Song) -> String {
    serde_json::to_string(s).unwrap()
}
