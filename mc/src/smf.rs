//! MIDI events, a writer of Standard MIDI Files, and the reference reading of a piece.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    On(u8, u8, u8),
    Off(u8, u8),
    Cc(u8, u8, u8),
    Pc(u8, u8),
    Tempo(u32),
    Poly(u8, u8, u8),
    Press(u8, u8),
    Bend(u8, u8, u8),
    Meta(u8, Vec<u8>),
    /// F0 event with its payload
    Sysex(Vec<u8>),
    /// F7 event with its payload
    Escape(Vec<u8>),
}
pub type Timed = (u32, Ev);
pub type Trk = Vec<Timed>;

impl Ev {
    pub fn ch(&self) -> Option<u8> {
        match *self {
            Ev::On(c, ..) | Ev::Off(c, ..) | Ev::Cc(c, ..) | Ev::Pc(c, ..) | Ev::Poly(c, ..) | Ev::Press(c, ..) | Ev::Bend(c, ..) => Some(c),
            _ => None,
        }
    }
    /// off before other before on, at the same tick
    pub fn prio(&self) -> u8 {
        match *self {
            Ev::Off(..) => 0,
            Ev::On(_, _, 0) => 0,
            Ev::On(..) => 2,
            _ => 1,
        }
    }
}

pub fn vlq(mut v: u32) -> Vec<u8> {
    let mut o = vec![(v & 0x7f) as u8];
    v >>= 7;
    while v > 0 {
        o.insert(0, (v & 0x7f) as u8 | 0x80);
        v >>= 7;
    }
    o
}

#[derive(Clone, Debug)]
pub struct Smf {
    pub format: u16,
    pub tpb: u16,
    pub tracks: Vec<Trk>,
    pub running: bool,
    /// write note-offs as note-ons with velocity 0
    pub vel0: bool,
    /// time of the end-of-track event after the last event
    pub eot: u32,
    /// 0x80 release velocity
    pub off_vel: u8,
}

impl Smf {
    pub fn new(tpb: u16, tracks: Vec<Trk>) -> Smf {
        Smf { format: 1, tpb, tracks, running: false, vel0: false, eot: 0, off_vel: 0 }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = b"MThd\0\0\0\x06".to_vec();
        o.extend(&self.format.to_be_bytes());
        o.extend(&(self.tracks.len() as u16).to_be_bytes());
        o.extend(&self.tpb.to_be_bytes());
        for t in &self.tracks {
            let mut b = vec![];
            let mut last = 0;
            let mut status = 0u8;
            for (t, e) in t {
                b.extend(vlq(t - last));
                last = *t;
                let (st, data): (u8, Vec<u8>) = match e {
                    Ev::On(c, k, v) => (0x90 | c, vec![*k, *v]),
                    Ev::Off(c, k) => {
                        if self.vel0 {
                            (0x90 | c, vec![*k, 0])
                        } else {
                            (0x80 | c, vec![*k, self.off_vel])
                        }
                    }
                    Ev::Cc(c, k, v) => (0xb0 | c, vec![*k, *v]),
                    Ev::Pc(c, p) => (0xc0 | c, vec![*p]),
                    Ev::Poly(c, k, v) => (0xa0 | c, vec![*k, *v]),
                    Ev::Press(c, v) => (0xd0 | c, vec![*v]),
                    Ev::Bend(c, l, h) => (0xe0 | c, vec![*l, *h]),
                    Ev::Tempo(u) => (0xff, vec![0x51, 3, (u >> 16) as u8, (u >> 8) as u8, *u as u8]),
                    Ev::Meta(t, d) => {
                        let mut v = vec![*t];
                        v.extend(vlq(d.len() as u32));
                        v.extend(d);
                        (0xff, v)
                    }
                    Ev::Sysex(d) => {
                        let mut v = vlq(d.len() as u32);
                        v.extend(d);
                        (0xf0, v)
                    }
                    Ev::Escape(d) => {
                        let mut v = vlq(d.len() as u32);
                        v.extend(d);
                        (0xf7, v)
                    }
                };
                if st >= 0xf0 {
                    b.push(st);
                    status = 0;
                } else if !(self.running && status == st) {
                    b.push(st);
                    status = st;
                }
                b.extend(data);
            }
            b.extend(vlq(self.eot));
            b.extend(&[0xff, 0x2f, 0]);
            o.extend(b"MTrk");
            o.extend(&(b.len() as u32).to_be_bytes());
            o.extend(b);
        }
        o
    }
}

// ------------------------------------------------------------------------------------------- reference

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RNote {
    pub ch: u8,
    pub key: u8,
    pub vel: u8,
    pub on: u32,
    /// None: never released
    pub off: Option<u32>,
    pub prog: Option<u8>,
    pub vol: Option<u8>,
    /// volumes set while it sounds
    pub vols: Vec<u8>,
}

#[derive(Clone, Debug, Default, Hash)]
pub struct Piece {
    pub notes: Vec<RNote>,
    /// in time order
    pub tempos: Vec<(u32, u32)>,
    /// time of the last channel or tempo event
    pub max_time: u32,
    /// most notes sounding at once
    pub poly: usize,
}

/// all events in the order in which they take effect
pub fn merged(tracks: &[Trk]) -> Vec<Timed> {
    let mut all: Vec<Timed> = tracks.iter().flat_map(|t| t.iter().cloned()).collect();
    all.sort_by_key(|(t, e)| (*t, e.prio()));
    all
}

pub fn read_piece(tracks: &[Trk]) -> Piece {
    let mut p = Piece::default();
    let mut prog = [None; 16];
    let mut vol = [None; 16];
    let mut held: BTreeMap<(u8, u8), usize> = BTreeMap::new();
    for (t, e) in merged(tracks) {
        if e.ch().is_some() || matches!(e, Ev::Tempo(_)) {
            p.max_time = p.max_time.max(t);
        }
        match e {
            Ev::Off(c, k) | Ev::On(c, k, 0) => {
                if let Some(i) = held.remove(&(c, k)) {
                    p.notes[i].off = Some(t);
                }
            }
            Ev::On(c, k, v) => {
                if let Some(i) = held.remove(&(c, k)) {
                    p.notes[i].off = Some(t);
                }
                held.insert((c, k), p.notes.len());
                p.notes.push(RNote { ch: c, key: k, vel: v, on: t, off: None, prog: prog[c as usize], vol: vol[c as usize], vols: vec![] });
                p.poly = p.poly.max(held.len());
            }
            Ev::Pc(c, x) => prog[c as usize] = Some(x),
            Ev::Cc(c, 7, x) => {
                vol[c as usize] = Some(x);
                for ((hc, _), i) in &held {
                    if *hc == c {
                        p.notes[*i].vols.push(x);
                    }
                }
            }
            Ev::Tempo(u) => p.tempos.push((t, u)),
            _ => {}
        }
    }
    p
}
