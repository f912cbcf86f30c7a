//! C21, C22: builds that fail, and system calls that fail.
use crate::engine::*;
use crate::hooks;
use crate::p_loop::*;
use crate::p_rom::*;
use crate::smf::*;
use failure::Error;
use midi2spc::nspc::Song;
use midi2spc::rom;
use serde_json::{json, Value};
use std::cell::Cell;
use std::path::Path;

/// the slots of the song table, in order, as the game has them
pub const SLOTS: [(&str, &str); 34] = [
    ("overworld", "Title"),
    ("overworld", "World Map"),
    ("overworld", "Beginning"),
    ("overworld", "Rabbit"),
    ("overworld", "Forest"),
    ("overworld", "Intro"),
    ("overworld", "Town"),
    ("overworld", "Warp"),
    ("overworld", "Dark World"),
    ("overworld", "Master Sword"),
    ("overworld", "File Select"),
    ("overworld", "Soldier"),
    ("overworld", "Mountain"),
    ("overworld", "Shop"),
    ("overworld", "Fanfare"),
    ("indoor", "Castle"),
    ("indoor", "Palace"),
    ("indoor", "Cave"),
    ("indoor", "Clear"),
    ("indoor", "Church"),
    ("indoor", "Boss"),
    ("indoor", "Dungeon"),
    ("indoor", "Psychic"),
    ("indoor", "Secret Way"),
    ("indoor", "Rescue"),
    ("indoor", "Crystal"),
    ("indoor", "Fountain"),
    ("indoor", "Pyramid"),
    ("indoor", "Kill Agahnim"),
    ("indoor", "Ganon Room"),
    ("indoor", "Last Boss"),
    ("ending", "Triforce"),
    ("ending", "Ending"),
    ("ending", "Staff"),
];
pub const GAME: [(usize, usize); 3] = [(11694, 1672), (11455, 1292), (4192, 4152)];

/// a manifest that gives every slot the entry `f` makes for it
pub fn manifest_value<F: FnMut(usize) -> Value>(mut f: F) -> Value {
    let mut m = json!({"overworld": {}, "indoor": {}, "ending": {}});
    for (i, (b, n)) in SLOTS.iter().enumerate() {
        m[*b][*n] = f(i);
    }
    m
}

/// a short piece: two channels, a repeated figure, a control change
pub fn piece(k: usize) -> Smf {
    let mut a = Builder::new(0, 12);
    a.word("t");
    for _ in 0..2 + k % 3 {
        a.note(60 + (k % 12) as u8, 2);
        a.note(62 + (k % 7) as u8, 1);
        a.rest(1);
    }
    let mut b = Builder::new(1, 12);
    b.word("p");
    b.note(48 + (k % 11) as u8, 4);
    b.word("c");
    b.note(50, 3);
    Smf::new(48, vec![a.trk, b.trk])
}
pub fn song_text(k: usize) -> String {
    let s = shape([0, 2, 3, 1][k % 4], k);
    song_value(&s.parts, &s.tracks).to_string()
}

fn lib_call(which: usize, input: &Path, rom_p: &Path, base: [u32; 3], verbose: bool) -> Result<(), String> {
    let (a, b) = (input.to_str().unwrap(), rom_p.to_str().unwrap());
    match guarded(|| match which {
        0 => midi2spc::build_rom(a, b, base, true, verbose),
        1 => midi2spc::write_all_overworld(a, b, base, true, verbose),
        _ => midi2spc::write_file_select(a, b, base, true, verbose),
    }) {
        Err(p) => Err(format!("(panic) {}", p)),
        Ok(r) => r.map_err(|e| e.to_string()),
    }
}

/// nothing besides the ROM and the inputs may have appeared or changed
fn unchanged(p: &Path, before: &[u8], what: &str) -> Result<(), String> {
    let now = std::fs::read(p).map_err(|e| format!("{}: the ROM cannot be read: {}", what, e))?;
    if now != before {
        let n = now.iter().zip(before).take_while(|(a, b)| a == b).count();
        return Err(format!("{}: the ROM has changed (length {} to {}, first at {:#x})", what, before.len(), now.len(), n));
    }
    Ok(())
}

pub fn c21(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    v.push(famr("converter", "the conversion of the song of every one of the 34 slots failing (error, panic, song with a loop or a part that does not exist, song too large for its bank) or none, in chunks of the game's sizes and split ones, quiet and verbose; the ROM is compared at every conversion and at the end", move |cx| {
        let bad = cx.choose(35);
        let how = if bad < 34 { cx.choose(5) } else { 0 };
        let split = cx.flag();
        let verbose = cx.flag();
        let songs: Vec<RSong> = (0..34).map(|i| shape([0, 2, 3, 1, 5][i % 5], i)).collect();
        let banks: Vec<Vec<Def>> = [(0, 15), (15, 16), (31, 3)].iter().map(|(a, n)| (*a..a + n).map(|i| Def { song: Some(i), loops: i % 3 > 0 }).collect()).collect();
        let mut lens = GAME;
        if split {
            for b in 0..3 {
                let n: usize = banks[b].iter().map(|d| 24 + songs[d.song.unwrap()].sizes().iter().sum::<usize>()).sum();
                lens[b] = (FIRST_DATA[b] + n / 2, n);
            }
        }
        let spec = RomSpec::new(lens);
        let p = cx.path("rom.smc");
        let before = spec.bytes();
        std::fs::write(&p, &before).unwrap();
        cx.state(&(bad, how, split, verbose));
        cx.desc(|| format!("song {} fails (kind {}), split {}, verbose {}", bad, how, split, verbose));
        let calls = Cell::new(0);
        let early = Cell::new(None);
        let m = manifest_of(&banks);
        let conv = |path: &Path, _f: f32| -> Result<Song, Error> {
            calls.set(calls.get() + 1);
            if early.get().is_none() && std::fs::read(&p).ok().as_ref() != Some(&before) {
                early.set(Some(calls.get()));
            }
            let n: usize = path.to_str().unwrap().trim_start_matches("song").trim_end_matches(".json").parse().unwrap();
            if n == bad {
                match how {
                    0 => return Err(failure::err_msg("cannot convert")),
                    1 => std::panic::resume_unwind(Box::new("cannot convert")),
                    2 => return Ok(serde_json::from_value(song_value(&[0], &[vec![RC::N(0x90, 4, Some((3, 3))), RC::Call(7, 2)]])).unwrap()),
                    3 => return Ok(serde_json::from_value(song_value(&[0, 3], &[vec![RC::N(0x90, 4, Some((3, 3)))]])).unwrap()),
                    _ => {
                        let t: Vec<RC> = (0..9000).map(|i| RC::N(0x80 + (i % 0x40) as u8, 1 + (i % 90) as u8, Some((3, 3)))).collect();
                        return Ok(serde_json::from_value(song_value(&[0], &[t])).unwrap());
                    }
                }
            }
            Ok(songs[n].song())
        };
        let r = guarded(|| rom::write(&m, &p, spec.base, &conv, verbose)).and_then(|r| r.map_err(|e| e.to_string()));
        if let Some(n) = early.get() {
            return Err(format!("the ROM has changed before song {} was converted", n));
        }
        if bad < 34 {
            if r.is_ok() {
                return Err(format!("succeeds although song {} cannot be converted", bad));
            }
            unchanged(&p, &before, "a failed build")?;
        } else if let Err(e) = r {
            return Err(format!("fails: {}", e));
        }
        Ok(Out::Ok(hash(&(bad, calls.get()))))
    }));
    v.push(famr("song files", &format!("a build from a manifest in which the song of {} is unusable: a MIDI file and a JSON file cut at every byte, missing, empty, a directory, MIDI of format 2, with a missing track, with nine voices in one channel, with SMPTE time, JSON of other shapes", if thorough { "each of the 34 slots" } else { "slot 0, 14, 15, 30, 31 or 33" }), move |cx| {
        let slot = if cx.thorough { cx.choose(34) } else { cx.pick(&[0usize, 14, 15, 30, 31, 33]) };
        let good = piece(1).bytes();
        let text = song_text(2);
        let kind = cx.choose(3);
        let mut name = "bad.mid";
        let mut what = String::new();
        let content: Option<Vec<u8>> = match kind {
            0 => {
                let n = cx.choose(good.len());
                what = format!("MIDI cut at {}", n);
                Some(good[..n].to_vec())
            }
            1 => {
                name = "bad.json";
                let n = cx.choose(text.len());
                what = format!("JSON cut at {}", n);
                Some(text.as_bytes()[..n].to_vec())
            }
            _ => {
                let k = cx.choose(14);
                what = format!("kind {}", k);
                match k {
                    0 => None,
                    1 => {
                        name = "bad.json";
                        None
                    }
                    2 => {
                        name = "dir.mid";
                        None
                    }
                    3 => {
                        name = "dir.json";
                        None
                    }
                    4 => Some({
                        let mut s = piece(1);
                        s.format = 2;
                        s.bytes()
                    }),
                    5 => Some({
                        let mut b = good.clone();
                        b[11] += 1;
                        b
                    }),
                    6 => Some({
                        // nine notes at once
                        let t: Trk = (0..9).map(|i| (0, Ev::On(0, 40 + i, 64))).chain((0..9).map(|i| (48, Ev::Off(0, 40 + i)))).collect();
                        Smf::new(48, vec![t]).bytes()
                    }),
                    7 => Some({
                        let mut b = good.clone();
                        b[12] = 0xe7;
                        b[13] = 40;
                        b
                    }),
                    8 => Some({
                        let mut b = good.clone();
                        b[0] = b'X';
                        b
                    }),
                    9 => {
                        name = "bad.json";
                        Some(b"{}".to_vec())
                    }
                    10 => {
                        name = "bad.json";
                        Some(good.clone())
                    }
                    11 => Some(text.clone().into_bytes()),
                    12 => {
                        name = "bad.json";
                        Some(text.replace("Note", "Nota").into_bytes())
                    }
                    _ => {
                        name = "bad.json";
                        Some(format!("{}{}", text, "}").into_bytes())
                    }
                }
            }
        };
        let _ = std::fs::remove_file(cx.path("bad.mid"));
        let _ = std::fs::remove_file(cx.path("bad.json"));
        let _ = std::fs::create_dir_all(cx.path("dir.mid"));
        let _ = std::fs::create_dir_all(cx.path("dir.json"));
        std::fs::write(cx.path("good.mid"), &good).unwrap();
        std::fs::write(cx.path("good.json"), &text).unwrap();
        if let Some(c) = &content {
            std::fs::write(cx.path(name), c).unwrap();
        }
        let m = manifest_value(|i| json!({"input": if i == slot { name } else if i % 2 == 0 { "good.json" } else { "good.mid" }}));
        let mp = cx.path("manifest.json");
        std::fs::write(&mp, m.to_string()).unwrap();
        let spec = RomSpec::new(GAME);
        let p = cx.path("rom.smc");
        let before = spec.bytes();
        std::fs::write(&p, &before).unwrap();
        cx.state(&(slot, &what));
        cx.desc(|| format!("slot {}: {}", slot, what));
        let how = cx.choose(3);
        if how > 0 && slot > 0 {
            return Ok(Out::Skip);
        }
        let input = if how == 0 { mp } else { cx.path(name) };
        let r = lib_call(how, &input, &p, spec.base, false);
        if r.is_ok() {
            return Err(format!("succeeds although the song of slot {} is unusable ({})", slot, what));
        }
        unchanged(&p, &before, &what)?;
        Ok(Out::Ok(hash(&(slot, &what))))
    }));
    v.push(famr("manifests", "a manifest cut at every byte, missing any bank or any of the 34 songs, with a bank, song or path of each wrong type, missing, empty, a directory, with trailing text", move |cx| {
        std::fs::write(cx.path("good.json"), song_text(1)).unwrap();
        let mut m = manifest_value(|_| json!({"input": "good.json"}));
        let kind = cx.choose(6);
        let mp = cx.path("manifest.json");
        let _ = std::fs::remove_file(&mp);
        let _ = std::fs::remove_dir(&mp);
        let wrong = [Value::Null, json!(7), json!(true), json!("x"), json!([]), json!({})];
        let mut what;
        match kind {
            0 => {
                // only the ends of tokens matter, but every byte is tried
                let t = m.to_string();
                let n = cx.choose(t.len());
                what = format!("cut at {}", n);
                std::fs::write(&mp, &t[..n]).unwrap();
            }
            1 => {
                let i = cx.choose(37);
                what = format!("without {}", i);
                if i < 34 {
                    let (b, n) = SLOTS[i];
                    m[b].as_object_mut().unwrap().remove(n);
                } else {
                    m.as_object_mut().unwrap().remove(["overworld", "indoor", "ending"][i - 34]);
                }
                std::fs::write(&mp, m.to_string()).unwrap();
            }
            2 => {
                let i = cx.choose(38);
                let w = cx.pick(&wrong);
                what = format!("{} is {}", i, w);
                if i < 34 {
                    let (b, n) = SLOTS[i];
                    m[b][n] = w;
                } else if i < 37 {
                    m[["overworld", "indoor", "ending"][i - 34]] = w;
                } else {
                    m = w;
                }
                std::fs::write(&mp, m.to_string()).unwrap();
            }
            3 => {
                let (b, n) = SLOTS[cx.choose(34)];
                let w = cx.pick(&[Value::Null, json!(7), json!(true), json!([]), json!({}), json!("nothing.mid"), json!("nothing.json"), json!("")]);
                what = format!("input of {} is {}", n, w);
                m[b][n]["input"] = w;
                std::fs::write(&mp, m.to_string()).unwrap();
            }
            4 => {
                // a song under another bank's name, or misspelt
                let i = cx.choose(34);
                let (b, n) = SLOTS[i];
                let e = m[b].as_object_mut().unwrap().remove(n).unwrap();
                match cx.choose(2) {
                    0 => m[SLOTS[(i + 15) % 34].0][n.to_lowercase()] = e,
                    _ => m[["overworld", "indoor", "ending"][(["overworld", "indoor", "ending"].iter().position(|x| *x == b).unwrap() + 1) % 3]][n] = e,
                }
                what = format!("{} misplaced", n);
                std::fs::write(&mp, m.to_string()).unwrap();
            }
            _ => {
                let k = cx.choose(4);
                what = format!("kind {}", k);
                match k {
                    0 => {}
                    1 => std::fs::create_dir(&mp).unwrap(),
                    2 => std::fs::write(&mp, "").unwrap(),
                    _ => std::fs::write(&mp, format!("{} x", m)).unwrap(),
                }
            }
        }
        let spec = RomSpec::new(GAME);
        let p = cx.path("rom.smc");
        let before = spec.bytes();
        std::fs::write(&p, &before).unwrap();
        cx.state(&(kind, &what));
        what = format!("manifest {}", what);
        cx.desc(|| what.clone());
        let r = lib_call(0, &mp, &p, spec.base, false);
        let _ = std::fs::remove_dir(&mp);
        if r.is_ok() {
            return Err(format!("{}: succeeds", what));
        }
        unchanged(&p, &before, &what)?;
        Ok(Out::Ok(hash(&what)))
    }));
    v.push(famr("ROMs", "a ROM cut at every byte around its pointers and chains (and every 16th elsewhere), pointers into and beyond its end, chains without the chunk for the songs, in each bank, through each of the three commands", move |cx| {
        let kind = cx.choose(4);
        let mut spec = RomSpec::new([(0x100, 300), (0x100, 300), (0x100, 300)]);
        let mut cut = None;
        let what = match kind {
            0 => {
                let mut edges: Vec<usize> = (0..spec.size).step_by(16).collect();
                for b in 0..3 {
                    for o in &[0, 4, 8] {
                        edges.extend([pc(spec.base[b]) + o, pc(spec.base[b]) + o + 1]);
                    }
                    let a = spec.area(b).unwrap();
                    for x in &[a.main - 4, a.main, a.over - 4, a.over, a.over + a.over_len, a.over + a.over_len + 4] {
                        edges.extend((x.saturating_sub(2))..(x + 3));
                    }
                }
                edges.sort_unstable();
                edges.dedup();
                let n = cx.pick(&edges);
                cut = Some(n);
                format!("ROM cut at {:#x}", n)
            }
            1 => {
                let b = cx.choose(3);
                let at = cx.pick(&[spec.size, spec.size - 1, spec.size - 3, spec.size - 4, spec.size + 0x8000, 0x7f_7fff, 0]);
                spec.chains[b].at = at;
                let mut s2 = spec.clone();
                s2.chains[b].at = 0x1000;
                // only the pointer points there
                format!("pointer of bank {} at {:#x}", b, at)
            }
            2 => {
                let b = cx.choose(3);
                let a = cx.pick(&[0xcfffu16, 0xd001, 0x00d0, 0xd100, 0x2b00]);
                for c in spec.chains[b].chunks.iter_mut() {
                    if c.0 == 0xd000 {
                        c.0 = a;
                    }
                }
                format!("bank {} at {:#x}", b, a)
            }
            _ => {
                let b = cx.choose(3);
                let n = cx.choose(3);
                spec.chains[b].chunks.truncate(n);
                if n > 0 {
                    spec.chains[b].chunks[0].0 = 0xc000;
                }
                format!("bank {} with {} other chunks", b, n)
            }
        };
        let before = {
            let mut at = vec![];
            let mut s = spec.clone();
            if kind == 1 {
                for (b, c) in s.chains.iter_mut().enumerate() {
                    at.push(c.at);
                    if c.at + 1000 > spec.size || c.at == 0 {
                        c.at = 0x1000 + b * 0x400;
                    }
                }
            }
            let mut r = s.bytes();
            for (b, a) in at.iter().enumerate() {
                let a = snes(*a, true);
                r[pc(spec.base[b])] = a as u8;
                r[pc(spec.base[b] + 4)] = (a >> 8) as u8;
                r[pc(spec.base[b] + 8)] = (a >> 16) as u8;
            }
            if let Some(n) = cut {
                r.truncate(n);
            }
            r
        };
        // does the chain lead to a chunk for D000?
        let found = |b: usize| -> bool {
            let g = |i: usize| before.get(i).cloned();
            let f = || -> Option<bool> {
                let a = (g(pc(spec.base[b] + 8))? as u32) << 16 | (g(pc(spec.base[b] + 4))? as u32) << 8 | g(pc(spec.base[b]))? as u32;
                let mut at = pc(a);
                loop {
                    let len = g(at)? as usize | (g(at + 1)? as usize) << 8;
                    let aram = g(at + 2)? as usize | (g(at + 3)? as usize) << 8;
                    if len == 0 {
                        return Some(false);
                    }
                    if aram == 0xd000 {
                        return Some(true);
                    }
                    at += 4 + len;
                }
            };
            f().unwrap_or(false)
        };
        let all = (0..3).all(found);
        let p = cx.path("rom.smc");
        std::fs::write(&p, &before).unwrap();
        cx.state(&(&what, all));
        cx.desc(|| what.clone());
        let how = cx.choose(3);
        std::fs::write(cx.path("good.json"), song_text(0)).unwrap();
        let input = if how == 0 {
            let mp = cx.path("manifest.json");
            std::fs::write(&mp, manifest_value(|_| json!({"input": "good.json"})).to_string()).unwrap();
            mp
        } else {
            cx.path("good.json")
        };
        match lib_call(how, &input, &p, spec.base, false) {
            Ok(()) if !all => Err(format!("{}: succeeds although a bank's chunks cannot be found", what)),
            Ok(()) => Ok(Out::Ok(1)),
            Err(_) => {
                unchanged(&p, &before, &what)?;
                Ok(Out::Ok(2))
            }
        }
    }));
    v.push(famr("places", "a ROM path that is missing, in a missing directory, or a directory, through each of the three commands", move |cx| {
        let how = cx.choose(3);
        let kind = cx.choose(3);
        std::fs::write(cx.path("good.json"), song_text(0)).unwrap();
        let input = if how == 0 {
            let mp = cx.path("manifest.json");
            std::fs::write(&mp, manifest_value(|_| json!({"input": "good.json"})).to_string()).unwrap();
            mp
        } else {
            cx.path("good.json")
        };
        let p = match kind {
            0 => cx.path("none.smc"),
            1 => cx.path("none/none.smc"),
            _ => cx.path("adir"),
        };
        std::fs::create_dir_all(cx.path("adir")).unwrap();
        cx.state(&(how, kind));
        cx.desc(|| format!("{:?}", p));
        if lib_call(how, &input, &p, [0x914, 0x926, 0x932], false).is_ok() {
            return Err("succeeds without a ROM".into());
        }
        if kind < 2 && p.exists() {
            return Err("makes a ROM out of nothing".into());
        }
        Ok(Out::Ok(0))
    }));
    let nf = q(thorough, 1, 2);
    v.push(famr("read errors", &format!("a build of 34 MIDI and JSON files, and each single-song command, with every combination of at most {} faults (I/O error, no space, interruption, transfers of nothing, one byte, half, all but one) over all system calls on the manifest and the songs, or on the ROM: when it fails before anything is written the ROM is unchanged", nf), move |cx| {
        let (how, midi) = cx.pick(&[(0usize, true), (2, false), (2, true), (1, true), (0, false)]);
        let on_rom = cx.flag();
        let d = cx.path("f");
        std::fs::create_dir_all(&d).unwrap();
        let mut spec = RomSpec::new(if how == 0 { GAME } else { [(0x800, 0x300); 3] });
        spec.high = midi;
        let rom_dir = if on_rom { d.clone() } else { cx.path("r") };
        let in_dir = if on_rom { cx.path("r") } else { d.clone() };
        std::fs::create_dir_all(&rom_dir).unwrap();
        std::fs::create_dir_all(&in_dir).unwrap();
        let p = rom_dir.join("rom.smc");
        std::fs::write(in_dir.join("a.mid"), piece(3).bytes()).unwrap();
        std::fs::write(in_dir.join("b.json"), song_text(0)).unwrap();
        let input = if how == 0 {
            let m = in_dir.join("manifest.json");
            std::fs::write(&m, manifest_value(|i| json!({"input": if i % 16 == 5 && !midi { "b.json" } else { "a.mid" }})).to_string()).unwrap();
            m
        } else {
            in_dir.join(if midi { "a.mid" } else { "b.json" })
        };
        let before = spec.bytes();
        std::fs::write(&p, &before).unwrap();
        let (want, calls) = reference(cx, format!("c21 {} {} {}", how, midi, on_rom), &d, &p, || lib_call(how, &input, &p, spec.base, false))?;
        std::fs::write(&p, &before).unwrap();
        let (r, log) = hooks::with_faults(cx, &d, nf, calls, || lib_call(how, &input, &p, spec.base, false));
        let wrote = on_rom && log.iter().any(|x| x.0 == hooks::Call::Write);
        let failed = r.is_err();
        let o = judge(cx, r, &log, &p, &want, "a build")?;
        if failed && !wrote {
            unchanged(&p, &before, &format!("after the calls {}", log_text(&log)))?;
        }
        Ok(o)
    }));
    v
}

// ------------------------------------------------------------------------------------------------ C22

fn small_case(k: usize) -> Case {
    let songs: Vec<RSong> = (0..4).map(|i| shape(i, i + k)).collect();
    let d = |s: usize, loops: bool| Def { song: Some(s), loops };
    let banks = vec![vec![d(0, true), d(3, true)], vec![d(2, false), d(1, true)], vec![d(3, false)]];
    let mut spec = RomSpec::new(if k == 0 { [(0x200, 100); 3] } else { [(FIRST_DATA[0] + 60, 200), (FIRST_DATA[1] + 50, 200), (FIRST_DATA[2] + 60, 200)] });
    if k == 2 {
        spec.size = 0x2_4000 + 1;
    }
    Case { spec, songs, banks }
}

fn log_text(log: &[(hooks::Call, u8)]) -> String {
    log.iter().map(|(c, k)| if *k == 0 { format!("{:?}", c) } else { format!("{:?}!{}", c, k) }).collect::<Vec<_>>().join(" ")
}

/// the file an undisturbed run leaves and the number of calls it makes, once per process
fn reference<F: FnOnce() -> Result<(), String>>(cx: &mut Ctx, key: String, dir: &Path, out: &Path, f: F) -> Result<(Vec<u8>, usize), String> {
    static DONE: std::sync::Mutex<std::collections::BTreeMap<String, (Vec<u8>, usize)>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
    if let Some(x) = DONE.lock().unwrap().get(&key) {
        return Ok(x.clone());
    }
    let (r, calls) = hooks::with_faults(cx, dir, 0, 0, f);
    r.map_err(|e| format!("fails without a fault: {}", e))?;
    let x = (std::fs::read(out).map_err(|e| e.to_string())?, calls.len());
    DONE.lock().unwrap().insert(key, x.clone());
    Ok(x)
}

/// the outcome of one run under faults
fn judge(cx: &mut Ctx, r: Result<(), String>, log: &[(hooks::Call, u8)], out: &Path, want: &[u8], what: &str) -> Res {
    let faults = log.iter().filter(|x| x.1 > 0).count();
    if faults > 0 {
        cx.state(&(what, log.iter().map(|x| (x.0 as u8, x.1)).collect::<Vec<_>>()));
    }
    cx.desc(|| format!("{}: {}", what, log_text(log)));
    if log.is_empty() {
        panic!("harness: no system call seen");
    }
    let now = std::fs::read(out).unwrap_or_default();
    match &r {
        Ok(()) => {
            if now != want {
                let n = now.iter().zip(want).take_while(|(a, b)| a == b).count();
                return Err(format!("{} reports success after the calls {}, but the file has {} bytes instead of {} (first difference at {})", what, log_text(log), now.len(), want.len(), n));
            }
        }
        Err(e) => {
            if faults == 0 {
                return Err(format!("{} fails without a fault: {}", what, e));
            }
        }
    }
    Ok(Out::Ok(hash(&(r.is_ok(), now == want, log.len()))))
}

pub fn c22(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let n = q(thorough, 4, 5);
    let b1 = format!("every combination of at most {} faults (interruption, I/O error, no space, transfers of nothing, one byte, half, all but one byte) over all system calls on the ROM", n);
    v.push(famr("write", &format!("{}; three ROMs from 8 KB to 144 KB", b1), move |cx| {
        let k = cx.choose(3);
        let case = small_case(k);
        let p = cx.path("rom.smc");
        std::fs::write(&p, case.spec.bytes()).unwrap();
        let (want, calls) = reference(cx, format!("write {}", k), &p, &p, || build(&p, &case, false))?;
        std::fs::write(&p, case.spec.bytes()).unwrap();
        let (r, log) = hooks::with_faults(cx, &p.clone(), n, calls, || build(&p, &case, false));
        judge(cx, r, &log, &p, &want, "writing songs")
    }));
    v.push(famr("file select and all", &format!("{} and of the song file: a MIDI file (file select), at most {} with a JSON file or with a MIDI file for all slots", b1.replace(&format!("at most {}", n), &format!("at most {}", n - 2)), q(thorough, 1, 2)), move |cx| {
        // a JSON file is read byte by byte
        let (how, midi) = cx.pick(&[(2, false), (2, true), (1, true)]);
        let d = cx.path("f");
        std::fs::create_dir_all(&d).unwrap();
        let spec = RomSpec::new([(0x800, 0x300); 3]);
        let p = d.join("rom.smc");
        let s = d.join(if midi { "s.mid" } else { "s.json" });
        std::fs::write(&s, if midi { piece(3).bytes() } else { song_text(2).into_bytes() }).unwrap();
        std::fs::write(&p, spec.bytes()).unwrap();
        let (want, calls) = reference(cx, format!("one {} {}", how, midi), &d, &p, || lib_call(how, &s, &p, spec.base, false))?;
        std::fs::write(&p, spec.bytes()).unwrap();
        // the song is read for each of its slots
        let budget = if midi && how == 2 { n - 2 } else { q(thorough, 1, 2) };
        let (r, log) = hooks::with_faults(cx, &d, budget, calls, || lib_call(how, &s, &p, spec.base, false));
        judge(cx, r, &log, &p, &want, "a song file and a ROM")
    }));
    v.push(famr("build", &format!("at most one such fault over all system calls on the manifest, on 34 song files (MIDI and JSON) and on the ROM{}", if thorough { ", and at most two over those on 34 MIDI files and on the ROM" } else { "" }), move |cx| {
        let two = thorough && cx.flag();
        let d = cx.path("f");
        std::fs::create_dir_all(&d).unwrap();
        let spec = RomSpec::new(GAME);
        let p = d.join("rom.smc");
        std::fs::write(d.join("a.mid"), piece(2).bytes()).unwrap();
        std::fs::write(d.join("b.json"), song_text(0)).unwrap();
        let mp = if two { cx.path("manifest.json") } else { d.join("manifest.json") };
        std::fs::write(&mp, manifest_value(|i| json!({"input": if i % 16 == 5 && !two { "f/b.json" } else { "f/a.mid" }})).to_string().replace("f/", if two { "f/" } else { "" })).unwrap();
        std::fs::write(&p, spec.bytes()).unwrap();
        let (want, calls) = reference(cx, format!("build {}", two), &d, &p, || lib_call(0, &mp, &p, spec.base, false))?;
        std::fs::write(&p, spec.bytes()).unwrap();
        let (r, log) = hooks::with_faults(cx, &d, if two { 2 } else { 1 }, calls, || lib_call(0, &mp, &p, spec.base, false));
        judge(cx, r, &log, &p, &want, "a build from a manifest")
    }));
    v.push(famr("dummy ROM", &format!("{} and of the output, which is new, shorter, longer, or the same length", b1), move |cx| {
        let k = cx.choose(3);
        let old = cx.choose(4);
        let d = cx.path("f");
        std::fs::create_dir_all(&d).unwrap();
        let spec = small_case(k).spec;
        let (a, b) = (d.join("real.smc"), d.join("dummy.smc"));
        std::fs::write(&a, spec.bytes()).unwrap();
        let _ = std::fs::remove_file(&b);
        let go = || guarded(|| rom::gen_fake_rom(&a, &b, spec.base)).and_then(|r| r.map_err(|e| e.to_string()));
        let (want, calls) = reference(cx, format!("dummy {}", k), &d, &b, go)?;
        let _ = std::fs::remove_file(&b);
        match old {
            0 => {}
            1 => std::fs::write(&b, vec![0xaau8; 100]).unwrap(),
            2 => std::fs::write(&b, vec![0xaau8; spec.size + 1000]).unwrap(),
            _ => std::fs::write(&b, vec![0xaau8; spec.size]).unwrap(),
        }
        let (r, log) = hooks::with_faults(cx, &d, n, calls, go);
        judge(cx, r, &log, &b, &want, "a dummy ROM")
    }));
    v.push(famr("song to JSON", &format!("at most {} such fault(s) over all system calls on a MIDI file and the JSON file written from it", q(thorough, 1, 2)), move |cx| {
        let k = cx.choose(2);
        let d = cx.path("f");
        std::fs::create_dir_all(&d).unwrap();
        let (a, b) = (d.join("s.mid"), d.join("s.json"));
        let mut t = Builder::new(0, 12);
        t.note(60, 2);
        if k == 1 {
            t.word("cp");
            t.note(64, 1);
        }
        std::fs::write(&a, Smf::new(48, vec![t.trk]).bytes()).unwrap();
        let go = || {
            guarded(|| -> Result<(), Error> {
                let mut m = midi2spc::midi::MidiHandler::new();
                m.read(&a, false)?;
                let s = Song::from_midi(&m, 0.2, true, false)?;
                s.write_to_json(&b);
                Ok(())
            })
            .and_then(|r| r.map_err(|e| e.to_string()))
        };
        let _ = std::fs::remove_file(&b);
        let (want, calls) = reference(cx, format!("json {}", k), &d, &b, go)?;
        std::fs::write(&b, vec![b' '; 5000]).unwrap();
        let (r, log) = hooks::with_faults(cx, &d, q(thorough, 1, 2), calls, go);
        judge(cx, r, &log, &b, &want, "a song's JSON file")
    }));
    v
}

