//! C24, C27, C30, C31: manifests, JSON songs, determinism, the command line.
use crate::engine::*;
use crate::hooks;
use crate::p_io::*;
use crate::p_loop::*;
use crate::p_rom::*;
use crate::p_song::*;
use crate::smf::*;
use crate::spc::*;
use failure::Error;
use midi2spc::manifest::Manifest;
use midi2spc::midi::MidiHandler;
use midi2spc::nspc::Song;
use midi2spc::rom;
use serde_json::json;
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::sync::mpsc;
use std::time::Duration;

const BASE: [u32; 3] = [0x914, 0x926, 0x932];

// ------------------------------------------------------------------------------------------------ C24

/// two paths are the same place, whether or not the file is there
fn norm(p: &Path) -> PathBuf {
    use std::path::Component::*;
    let p = if p.is_absolute() { p.to_path_buf() } else { std::env::current_dir().unwrap().join(p) };
    let mut o = PathBuf::new();
    for c in p.components() {
        match c {
            CurDir => {}
            ParentDir => {
                o.pop();
            }
            c => o.push(c.as_os_str()),
        }
    }
    o
}

#[derive(Clone, Debug, Hash)]
struct Entry {
    input: String,
    /// text of the number
    tempo: Option<&'static str>,
    looping: Option<bool>,
}
impl Entry {
    fn text(&self, order: usize) -> String {
        let mut f = vec![format!("\"input\": {}", json!(self.input))];
        if let Some(t) = self.tempo {
            f.push(format!("\"tempoAdjust\": {}", t));
        }
        if let Some(l) = self.looping {
            f.push(format!("\"loop\": {}", l));
        }
        let n = f.len();
        f.rotate_left(order % n);
        format!("{{{}}}", f.join(", "))
    }
}
/// manifest text with banks and songs in a chosen order
fn manifest_text(es: &[Entry], rot: usize, rev: bool, extra: bool) -> String {
    let mut banks = vec![];
    for b in &["overworld", "indoor", "ending"] {
        let mut f: Vec<String> = (0..34).filter(|i| SLOTS[*i].0 == *b).map(|i| format!("{}: {}", json!(SLOTS[i].1), es[i].text(i + rot))).collect();
        if rev {
            f.reverse();
        }
        let n = f.len();
        f.rotate_left(rot % n);
        if extra {
            f.insert(rot % n, "\"Other\": {\"input\": \"other.mid\"}".into());
        }
        banks.push(format!("\"{}\": {{{}}}", b, f.join(",\n")));
    }
    if rev {
        banks.reverse();
    }
    banks.rotate_left(rot % 3);
    if extra {
        banks.insert(rot % 3, "\"$schema\": \"manifest.schema.json\"".into());
    }
    format!("{{{}}}", banks.join(",\n"))
}
const COUNTS: [usize; 3] = [15, 16, 3];

fn check_manifest(m: &Manifest, es: &[Entry], dir: &Path) -> Result<(), String> {
    let mut i = 0;
    for b in 0..3 {
        if m.banks[b].songs.len() != COUNTS[b] {
            return Err(format!("bank {} has {} songs", b, m.banks[b].songs.len()));
        }
        for s in &m.banks[b].songs {
            let e = &es[i];
            let want = norm(&dir.join(&e.input));
            let got = s.input.as_ref().ok_or_else(|| format!("slot {} ({}) has no song", i, SLOTS[i].1))?;
            if norm(got) != want {
                return Err(format!("slot {} ({}) has the song {:?} instead of {:?}", i, SLOTS[i].1, got, want));
            }
            let t: f64 = e.tempo.map_or(0.2, |t| t.parse().unwrap());
            if (s.tempo_factor as f64 - t).abs() > 1e-6 * t.abs().max(1.0) {
                return Err(format!("slot {} ({}) has the tempo adjustment {} instead of {}", i, SLOTS[i].1, s.tempo_factor, t));
            }
            if s.loops != e.looping.unwrap_or(true) {
                return Err(format!("slot {} ({}) loops: {}", i, SLOTS[i].1, s.loops));
            }
            i += 1;
        }
    }
    Ok(())
}

const TEMPOS: [Option<&str>; 9] = [None, Some("0.2"), Some("0.4"), Some("1"), Some("0.05"), Some("0"), Some("1.5e-1"), Some("2.25"), Some("0.19999")];
const LOOPS: [Option<bool>; 3] = [None, Some(true), Some(false)];

fn plain(i: usize) -> Entry {
    Entry { input: format!("s{}.json", i), tempo: None, looping: None }
}

/// Builds in which two slots name the same file, or files of the same name or content.
pub fn shared_files() -> Family {
    famr("shared files", "whole builds in which every pair of the 34 songs (in both roles) names one MIDI file with different tempo adjustments or looping, one file by two paths, two files of one name in two directories, a MIDI and a JSON file that differ in the ending only, or two files of which one starts as the other", move |cx| {
        let a = cx.choose(34);
        let b = cx.choose(34);
        if a == b {
            return Ok(Out::Skip);
        }
        let k = cx.choose(7);
        std::fs::create_dir_all(cx.path("d")).unwrap();
        // (file, tempo, looping, piece)
        let e: [(&str, Option<&'static str>, Option<bool>, usize); 2] = match k {
            0 => [("one.mid", Some("0.4"), None, 1), ("one.mid", None, None, 1)],
            1 => [("one.mid", None, Some(false), 1), ("one.mid", None, Some(true), 1)],
            2 => [("one.mid", Some("1"), Some(false), 1), ("d/../one.mid", Some("0.1"), None, 1)],
            3 => [("one.mid", None, None, 1), ("d/one.mid", None, None, 5)],
            4 => [("d/one.mid", Some("0.4"), None, 3), ("one.mid", Some("0.4"), None, 4)],
            5 => [("one.mid", None, None, 1), ("one.json", None, None, 0)],
            _ => [("one.mid", None, None, 1), ("one.mid2.mid", None, None, 4)],
        };
        let js = shape(3, 9);
        for x in &e {
            std::fs::write(cx.path(x.0), if x.0.ends_with("json") { song_value(&js.parts, &js.tracks).to_string().into_bytes() } else { piece(x.3).bytes() }).unwrap();
        }
        let songs: Vec<RSong> = (0..34).map(|i| shape([0, 1, 2][i % 3], i)).collect();
        let mut es: Vec<Entry> = (0..34).map(|i| Entry { input: format!("shared{}.json", i), tempo: None, looping: None }).collect();
        for i in 0..34 {
            let p = cx.path(&format!("shared{}.json", i));
            if !p.exists() {
                std::fs::write(p, song_value(&songs[i].parts, &songs[i].tracks).to_string()).unwrap();
            }
        }
        es[a] = Entry { input: e[0].0.into(), tempo: e[0].1, looping: e[0].2 };
        es[b] = Entry { input: e[1].0.into(), tempo: e[1].1, looping: e[1].2 };
        let mp = cx.path("manifest.json");
        std::fs::write(&mp, manifest_text(&es, a, false, false)).unwrap();
        let spec = RomSpec::new(GAME);
        let p = cx.path("rom.smc");
        std::fs::write(&p, spec.bytes()).unwrap();
        cx.state(&(a, b, k));
        cx.desc(|| format!("{}: {:?}, {}: {:?}", SLOTS[a].1, es[a], SLOTS[b].1, es[b]));
        midi2spc::build_rom(mp.to_str().unwrap(), p.to_str().unwrap(), BASE, true, false).map_err(|e| format!("fails: {}", e))?;
        let got = play_all(&std::fs::read(&p).unwrap(), BASE, &COUNTS)?;
        for i in 0..34 {
            let looping = es[i].looping.unwrap_or(true);
            let want = if i == a || i == b {
                let x = &e[(i == b) as usize];
                if x.0.ends_with("json") {
                    expect_slot(&Def { song: Some(0), loops: looping }, std::slice::from_ref(&js))
                } else {
                    let f: f32 = x.1.map_or(0.2, |t| t.parse::<f64>().unwrap() as f32);
                    let one = convert_at(&cx.path("x.mid"), &piece(x.3).bytes(), f, true, false)?;
                    let mut chans: Vec<Option<Vec<It>>> = flatten_all(&one)?.into_iter().map(|x| if x.is_empty() { None } else { Some(x) }).collect();
                    chans.resize(8, None);
                    Slot { loops: looping, own: looping, chans }
                }
            } else {
                expect_slot(&Def { song: Some(i), loops: looping }, &songs)
            };
            if got[i] != want {
                return Err(format!("slot {} ({}) does not play its song: {:?} instead of {:?}", i, SLOTS[i].1, got[i], want));
            }
        }
        Ok(Out::Ok(hash(&(a, b, k))))
    })
}

pub fn c24(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    v.push(fam("slots", "each of the 34 songs alone with each of nine tempo adjustments (or none) and looping, not looping or unspecified, entries in the usual, reverse and rotated orders, with and without other keys", move |cx| {
        let at = cx.choose(34);
        let (t, l) = (cx.pick(&TEMPOS), cx.pick(&LOOPS));
        let (rot, rev, extra) = (cx.choose(if cx.thorough { 16 } else { 5 }), cx.flag(), cx.flag());
        let mut es: Vec<Entry> = (0..34).map(plain).collect();
        es[at] = Entry { input: "the one.mid".into(), tempo: t, looping: l };
        cx.state(&(&es[at], at, rot, rev, extra));
        let p = cx.path("manifest.json");
        let text = manifest_text(&es, rot, rev, extra);
        std::fs::write(&p, &text).unwrap();
        cx.desc(|| format!("{}: {:?}, order {} {} {}", SLOTS[at].1, es[at], rot, rev, extra));
        let m = guarded(|| Manifest::new(&p))?.map_err(|e| format!("refused: {}", e))?;
        check_manifest(&m, &es, &cx.dir)?;
        Ok(Out::Ok(hash(&(at, t, l))))
    }));
    v.push(fam("pairs", "every pair of songs with different tempo adjustments and looping", move |cx| {
        let a = cx.choose(34);
        let b = cx.choose(34);
        if a == b {
            return Ok(Out::Skip);
        }
        let k = cx.choose(4);
        let mut es: Vec<Entry> = (0..34).map(plain).collect();
        es[a] = Entry { input: "one.mid".into(), tempo: Some("0.4"), looping: [Some(false), None, Some(true), Some(false)][k] };
        es[b] = Entry { input: ["two.mid", "one.mid", "s0.json", "two.json"][k].into(), tempo: [None, Some("0.1"), Some("0.4"), Some("3")][k], looping: [None, Some(false), Some(false), Some(false)][k] };
        cx.state(&(a, b, k));
        let p = cx.path("manifest.json");
        std::fs::write(&p, manifest_text(&es, a + b, k > 1, false)).unwrap();
        cx.desc(|| format!("{}: {:?}, {}: {:?}", SLOTS[a].1, es[a], SLOTS[b].1, es[b]));
        let m = guarded(|| Manifest::new(&p))?.map_err(|e| format!("refused: {}", e))?;
        check_manifest(&m, &es, &cx.dir)?;
        Ok(Out::Ok(hash(&(a, b, k))))
    }));
    v.push(fam("paths", "manifests in the working directory, below and above it, named by relative and absolute paths, with songs named by relative (with . and .. and directories) and absolute paths, from each bank", move |cx| {
        let root = cx.dir.canonicalize().unwrap();
        for d in &["here/deep", "other"] {
            std::fs::create_dir_all(root.join(d)).unwrap();
        }
        std::env::set_current_dir(root.join("here")).unwrap();
        let mdir = cx.pick(&["", "./", "deep/", "../", "../other/", "deep/../", "ABS/here/", "ABS/other/", "./deep/../../other/"]);
        let name = cx.pick(&["manifest.json", "m", "my songs.txt"]);
        let song = cx.pick(&["a.mid", "./a.mid", "../a.mid", "deep/a.mid", "deep/../a.mid", "../other/a.mid", "ABS/a.mid", "ABS/here/deep/a.mid", "a b.json", "../../x/a.mid", "manifest.json"]);
        let song = song.replace("ABS", root.to_str().unwrap());
        let mp = PathBuf::from(format!("{}{}", mdir, name).replace("ABS", root.to_str().unwrap()));
        let mut es: Vec<Entry> = (0..34).map(plain).collect();
        for i in &[3usize, 14, 15, 30, 31, 33] {
            es[*i].input = song.clone();
        }
        cx.state(&(mdir, name, &song));
        cx.desc(|| format!("manifest {:?}, song {:?}", mp, song));
        std::fs::write(&mp, manifest_text(&es, 1, false, true)).unwrap();
        let dir = norm(&mp).parent().unwrap().to_path_buf();
        let r = guarded(|| Manifest::new(&mp)).and_then(|r| r.map_err(|e| format!("refused: {}", e))).and_then(|m| check_manifest(&m, &es, &dir));
        std::env::set_current_dir(&root).unwrap();
        r?;
        Ok(Out::Ok(hash(&(mdir, song.len()))))
    }));
    v.push(fam("links", "manifests and songs of which any may exist in the working directory, the manifest's directory and its target's directory; the manifest is a file, a link to a file in another directory or in a linked directory, or songs are links", move |cx| {
        let root = cx.dir.canonicalize().unwrap();
        for d in &["here", "man", "real/deep"] {
            std::fs::create_dir_all(root.join(d)).unwrap();
        }
        // which directories have the song
        let have = cx.choose(8);
        let kind = cx.choose(5);
        let song = cx.pick(&["a.mid", "x.json", "a", "./a.mid"]);
        let abs = cx.flag();
        let mut es: Vec<Entry> = (0..34).map(plain).collect();
        for i in &[0usize, 14, 15, 30, 31, 33] {
            es[*i].input = song.into();
        }
        for (i, d) in ["here", "man", "real/deep"].iter().enumerate() {
            let p = root.join(d).join(song);
            let _ = std::fs::remove_file(&p);
            if have >> i & 1 == 1 {
                if kind == 4 {
                    std::fs::write(root.join("target.mid"), b"x").unwrap();
                    std::os::unix::fs::symlink(root.join("target.mid"), &p).unwrap();
                } else {
                    std::fs::write(&p, b"x").unwrap();
                }
            }
        }
        let real = root.join("real/deep/m.json");
        let link = root.join("man/link.json");
        let dlink = root.join("dir");
        for x in &[&link, &dlink] {
            let _ = std::fs::remove_file(x);
        }
        let text = manifest_text(&es, 0, false, false);
        std::fs::write(&real, &text).unwrap();
        let (mp, dir) = match kind {
            0 | 4 => {
                std::fs::write(&link, &text).unwrap();
                ("man/link.json", "man")
            }
            1 => {
                std::os::unix::fs::symlink(&real, &link).unwrap();
                ("man/link.json", "man")
            }
            2 => {
                std::os::unix::fs::symlink("../real/deep/m.json", &link).unwrap();
                ("man/link.json", "man")
            }
            _ => {
                std::os::unix::fs::symlink("real/deep", &dlink).unwrap();
                ("dir/m.json", "dir")
            }
        };
        std::env::set_current_dir(root.join("here")).unwrap();
        let arg = if abs { root.join(mp) } else { PathBuf::from("..").join(mp) };
        cx.state(&(have, kind, song, abs));
        cx.desc(|| format!("manifest {:?} (kind {}), song {:?}, there in {:03b}", arg, kind, song, have));
        let r = guarded(|| Manifest::new(&arg)).and_then(|r| r.map_err(|e| format!("refused: {}", e)));
        let c = r.and_then(|m| {
            for (i, s) in m.banks.iter().flat_map(|b| &b.songs).enumerate() {
                let got = s.input.as_ref().ok_or("no song")?;
                // a linked directory may be named by its link or by its target
                let ok = |d: &str| norm(got) == norm(&root.join(d).join(&es[i].input));
                if !(ok(dir) || (dir == "dir" && ok("real/deep"))) {
                    return Err(format!("slot {} has the song {:?}", i, got));
                }
            }
            Ok(())
        });
        std::env::set_current_dir(&root).unwrap();
        c?;
        Ok(Out::Ok(hash(&(kind, song.len()))))
    }));
    v.push(fam("values", "manifests in which all 34 songs have tempo adjustments of their own (every hundredth from 0 to 20 and 16 other spellings take a turn in every slot) and looping in four patterns", move |cx| {
        let k = cx.choose(2016);
        let pat = cx.choose(4);
        let step = cx.pick(&[1usize, 7]);
        let texts: Vec<String> = (0..34)
            .map(|i| {
                let x = (k + i * step) % 2016;
                match x.checked_sub(2000) {
                    None => format!("{}.{:02}", x / 100, x % 100),
                    Some(y) => ["1e0", "2E-1", "0.3333333333333333", "1e-3", "100", "255", "1.0000001", "12.5e1", "0.1999999", "0.2000001", "3e2", "0.125", "7", "0.5", "1e-9", "0.0"][y].into(),
                }
            })
            .collect();
        let es: Vec<Entry> = (0..34)
            .map(|i| Entry {
                input: format!("song {}.mid", i % 5),
                tempo: Some(Box::leak(texts[i].clone().into_boxed_str())),
                looping: match pat {
                    0 => None,
                    1 => Some(i % 2 == 0),
                    2 => Some(i % 3 > 0),
                    _ => [None, Some(false), Some(true), Some(false)][(i + k) % 4],
                },
            })
            .collect();
        cx.state(&(k, pat, step));
        let p = cx.path("manifest.json");
        std::fs::write(&p, manifest_text(&es, k % 34, pat == 2, pat == 3)).unwrap();
        cx.desc(|| format!("{:?}", es));
        let m = guarded(|| Manifest::new(&p))?.map_err(|e| format!("refused: {}", e))?;
        check_manifest(&m, &es, &cx.dir)?;
        Ok(Out::Ok(hash(&(k, pat))))
    }));
    v.push(fam("names", "36 unusual names of song files and directories, in each of the 34 slots, plain or with the characters escaped in the manifest", move |cx| {
        let names = [
            "a", "a.b.mid", ".hidden.mid", "..mid", "~/a.mid", "~", "$HOME/a.mid", "%20.mid", "a%2fb.mid", "a\\b.mid", "a:b.mid", "c:/a.mid", "file:a.mid", "file:///a.mid", "a b  c.mid", " a.mid",
            "a.mid ", "\u{e4}\u{f6}.mid", "e\u{301}.mid", "\u{1f3b5}.mid", "A.MID", "a.Mid", "*.mid", "a?.mid", "[a].mid", "{a}.mid", "'a'.mid", "\"a\".mid", "a#1.mid", "a&b.mid", "a;b.mid", "-a.mid", "a,b.mid", "a\tb.mid", "...", "x/.../a.mid",
        ];
        let n = cx.pick(&names);
        let at = cx.choose(34);
        let long = cx.flag();
        let escape = cx.flag();
        let name = if long { format!("{}/{}", "d".repeat(200), n) } else { n.to_string() };
        let mut es: Vec<Entry> = (0..34).map(plain).collect();
        es[at].input = name.clone();
        es[(at + 11) % 34].input = name.clone();
        let mut text = manifest_text(&es, at, false, false);
        if escape {
            let quoted = serde_json::to_string(&name).unwrap();
            let e: String = name.encode_utf16().map(|u| format!("\\u{:04x}", u)).collect();
            text = text.replace(&quoted, &format!("\"{}\"", e));
        }
        cx.state(&(&name, at, escape));
        cx.desc(|| text.clone());
        let p = cx.path("manifest.json");
        std::fs::write(&p, &text).unwrap();
        let m = guarded(|| Manifest::new(&p))?.map_err(|e| format!("refused: {}", e))?;
        check_manifest(&m, &es, &cx.dir)?;
        Ok(Out::Ok(hash(&(&name, at))))
    }));
    v.push(famr("builds", "whole builds from manifests in which each song has its own JSON file; one of the 34 songs a MIDI file with each tempo adjustment and looping, entries in several orders; the song table is read back and the conversions asked for are recorded", move |cx| {
        let at = cx.choose(34);
        let (t, l) = (cx.pick(&TEMPOS), cx.pick(&LOOPS));
        let rot = cx.choose(3);
        let mut es: Vec<Entry> = (0..34).map(|i| Entry { looping: if (i + rot) % 4 == 1 { Some(false) } else { None }, ..plain(i) }).collect();
        es[at] = Entry { input: "the one.mid".into(), tempo: t, looping: l };
        let songs: Vec<RSong> = (0..34).map(|i| shape([0, 1, 2, 3, 5][i % 5], i)).collect();
        for i in 0..34 {
            let p = cx.path(&format!("s{}.json", i));
            if !p.exists() {
                std::fs::write(p, song_value(&songs[i].parts, &songs[i].tracks).to_string()).unwrap();
            }
        }
        std::fs::write(cx.path("the one.mid"), piece(4).bytes()).unwrap();
        let mp = cx.path("manifest.json");
        std::fs::write(&mp, manifest_text(&es, rot * 5 + at, rot == 1, rot == 2)).unwrap();
        let spec = RomSpec::new(GAME);
        let p = cx.path("rom.smc");
        std::fs::write(&p, spec.bytes()).unwrap();
        cx.state(&(at, t, l, rot));
        cx.desc(|| format!("{}: {:?}, order {}", SLOTS[at].1, es[at], rot));
        midi2spc::build_rom(mp.to_str().unwrap(), p.to_str().unwrap(), BASE, true, false).map_err(|e| format!("fails: {}", e))?;
        let f: f32 = t.map_or(0.2, |t| t.parse::<f64>().unwrap() as f32);
        let one = convert_at(&cx.path("x.mid"), &piece(4).bytes(), f, true, false)?;
        let got = play_all(&std::fs::read(&p).unwrap(), BASE, &COUNTS)?;
        for i in 0..34 {
            let g = &got[i];
            let looping = es[i].looping.unwrap_or(true);
            if g.loops != looping || g.loops && !g.own {
                return Err(format!("slot {} ({}) loops: {} ({})", i, SLOTS[i].1, g.loops, g.own));
            }
            if i == at {
                let mut want: Vec<Option<Vec<It>>> = flatten_all(&one)?.into_iter().map(|x| if x.is_empty() { None } else { Some(x) }).collect();
                want.resize(8, None);
                if g.chans != want {
                    return Err(format!("slot {} ({}) does not play the MIDI file with tempo adjustment {}", i, SLOTS[i].1, f));
                }
            } else if *g != expect_slot(&Def { song: Some(i), loops: looping }, &songs) {
                return Err(format!("slot {} ({}) does not play its song", i, SLOTS[i].1));
            }
        }
        // and what a build asks its converter for
        let asked = RefCell::new(vec![]);
        let conv = |path: &Path, f: f32| -> Result<Song, Error> {
            asked.borrow_mut().push((norm(path), f));
            Ok(songs[0].song())
        };
        let m = Manifest::new(&mp).map_err(|e| e.to_string())?;
        std::fs::write(&p, spec.bytes()).unwrap();
        rom::write(&m, &p, BASE, &conv, false).map_err(|e| format!("fails: {}", e))?;
        let asked = asked.into_inner();
        if asked.len() != 34 {
            return Err(format!("{} conversions", asked.len()));
        }
        for i in 0..34 {
            let f: f32 = es[i].tempo.map_or(0.2, |t| t.parse::<f64>().unwrap() as f32);
            if asked[i].0 != norm(&cx.path(&es[i].input)) || (asked[i].1 - f).abs() > 1e-6 * f.abs().max(1.0) {
                return Err(format!("conversion {} is of {:?} at {} instead of {} at {}", i, asked[i].0, asked[i].1, es[i].input, f));
            }
        }
        Ok(Out::Ok(hash(&(at, t, l))))
    }));
    v.push(shared_files());
    v
}

// ------------------------------------------------------------------------------------------------ C27

/// bytes, loop references and parts of a song
pub fn bare(s: &Song) -> Result<(Vec<(Vec<u8>, Vec<(usize, usize)>)>, Vec<usize>), String> {
    let a = assemble(s)?;
    Ok((a.tracks, a.part))
}
pub fn round_trip(cx: &Ctx, s: &Song) -> Result<Song, String> {
    let p = cx.path("round.json");
    guarded(|| s.write_to_json(&p)).map_err(|e| format!("writing JSON: {}", e))?;
    guarded(|| Song::from_json(&p)).map_err(|e| format!("reading JSON: {}", e))
}

pub fn c27(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    v.push(fam("commands", "songs of every command with 0, 1, 127, 128, 255 and other values for each parameter (every value of single parameters), of notes, ties and rests of every length, every velocity and gate, loop calls of every count, with empty tracks and shared loops, and channels in any order that may share tracks", |cx| {
        let kind = cx.choose(6);
        let note = RC::N(0x90, 8, Some((9, 7)));
        let (parts, tracks) = match kind {
            0 => {
                let op = 0xe0 + cx.choose(27) as u8;
                if op == 0xef {
                    return Ok(Out::Skip);
                }
                let n = PARAMS[(op - 0xe0) as usize];
                let p: Vec<u8> = if n == 1 { vec![cx.choose(256) as u8] } else { (0..n).map(|_| cx.pick(&[0u8, 1, 2, 127, 128, 200, 255])).collect() };
                (vec![0], vec![vec![note, RC::C(op, p), RC::Rest(3)]])
            }
            1 => {
                let d = 1 + cx.choose(127) as u8;
                let c = match cx.choose(3) {
                    0 => RC::N(0x80 + (d % 0x48), d, Some((5, 5))),
                    1 => RC::Tie(d),
                    _ => RC::Rest(d),
                };
                (vec![0], vec![vec![note, c]])
            }
            2 => {
                let vg = match cx.choose(113) {
                    0 => None,
                    k => Some((1 + ((k - 1) % 15) as u8, ((k - 1) / 15) as u8 % 8)),
                };
                let b = cx.pick(&[0x80u8, 0x9b, 0xc7, 0xb3, 0x81]);
                (vec![0], vec![vec![note, RC::N(b, 5, vg)]])
            }
            3 => {
                let n = cx.choose(256) as u8;
                let t = cx.choose(4);
                (vec![0], vec![vec![note.clone(), RC::Call(1 + t, n), RC::Rest(2)], vec![note.clone()], vec![], vec![RC::Rest(9)], vec![note.clone(), note]])
            }
            5 => {
                // channels may share tracks, and come in any order
                let n = 1 + cx.choose(8);
                let k = if n > 4 { 2 } else { 4 };
                let parts = (0..n).map(|_| cx.choose(k)).collect();
                let tracks = (0..k).map(|t| if t == 2 && cx.flag() { vec![] } else { vec![RC::N(0x84 + t as u8, 3, Some((2, 2)))] }).collect();
                (parts, tracks)
            }
            _ => {
                let n = 1 + cx.choose(8);
                let loops = cx.choose(4);
                let mut tracks = vec![];
                for i in 0..n {
                    let mut t = if cx.flag() { vec![] } else { vec![RC::N(0x84 + i as u8, 3, Some((2, 2)))] };
                    if loops > 0 && i % 2 == 0 {
                        t.push(RC::Call(n + i % loops, 2));
                    }
                    tracks.push(t);
                }
                for i in 0..loops {
                    tracks.push(vec![RC::N(0xa0 + i as u8, 3, Some((2, 2)))]);
                }
                ((0..n).collect(), tracks)
            }
        };
        cx.state(&(&parts, &tracks));
        cx.desc(|| format!("parts {:?} tracks {:?}", parts, tracks));
        let s: Song = serde_json::from_value(song_value(&parts, &tracks)).map_err(|e| format!("a song's JSON form is not read: {}", e))?;
        let t = round_trip(cx, &s)?;
        if bare(&s)? != bare(&t)? {
            return Err("the song read back is not the song written".into());
        }
        if song_json(&s) != song_json(&t) {
            return Err("the JSON form of the song read back differs".into());
        }
        if !t.get_part_tracks(0).iter().eq(parts.iter()) || t.get_num_tracks() != tracks.len() {
            return Err(format!("parts {:?} and {} tracks come back as {:?} and {}", parts, tracks.len(), t.get_part_tracks(0), t.get_num_tracks()));
        }
        // the bytes of a command are those of the reference, after the round trip too
        if kind < 4 && !tracks[0].iter().any(|c| matches!(c, RC::Call(_, 0) | RC::Call(2, _) | RC::N(_, _, Some((_, 0))))) {
            check_encoding(&t, &parts, &tracks)?;
        }
        Ok(Out::Ok(hash(&bare(&t)?)))
    }));
    let n = q(thorough, 4, 5);
    v.push(fam("converted songs", &format!("every history of up to {} events of notes in two channels, program, volume, pan, pitch and tempo changes, followed by a repeated figure; optimised or not", n), move |cx| {
        let extra = [Ev::Pc(0, 40), Ev::Cc(0, 7, 90), Ev::Cc(0, 10, 20), Ev::Bend(0, 0, 0x50), Ev::Tempo(400_000)];
        let opt = cx.flag();
        let mut h = history(cx, n, &Alphabet { keys: &[(0, 60), (1, 67)], vels: &[64, 100], deltas: &[12, 36], extra: &extra, repeats: false, unmatched: false });
        release_all(&mut h, 24);
        for _ in 0..3 {
            for k in &[62u8, 64, 65, 69] {
                h.trk.push((h.t, Ev::On(0, *k, 80)));
                h.t += 12;
                h.trk.push((h.t, Ev::Off(0, *k)));
            }
        }
        cx.desc(|| format!("{:?}", h.trk));
        let s = match convert_at(&cx.path("a.mid"), &Smf::new(48, vec![h.trk.clone()]).bytes(), 0.2, opt, false) {
            Err(_) => return Ok(Out::Skip),
            Ok(s) => s,
        };
        let t = round_trip(cx, &s)?;
        if bare(&s)? != bare(&t)? {
            return Err("the song read back is not the song converted".into());
        }
        if song_json(&s) != song_json(&t) {
            return Err("the JSON form of the song read back differs".into());
        }
        Ok(Out::Ok(hash(&bare(&t)?)))
    }));
    v.push(famr("ROMs", "ROMs built by each command from pieces and from their JSON form as the program writes it, optimised or not, in large and tight chunks", move |cx| {
        let how = cx.choose(3);
        let opt = cx.flag();
        let k = cx.choose(if cx.thorough { 24 } else { 6 });
        let tight = cx.flag();
        std::fs::write(cx.path("a.mid"), piece(k).bytes()).unwrap();
        let mut m = MidiHandler::new();
        m.read(&cx.path("a.mid"), false).map_err(|e| e.to_string())?;
        Song::from_midi(&m, 0.2, opt, false).map_err(|e| e.to_string())?.write_to_json(&cx.path("a.json"));
        let spec = if tight { RomSpec::new([(900, 3000), (800, 3000), (200, 600)]) } else { RomSpec::new(GAME) };
        cx.state(&(how, opt, k, tight));
        cx.desc(|| format!("command {} optimised {} piece {} tight {}", how, opt, k, tight));
        let mut out = vec![];
        for ext in &["mid", "json"] {
            let p = cx.path("rom.smc");
            std::fs::write(&p, spec.bytes()).unwrap();
            let name = cx.path(&format!("a.{}", ext));
            let b = p.to_str().unwrap();
            let r = match how {
                0 => {
                    let mp = cx.path("manifest.json");
                    std::fs::write(&mp, manifest_value(|i| if i % 3 == 1 { json!({"input": name.to_str().unwrap(), "loop": false}) } else { json!({"input": format!("a.{}", ext)}) }).to_string()).unwrap();
                    midi2spc::build_rom(mp.to_str().unwrap(), b, BASE, opt, false)
                }
                1 => midi2spc::write_all_overworld(name.to_str().unwrap(), b, BASE, opt, false),
                _ => midi2spc::write_file_select(name.to_str().unwrap(), b, BASE, opt, false),
            };
            out.push((r.is_ok(), std::fs::read(&p).unwrap()));
        }
        if out[0].0 != out[1].0 {
            return Err(format!("the build from MIDI succeeds: {}, from JSON: {}", out[0].0, out[1].0));
        }
        if out[0].1 != out[1].1 {
            return Err("the ROM built from MIDI differs from the one built from JSON".into());
        }
        if !tight && !out[0].0 {
            return Err("the build fails".into());
        }
        Ok(Out::Ok(hash(&out[0].1)))
    }));
    v.push(famr("names", "files of 30 names with MIDI or JSON content, through each command", move |cx| {
        let names = ["a.mid", "a.MID", "a.Mid", "a.mId", "a.midi", "a.mi", "a.mid2", "a", "mid", ".mid", "a.mid.json", "a.json.mid", "a b.mid", "a.mid ", "a. mid", "a.", "a..mid", "a.mid.", "d.mid/a", "d.mid/a.json", "d.json/a.mid", "d/a.mid", "é.mid", "a.json", "a.JSON", "a.smid", "a.m", "..mid", "a.rmi", "amid"];
        let name = cx.pick(&names);
        let midi = cx.flag();
        let how = cx.choose(3);
        let p = cx.path(name);
        for d in &["d.mid", "d.json", "d"] {
            std::fs::create_dir_all(cx.path(d)).unwrap();
        }
        let s = shape(3, 2);
        std::fs::write(&p, if midi { piece(1).bytes() } else { song_value(&s.parts, &s.tracks).to_string().into_bytes() }).unwrap();
        let as_midi = Path::new(name).file_name().unwrap().to_str().unwrap().rfind('.').map_or(false, |i| i > 0 && &Path::new(name).file_name().unwrap().to_str().unwrap()[i + 1..] == "mid");
        let r = cx.path("rom.smc");
        let spec = RomSpec::new(GAME);
        std::fs::write(&r, spec.bytes()).unwrap();
        cx.state(&(name, midi, how));
        cx.desc(|| format!("{:?} with {} content, command {}", name, if midi { "MIDI" } else { "JSON" }, how));
        let (a, b) = (p.to_str().unwrap(), r.to_str().unwrap());
        let ok = match guarded(|| match how {
            0 => {
                let mp = cx.path("manifest");
                std::fs::write(&mp, manifest_value(|_| json!({ "input": name })).to_string()).unwrap();
                midi2spc::build_rom(mp.to_str().unwrap(), b, BASE, true, false)
            }
            1 => midi2spc::write_all_overworld(a, b, BASE, true, false),
            _ => midi2spc::write_file_select(a, b, BASE, true, false),
        }) {
            Ok(Ok(())) => true,
            _ => false,
        };
        let _ = std::fs::remove_file(&p);
        if ok != (as_midi == midi) {
            return Err(format!("a file of that name is read as {}", if ok == midi { "MIDI" } else { "JSON" }));
        }
        if ok {
            let got = play_all(&std::fs::read(&r).unwrap(), BASE, &COUNTS)?;
            let mut want: Vec<Option<Vec<It>>> = if midi { flatten_all(&convert_at(&cx.path("x.mid"), &piece(1).bytes(), 0.2, true, false)?)?.into_iter().map(|x| if x.is_empty() { None } else { Some(x) }).collect() } else { expect_slot(&Def { song: Some(0), loops: true }, &[s]).chans };
            want.resize(8, None);
            if got[10].chans != want {
                return Err("the song built is not the file's".into());
            }
        }
        Ok(Out::Ok(hash(&(name, midi))))
    }));
    v.push(crate::p_real::json());
    v
}

// ------------------------------------------------------------------------------------------------ C30

/// runs `f` in a thread of its own, whose hash tables have a chosen seed
fn seeded<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(seed: u64, f: F) -> Result<T, String> {
    let (tx, rx) = mpsc::channel();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            hooks::choose_seed(seed);
            let r = guarded(f);
            let _ = tx.send(r);
        })
        .unwrap();
    match rx.recv_timeout(Duration::from_secs(25)) {
        Ok(r) => r,
        Err(_) => Err("does not terminate within 25 s".into()),
    }
}

pub fn outcome(path: PathBuf, opt: bool, verbose: bool, seed: u64) -> Result<String, String> {
    seeded(seed, move || {
        let mut m = MidiHandler::new();
        let r = m.read(&path, verbose).map_err(|e| e.to_string()).and_then(|_| Song::from_midi(&m, 0.2, opt, verbose).map_err(|e| e.to_string()));
        match r {
            Ok(s) => song_json(&s),
            Err(_) => "refused".to_string(),
        }
    })
    .or_else(|e| if e.contains("terminate") { Err(e) } else { Ok("panic".into()) })
}

/// the seeds really decide the order of hash tables
fn seeds_work() -> bool {
    fn order(seed: u64) -> Vec<u32> {
        seeded(seed, || (0..40u32).collect::<std::collections::HashSet<u32>>().into_iter().collect()).unwrap()
    }
    order(1) == order(1) && order(1) != order(2)
}

pub fn c30(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let n = q(thorough, 3, 4);
    let seeds = q(thorough, 3, 8);
    v.push(famr("conversions", &format!("every history of up to {} note events on four channels and three keys (chords, voices shared between channels, too many voices), then a repeated figure in each channel: optimised or not, quiet and verbose, with {} seeds of the hash tables, twice", n, seeds), move |cx| {
        static CHECKED: std::sync::Once = std::sync::Once::new();
        CHECKED.call_once(|| assert!(seeds_work(), "harness: hash seeds cannot be chosen"));
        let opt = cx.flag();
        let keys = [(0u8, 60u8), (1, 60), (2, 64), (9, 38), (0, 62), (0, 65)];
        let mut h = history(cx, n, &Alphabet { keys: &keys, vels: &[64, 100], deltas: &[12], extra: &[Ev::Pc(1, 40), Ev::Cc(0, 7, 90)], repeats: false, unmatched: false });
        release_all(&mut h, 12);
        for _ in 0..2 {
            for (c, k) in &[(0u8, 62u8), (0, 65), (1, 60), (3, 50), (4, 50), (5, 50), (6, 50)] {
                h.trk.push((h.t, Ev::On(*c, *k, 80)));
            }
            h.t += 12;
            for (c, k) in &[(6u8, 50u8), (0, 62), (0, 65), (1, 60), (3, 50), (4, 50), (5, 50)] {
                h.trk.push((h.t, Ev::Off(*c, *k)));
            }
        }
        cx.desc(|| format!("optimised {} {:?}", opt, h.trk));
        let p = cx.path("a.mid");
        std::fs::write(&p, Smf::new(48, vec![h.trk.clone()]).bytes()).unwrap();
        let want = outcome(p.clone(), opt, false, 1)?;
        for s in 1..=seeds as u64 {
            for verbose in &[false, true] {
                let got = outcome(p.clone(), opt, *verbose, s)?;
                if got != want {
                    return Err(format!("verbose {} with hash seed {} gives {} instead of {}", verbose, s, &got[..got.len().min(300)], &want[..want.len().min(300)]));
                }
            }
        }
        Ok(Out::Ok(hash(&want)))
    }));
    v.push(famr("chords", &format!("every chord of one to six channels with up to three of their notes each, alone or after a chord of another shape, with {} seeds", 4 * seeds), move |cx| {
        let opt = cx.flag();
        let mut t = 0;
        let mut trk: Trk = vec![];
        let chords = 1 + cx.choose(2);
        let mut shapes = vec![];
        for c in 0..chords {
            let nch = 1 + cx.choose(if c == 0 { 6 } else { 3 });
            let counts: Vec<usize> = (0..nch).map(|i| if i < 4 { 1 + cx.choose(if c == 0 && i < 3 { 3 } else { 2 }) } else { 1 }).collect();
            for (ch, n) in counts.iter().enumerate() {
                for k in 0..*n {
                    trk.push((t, Ev::On(ch as u8, 50 + 3 * k as u8, 80)));
                }
            }
            t += 24;
            for (ch, n) in counts.iter().enumerate() {
                for k in 0..*n {
                    trk.push((t, Ev::Off(ch as u8, 50 + 3 * k as u8)));
                }
            }
            shapes.push(counts);
        }
        cx.state(&shapes);
        cx.desc(|| format!("chords {:?} optimised {}", shapes, opt));
        let p = cx.path("a.mid");
        std::fs::write(&p, Smf::new(48, vec![trk]).bytes()).unwrap();
        let want = outcome(p.clone(), opt, false, 1)?;
        for s in 2..=4 * seeds as u64 {
            let got = outcome(p.clone(), opt, s % 2 == 0, s)?;
            if got != want {
                return Err(format!("hash seed {} gives {} instead of {}", s, &got[..got.len().min(300)], &want[..want.len().min(300)]));
            }
        }
        Ok(Out::Ok(hash(&want)))
    }));
    v.push(famr("drum chords", &format!("every two chords of up to four drums, with up to two chords of one to three notes on other channels beside them, overlapping or apart, with {} seeds", 4 * seeds), move |cx| {
        let opt = cx.flag();
        let mut t = 0;
        let mut trk: Trk = vec![];
        let drums = [36u8, 38, 42, 49, 45, 31];
        let mut shapes = vec![];
        for c in 0..2 {
            let from = cx.choose(3);
            let n = cx.choose(5);
            let other: Vec<usize> = (0..2).map(|_| cx.choose(3)).collect();
            let late = c == 0 && cx.flag();
            let mut offs: Trk = vec![];
            for k in 0..n {
                trk.push((t, Ev::On(9, drums[(from + k) % 6], 80)));
                offs.push((t + if late { 36 } else { 24 }, Ev::Off(9, drums[(from + k) % 6])));
            }
            for (ch, m) in other.iter().enumerate() {
                for k in 0..*m {
                    trk.push((t, Ev::On([0u8, 12][ch], 50 + 3 * k as u8, 80)));
                    offs.push((t + 24, Ev::Off([0u8, 12][ch], 50 + 3 * k as u8)));
                }
            }
            shapes.push((from, n, other, late));
            if late {
                // the second chord starts while the drums of the first sound
                let (now, then): (Trk, Trk) = offs.into_iter().partition(|e| e.0 == t + 24);
                trk.extend(now);
                t += 24;
                trk.push((t, Ev::On(1, 70, 80)));
                t += 12;
                trk.extend(then);
                trk.push((t, Ev::Off(1, 70)));
            } else {
                trk.extend(offs);
                t += 24;
            }
        }
        cx.state(&shapes);
        cx.desc(|| format!("chords {:?} optimised {}", shapes, opt));
        let p = cx.path("a.mid");
        std::fs::write(&p, Smf::new(48, vec![trk]).bytes()).unwrap();
        let want = outcome(p.clone(), opt, false, 1)?;
        for s in 2..=4 * seeds as u64 {
            let got = outcome(p.clone(), opt, s % 2 == 0, s)?;
            if got != want {
                return Err(format!("hash seed {} gives {} instead of {}", s, &got[..got.len().min(300)], &want[..want.len().min(300)]));
            }
        }
        Ok(Out::Ok(hash(&want)))
    }));
    v.push(famr("verbose builds", "builds of eight kinds (fitting, split in songs and in tracks, too large, empty songs, empty banks), quiet and verbose, with four seeds, twice each: same bytes and same success", move |cx| {
        let kind = cx.choose(8);
        let rot = cx.choose(if cx.thorough { 20 } else { 7 });
        let songs: Vec<RSong> = (0..34).map(|i| shape((i + rot) % 7, i)).collect();
        let mut k = 0;
        let counts = if kind == 6 { [2, 0, 1] } else { COUNTS };
        let banks: Vec<Vec<Def>> = counts
            .iter()
            .map(|n| {
                (0..*n)
                    .map(|_| {
                        k += 1;
                        Def { song: if kind == 5 && k % 3 == 0 { None } else { Some(k - 1) }, loops: (k + rot) % 3 > 0 }
                    })
                    .collect()
            })
            .collect();
        let mut lens = GAME;
        if kind > 0 {
            for b in 0..3 {
                let n: usize = banks[b].iter().map(|d| 24 + d.song.map_or(0, |s| songs[s].sizes().iter().sum::<usize>())).sum();
                lens[b] = (FIRST_DATA[b] + n * kind / 8 + rot, if kind == 4 { n / 4 + 1 } else { n + 1 });
            }
        }
        cx.state(&(kind, rot));
        cx.desc(|| format!("kind {} rotation {}", kind, rot));
        let case = Case { spec: RomSpec::new(lens), songs, banks };
        let before = case.spec.bytes();
        let p = cx.path("rom.smc");
        let case = std::sync::Arc::new(case);
        let mut want = None;
        for seed in 1..5u64 {
            for verbose in &[false, true, false] {
                std::fs::write(&p, &before).unwrap();
                let (c2, p2, vb) = (case.clone(), p.clone(), *verbose);
                let ok = seeded(seed, move || build(&p2, &c2, vb).is_ok())?;
                let got = (ok, std::fs::read(&p).unwrap());
                match &want {
                    None => want = Some(got),
                    Some(w) if *w != got => return Err(format!("verbose {} seed {}: success {} instead of {}, ROM equal: {}", verbose, seed, got.0, w.0, got.1 == w.1)),
                    _ => {}
                }
            }
        }
        Ok(Out::Ok(hash(&want)))
    }));
    let sw = q(thorough, 2, 3);
    v.push(famr("display", &format!("builds of three kinds with the progress display held back, let through one line at a time or freely, changed at most {} times, at every conversion, write and wait of the build", sw), move |cx| {
        let k = cx.choose(3);
        let songs: Vec<RSong> = (0..4).map(|i| shape(i, i + k)).collect();
        let d = |s: usize, loops: bool| Def { song: Some(s), loops };
        let banks = match k {
            0 => vec![vec![d(0, true), d(3, true)], vec![d(2, false), d(1, true)], vec![d(3, false)]],
            1 => vec![vec![d(0, true)], vec![], vec![d(1, true), Def { song: None, loops: false }]],
            // does not fit
            _ => vec![vec![d(0, true)], vec![d(3, true); 30], vec![d(1, true)]],
        };
        let case = Case { spec: RomSpec::new([(0x200, 100); 3]), songs, banks };
        let p = cx.path("rom.smc");
        let before = case.spec.bytes();
        std::fs::write(&p, &before).unwrap();
        let want = (build(&p, &case, false).is_ok(), std::fs::read(&p).unwrap());
        std::fs::write(&p, &before).unwrap();
        let m = manifest_of(&case.banks);
        let conv = |path: &Path, _f: f32| -> Result<Song, Error> {
            hooks::main_event();
            let n: usize = path.to_str().unwrap().trim_start_matches("song").trim_end_matches(".json").parse().unwrap();
            Ok(case.songs[n].song())
        };
        let (r, lines) = hooks::with_gate(cx, &p.clone(), sw, || guarded(|| rom::write(&m, &p, case.spec.base, &conv, false)));
        let ok = match r {
            Ok(Ok(())) => true,
            _ => false,
        };
        cx.desc(|| format!("kind {}, {} lines of display let through by the end", k, lines));
        let ch = cx.choices.clone();
        cx.state(&ch);
        let got = (ok, std::fs::read(&p).unwrap());
        if got != want {
            return Err(format!("succeeds: {} instead of {}, ROM equal: {}", got.0, want.0, got.1 == want.1));
        }
        Ok(Out::Ok(hash(&(k, lines))))
    }));
    v.push(crate::p_real::seeds());
    v
}

// ------------------------------------------------------------------------------------------------ C31

struct Ran {
    ok: bool,
    stdout: String,
}
fn program(args: &[String], dir: &Path) -> Result<Ran, String> {
    program_limited(args, dir, None)
}
/// `limit`: no file can grow beyond this many bytes
fn program_limited(args: &[String], dir: &Path, limit: Option<u64>) -> Result<Ran, String> {
    use std::os::unix::process::CommandExt;
    let exe = std::env::current_exe().unwrap().parent().unwrap().join("midi2spc-cli");
    let mut cmd = std::process::Command::new(exe);
    cmd.args(args).current_dir(dir).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null());
    if let Some(n) = limit {
        unsafe {
            cmd.pre_exec(move || {
                let r = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_FSIZE, &r);
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                Ok(())
            });
        }
    }
    let mut c = cmd.spawn().expect("harness: the program cannot be started");
    let mut so = c.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        use std::io::Read;
        let mut b = vec![];
        let _ = so.read_to_end(&mut b);
        let _ = tx.send(b);
    });
    match rx.recv_timeout(Duration::from_secs(30)) {
        Ok(b) => {
            let s = c.wait().map_err(|e| e.to_string())?;
            Ok(Ran { ok: s.success(), stdout: String::from_utf8_lossy(&b).into_owned() })
        }
        Err(_) => {
            let _ = c.kill();
            let _ = c.wait();
            Err("the program does not end within 30 s".into())
        }
    }
}
/// what the library prints to standard output
fn captured<T, F: FnOnce() -> T>(dir: &Path, f: F) -> (T, String) {
    use std::os::unix::io::AsRawFd;
    let p = dir.join("captured");
    let o = std::fs::File::create(&p).unwrap();
    let t;
    unsafe {
        let saved = libc::dup(1);
        libc::dup2(o.as_raw_fd(), 1);
        t = f();
        use std::io::Write;
        let _ = std::io::stdout().flush();
        libc::dup2(saved, 1);
        libc::close(saved);
    }
    (t, String::from_utf8_lossy(&std::fs::read(&p).unwrap()).into_owned())
}
/// standard output without the progress display
fn messages(s: &str) -> Vec<String> {
    s.lines().filter(|l| !l.contains('\r') && !l.contains('\u{1b}') && !l.trim().is_empty()).map(|l| l.to_string()).collect()
}

const FLAGS: [&[&str]; 9] = [&[], &["-s"], &["-v"], &["-s", "-v"], &["-v", "-s"], &["-sv"], &["--skip_optimization"], &["--verbose"], &["--verbose", "--skip_optimization"]];
/// option text, and the addresses it stands for
fn addrs(k: usize) -> (Vec<String>, Option<[u32; 3]>) {
    let s = |x: &[&str]| x.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    match k {
        0 => (vec![], Some(BASE)),
        1 => (s(&["--bank_addrs", "914,926,932"]), Some(BASE)),
        2 => (s(&["--bank_addrs", "a14,b26,c32"]), Some([0xa14, 0xb26, 0xc32])),
        3 => (s(&["--bank_addrs=A14,B26,C32"]), Some([0xa14, 0xb26, 0xc32])),
        4 => (s(&["--bank_addrs", "c32,a14,b26"]), Some([0xc32, 0xa14, 0xb26])),
        5 => (s(&["--bank_addrs", "0000914,0926,8932"]), Some([0x914, 0x926, 0x8932])),
        6 => (s(&["--bank_addrs", "18c00,18c0c,18c18"]), Some([0x18c00, 0x18c0c, 0x18c18])),
        7 => (s(&["--bank_addrs", "914,926"]), None),
        8 => (s(&["--bank_addrs", "914,926,xyz"]), None),
        9 => (s(&["--bank_addrs", "914,926,932,940"]), None),
        10 => (s(&["--bank_addrs", "914,926,100000000"]), None),
        11 => (s(&["--bank_addrs", "914,-926,932"]), None),
        _ => (s(&["--bank_addrs", "914,,932"]), None),
    }
}
const ADDRS: usize = 13;

/// A ROM with chains for the default places of the pointers and for two other places, each its own.
fn many_pointers() -> Vec<u8> {
    let mut r = vec![];
    let mut at = 0x1000;
    for base in &[BASE, [0xa14, 0xb26, 0xc32], [0x18c00, 0x18c0c, 0x18c18]] {
        let mut s = RomSpec::new([(0x900, 0x500), (0xa00, 0x500), (0x300, 0x200)]);
        s.base = *base;
        s.size = 0x14000;
        for c in s.chains.iter_mut() {
            c.at = at;
            at += c.chunks.iter().map(|x| x.1 + 4).sum::<usize>() + 4 + 9;
        }
        let b = s.bytes();
        if r.is_empty() {
            r = b;
        } else {
            for (i, c) in s.chains.iter().enumerate() {
                let n: usize = c.chunks.iter().map(|x| x.1 + 4).sum::<usize>() + 4;
                r[c.at..c.at + n].copy_from_slice(&b[c.at..c.at + n]);
                for o in &[0, 4, 8] {
                    let x = pc(base[i] + o);
                    r[x] = b[x];
                }
            }
        }
    }
    r
}

fn repetitive() -> Smf {
    let mut a = Builder::new(0, 12);
    for _ in 0..4 {
        a.word("ABCDab");
    }
    Smf::new(48, vec![a.trk])
}

pub fn c31(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    v.push(famr("ROM commands", "build_rom, all_overworld and file_select with every combination of nine spellings of the flags, 13 of the bank addresses (seven good, six bad) before or after the other arguments, and usable, unreadable and missing inputs and ROMs; output, messages and exit status compared with the library call", move |cx| {
        let how = cx.choose(3);
        let a = cx.choose(ADDRS);
        let fl = cx.choose(9);
        let after = cx.flag();
        let kind = cx.choose(5);
        if !thorough && kind > 0 && (a > 2 || fl > 3) || kind == 1 && how == 0 {
            return Ok(Out::Skip);
        }
        let d = cx.path("c");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(d.join("sub")).unwrap();
        std::fs::write(d.join("sub/a.mid"), repetitive().bytes()).unwrap();
        std::fs::write(d.join("sub/a.json"), song_text(2)).unwrap();
        std::fs::write(d.join("sub/m.json"), manifest_value(|i| json!({"input": if i % 3 == 0 { "a.mid" } else { "a.json" }, "loop": i % 5 > 0})).to_string()).unwrap();
        std::fs::write(d.join("sub/bad.mid"), &piece(0).bytes()[..40]).unwrap();
        let rom_b = many_pointers();
        let rom_p = d.join("r.smc");
        std::fs::write(&rom_p, &rom_b).unwrap();
        let input = match (how, kind) {
            (_, 2) => "sub/none.mid",
            (0, 3) => "sub/bad.mid",
            (_, 3) => "sub/bad.mid",
            (0, _) => "sub/m.json",
            (_, 1) => "sub/a.json",
            _ => "sub/a.mid",
        };
        let rom_name = if kind == 4 { "none.smc" } else { "r.smc" };
        let (opt, want) = addrs(a);
        let mut args: Vec<String> = FLAGS[fl].iter().map(|s| s.to_string()).collect();
        args.push(["build_rom", "all_overworld", "file_select"][how].into());
        if !after {
            args.extend(opt.clone());
        }
        args.push(input.into());
        args.push(rom_name.into());
        if after {
            args.extend(opt);
        }
        cx.state(&args);
        cx.desc(|| format!("{:?}", args));
        let skip = [1, 3, 4, 5, 6, 8].contains(&fl);
        let verbose = [2, 3, 4, 5, 7, 8].contains(&fl);
        let r = program(&args, &d)?;
        let got = std::fs::read(&rom_p).unwrap();
        let base = match want {
            None => {
                if r.ok || got != rom_b {
                    return Err(format!("addresses that are none are accepted (exit status success: {})", r.ok));
                }
                return Ok(Out::Ok(1));
            }
            Some(b) => b,
        };
        std::fs::write(&rom_p, &rom_b).unwrap();
        std::env::set_current_dir(&d).unwrap();
        let (lib, said) = captured(&d, || {
            guarded(|| match how {
                0 => midi2spc::build_rom(input, rom_name, base, !skip, verbose),
                1 => midi2spc::write_all_overworld(input, rom_name, base, !skip, verbose),
                _ => midi2spc::write_file_select(input, rom_name, base, !skip, verbose),
            })
        });
        std::env::set_current_dir("/").unwrap();
        let lib_ok = match lib {
            Ok(Ok(())) => true,
            _ => false,
        };
        if r.ok != lib_ok {
            return Err(format!("exit status success: {}, the operation succeeds: {}", r.ok, lib_ok));
        }
        if lib_ok != (kind < 2) {
            return Err(format!("the operation succeeds: {}", lib_ok));
        }
        let expect = std::fs::read(&rom_p).unwrap();
        if got != expect {
            let n = got.iter().zip(&expect).take_while(|(a, b)| a == b).count();
            return Err(format!("the ROM differs from the library call's at {:#x}", n));
        }
        if lib_ok && got == rom_b {
            return Err("nothing is written".into());
        }
        if d.join("none.smc").exists() {
            return Err("a ROM appears".into());
        }
        let (m1, m2) = (messages(&r.stdout), messages(&said));
        if lib_ok && m1 != m2 {
            return Err(format!("prints {} lines of messages, the library call {}", m1.len(), m2.len()));
        }
        if lib_ok && verbose == m1.is_empty() {
            return Err(format!("verbose {}, but {} lines of messages", verbose, m1.len()));
        }
        Ok(Out::Ok(hash(&(got, r.ok, m1.len()))))
    }));
    v.push(famr("addresses", "build_rom, all_overworld and file_select with each of the three bank addresses in turn at 17 places of the ROM (0, small, at bank borders, mirrored, up to the end), written in five ways", move |cx| {
        let how = cx.choose(3);
        let which = cx.choose(3);
        let a = cx.pick(&[0u32, 1, 2, 9, 0x10, 0x80, 0xff, 0x100, 0x8ff, 0xa00, 0xfff0, 0x7f00, 0x8020, 0x10040, 0x1ff00, 0x18050, 0x20a00]);
        let form = cx.choose(5);
        let mut base = BASE;
        base[which] = a;
        let mut spec = RomSpec::new([(0x900, 0x500), (0xa00, 0x500), (0x300, 0x200)]);
        spec.base = base;
        spec.size = 0x14000;
        let rom_b = spec.bytes();
        let d = cx.path("c");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(d.join("sub")).unwrap();
        std::fs::write(d.join("sub/a.json"), song_text(2)).unwrap();
        std::fs::write(d.join("sub/m.json"), manifest_value(|i| json!({"input": "a.json", "loop": i % 5 > 0})).to_string()).unwrap();
        let rom_p = d.join("r.smc");
        std::fs::write(&rom_p, &rom_b).unwrap();
        let spelt: Vec<String> = base
            .iter()
            .map(|x| match form {
                0 => format!("{:x}", x),
                1 => format!("{:X}", x),
                2 => format!("{:06x}", x),
                3 => format!("{:08X}", x),
                _ => format!("{:012x}", x),
            })
            .collect();
        let input = if how == 0 { "sub/m.json" } else { "sub/a.json" };
        let args: Vec<String> = vec![["build_rom", "all_overworld", "file_select"][how].into(), input.into(), "r.smc".into(), "--bank_addrs".into(), spelt.join(",")];
        cx.state(&args);
        cx.desc(|| format!("{:?}", args));
        let r = program(&args, &d)?;
        let got = std::fs::read(&rom_p).unwrap();
        if !r.ok {
            return Err("the addresses are refused".into());
        }
        std::fs::write(&rom_p, &rom_b).unwrap();
        std::env::set_current_dir(&d).unwrap();
        let lib = guarded(|| match how {
            0 => midi2spc::build_rom(input, "r.smc", base, true, false),
            1 => midi2spc::write_all_overworld(input, "r.smc", base, true, false),
            _ => midi2spc::write_file_select(input, "r.smc", base, true, false),
        });
        std::env::set_current_dir("/").unwrap();
        lib?.map_err(|e| format!("the library call fails: {}", e))?;
        let expect = std::fs::read(&rom_p).unwrap();
        if got == rom_b || got != expect {
            return Err("the ROM differs from the library call's".into());
        }
        Ok(Out::Ok(hash(&got)))
    }));
    v.push(famr("song commands", "dump_midi and midi2json with the flags, good, unreadable, missing and unusual inputs and outputs", move |cx| {
        let dump = cx.flag();
        let fl = cx.choose(9);
        let kind = cx.choose(7);
        let d = cx.path("c");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(d.join("sub")).unwrap();
        std::fs::write(d.join("a.mid"), repetitive().bytes()).unwrap();
        std::fs::write(d.join("b.x"), piece(2).bytes()).unwrap();
        std::fs::write(d.join("bad.mid"), &piece(0).bytes()[..40]).unwrap();
        // readable, but too many notes at once
        let t: Trk = (0..9).map(|i| (0, Ev::On(0, 40 + i, 64))).chain((0..9).map(|i| (48, Ev::Off(0, 40 + i)))).collect();
        std::fs::write(d.join("nine.mid"), Smf::new(48, vec![t]).bytes()).unwrap();
        let input = ["a.mid", "b.x", "bad.mid", "none.mid", "nine.mid", "a.mid", "a.mid"][kind];
        let output = ["o.json", "sub/o", "o.json", "o.json", "o.json", "none/o.json", "old.json"][kind];
        std::fs::write(d.join("old.json"), vec![b'x'; 100_000]).unwrap();
        let mut args: Vec<String> = FLAGS[fl].iter().map(|s| s.to_string()).collect();
        args.push(if dump { "dump_midi" } else { "midi2json" }.into());
        args.push(input.into());
        if !dump {
            args.push(output.into());
        }
        cx.state(&args);
        cx.desc(|| format!("{:?}", args));
        let skip = [1, 3, 4, 5, 6, 8].contains(&fl);
        let verbose = [2, 3, 4, 5, 7, 8].contains(&fl);
        let r = program(&args, &d)?;
        std::env::set_current_dir(&d).unwrap();
        let (lib, said) = captured(&d, || {
            guarded(|| -> Result<(String, Option<Song>), String> {
                let mut m = MidiHandler::new();
                m.read(Path::new(input), verbose).map_err(|e| e.to_string())?;
                let s = if dump { None } else { Some(Song::from_midi(&m, 0.2, !skip, verbose).map_err(|e| e.to_string())?) };
                Ok((format!("{:#?}", m), s))
            })
        });
        std::env::set_current_dir("/").unwrap();
        let lib = lib.and_then(|x| x);
        if dump {
            if r.ok != lib.is_ok() {
                return Err(format!("exit status success: {}, the file can be read: {}", r.ok, lib.is_ok()));
            }
            if let Ok((text, _)) = lib {
                if !r.stdout.contains(&text) {
                    return Err("the events are not printed".into());
                }
            }
            return Ok(Out::Ok(hash(&r.stdout)));
        }
        let ok = lib.is_ok() && kind != 5;
        if r.ok != ok {
            return Err(format!("exit status success: {}, the operation can succeed: {}", r.ok, ok));
        }
        if ok {
            let s = lib.unwrap().1.unwrap();
            s.write_to_json(&d.join("want.json"));
            let got = std::fs::read(d.join(output)).map_err(|e| e.to_string())?;
            if got != std::fs::read(d.join("want.json")).unwrap() {
                return Err("the JSON file differs from the library call's".into());
            }
            let (m1, m2) = (messages(&r.stdout), messages(&said));
            if m1 != m2 {
                return Err(format!("prints {} lines of messages, the library calls {}", m1.len(), m2.len()));
            }
            return Ok(Out::Ok(hash(&got)));
        }
        Ok(Out::Ok(3))
    }));
    v.push(famr("full disk", "midi2json and gen_fake_rom when the output cannot grow beyond any number of bytes (up to the whole, every one or every 16th; new or existing output), and ROM commands when the ROM cannot be written completely: success only if the output is complete", move |cx| {
        let how = cx.choose(5);
        let old = cx.flag();
        let d = cx.path("c");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(d.join("sub")).unwrap();
        std::fs::write(d.join("a.mid"), repetitive().bytes()).unwrap();
        std::fs::write(d.join("sub/a.json"), song_text(2)).unwrap();
        std::fs::write(d.join("sub/m.json"), manifest_value(|i| json!({"input": "a.json", "loop": i % 5 > 0})).to_string()).unwrap();
        let rom_b = many_pointers();
        std::fs::write(d.join("r.smc"), &rom_b).unwrap();
        let s = |x: &[&str]| x.iter().map(|x| x.to_string()).collect::<Vec<_>>();
        let (args, out) = match how {
            0 => (s(&["midi2json", "a.mid", "o"]), "o"),
            1 => (s(&["gen_fake_rom", "r.smc", "o"]), "o"),
            2 => (s(&["build_rom", "sub/m.json", "r.smc"]), "r.smc"),
            3 => (s(&["all_overworld", "sub/a.json", "r.smc"]), "r.smc"),
            _ => (s(&["file_select", "sub/a.json", "r.smc"]), "r.smc"),
        };
        // the whole output
        if !program(&args, &d)?.ok {
            return Err("fails".into());
        }
        let want = std::fs::read(d.join(out)).unwrap();
        std::fs::write(d.join("r.smc"), &rom_b).unwrap();
        let step = if how == 0 { q(cx.thorough, 7, 1) } else { q(cx.thorough, 512, 64) };
        let cells = want.len() / step + 2;
        let k = cx.choose(cells + 1);
        let limit = if k == cells { want.len() - 1 } else { k * step };
        if how < 2 {
            if old {
                std::fs::write(d.join(out), vec![7u8; want.len() + 100]).unwrap();
            } else {
                std::fs::remove_file(d.join(out)).unwrap();
            }
        } else if old {
            return Ok(Out::Skip);
        }
        cx.state(&(how, old, limit));
        cx.desc(|| format!("{:?}, output exists {}, {} of {} bytes", args, old, limit, want.len()));
        let r = program_limited(&args, &d, Some(limit as u64))?;
        let got = std::fs::read(d.join(out)).unwrap_or(vec![]);
        if r.ok && got != want {
            return Err(format!("success, but {} of {} bytes are there", got.len(), want.len()));
        }
        if !r.ok && limit >= want.len() {
            return Err("fails although there is room".into());
        }
        Ok(Out::Ok(hash(&(r.ok, got))))
    }));
    v.push(famr("dummy ROM command", "gen_fake_rom with the flags and good, cut, missing and unusual inputs and outputs", move |cx| {
        let fl = cx.choose(9);
        let kind = cx.choose(7);
        let d = cx.path("c");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(d.join("sub")).unwrap();
        let rom_b = many_pointers();
        std::fs::write(d.join("r.smc"), &rom_b).unwrap();
        std::fs::write(d.join("cut.smc"), &rom_b[..0x1200]).unwrap();
        std::fs::write(d.join("old.smc"), vec![7u8; 0x20000]).unwrap();
        let input = ["r.smc", "r.smc", "cut.smc", "none.smc", "r.smc", "sub", "r.smc"][kind];
        let output = ["o.smc", "sub/o", "o.smc", "o.smc", "none/o.smc", "o.smc", "old.smc"][kind];
        let mut args: Vec<String> = FLAGS[fl].iter().map(|s| s.to_string()).collect();
        args.extend(["gen_fake_rom".to_string(), input.into(), output.into()]);
        cx.state(&args);
        cx.desc(|| format!("{:?}", args));
        let r = program(&args, &d)?;
        let lib = guarded(|| rom::gen_fake_rom(&d.join(input), &d.join("want.smc"), BASE)).and_then(|r| r.map_err(|e| e.to_string()));
        let ok = lib.is_ok() && kind != 4;
        if r.ok != ok {
            return Err(format!("exit status success: {}, the operation can succeed: {}", r.ok, ok));
        }
        if ok {
            let got = std::fs::read(d.join(output)).map_err(|e| e.to_string())?;
            if got != std::fs::read(d.join("want.smc")).unwrap() {
                return Err("the dummy ROM differs from the library call's".into());
            }
        }
        if std::fs::read(d.join("r.smc")).unwrap() != rom_b {
            return Err("the real ROM has changed".into());
        }
        Ok(Out::Ok(hash(&(r.ok, kind))))
    }));
    v
}
