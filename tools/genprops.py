#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
MIDI, TRK, CMD, SEQ, NSPC, ROM, MAN, LIB, MAIN, INS = ("src/midi/mod.rs", "src/nspc/track.rs", "src/nspc/command.rs",
    "src/nspc/seqtree.rs", "src/nspc/mod.rs", "src/rom/mod.rs", "src/manifest/mod.rs", "src/lib.rs", "src/main.rs", "src/nspc/instruments.rs")
SONG = "midi2spc::nspc::Song: serialized form, write_track bytes and call-loop references"
RB = "bytes of the ROM file after midi2spc::rom::write"

p("C01", "Loop optimisation never changes what is played",
  "For every MIDI file, the song produced with loop optimisation on plays, channel by channel, exactly the same notes, ties, rests, durations, velocities, gates and control commands at the same times as the song produced with optimisation off. This holds after the bytes are decoded the way the sound engine reads them, with duration and velocity state carried into and out of called loops.",
  ["inputs"], "every command history of a channel (any repetition structure, across any number of channels)",
  "The unit tests look at a handful of trees and never replay an optimised song; the integration tests only require Ok.",
  [SEQ, NSPC, CMD], [("suffix tree over command lists", "src/nspc/seqtree.rs SeqTree::add_commands"), ("choice of the sequence to extract", "SeqTree::best_sequence, consolidate_locations"), ("replacement by CallLoop", "src/nspc/mod.rs Song::extract_sequence")],
  [("locations", "where and how often in a row a sequence occurs", "seqtree.rs")], [SONG])
p("C02", "Loop optimisation removes repeated passages",
  "With loop optimisation on, a song never holds more commands than the same song without it. Whenever a run of four or more loopable commands (no slide or tie in it or right after it) occurs at least twice in the unoptimised song, no two of its occurrences overlapping and not all of them followed by the same command, the optimised song calls at least one loop; with optimisation off a converted song never contains a loop call.",
  ["inputs"], "every command history of a channel",
  "Existing tests fix a few trees by hand; nothing says that the optimiser reduces a song or finds a repetition in general.",
  [SEQ, NSPC], [("score of a sequence", "SeqTree::best_sequence"), ("minimum length and repeat filter", "SeqTree::best_sequence")], [], [SONG])
p("C03", "Track bytes decode to exactly the song's commands",
  "The bytes written for a track, decoded by the sound engine's rules (a duration byte and a velocity/gate byte stay in force until replaced, also across loop calls), give exactly the song's commands in order, each note, rest and tie with its own duration, velocity and gate, followed by one terminator. Every loop call is reported at the position of its two address bytes with the right target.",
  ["inputs"], "every command with every parameter value, and every sequence of commands with any durations 1-127, velocities 1-15 and gates 1-7",
  "No test decodes the bytes that are written; the state elision in the encoder depends on the whole history of earlier commands.",
  [CMD, TRK, NSPC], [("elision of unchanged duration and velocity bytes", "command.rs ParameterizedCommand::write"), ("command opcodes", "command.rs Command::write"), ("preamble and terminator", "nspc/mod.rs Song::write_track")],
  [("prev_duration, prev_velocity_sustain", "what the encoder believes the engine has in force", "track.rs Track::write")], [SONG])
p("C04", "Every MIDI note is emitted exactly once, with its velocity",
  "Every released MIDI note lasting at least 1/24 of a beat (1/12 at resolutions that are no multiple of 24) is played exactly once by the converted song, with its velocity reduced to sixteen levels (the softest notes keep the softest audible level, never the previous note's), and nothing else is played. A repeated note-on for a sounding key ends the first note and starts another, and a shorter note may only be missing when another note already fills its step.",
  ["histories", "inputs"], "every history of note-on/note-off events on any channels, with any spacing",
  "Tests convert a few sample files and look at nothing but Ok.",
  [MIDI, TRK], [("voice assignment of each note", "midi/mod.rs channels_to_voices"), ("note start/end pairing", "track.rs Track::new")],
  [("active_notes", "key to voice per channel", "midi/mod.rs")], [SONG])
p("C05", "Pitches are exact or octave-folded into the engine's range",
  "A note whose key is between MIDI 24 and 95 is emitted with exactly that pitch; any other key is moved by whole octaves to the nearest playable octave. No converted song ever contains a note or slide target byte outside 0x80-0xC7, nor a duration outside 1-127, a velocity above 15 or a gate above 7.",
  ["inputs"], "all 128 keys, on melodic and percussion channels, as notes and as slide targets, in any track",
  "No test looks at a pitch; sample files stay in the middle of the keyboard.",
  [TRK, CMD], [("key to note byte", "track.rs Track::new, note + 0x68"), ("duration splitting", "track.rs get_duration")], [], [SONG])
p("C06", "Notes start and end within 1/24 beat of the MIDI, without drift",
  "Every emitted note starts at its MIDI start rounded down to a 1/24 beat, or one step later when the previous note on its voice still occupies that step, and its duration reaches its MIDI end rounded up. At resolutions that are no multiple of 24 ticks per beat both may be one step later, but the deviation never accumulates, however many events came before and however long notes and pauses are.",
  ["histories", "inputs"], "every history of notes and pauses, every ticks-per-beat value, every length",
  "No test looks at times; rounding errors need a particular resolution and history to accumulate.",
  [TRK], [("quantisation of lengths", "track.rs get_duration"), ("rests up to the next event", "track.rs insert_rest")],
  [("last_note_end", "position the track has been written up to", "track.rs Track::new")], [SONG])
p("C07", "Folding a rest into a note keeps its length and its sounding time",
  "When a note is followed by silence, the emitted duration and gate reproduce the note's sounding time: with gate g below 7 the note sounds exactly g/8 of its emitted duration, and with gate 7 between 7/8 and all of it. The emitted durations up to the next note still add up to the time between the two note starts.",
  ["inputs"], "every note length and every following pause length",
  "Nine examples are tested; the combination with long values, overflow ties and control events is not.",
  [CMD, TRK], [("note+rest merging", "command.rs ParameterizedCommand::set_sustain"), ("merging pass", "track.rs Track::new")], [], [SONG])
p("C08", "All channels of a converted song have the same length",
  "Every channel of a converted song lasts until the last note, control, program, pressure, bend or tempo event of the MIDI file, to within one 1/24 beat (one step more at resolutions that are no multiple of 24), so that all channels end and loop together.",
  ["inputs", "histories"], "every distribution of notes over channels and every length of the file",
  "No test measures a track's length.",
  [TRK, MIDI], [("padding to the end", "track.rs Track::new with max_time"), ("end of file", "midi/mod.rs read, max_time")], [("max_time", "time of the last channel event", "midi/mod.rs")], [SONG])
p("C09", "A voice never holds two notes; excess polyphony is refused",
  "In every accepted file each of the eight voices sounds at most one note at any time and each note of the file is given to exactly one voice at its original time, channel and velocity. A file in which more than eight notes sound at once is refused with an error that names it.",
  ["histories", "inputs"], "every history of overlapping notes on up to 16 channels",
  "The tests use files that fit.",
  [MIDI], [("base voice search", "midi/mod.rs find_base_voices"), ("spare voice search", "midi/mod.rs channels_to_voices")], [("active_notes", "which voices sound", "midi/mod.rs")], ["MidiHandler::read result and events_for_voice"])
p("C10", "Files that fit on eight voices are accepted",
  "A file whose channels each play one note at a time is accepted exactly when the channels can be shared out over eight voices so that channels on one voice never sound together. A file in which a single channel plays up to eight notes at once is accepted.",
  ["inputs", "configurations"], "every pattern of when up to 16 channels sound",
  "The tests do not contain a file that needs the search to backtrack.",
  [MIDI], [("backtracking over base voices", "midi/mod.rs find_base_voices"), ("overlap test", "midi/mod.rs overlapping_interval")], [("intervals", "when a channel sounds", "midi/mod.rs read")], ["MidiHandler::read result"])
p("C11", "Each note plays with its channel's program at its start",
  "Every melodic note is played with the instrument assigned to the program most recently selected on its own channel when the note starts, whatever voice it lands on and whatever other channels, chords or program changes used that voice before. A program change during a note neither alters nor delays that note or any later one.",
  ["histories"], "every history of program changes and notes on several channels sharing voices",
  "No test looks at instruments; the wrong one appears only after particular interleavings of channels on a voice.",
  [MIDI, TRK, INS], [("replay of a channel's program on its voice", "midi/mod.rs channels_to_voices"), ("program to instrument map", "nspc/instruments.rs INSTRUMENT_MAP")], [("last program per channel and voice", "midi/mod.rs channels_to_voices", "midi/mod.rs")], [SONG])
p("C12", "Each note plays at its own channel's volume",
  "Once a channel's volume has been set, each of its notes is played with a channel volume that the channel had at the note's start or while it sounded, scaled by two, and never with a volume set on another channel or an outdated one.",
  ["histories"], "every history of volume changes and notes on several channels sharing voices",
  "No test looks at volumes.",
  [MIDI, TRK], [("replay of a channel's volume on its voice", "midi/mod.rs channels_to_voices"), ("volume command", "track.rs Track::new control 7")], [], [SONG])
p("C13", "Percussion notes use the drum instruments",
  "On MIDI channel 10, keys 38 and 40 play the snare at one fixed pitch and all other keys play the cymbal at their own pitch, whatever program changes the channel receives and however drums overlap, alternate between voices or share a voice with melodic channels. Melodic channels are never affected by it.",
  ["histories"], "every history of drum notes, drum program changes and melodic notes",
  "No test looks at percussion.",
  [MIDI, TRK], [("drum instrument selection", "midi/mod.rs channels_to_voices, ch == 9")], [("last_percussion_instr", "instrument the drums are believed to have", "midi/mod.rs")], [SONG])
p("C14", "Tempo changes keep their value and place",
  "Each tempo event becomes exactly one tempo command with value bpm (rounded up) times the tempo factor, rounded down and kept within 1-255, up to single-precision rounding. It takes effect at its own time, to within 1/24 beat, or at the start of the note then sounding on the voice that carries it.",
  ["inputs", "histories"], "every tempo value, tempo factor and placement relative to notes",
  "No test looks at tempo.",
  [TRK, MIDI], [("tempo conversion", "track.rs Track::new SetTempo"), ("tempo events go to the first voice", "midi/mod.rs channels_to_voices")], [], [SONG])
p("C15", "Portamento becomes a slide to the next note's pitch",
  "While portamento is on for a channel playing alone, a note that directly follows another (no volume, program or tempo change between them) is reached by a pitch slide to its pitch, timed to finish where the previous note ends whenever the portamento time (controllers 5 and 37, in ticks, at least one step) fits in the last emitted duration of that note, and is then tied; after a pause or with portamento off it is attacked normally. No slide leads to a pitch that is not then held.",
  ["histories"], "every history of notes, pauses and portamento controls on one channel",
  "Only the protection of slides from loop extraction is tested, on hand-written commands.",
  [TRK, CMD], [("slide creation", "command.rs create_pitch_slide"), ("portamento controls", "track.rs Track::new controls 5, 37, 65")], [("portamento, port_time", "controller state of the voice", "track.rs Track::new")], [SONG])
p("C16", "The result does not depend on how the MIDI file is laid out",
  "The converted song is the same whether events of a piece are stored in one track or spread over several, with or without running status, with note-offs or zero-velocity note-ons, as format 0 or format 1, with simultaneous note-offs, controls and note-ons interleaved in any order (the order within each class kept), and with or without events that carry no music (text, markers, system-exclusive, pressure, pitch bend) before its last note or control.",
  ["inputs"], "every layout of the same set of timed events",
  "Each sample file has one fixed layout.",
  [MIDI], [("merge of tracks into channels", "midi/mod.rs tracks_to_channels"), ("order of simultaneous events", "midi/mod.rs priority")], [], [SONG])
p("C17", "Well-formed MIDI never crashes or hangs the converter",
  "Every well-formed Standard MIDI File of format 0 or 1 with any sequence of channel, meta and system-exclusive events is either converted or refused with an error value; other formats are refused. The converter never panics or overflows, including for unmatched or repeated note-offs, notes of zero length and empty tracks, and it terminates within a minute for pieces of up to two thousand notes and ten thousand beats (without optimisation, a hundred thousand beats).",
  ["histories", "inputs"], "every event history",
  "The tests use clean files.",
  [MIDI, TRK, SEQ, CMD], [("event handling", "midi/mod.rs Handler impl, read"), ("repeat counters", "seqtree.rs")], [], ["return value or panic of MidiHandler::read, Song::from_midi, Song::write_track"])
p("C18", "Each song slot in the ROM plays its song",
  "After a successful build, following the song table of each bank through song, part, track and loop addresses - as the game does after loading the bank's chunks into audio memory - plays, for every slot, exactly the song assigned to that slot. This holds wherever the songs fall relative to the end of the main chunk, including songs split between the main and the overflow chunk, and songs with loops.",
  ["inputs", "configurations"], "every list of songs, every chunk size and hence every split point",
  "The tests build one ROM and do not read it back.",
  [ROM, NSPC], [("layout and pointers", "rom/mod.rs write_bank"), ("loop address fixup", "rom/mod.rs RomCallLoopRef")], [("song_offset, rom_addr, aram_base_addr", "current position", "rom/mod.rs write_bank")], [RB])
p("C19", "Only the music areas of the ROM change",
  "A build changes no byte of the ROM outside the data of the main chunk (which holds at least the song table) and of the overflow chunk of each bank: the file length, the chunk headers, the bank pointers, other chunks, song-table entries of other banks and everything else stay as they were.",
  ["inputs", "configurations"], "every list of songs and every chunk layout",
  "The tests do not compare ROM contents.",
  [ROM], [("capacity checks", "rom/mod.rs write_bank"), ("splice of track data", "rom/mod.rs write_bank")], [], [RB])
p("C20", "A bank is accepted exactly when its songs fit",
  "Songs are placed in order in a bank's main chunk; the first song header or track that does not fit moves to the overflow chunk with everything after it. A build succeeds exactly when everything then fits; otherwise it fails with an error naming the bank, and the ROM file is left unchanged.",
  ["inputs", "configurations"], "every list of song sizes and every pair of chunk sizes",
  "The tests use data that fits.",
  [ROM], [("capacity checks", "rom/mod.rs write_bank ensure!")], [], [RB, "result of rom::write"])
p("C21", "A failed build leaves the ROM file untouched",
  "If any song of a build cannot be read or converted (missing, truncated or malformed file, too many voices), if the manifest is unusable, or if a bank's chunks cannot be found, the command reports failure and the ROM file is byte for byte what it was, whichever song it was and however many songs had already been processed.",
  ["fault_sequences", "inputs"], "every failing position and kind of failure, and every truncation point of an input file",
  "All tests are success paths.",
  [ROM, LIB, MAN], [("single write after all banks are done", "rom/mod.rs write")], [], [RB, "result of the library call or exit status"])
p("C22", "Success is reported only for a completely written file",
  "If reading the ROM or writing the result is interrupted, shortened or fails at any system call, the command either completes correctly (the file holds exactly the full result) or reports failure; it never reports success with a partly written ROM or generated dummy ROM.",
  ["fault_sequences"], "every single and double fault (short transfer, interruption, error) at every read, seek and write call",
  "The tests run on a healthy file system.",
  [ROM], [("read_to_end, seek, write of the whole image", "rom/mod.rs write, gen_fake_rom")], [], [RB, "result of the library call"])
p("C23", "Rebuilding is idempotent and independent of history",
  "Building the same songs again gives a byte-identical ROM, and after any sequence of builds into one ROM every slot plays exactly as if only the last build had been made on the original ROM.",
  ["histories"], "every sequence of builds",
  "Tests build once.",
  [ROM], [("song table and part data are rewritten in full", "rom/mod.rs write_bank")], [], [RB])
p("C24", "The manifest assigns each named song to its own slot",
  "Each of the 34 song names of a manifest controls exactly its own slot of its own bank, independent of the order of entries; relative paths are taken from the manifest's directory and absolute ones as they are. Tempo adjustment and looping are applied per song and default to 0.2 and looping.",
  ["inputs", "configurations"], "every slot, every combination of optional fields, every entry order and path form",
  "One manifest with all songs relative and no options is tested, without looking at the result.",
  [MAN, LIB], [("name lists", "manifest/mod.rs OVERWORLD_SONGS, INDOOR_SONGS, ENDING_SONGS"), ("field defaults", "manifest/mod.rs Song::new")], [], ["Manifest::new result", RB])
p("C25", "Single-song commands fill the right slots",
  "The all-songs command puts the given song, looping, into all 34 slots. The file-select command puts it, looping, into the file-select slot only, and leaves every other slot a valid silent song that ends.",
  ["inputs", "configurations"], "every slot and every song",
  "The tests only require Ok.",
  [MAN, ROM, LIB], [("built-in manifests", "manifest/mod.rs single_song, file_select"), ("empty song", "nspc/mod.rs Song::empty")], [], [RB])
p("C26", "Songs in the ROM have a correct header and ending",
  "In a built ROM a looping song's part list jumps back to the song's own start and a non-looping song's ends; each part lists its channels in order with the unused ones silent. The song starts by setting percussion base and full master volume, and every channel sets its default channel volume before anything else; song-table entries after the bank's last song are zero up to the first song's data.",
  ["inputs", "configurations"], "every loop setting, every number of channels, every position in the bank",
  "The tests do not read the ROM back.",
  [ROM, NSPC], [("song and part data", "rom/mod.rs write_bank"), ("preambles", "nspc/mod.rs write_track")], [], [RB])
p("C27", "A song converted to JSON builds to the same music",
  "Writing a converted song to JSON and reading it back gives a song with exactly the same commands, loops and channels, and a ROM built from the JSON file is byte-identical to one built from the MIDI file with the default tempo adjustment; a file is read as MIDI exactly when its extension is mid.",
  ["inputs"], "every command kind and parameter, every converted song",
  "No test uses JSON.",
  [NSPC, CMD, LIB], [("serde derives", "nspc/mod.rs, command.rs"), ("choice by extension", "lib.rs converter")], [], [SONG, RB])
p("C28", "A generated dummy ROM has the original's music structure only",
  "A dummy ROM has the same size as the original, contains the three bank pointers and all chunk headers of the three chains (terminators included) and is zero everywhere else, also when the output file existed before. Building songs into the dummy gives the same music as building them into the original.",
  ["inputs", "configurations"], "every chunk layout and earlier content of the output file",
  "No test generates a dummy ROM.",
  [ROM], [("chain walk", "rom/mod.rs gen_fake_rom"), ("header copy", "rom/mod.rs Chunk")], [], ["bytes of the generated file"])
p("C29", "Banks are found through the ROM's own pointers",
  "For every position of the three bank pointers in the ROM and every address they name (LoROM mapping), a build finds the bank's chunk for audio address D000 anywhere in its chunk chain, uses the chunk right after it as overflow, and refuses with an error naming the bank when there is none.",
  ["configurations"], "every pointer location, bank number, in-bank address and chain layout",
  "One ROM with the default addresses is tested.",
  [ROM, LIB], [("address mapping", "rom/mod.rs snes_to_pc_addr, snes_bytes_to_pc_addr"), ("chain walk", "rom/mod.rs write_bank")], [], [RB])
p("C30", "Builds are deterministic and unaffected by verbosity or display",
  "The same inputs always give the same result: repeated runs, verbose or quiet mode, hash-table ordering and the pace of the progress display never change the converted song, the ROM bytes or whether the build succeeds, and a build always terminates.",
  ["schedules", "inputs"], "every hash ordering, every pace of the display thread, verbose on and off",
  "Tests run once, quiet, and compare nothing.",
  [MIDI, ROM, LIB], [("hash maps of active notes", "midi/mod.rs"), ("progress thread and join", "rom/mod.rs write")], [], [SONG, RB])
p("C31", "The command line does what its options say",
  "Each subcommand of the program gives the same output as the corresponding library call with the options given: skipping optimisation, verbosity and three bank addresses in hexadecimal (defaults 914, 926, 932) are honoured in every subcommand that has them. It exits with success exactly when the operation succeeded.",
  ["configurations", "inputs"], "every subcommand with every combination of options",
  "No test runs the program.",
  [MAIN, LIB], [("argument handling", "main.rs, lib.rs run, read_bank_addrs")], [], ["exit status and output files of the program"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
