From 57672d638079b9f3c03c6bbd931d1d635e376c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 01/28] fix: register each occurrence once in the sequence tree

A suffix that continued past an existing edge was recorded twice at that
node; with adjoining occurrences this inflated the repeat count, so that
the extracted CallLoop played once too often and swallowed the commands
behind it.
---
 src/nspc/seqtree.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index 7539ff6..b78a13b 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -424,20 +424,13 @@ impl SeqTree {
                         found_edge = true;
                         let shared_seq_len = seq_len + shared_prefix.len();
                         if shared_prefix.len() == edge.commands.len() {
-                            add_location(
-                                &mut edge.target.as_mut().unwrap().locations,
+                            // add_commands records the location, also when no commands remain
+                            edge.target.as_mut().unwrap().add_commands(
+                                &commands[shared_prefix.len()..],
                                 track_idx,
                                 seq_start,
                                 shared_seq_len,
                             );
-                            if shared_prefix.len() < commands.len() {
-                                edge.target.as_mut().unwrap().add_commands(
-                                    &commands[shared_prefix.len()..],
-                                    track_idx,
-                                    seq_start,
-                                    shared_seq_len,
-                                );
-                            }
                         } else {
                             let mut new_target = SeqTree {
                                 edges: Vec::new(),
-- 
2.43.0


From cab73a7e97500c7defb94ae63c23623ef6156c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 02/28] fix: count repeats of a sequence in usize

The sum over all locations overflowed u8 for sequences that occur more
than 255 times.
---
 src/nspc/seqtree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index b78a13b..89634ac 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -556,7 +556,7 @@ impl SeqTree {
                 && seq
                     .locations
                     .iter()
-                    .fold(0, |acc, &loc| acc + loc.repeat_count)
+                    .fold(0, |acc, &loc| acc + loc.repeat_count as usize)
                     > 1
         })
         .max_by_key(score)
-- 
2.43.0


From fd370fea2845fadf56be654795e095eda53c3633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 03/28] fix: don't merge note and rest beyond the longest
 duration

Durations above 0x7f are not duration bytes: the sound engine reads them
as notes or commands.
---
 src/nspc/command.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 3aecdb0..b509529 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -374,7 +374,10 @@ impl ParameterizedCommand {
                 let note_duration = self.duration.unwrap() as u16;
                 let rest_duration = next_command.duration.unwrap() as u16;
                 let total_duration = note_duration + rest_duration;
-                if (note_duration * 8) % total_duration == 0 || note_duration > rest_duration * 16 {
+                if total_duration <= 0x7f
+                    && ((note_duration * 8) % total_duration == 0
+                        || note_duration > rest_duration * 16)
+                {
                     let sustain = ((note_duration * 8) / total_duration) as u8;
                     self.sustain = Some(sustain.min(7));
                     self.duration = Some(total_duration as u8);
-- 
2.43.0


From d9fe2b5bce36c6158ae1e35b1023b82ddbaf1584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 04/28] fix: fold keys outside the engine's range by octaves

---
 src/nspc/track.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 84e9434..86db399 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -18,6 +18,18 @@ struct Duration {
     overflow_count: u8,
 }
 
+// moves keys outside the engine's range by octaves
+fn note_byte(note: u8) -> u8 {
+    let mut note = note;
+    while note < 24 {
+        note += 12;
+    }
+    while note > 95 {
+        note -= 12;
+    }
+    note + 0x68
+}
+
 impl Track {
     fn get_duration(ticks: u32, ticks_per_beat: u16, ceil: bool) -> Duration {
         let length_beats = (ticks as f32) / (ticks_per_beat as f32);
@@ -134,7 +146,7 @@ impl Track {
                                     if push_as_tie {
                                         Command::Tie
                                     } else {
-                                        Command::Note(note + 0x68)
+                                        Command::Note(note_byte(note))
                                     },
                                 ));
                                 for i in 0..duration.overflow_count {
@@ -172,7 +184,7 @@ impl Track {
                                                 true,
                                             )
                                                 .length,
-                                            note + 0x68,
+                                            note_byte(note),
                                         )
                                     });
                                 }
-- 
2.43.0


From 72bb92693e13d21acc71014eb5cdfeaf068d3d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 05/28] fix: carry a loop's own duration and velocity past its
 call

---
 src/nspc/command.rs |  7 +++++++
 src/nspc/mod.rs     |  2 +-
 src/nspc/track.rs   | 31 ++++++++++++++++++++++++++++---
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index b509529..b459d8d 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -368,6 +368,13 @@ impl ParameterizedCommand {
         }
     }
 
+    pub fn call_loop_target(&self) -> Option<usize> {
+        match self.command {
+            Command::CallLoop(target, _) => Some(target),
+            _ => None,
+        }
+    }
+
     pub fn set_sustain(&mut self, next_command: &ParameterizedCommand) -> bool {
         if let Command::Note(..) = self.command {
             if let Command::Rest = next_command.command {
diff --git a/src/nspc/mod.rs b/src/nspc/mod.rs
index 63c0ad5..24febf6 100644
--- a/src/nspc/mod.rs
+++ b/src/nspc/mod.rs
@@ -198,7 +198,7 @@ impl Song {
             {
                 out.write(&PREAMBLE_OTHER_TRACK)?;
             }
-            track.write(out, call_loops)?;
+            track.write(out, call_loops, &self.tracks)?;
             out.write_u8(0x00)?;
         }
         Ok(())
diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 86db399..6de95c5 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -285,14 +285,39 @@ impl Track {
         &self,
         out: &mut Cursor<Vec<u8>>,
         call_loops: &mut Vec<CallLoopRef>,
+        tracks: &[Track],
     ) -> Result<(), Error> {
+        self.write_commands(out, call_loops, tracks)?;
+        Ok(())
+    }
+
+    // returns the duration and velocity left in force
+    fn write_commands(
+        &self,
+        out: &mut Cursor<Vec<u8>>,
+        call_loops: &mut Vec<CallLoopRef>,
+        tracks: &[Track],
+    ) -> Result<(u8, Option<u8>), Error> {
         let mut duration = 0xff;
         let mut velocity = None;
         for cmd in &self.commands {
             let (duration_out, velocity_out) = cmd.write(out, duration, velocity, call_loops)?;
-            duration = duration_out;
-            velocity = velocity_out;
+            if let Some(loop_track) = cmd.call_loop_target().and_then(|idx| tracks.get(idx)) {
+                // the loop leaves its own duration and velocity in force
+                let (loop_duration, loop_velocity) = loop_track.write_commands(
+                    &mut Cursor::new(Vec::new()),
+                    &mut Vec::new(),
+                    &[],
+                )?;
+                if loop_duration != 0xff {
+                    duration = loop_duration;
+                }
+                velocity = loop_velocity.or(velocity);
+            } else {
+                duration = duration_out;
+                velocity = velocity_out;
+            }
         }
-        Ok(())
+        Ok((duration, velocity))
     }
 }
-- 
2.43.0


From d38a85fa12552b403d6f1c763063448838adb2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 06/28] fix: bound the drift of note times

Every duration was rounded to ticks on its own, so rounding errors added up
over a track.  Lengths of notes shorter than the error underflowed, and counts
of very long notes overflowed u8.
---
 src/nspc/track.rs | 116 +++++++++++++++++++++++++++++-----------------
 1 file changed, 73 insertions(+), 43 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 6de95c5..e5ddd39 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -14,8 +14,46 @@ pub struct Track {
 #[derive(Debug)]
 struct Duration {
     length: u8,
-    quantized_ticks: u32,
-    overflow_count: u8,
+    quantized_length: u64,
+    overflow_count: u32,
+}
+
+// Position in a track in 24ths of a beat.  Lengths that are no whole number
+// of ticks are taken to end early by the fraction lost; the sum of these
+// fractions is dropped when it reaches a 24th of a beat.
+struct Position {
+    steps: u64,
+    lost: u64,
+    ticks_per_beat: u64,
+}
+
+impl Position {
+    fn new(ticks_per_beat: u16) -> Position {
+        Position {
+            steps: 0,
+            lost: 0,
+            ticks_per_beat: ticks_per_beat as u64,
+        }
+    }
+
+    // length from this position until the given time
+    fn length_until(&self, ticks: u32, ceil: bool) -> u64 {
+        let time = ticks as u64 * 24 + self.lost;
+        let steps = if ceil {
+            (time + self.ticks_per_beat - 1) / self.ticks_per_beat
+        } else {
+            time / self.ticks_per_beat
+        };
+        steps.saturating_sub(self.steps)
+    }
+
+    fn advance(&mut self, length: u64) {
+        self.steps += length;
+        self.lost += length * self.ticks_per_beat % 24;
+        if self.lost >= self.ticks_per_beat {
+            self.lost = 0;
+        }
+    }
 }
 
 // moves keys outside the engine's range by octaves
@@ -31,35 +69,27 @@ fn note_byte(note: u8) -> u8 {
 }
 
 impl Track {
-    fn get_duration(ticks: u32, ticks_per_beat: u16, ceil: bool) -> Duration {
-        let length_beats = (ticks as f32) / (ticks_per_beat as f32);
-        let length = length_beats * 24.0;
-        let quantized_length = if ceil {
-            length.ceil() as u32
-        } else {
-            length.floor() as u32
-        };
-        let quantized_ticks = quantized_length * (ticks_per_beat as u32) / 24;
+    fn get_duration(quantized_length: u64) -> Duration {
         if quantized_length > 0x7f {
             let overflow_amount = quantized_length % 0x7f;
             let overflow_count = quantized_length / 0x7f;
             if overflow_amount == 0 {
                 Duration {
                     length: 0x7f,
-                    quantized_ticks,
-                    overflow_count: (overflow_count - 1) as u8,
+                    quantized_length,
+                    overflow_count: (overflow_count - 1) as u32,
                 }
             } else {
                 Duration {
                     length: overflow_amount as u8,
-                    quantized_ticks,
-                    overflow_count: overflow_count as u8,
+                    quantized_length,
+                    overflow_count: overflow_count as u32,
                 }
             }
         } else {
             Duration {
                 length: quantized_length as u8,
-                quantized_ticks,
+                quantized_length,
                 overflow_count: 0,
             }
         }
@@ -67,12 +97,12 @@ impl Track {
 
     fn insert_rest(
         commands: &mut Vec<ParameterizedCommand>,
-        last_note_end: u32,
+        last_note_end: &mut Position,
         abs_time: u32,
-        ticks_per_beat: u16,
-    ) -> u32 {
-        if abs_time > last_note_end {
-            let duration = Track::get_duration(abs_time - last_note_end, ticks_per_beat, false);
+    ) {
+        let length = last_note_end.length_until(abs_time, false);
+        if length > 0 {
+            let duration = Track::get_duration(length);
             for _ in 0..duration.overflow_count {
                 commands.push(ParameterizedCommand::new(
                     Some(0x7f),
@@ -89,9 +119,7 @@ impl Track {
                     Command::Rest,
                 ));
             }
-            last_note_end + duration.quantized_ticks
-        } else {
-            last_note_end
+            last_note_end.advance(duration.quantized_length);
         }
     }
 
@@ -105,7 +133,7 @@ impl Track {
         let mut commands = Vec::new();
         let mut note_start: Option<u32> = None;
         let mut note_velocity = 0;
-        let mut last_note_end = 0u32;
+        let mut last_note_end = Position::new(ticks_per_beat);
         let mut portamento = false;
         let mut port_time = 0u16;
         for &(ref message, abs_time) in events {
@@ -131,9 +159,17 @@ impl Track {
                 Message::MidiEvent { ref event, .. } => {
                     match *event {
                         MidiEvent::NoteOff { note, .. } => {
-                            if let Some(start) = note_start {
-                                let duration =
-                                    Track::get_duration(abs_time - start, ticks_per_beat, true);
+                            if note_start.is_some() {
+                                note_start = None;
+                                let length = last_note_end.length_until(abs_time, true);
+                                if length == 0 {
+                                    // the previous note already fills its time
+                                    if commands.last().map_or(false, |cmd| cmd.is_slide()) {
+                                        commands.pop();
+                                    }
+                                    continue;
+                                }
+                                let duration = Track::get_duration(length);
                                 let push_as_tie = commands.last().map_or(false, |cmd| cmd.is_slide());
                                 commands.push(ParameterizedCommand::new(
                                     Some(if duration.overflow_count > 0 {
@@ -161,16 +197,14 @@ impl Track {
                                         Command::Tie,
                                     ));
                                 }
-                                last_note_end = start + duration.quantized_ticks;
-                                note_start = None;
+                                last_note_end.advance(duration.quantized_length);
                             }
                         }
                         MidiEvent::NoteOn { velocity, note, .. } => {
-                            last_note_end = Track::insert_rest(
+                            Track::insert_rest(
                                 &mut commands,
-                                last_note_end,
+                                &mut last_note_end,
                                 abs_time,
-                                ticks_per_beat,
                             );
                             if portamento && !commands.is_empty() {
                                 let pitch_slide: Option<ParameterizedCommand>;
@@ -179,9 +213,8 @@ impl Track {
                                     pitch_slide = last_command.and_then(|cmd| {
                                         cmd.create_pitch_slide(
                                             Track::get_duration(
-                                                port_time as u32,
-                                                ticks_per_beat,
-                                                true,
+                                                Position::new(ticks_per_beat)
+                                                    .length_until(port_time as u32, true),
                                             )
                                                 .length,
                                             note_byte(note),
@@ -193,7 +226,7 @@ impl Track {
                             if note_start.is_some() {
                                 bail!("More than one voice needed on voice {}: notes start at {} and {}", voice, note_start.unwrap(), abs_time);
                             }
-                            note_start = Some(last_note_end);
+                            note_start = Some(abs_time);
                             note_velocity = velocity;
                         }
                         MidiEvent::PolyphonicKeyPressure { .. } => {
@@ -227,11 +260,10 @@ impl Track {
                             // TODO
                         }
                         MidiEvent::ProgramChange { ch, program, .. } => {
-                            last_note_end = Track::insert_rest(
+                            Track::insert_rest(
                                 &mut commands,
-                                last_note_end,
+                                &mut last_note_end,
                                 abs_time,
-                                ticks_per_beat,
                             );
                             let instrument = if ch == 9 { program } else { INSTRUMENT_MAP[program as usize] };
                             commands.push(ParameterizedCommand::new(
@@ -258,9 +290,7 @@ impl Track {
         }
         let mut commands_with_sustain = Vec::new();
         if !commands.is_empty() {
-            if max_time > last_note_end {
-                Track::insert_rest(&mut commands, last_note_end, max_time, ticks_per_beat);
-            }
+            Track::insert_rest(&mut commands, &mut last_note_end, max_time);
             let mut skip_next_rest = false;
             for i in 0..commands.len() - 1 {
                 if skip_next_rest {
-- 
2.43.0


From a5a49c75bd95726b72f86ccb17d8f4caa5e3cd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 07/28] fix: tie a slid note also when a control change comes
 during it

---
 src/nspc/track.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index e5ddd39..f41ea91 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -136,6 +136,7 @@ impl Track {
         let mut last_note_end = Position::new(ticks_per_beat);
         let mut portamento = false;
         let mut port_time = 0u16;
+        let mut slide_idx: Option<usize> = None;
         for &(ref message, abs_time) in events {
             match *message {
                 Message::MetaEvent {
@@ -164,13 +165,13 @@ impl Track {
                                 let length = last_note_end.length_until(abs_time, true);
                                 if length == 0 {
                                     // the previous note already fills its time
-                                    if commands.last().map_or(false, |cmd| cmd.is_slide()) {
-                                        commands.pop();
+                                    if let Some(idx) = slide_idx {
+                                        commands.remove(idx);
                                     }
                                     continue;
                                 }
                                 let duration = Track::get_duration(length);
-                                let push_as_tie = commands.last().map_or(false, |cmd| cmd.is_slide());
+                                let push_as_tie = slide_idx.is_some();
                                 commands.push(ParameterizedCommand::new(
                                     Some(if duration.overflow_count > 0 {
                                         0x7f
@@ -206,6 +207,7 @@ impl Track {
                                 &mut last_note_end,
                                 abs_time,
                             );
+                            slide_idx = None;
                             if portamento && !commands.is_empty() {
                                 let pitch_slide: Option<ParameterizedCommand>;
                                 {
@@ -221,7 +223,10 @@ impl Track {
                                         )
                                     });
                                 }
-                                pitch_slide.map(|slide| commands.push(slide));
+                                pitch_slide.map(|slide| {
+                                    slide_idx = Some(commands.len());
+                                    commands.push(slide)
+                                });
                             }
                             if note_start.is_some() {
                                 bail!("More than one voice needed on voice {}: notes start at {} and {}", voice, note_start.unwrap(), abs_time);
-- 
2.43.0


From 54d6bc48253bf5f0af318ca00a3989e0844336ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 08/28] fix: slide for at least one step

The sound engine ignores slides of length zero.
---
 src/nspc/track.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index f41ea91..77d5bbd 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -218,7 +218,8 @@ impl Track {
                                                 Position::new(ticks_per_beat)
                                                     .length_until(port_time as u32, true),
                                             )
-                                                .length,
+                                                .length
+                                                .max(1),
                                             note_byte(note),
                                         )
                                     });
-- 
2.43.0


From c2c6b6c5aec246e48baff04415714c75a7d52ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 09/28] fix: a program change during a note takes effect after
 it

---
 src/nspc/track.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 77d5bbd..a202795 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -137,6 +137,7 @@ impl Track {
         let mut portamento = false;
         let mut port_time = 0u16;
         let mut slide_idx: Option<usize> = None;
+        let mut next_instrument: Option<u8> = None;
         for &(ref message, abs_time) in events {
             match *message {
                 Message::MetaEvent {
@@ -162,12 +163,21 @@ impl Track {
                         MidiEvent::NoteOff { note, .. } => {
                             if note_start.is_some() {
                                 note_start = None;
+                                let instrument_change = next_instrument.take().map(|instrument| {
+                                    ParameterizedCommand::new(
+                                        None,
+                                        None,
+                                        None,
+                                        Command::SetInstrument(instrument),
+                                    )
+                                });
                                 let length = last_note_end.length_until(abs_time, true);
                                 if length == 0 {
                                     // the previous note already fills its time
                                     if let Some(idx) = slide_idx {
                                         commands.remove(idx);
                                     }
+                                    commands.extend(instrument_change);
                                     continue;
                                 }
                                 let duration = Track::get_duration(length);
@@ -199,6 +209,7 @@ impl Track {
                                     ));
                                 }
                                 last_note_end.advance(duration.quantized_length);
+                                commands.extend(instrument_change);
                             }
                         }
                         MidiEvent::NoteOn { velocity, note, .. } => {
@@ -266,12 +277,17 @@ impl Track {
                             // TODO
                         }
                         MidiEvent::ProgramChange { ch, program, .. } => {
+                            let instrument = if ch == 9 { program } else { INSTRUMENT_MAP[program as usize] };
+                            if note_start.is_some() {
+                                // takes effect after the sounding note
+                                next_instrument = Some(instrument);
+                                continue;
+                            }
                             Track::insert_rest(
                                 &mut commands,
                                 &mut last_note_end,
                                 abs_time,
                             );
-                            let instrument = if ch == 9 { program } else { INSTRUMENT_MAP[program as usize] };
                             commands.push(ParameterizedCommand::new(
                                 None,
                                 None,
-- 
2.43.0


From 67aa690fe4f356aae5622ac35d092d599a16b508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 10/28] fix: place a tempo change during a pause at its own
 time

---
 src/nspc/track.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index a202795..ae0abd1 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -150,6 +150,13 @@ impl Track {
                             + (data[1] as u32) * 0x100
                             + (data[2] as u32);
                         let bpm = (6e7 / (usec_per_beat as f32)).ceil();
+                        if note_start.is_none() {
+                            Track::insert_rest(
+                                &mut commands,
+                                &mut last_note_end,
+                                abs_time,
+                            );
+                        }
                         commands.push(ParameterizedCommand::new(
                             None,
                             None,
-- 
2.43.0


From ce06d2fc9fee3eaa2169da04055afe8acc657506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 11/28] fix: never write a tempo of zero

---
 src/nspc/track.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index ae0abd1..3d7d582 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -161,7 +161,7 @@ impl Track {
                             None,
                             None,
                             None,
-                            Command::Tempo((bpm * tempo_factor) as u8),
+                            Command::Tempo(((bpm * tempo_factor) as u8).max(1)),
                         ))
                     }
                 }
-- 
2.43.0


From 850f3e35da2325da4203242713bed99f97bd5a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 12/28] fix: play the softest notes at the softest velocity

The encoder takes velocity 0 as unset, so they got the previous note's.
---
 src/nspc/track.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 3d7d582..8f2a918 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -195,7 +195,7 @@ impl Track {
                                     } else {
                                         duration.length
                                     }),
-                                    Some(note_velocity / 8),
+                                    Some((note_velocity / 8).max(1)),
                                     Some(7),
                                     if push_as_tie {
                                         Command::Tie
-- 
2.43.0


From 0d8a1a4faedf52c7473523b8f3851045140a2d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 13/28] fix: accept unmatched note-offs and repeated note-ons

The count of active voices underflowed or never went down again.
---
 src/midi/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 509e5b2..93d1fad 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -2,7 +2,7 @@ use failure::Error;
 use ghakuf::messages::*;
 use ghakuf::reader::*;
 use itertools::*;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::path::Path;
 use super::nspc::instruments::*;
 
@@ -156,36 +156,36 @@ impl MidiHandler {
         for (i, mut channel) in &mut self.channels.iter_mut().enumerate() {
             let mut intervals = &mut channel.intervals;
             let mut last_interval_end = 0u32;
-            let mut active_voices = 0usize;
+            let mut active_voices = HashSet::new();
             for message in &channel.messages {
                 match *message {
                     (Message::MidiEvent { ref event, .. }, abs_time) => {
                         match *event {
-                            MidiEvent::NoteOff { .. } => {
+                            MidiEvent::NoteOff { note, .. } => {
                                 if abs_time > last_interval_end {
                                     intervals.push(VoiceInterval {
                                         start: last_interval_end,
                                         end: abs_time,
                                         channel: i,
-                                        voices: active_voices,
+                                        voices: active_voices.len(),
                                     });
                                 }
-                                active_voices -= 1;
+                                active_voices.remove(&note);
                                 last_interval_end = abs_time;
                             }
-                            MidiEvent::NoteOn { velocity, .. } => {
+                            MidiEvent::NoteOn { note, velocity, .. } => {
                                 if abs_time > last_interval_end {
                                     intervals.push(VoiceInterval {
                                         start: last_interval_end,
                                         end: abs_time,
                                         channel: i,
-                                        voices: active_voices,
+                                        voices: active_voices.len(),
                                     });
                                 }
                                 if velocity == 0 {
-                                    active_voices -= 1;
+                                    active_voices.remove(&note);
                                 } else {
-                                    active_voices += 1;
+                                    active_voices.insert(note);
                                 }
                                 last_interval_end = abs_time;
                             }
-- 
2.43.0


From d42339ac501da9ed0573bf0143f603d4663e3c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 14/28] fix: remember the instrument of each voice

Notes got instruments that other channels or drums had left on their voice.
---
 src/midi/mod.rs | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 93d1fad..8460fef 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -44,6 +44,16 @@ fn priority(message: &Message) -> u8 {
     }
 }
 
+fn instrument(message: &Message) -> Option<u8> {
+    match *message {
+        Message::MidiEvent {
+            event: MidiEvent::ProgramChange { program, .. },
+            ..
+        } => Some(INSTRUMENT_MAP[program as usize]),
+        _ => None,
+    }
+}
+
 #[derive(Debug, Copy, Clone)]
 struct VoiceInterval {
     start: u32,
@@ -335,11 +345,10 @@ impl MidiHandler {
         let mut last_prog_change_per_channel: Vec<Option<Message>> = Vec::new();
         let mut last_pitch_bend_per_channel: Vec<Option<Message>> = Vec::new();
         let mut last_ctrl_change_per_voice: Vec<Option<Message>> = Vec::new();
-        let mut last_prog_change_per_voice: Vec<Option<Message>> = Vec::new();
+        let mut last_instrument_per_voice: Vec<Option<u8>> = Vec::new();
         let mut last_pitch_bend_per_voice: Vec<Option<Message>> = Vec::new();
         let mut last_channel_per_voice: Vec<Option<usize>> = Vec::new();
         let mut active_notes: Vec<HashMap<u8, usize>> = Vec::new();
-        let mut last_percussion_instr = 0;
         for _ in 0..self.channels.len() {
             last_abs_time.push(0);
             curr_event_idx.push(0);
@@ -350,7 +359,7 @@ impl MidiHandler {
         }
         for voice in 0..self.voices.len() {
             last_ctrl_change_per_voice.push(None);
-            last_prog_change_per_voice.push(None);
+            last_instrument_per_voice.push(None);
             last_pitch_bend_per_voice.push(None);
             last_channel_per_voice.push(
                 self.channels
@@ -474,18 +483,25 @@ impl MidiHandler {
                             if ch != last_channel_per_voice[next_voice].unwrap_or(0xff) {
                                 last_ctrl_change_per_channel.get(ch).unwrap().as_ref()
                                     .map(|event| messages.push((event.clone(), abs_time)));
-                                last_prog_change_per_channel.get(ch).unwrap().as_ref()
-                                    .map(|event| messages.push((event.clone(), abs_time)));
                                 last_pitch_bend_per_channel.get(ch).unwrap().as_ref()
                                     .map(|event| messages.push((event.clone(), abs_time)));
                                 last_channel_per_voice[next_voice] = Some(ch);
                             };
+                            if ch != 9 {
+                                let prog_change = last_prog_change_per_channel.get(ch).unwrap();
+                                let instr = prog_change.as_ref().and_then(instrument);
+                                if instr.is_some() && last_instrument_per_voice[next_voice] != instr {
+                                    prog_change.as_ref()
+                                        .map(|event| messages.push((event.clone(), abs_time)));
+                                    last_instrument_per_voice[next_voice] = instr;
+                                }
+                            }
                             if ch == 9 {
                                 let instr = if note == 38 || note == 40 { SNARE } else { CYMBAL };
-                                if last_percussion_instr != instr {
+                                if last_instrument_per_voice[next_voice] != Some(instr) {
                                     let prog_change = (
                                         Message::MidiEvent {
-                                            delta_time,
+                                            delta_time: 0,
                                             event: MidiEvent::ProgramChange {
                                                 ch: ch as u8,
                                                 program: instr,
@@ -493,9 +509,8 @@ impl MidiHandler {
                                         },
                                         abs_time
                                     );
-                                    last_prog_change_per_channel[ch] = Some(prog_change.0.clone());
                                     messages.push(prog_change);
-                                    last_percussion_instr = instr;
+                                    last_instrument_per_voice[next_voice] = Some(instr);
                                 }
                                 messages.push((Message::MidiEvent {
                                     delta_time,
@@ -538,12 +553,14 @@ impl MidiHandler {
                             last_ctrl_change_per_channel[ch] = Some(next_event.0.clone());
                         }
                     }
+                    // percussion instruments are chosen by note
+                    MidiEvent::ProgramChange { ch: 9, .. } => {}
                     MidiEvent::ProgramChange { ch, .. } => {
                         let ch = ch as usize;
                         let mut pushed_to_base = false;
                         for &voice in active_notes[ch].values() {
                             self.voices[voice].messages.push(next_event.clone());
-                            last_prog_change_per_voice[voice] = Some(next_event.0.clone());
+                            last_instrument_per_voice[voice] = instrument(&next_event.0);
                             if voice == self.channels[ch].base_voice {
                                 pushed_to_base = true;
                             }
@@ -552,6 +569,8 @@ impl MidiHandler {
                             self.voices[self.channels[ch].base_voice]
                                 .messages
                                 .push(next_event.clone());
+                            last_instrument_per_voice[self.channels[ch].base_voice] =
+                                instrument(&next_event.0);
                         }
                         last_prog_change_per_channel[ch] = Some(next_event.0.clone());
                     }
-- 
2.43.0


From 0c89393cebbba031f2453108e48aed29f4a0cbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 15/28] fix: remember the channel volume of each voice

Notes were played at the volume of another channel sharing their voice, or at
an outdated one.
---
 src/midi/mod.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 8460fef..3b56e39 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -341,10 +341,11 @@ impl MidiHandler {
         let channels = &self.channels;
         let mut last_abs_time: Vec<u32> = Vec::new();
         let mut curr_event_idx: Vec<usize> = Vec::new();
+        let mut last_volume_per_channel: Vec<Option<u8>> = Vec::new();
         let mut last_ctrl_change_per_channel: Vec<Option<Message>> = Vec::new();
         let mut last_prog_change_per_channel: Vec<Option<Message>> = Vec::new();
         let mut last_pitch_bend_per_channel: Vec<Option<Message>> = Vec::new();
-        let mut last_ctrl_change_per_voice: Vec<Option<Message>> = Vec::new();
+        let mut last_volume_per_voice: Vec<Option<u8>> = Vec::new();
         let mut last_instrument_per_voice: Vec<Option<u8>> = Vec::new();
         let mut last_pitch_bend_per_voice: Vec<Option<Message>> = Vec::new();
         let mut last_channel_per_voice: Vec<Option<usize>> = Vec::new();
@@ -352,13 +353,14 @@ impl MidiHandler {
         for _ in 0..self.channels.len() {
             last_abs_time.push(0);
             curr_event_idx.push(0);
+            last_volume_per_channel.push(None);
             last_ctrl_change_per_channel.push(None);
             last_prog_change_per_channel.push(None);
             last_pitch_bend_per_channel.push(None);
             active_notes.push(HashMap::new());
         }
         for voice in 0..self.voices.len() {
-            last_ctrl_change_per_voice.push(None);
+            last_volume_per_voice.push(None);
             last_instrument_per_voice.push(None);
             last_pitch_bend_per_voice.push(None);
             last_channel_per_voice.push(
@@ -481,12 +483,17 @@ impl MidiHandler {
                             active_notes[ch].insert(note, next_voice);
                             let messages = &mut self.voices[next_voice].messages;
                             if ch != last_channel_per_voice[next_voice].unwrap_or(0xff) {
-                                last_ctrl_change_per_channel.get(ch).unwrap().as_ref()
-                                    .map(|event| messages.push((event.clone(), abs_time)));
                                 last_pitch_bend_per_channel.get(ch).unwrap().as_ref()
                                     .map(|event| messages.push((event.clone(), abs_time)));
                                 last_channel_per_voice[next_voice] = Some(ch);
                             };
+                            if last_volume_per_channel[ch].is_some()
+                                && last_volume_per_voice[next_voice] != last_volume_per_channel[ch]
+                            {
+                                last_ctrl_change_per_channel.get(ch).unwrap().as_ref()
+                                    .map(|event| messages.push((event.clone(), abs_time)));
+                                last_volume_per_voice[next_voice] = last_volume_per_channel[ch];
+                            }
                             if ch != 9 {
                                 let prog_change = last_prog_change_per_channel.get(ch).unwrap();
                                 let instr = prog_change.as_ref().and_then(instrument);
@@ -532,13 +539,19 @@ impl MidiHandler {
                             None => (),
                         }
                     }
-                    MidiEvent::ControlChange { ch, control, .. } => {
+                    MidiEvent::ControlChange { ch, control, data } => {
                         let ch = ch as usize;
-                        let mut pushed_to_base = false;
+                        let base_voice = self.channels[ch].base_voice;
+                        // the volume must not change under another channel's note
+                        let mut pushed_to_base = control == 7
+                            && active_notes
+                                .iter()
+                                .flat_map(|active_note| active_note.values())
+                                .any(|&voice| voice == base_voice);
                         for &voice in active_notes[ch].values() {
                             self.voices[voice].messages.push(next_event.clone());
                             if control == 7 {
-                                last_ctrl_change_per_voice[voice] = Some(next_event.0.clone());
+                                last_volume_per_voice[voice] = Some(data);
                             }
                             if voice == self.channels[ch].base_voice {
                                 pushed_to_base = true;
@@ -548,9 +561,13 @@ impl MidiHandler {
                             self.voices[self.channels[ch].base_voice]
                                 .messages
                                 .push(next_event.clone());
+                            if control == 7 {
+                                last_volume_per_voice[base_voice] = Some(data);
+                            }
                         }
                         if control == 7 {
                             last_ctrl_change_per_channel[ch] = Some(next_event.0.clone());
+                            last_volume_per_channel[ch] = Some(data);
                         }
                     }
                     // percussion instruments are chosen by note
-- 
2.43.0


From 2d62421d2a64c068f9cdb7b669dbd6e6a7c132c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 16/28] fix: read MIDI format 0, refuse other formats and SMPTE
 time with an error

---
 src/midi/mod.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 3b56e39..344d3ef 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -110,6 +110,7 @@ pub struct MidiHandler {
     tracks: Vec<MidiTrack>,
     channels: [MidiChannel; 16],
     voices: [MidiVoice; 8],
+    format: u16,
     pub ticks_per_beat: u16,
     pub max_time: u32,
 }
@@ -146,6 +147,7 @@ impl MidiHandler {
                 MidiVoice::new(),
                 MidiVoice::new(),
             ],
+            format: 0,
             ticks_per_beat: 0,
             max_time: 0,
         }
@@ -162,6 +164,18 @@ impl MidiHandler {
                 .read()
                 .map_err(|err| format_err!("MIDI read error: {:?}", err))?;
         }
+        ensure!(
+            self.format < 2,
+            "{:?}: MIDI format {} is not supported",
+            path,
+            self.format
+        );
+        ensure!(
+            self.ticks_per_beat > 0 && self.ticks_per_beat < 0x8000,
+            "{:?}: time division {:#06X} is not supported",
+            path,
+            self.ticks_per_beat
+        );
         self.tracks_to_channels(verbose);
         for (i, mut channel) in &mut self.channels.iter_mut().enumerate() {
             let mut intervals = &mut channel.intervals;
@@ -641,9 +655,7 @@ impl MidiHandler {
 
 impl Handler for MidiHandler {
     fn header(&mut self, format: u16, _track: u16, time_base: u16) {
-        if format != 1 {
-            unimplemented!("MIDI format {}", format)
-        }
+        self.format = format;
         self.ticks_per_beat = time_base;
     }
 
-- 
2.43.0


From 3b9433f67eb30b1c8ce1fcf13600e6798bddb18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 17/28] fix: refuse a MIDI file with missing tracks

---
 src/midi/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 344d3ef..52e8487 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -111,6 +111,7 @@ pub struct MidiHandler {
     channels: [MidiChannel; 16],
     voices: [MidiVoice; 8],
     format: u16,
+    num_tracks: u16,
     pub ticks_per_beat: u16,
     pub max_time: u32,
 }
@@ -148,6 +149,7 @@ impl MidiHandler {
                 MidiVoice::new(),
             ],
             format: 0,
+            num_tracks: 0,
             ticks_per_beat: 0,
             max_time: 0,
         }
@@ -176,6 +178,13 @@ impl MidiHandler {
             path,
             self.ticks_per_beat
         );
+        ensure!(
+            self.tracks.len() >= self.num_tracks as usize,
+            "{:?}: found {} of {} tracks",
+            path,
+            self.tracks.len(),
+            self.num_tracks
+        );
         self.tracks_to_channels(verbose);
         for (i, mut channel) in &mut self.channels.iter_mut().enumerate() {
             let mut intervals = &mut channel.intervals;
@@ -654,8 +663,9 @@ impl MidiHandler {
 }
 
 impl Handler for MidiHandler {
-    fn header(&mut self, format: u16, _track: u16, time_base: u16) {
+    fn header(&mut self, format: u16, track: u16, time_base: u16) {
         self.format = format;
+        self.num_tracks = track;
         self.ticks_per_beat = time_base;
     }
 
-- 
2.43.0


From 6294143bd0b5eb4dff12f8f8e35b39b63dae8dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:26 +0000
Subject: [PATCH 18/28] fix: refuse MIDI files whose time overflows

---
 src/midi/mod.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 52e8487..f981bab 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -44,6 +44,12 @@ fn priority(message: &Message) -> u8 {
     }
 }
 
+fn add_delta(abs_time: u32, delta_time: u32) -> Result<u32, Error> {
+    abs_time
+        .checked_add(delta_time)
+        .ok_or_else(|| format_err!("MIDI time is too long"))
+}
+
 fn instrument(message: &Message) -> Option<u8> {
     match *message {
         Message::MidiEvent {
@@ -185,7 +191,7 @@ impl MidiHandler {
             self.tracks.len(),
             self.num_tracks
         );
-        self.tracks_to_channels(verbose);
+        self.tracks_to_channels(verbose)?;
         for (i, mut channel) in &mut self.channels.iter_mut().enumerate() {
             let mut intervals = &mut channel.intervals;
             let mut last_interval_end = 0u32;
@@ -247,29 +253,29 @@ impl MidiHandler {
         Ok(())
     }
 
-    fn tracks_to_channels(&mut self, verbose: bool) {
+    fn tracks_to_channels(&mut self, verbose: bool) -> Result<(), Error> {
         for (i, track) in self.tracks.iter().enumerate() {
             if verbose {
                 println!("extracting events from midi track {}", i);
             }
-            let mut abs_time = 0;
+            let mut abs_time = 0u32;
             for message in &track.messages {
                 match *message {
                     Message::MetaEvent { delta_time, .. } => {
-                        abs_time += delta_time;
+                        abs_time = add_delta(abs_time, delta_time)?;
                         self.channels[0].messages.push((message.clone(), abs_time));
                     }
                     Message::MidiEvent {
                         delta_time,
                         ref event,
                     } => {
-                        abs_time += delta_time;
+                        abs_time = add_delta(abs_time, delta_time)?;
                         self.channels[channel(event)]
                             .messages
                             .push((message.clone(), abs_time));
                     }
                     Message::SysExEvent { delta_time, .. } => {
-                        abs_time += delta_time;
+                        abs_time = add_delta(abs_time, delta_time)?;
                         self.channels[0].messages.push((message.clone(), abs_time));
                     }
                     _ => {}
@@ -281,6 +287,7 @@ impl MidiHandler {
                 .messages
                 .sort_by_key(|&(ref event, abs_time)| (abs_time, priority(event)));
         }
+        Ok(())
     }
 
     fn find_base_voices(
-- 
2.43.0


From 6c5a9c0aed2f4c77fc7e9bd05a82c3c955abac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:48 +0000
Subject: [PATCH 19/28] fix: refuse songs larger than the overflow chunk

---
 src/rom/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 5d034b2..6abefe2 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -209,9 +209,10 @@ fn write_bank(
         };
 
         // check if non-track data fits in chunk
-        if song_offset + (if song_def.loops { 8 } else { 4 }) + 16 > chunk_length {
+        let header_length = (if song_def.loops { 8 } else { 4 }) + 16;
+        if song_offset + header_length > chunk_length {
             ensure!(
-                aram_base_addr != aram_overflow_base,
+                aram_base_addr != aram_overflow_base && header_length <= overflow_chunk_len,
                 "{} bank does not fit in available chunks",
                 bank.name
             );
@@ -285,7 +286,8 @@ fn write_bank(
             // check if track data fits in chunk
             if track_data_offset + track_data.len() > chunk_length {
                 ensure!(
-                    aram_base_addr != aram_overflow_base,
+                    aram_base_addr != aram_overflow_base
+                        && track_data.len() <= overflow_chunk_len,
                     "{} bank does not fit in available chunks",
                     bank.name
                 );
-- 
2.43.0


From cc73caa247741c20c0fc7dc748632b4e8b0cf19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:51 +0000
Subject: [PATCH 20/28] fix: resolve the loop calls of a track moved to the
 overflow chunk

---
 src/rom/mod.rs | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 6abefe2..850539e 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -277,8 +277,6 @@ fn write_bank(
         for i in 0..song_data.get_num_tracks() {
             let track_data = Vec::<u8>::new();
             let mut track_call_loops = Vec::<CallLoopRef>::new();
-            let mut pre_chunk_switch_track_call_loops = Vec::<CallLoopRef>::new();
-            let track_start_offset = track_data_offset;
             let mut cursor = Cursor::new(track_data);
             song_data.write_track(&mut cursor, i, &mut track_call_loops)?;
             let track_data = cursor.into_inner();
@@ -301,8 +299,6 @@ fn write_bank(
                 rom_addr = overflow_chunk_addr;
                 chunk_length = overflow_chunk_len;
                 aram_base_addr = aram_overflow_base;
-                pre_chunk_switch_track_call_loops.extend_from_slice(track_call_loops.as_slice());
-                track_call_loops.clear();
             };
 
             if verbose {
@@ -319,15 +315,6 @@ fn write_bank(
                     track_data.iter().cloned(),
                 );
                 track_addrs.push(aram_base_addr + track_data_offset);
-                pre_chunk_switch_track_call_loops
-                    .iter()
-                    .for_each(|call_loop| {
-                        call_loops.push(RomCallLoopRef {
-                            target_track: call_loop.target_track,
-                            chunk_base: base_chunk_addr + track_start_offset,
-                            ref_pos: call_loop.ref_pos,
-                        })
-                    });
                 track_call_loops.iter().for_each(|call_loop| {
                     call_loops.push(RomCallLoopRef {
                         target_track: call_loop.target_track,
-- 
2.43.0


From a82a05952a313150fb35f05d68b3c425b8415b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:51 +0000
Subject: [PATCH 21/28] fix: write the whole ROM

---
 src/rom/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 850539e..393686f 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -119,7 +119,7 @@ pub fn write(
     )?;
 
     file.seek(SeekFrom::Start(0))?;
-    file.write(&romdata)?;
+    file.write_all(&romdata)?;
     songs_pb.finish_print("All songs written.");
     mb_thread.join().unwrap();
     Ok(())
@@ -454,6 +454,6 @@ pub fn gen_fake_rom(
         .create(true)
         .write(true)
         .open(output_path)?;
-    out_file.write(&out_romdata)?;
+    out_file.write_all(&out_romdata)?;
     Ok(())
 }
-- 
2.43.0


From 211c8fafad3c9b3245b8850b52f4f0eaf4f18274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:51 +0000
Subject: [PATCH 22/28] fix: replace an existing dummy ROM completely

---
 src/rom/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 393686f..55a1311 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -453,6 +453,7 @@ pub fn gen_fake_rom(
     let mut out_file = OpenOptions::new()
         .create(true)
         .write(true)
+        .truncate(true)
         .open(output_path)?;
     out_file.write_all(&out_romdata)?;
     Ok(())
-- 
2.43.0


From eb68036408340c79a7060e1d867b6935b7e8d5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:51 +0000
Subject: [PATCH 23/28] fix: report failure when dump_midi cannot read the file

---
 src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5bd83df..e76ab74 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -41,11 +41,12 @@ pub fn run(matches: clap::ArgMatches) -> Result<(), Error> {
     } else if let Some(matches) = matches.subcommand_matches("dump_midi") {
         let input_path = matches.value_of("INPUT");
         let mut midi = midi::MidiHandler::new();
-        midi.read(Path::new(input_path.unwrap()), verbose)
-            .unwrap_or_else(|err| {
-                println!("Error reading MIDI: {:?}", err);
-            });
+        let result = midi.read(Path::new(input_path.unwrap()), verbose);
+        if let Err(ref err) = result {
+            println!("Error reading MIDI: {:?}", err);
+        }
         println!("{:#?}", midi);
+        result?;
     } else if let Some(matches) = matches.subcommand_matches("midi2json") {
         let input_path = matches.value_of("INPUT");
         let output_path = matches.value_of("OUTPUT");
-- 
2.43.0


From d42d26bd05ffd4be09b1964fd7dbc07d84b4b96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 24/28] fix: don't take minutes to find that channels don't fit

---
 src/midi/mod.rs | 125 ++++++++++++++++++++++--------------------------
 1 file changed, 57 insertions(+), 68 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index f981bab..2036b9f 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -238,17 +238,30 @@ impl MidiHandler {
                 }
             }
         }
-        let active_base_intervals = vec![
-            vec![],
-            vec![],
-            vec![],
-            vec![],
-            vec![],
-            vec![],
-            vec![],
-            vec![],
-        ];
-        self.find_base_voices(0, &active_base_intervals, path, verbose)?;
+        let overlaps = self
+            .channels
+            .iter()
+            .map(|channel| {
+                self.channels
+                    .iter()
+                    .map(|other| {
+                        MidiHandler::overlapping_interval(&channel.intervals, &other.intervals)
+                            .is_some()
+                    })
+                    .collect()
+            })
+            .collect();
+        let mut active_base_channels = vec![vec![]; 8];
+        if !self.find_base_voices(0, &mut active_base_channels, &overlaps) {
+            return Err(Error::from(MidiError::CouldntFit {
+                path: path.to_str().unwrap().to_owned(),
+            }));
+        }
+        if verbose {
+            for (i, channel) in self.channels.iter().enumerate() {
+                println!("channel {}: base voice {}", i, channel.base_voice);
+            }
+        }
         self.channels_to_voices(path, verbose)?;
         Ok(())
     }
@@ -293,75 +306,51 @@ impl MidiHandler {
     fn find_base_voices(
         &mut self,
         channel_idx: usize,
-        active_base_intervals: &Vec<Vec<VoiceInterval>>,
-        path: &Path,
-        verbose: bool,
-    ) -> Result<(), Error> {
+        active_base_channels: &mut Vec<Vec<usize>>,
+        overlaps: &Vec<Vec<bool>>,
+    ) -> bool {
         if channel_idx == self.channels.len() {
-            return Ok(());
+            return true;
         }
-        if verbose {
-            println!("find base voice for channel {}", channel_idx);
+        if self.channels[channel_idx].intervals.is_empty() {
+            return self.find_base_voices(channel_idx + 1, active_base_channels, overlaps);
         }
-        let mut valid_voices = vec![];
-        let mut found_empty = false;
-        for i in 0..8 {
-            let empty = active_base_intervals[i].is_empty();
-            if !found_empty || !empty {
-                match MidiHandler::overlapping_interval(
-                    &self.channels[channel_idx].intervals,
-                    &active_base_intervals[i],
-                ) {
-                    Some(interval) => {
-                        if verbose {
-                            println!("voice {} overlaps with {:?}", i, interval);
-                        }
-                    }
-                    None => {
-                        valid_voices.push(i);
-                        if empty {
-                            found_empty = true;
-                        }
-                    }
-                }
-            }
-        }
-        if verbose {
-            println!("non-overlapping voices: {:?}", valid_voices);
-        }
-        for voice in valid_voices {
-            if verbose {
-                println!("channel {}: trying {}", channel_idx, voice);
-            }
-            let mut active_base_intervals = active_base_intervals.clone();
-            active_base_intervals[voice]
-                .extend_from_slice(self.channels[channel_idx].intervals.as_slice());
-            match self.find_base_voices(channel_idx + 1, &active_base_intervals, path, verbose) {
-                Ok(_) => {
+        for voice in 0..8 {
+            let empty = active_base_channels[voice].is_empty();
+            if !active_base_channels[voice]
+                .iter()
+                .any(|&active| overlaps[channel_idx][active])
+            {
+                active_base_channels[voice].push(channel_idx);
+                if self.find_base_voices(channel_idx + 1, active_base_channels, overlaps) {
                     self.channels[channel_idx].base_voice = voice;
-                    return Ok(());
+                    return true;
                 }
-                Err(_) => (),
+                active_base_channels[voice].pop();
+            }
+            if empty {
+                // further voices are empty as well
+                break;
             }
         }
-        Err(Error::from(MidiError::CouldntFit {
-            path: path.to_str().unwrap().to_owned(),
-        }))
+        false
     }
 
     fn overlapping_interval(
         channel: &Vec<VoiceInterval>,
-        active_intervals: &Vec<VoiceInterval>,
+        other: &Vec<VoiceInterval>,
     ) -> Option<VoiceInterval> {
-        for interval in channel {
-            for existing_interval in active_intervals {
-                if interval.voices > 0
-                    && existing_interval.voices > 0
-                    && interval.end > existing_interval.start
-                    && interval.start < existing_interval.end
-                {
-                    return Some(existing_interval.clone());
-                }
+        let mut intervals = channel.iter().filter(|i| i.voices > 0).peekable();
+        let mut other_intervals = other.iter().filter(|i| i.voices > 0).peekable();
+        while let (Some(&interval), Some(&other_interval)) =
+            (intervals.peek(), other_intervals.peek())
+        {
+            if interval.end <= other_interval.start {
+                intervals.next();
+            } else if other_interval.end <= interval.start {
+                other_intervals.next();
+            } else {
+                return Some(other_interval.clone());
             }
         }
         None
-- 
2.43.0


From 769428eb97cf44c07a6c9622481f35e827e88875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:26 +0000
Subject: [PATCH 25/28] fix: keep the snare's pitch when it is struck again
 while sounding

---
 src/midi/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 2036b9f..cee6562 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -452,7 +452,7 @@ impl MidiHandler {
                                     delta_time,
                                     event: MidiEvent::NoteOff {
                                         ch: ch as u8,
-                                        note,
+                                        note: if ch == 9 && (note == 38 || note == 40) { SNARE_NOTE } else { note },
                                         velocity,
                                     },
                                 },
-- 
2.43.0


From 8a2c64edeacfa687a7a8bd9b52711b0288470667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 26/28] fix: let all channels last until the last tempo change

---
 src/midi/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index cee6562..25d1538 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -234,6 +234,17 @@ impl MidiHandler {
                             self.max_time = abs_time;
                         }
                     },
+                    (
+                        Message::MetaEvent {
+                            event: MetaEvent::SetTempo,
+                            ..
+                        },
+                        abs_time,
+                    ) => {
+                        if abs_time > self.max_time {
+                            self.max_time = abs_time;
+                        }
+                    }
                     _ => {}
                 }
             }
-- 
2.43.0


From fb227aa9e90f9bcf1ec0065b01b30b4c79500bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:59 +0000
Subject: [PATCH 27/28] fix: find adjoining repeats without searching all of
 them

---
 src/nspc/seqtree.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index 89634ac..118ac4d 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -351,17 +351,15 @@ pub struct Sequence {
 }
 
 fn add_location(locations: &mut Vec<Location>, track_idx: usize, cmd_idx: usize, seq_len: usize) {
-    let mut found = false;
-    {
-        let adjoining_location = locations
-            .iter_mut()
-            .find(|loc| loc.track_idx == track_idx && loc.cmd_idx + seq_len == cmd_idx);
-        if let Some(loc) = adjoining_location {
-            loc.repeat_count += 1;
-            found = true;
-        }
-    }
-    if !found {
+    // locations are in order of track and position
+    let adjoining_location = cmd_idx.checked_sub(seq_len).and_then(|idx| {
+        locations
+            .binary_search_by_key(&(track_idx, idx), |loc| (loc.track_idx, loc.cmd_idx))
+            .ok()
+    });
+    if let Some(idx) = adjoining_location {
+        locations[idx].repeat_count += 1;
+    } else {
         locations.push(Location {
             track_idx,
             cmd_idx,
-- 
2.43.0


From cf1234d78ac8fb95ea43c34f45b2ba5bda27c58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:00 +0000
Subject: [PATCH 28/28] fix: no slide to a note that is never released

A note without an end is not played; the slide to its pitch was.
---
 src/nspc/track.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 8f2a918..580d369 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -317,6 +317,12 @@ impl Track {
                 _ => {}
             }
         }
+        if note_start.is_some() {
+            // a note that is never released is not played
+            if let Some(idx) = slide_idx {
+                commands.remove(idx);
+            }
+        }
         let mut commands_with_sustain = Vec::new();
         if !commands.is_empty() {
             Track::insert_rest(&mut commands, &mut last_note_end, max_time);
-- 
2.43.0

