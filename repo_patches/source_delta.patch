From 4fe26100db7204119b4f69b769487365183f9906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 01/29] verif hook: harness entry point, guarded by
 cfg(fix_verif)

---
 src/main.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index b4d4c4f..e85fd22 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -9,6 +9,12 @@ mod message;
 mod network;
 mod quickfix_errors;
 mod session;
+// verification hook, off unless built with --cfg fix_verif: the harness source
+// (outside this repository) is named by the build environment
+#[cfg(fix_verif)]
+mod verif_driver {
+    include!(env!("FIX_VERIF_DRIVER"));
+}
 
 use std::{thread, time::Duration};
 
@@ -23,6 +29,10 @@ pub(crate) const CONFIG_TOML_PATH: &str = "src/FixConfig.toml";
 
 #[tokio::main]
 async fn main() {
+    #[cfg(fix_verif)]
+    if verif_driver::run() {
+        return;
+    }
     let session_settings = Properties::new(CONFIG_TOML_PATH);
     let application = DefaultApplication::new();
     let mut acceptor = SocketAcceptor::new(session_settings, application);
-- 
2.43.0


From cf08e0ce8ddcd10341bbd48f4db21d40b02a19cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 02/29] fix: reject a message with fewer than three fields
 instead of panicking

parse_header indexed the first three fields unconditionally.
---
 src/message.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 3c4059a..778ca31 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -483,7 +483,8 @@ fn parse_group(
 fn parse_header(
     v: &mut VecDeque<StringField>, header: &mut FieldMap, dd: &DataDictionary,
 ) -> SessResult<()> {
-    if v[0].tag() != BeginString::field()
+    if v.len() < 3
+        || v[0].tag() != BeginString::field()
         || v[1].tag() != BodyLength::field()
         || v[2].tag() != MsgType::field()
     {
-- 
2.43.0


From ec9ae4e30a365be985cb175a2fa032f2394d288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 03/29] fix: do not allocate repeating group instances for an
 impossible count

A group count of e.g. 4294967295 allocated that many instances before the
fields were looked at, which aborts the process.
---
 src/message.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index 778ca31..edc4276 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -426,6 +426,10 @@ fn parse_group(
         Ok(c) => c,
         Err(e) => return Err(SessionRejectError::incorrect_data_format_err()),
     };
+    if declared_count as usize > v.len() {
+        // every instance needs at least one field, do not allocate for a count which can't be met
+        return Err(SessionRejectError::incorrect_num_in_grp_count());
+    }
     let delimiter = rg.delimiter();
     let group = fmap.set_group(fld.tag(), declared_count, delimiter);
     let mut actual_count: i32 = -1;
-- 
2.43.0


From da25c6a6e8557762c22e7c5e9f05799c9e2b552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:09 +0000
Subject: [PATCH 04/29] fix: session id of a text whose last field is
 unterminated

extract_field_value panicked when no SOH follows the wanted field.
---
 src/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index edc4276..eb21ab4 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -397,7 +397,7 @@ fn extract_field_value<'a>(tag: &str, s: &'a str) -> &'a str {
     if let Some(indx) = s.find(pat.as_str()) {
         let field_start_pos = indx + pat_prefix.len();
         // ignore the first SOH prefix, if any, and start from tag
-        let end_pos = s[field_start_pos..].find(SOH).unwrap();
+        let end_pos = s[field_start_pos..].find(SOH).unwrap_or(s.len() - field_start_pos);
         let start_pos = s[field_start_pos..].find('=').unwrap();
         return &s[field_start_pos + start_pos + 1..field_start_pos + end_pos];
     }
-- 
2.43.0


From 1462971a5366792360f8b69d08189d2fc853424c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:10 +0000
Subject: [PATCH 05/29] fix: reject a message in which a tag appears more than
 once

The parser silently kept the last value (and merged the instances of a
repeated group), losing fields that were received.
---
 src/message.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index eb21ab4..03a89b9 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -104,6 +104,14 @@ impl FieldMap {
         self.fields.insert(field.tag(), field);
     }
 
+    fn set_unique_field(&mut self, field: StringField) -> SessResult<()> {
+        if self.fields.contains_key(&field.tag()) {
+            return Err(SessionRejectError::tag_appear_more_than_once());
+        }
+        self.set_field(field);
+        Ok(())
+    }
+
     pub fn get_field<T: FromStr>(&self, tag: u32) -> Result<T, String> {
         if let Some(field) = self.fields.get(&tag) {
             return field.value.parse::<T>().map_err(|_| "could not parse".to_string());
@@ -419,6 +427,9 @@ fn parse_group(
     let rg = dd
         .get_msg_group(msg_type, fld.tag())
         .ok_or_else(SessionRejectError::tag_not_defined_for_msg)?;
+    if fmap.fields.contains_key(&fld.tag()) {
+        return Err(SessionRejectError::tag_appear_more_than_once());
+    }
     let rg_dd = rg.data_dictionary();
     let field_order = rg_dd.get_ordered_fields();
     let group_count_tag = fld.tag();
@@ -469,7 +480,7 @@ fn parse_group(
                 return Err(SessionRejectError::repeating_grp_out_of_order());
             }
             let group_instance = &mut group[actual_count as usize];
-            group_instance.set_field(next_field);
+            group_instance.set_unique_field(next_field)?;
             previous_offset = offset;
         } else {
             // its not a group field, push back and come out
@@ -502,7 +513,7 @@ fn parse_header(
         } else if dd.is_msg_group(HEADER_ID, fld.tag()) {
             parse_group(v, HEADER_ID, &fld, header, dd)?;
         } else {
-            header.set_field(fld);
+            header.set_unique_field(fld)?;
         }
     }
     Ok(())
@@ -526,7 +537,7 @@ fn parse_body(
         if dd.is_msg_group(msg_type.as_str(), fld.tag()) {
             parse_group(v, &msg_type, &fld, &mut msg.body, dd)?;
         } else {
-            msg.set_field(fld);
+            msg.body.set_unique_field(fld)?;
         }
     }
     Ok(())
@@ -539,7 +550,7 @@ fn parse_trailer(
         if !dd.is_trailer_field(fld.tag()) {
             return Err(SessionRejectError::tag_specified_out_of_order());
         }
-        trailer.set_field(fld);
+        trailer.set_unique_field(fld)?;
     }
     Ok(())
 }
-- 
2.43.0


From 78cf004355d83b5659a54127c5c0e5ef5a0d3226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:11 +0000
Subject: [PATCH 06/29] fix: setting a repeating group again replaces its
 instances

The count field was overwritten but the old instances were kept, so that
count and instances did not match.
---
 src/message.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 03a89b9..86d4121 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -122,8 +122,9 @@ impl FieldMap {
     pub fn set_group(&mut self, tag: Tag, value: u32, rep_grp_delimiter: Tag) -> &mut Group {
         let grp_field = StringField::new(tag, value.to_string().as_str());
         self.set_field(grp_field);
-        let group =
-            self.group.entry(tag).or_insert_with(|| Group::new(rep_grp_delimiter, tag, value));
+        // instances of a group set earlier with the same tag are replaced
+        self.group.insert(tag, Group::new(rep_grp_delimiter, tag, value));
+        let group = self.group.get_mut(&tag).unwrap();
         // create group instances and insert into group
         for i in 0..value {
             group.add_group(FieldMap::new());
-- 
2.43.0


From 3d7da52d2f819c4772176f1ea3d5b22e9fb7d067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 07/29] fix: write the delimiter first in every repeating group
 instance

Instances made by set_group had no field order, so their fields were
written in hash map order.
---
 src/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 86d4121..5315947 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -127,7 +127,7 @@ impl FieldMap {
         let group = self.group.get_mut(&tag).unwrap();
         // create group instances and insert into group
         for i in 0..value {
-            group.add_group(FieldMap::new());
+            group.add_group(FieldMap::with_field_order(&[rep_grp_delimiter]));
         }
         group
     }
-- 
2.43.0


From 433a2f2d9c2e4ab2080bd8b19b5be4870d4013b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 08/29] fix: write the checksum as the last field of the
 message

The trailer had no field order, so with a signature present the fields
were written in hash map order.
---
 src/message.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/message.rs b/src/message.rs
index 5315947..d7b4638 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -267,6 +267,7 @@ impl Message {
     pub fn new() -> Self {
         Self {
             header: FieldMap::with_field_order(&[8, 9, 35]),
+            trailer: FieldMap::with_field_order(&[93, 89, 10]),
             ..Default::default()
         }
     }
-- 
2.43.0


From 992bda7e6408cf31c6a6a4fe0c5b53a3de3b436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 09/29] fix: refuse a config in which a session comes before
 the default section

Such a session was silently dropped: the check for it could not be reached.
---
 src/session/session_settings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/session/session_settings.rs b/src/session/session_settings.rs
index 642b4e5..43d8341 100644
--- a/src/session/session_settings.rs
+++ b/src/session/session_settings.rs
@@ -108,10 +108,10 @@ impl Properties {
                 default_found = true;
                 default_session_id = Some(SessionId::default());
                 setting_map.insert(default_session_id.clone().unwrap(), default_section);
-            } else if line.starts_with('[') && line.ends_with(']') && default_found {
+            } else if line.starts_with('[') && line.ends_with(']') {
                 // some other section in config file
                 if !default_found {
-                    panic!("default section should be first section. not found");
+                    panic!("default section not found. it should be the first section");
                 }
                 let section = parse_table(&mut lines);
                 let defaults = setting_map.get(default_session_id.as_ref().unwrap()).unwrap();
-- 
2.43.0


From 97f44c0ebe493f10092ace3eec2ad8ede800f71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 10/29] fix: create the schedule of a non stop session

A session without start and end time is non stop, but creating its schedule
panicked on the missing times.
---
 src/session/session_schedule.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index 18b6b18..d935523 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -59,9 +59,9 @@ impl SessionSchedule {
         let time_zone: chrono_tz::Tz =
             settings.get_optional_config(session_id, TIMEZONE_SETTING).unwrap_or(chrono_tz::UTC);
         SessionSchedule::new(
-            start_time.unwrap(),
+            start_time.unwrap_or_default(),
             start_day,
-            end_time.unwrap(),
+            end_time.unwrap_or_default(),
             end_day,
             time_zone,
             is_non_stop,
-- 
2.43.0


From 2fc473c9a8b17f672b8a3945eb58620e95cd26f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 11/29] fix: refuse a schedule with only one of start_day and
 end_day

It was accepted and made every later is_session_time call panic.
---
 src/session/session_schedule.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index d935523..4a53f5f 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -55,6 +55,9 @@ impl SessionSchedule {
         if is_non_stop && (start_day.is_some() || end_day.is_some()) {
             panic!("start or end day specified without start time or end time");
         }
+        if start_day.is_some() != end_day.is_some() {
+            panic!("start_day and end_day both are mandatory for a weekly session");
+        }
 
         let time_zone: chrono_tz::Tz =
             settings.get_optional_config(session_id, TIMEZONE_SETTING).unwrap_or(chrono_tz::UTC);
-- 
2.43.0


From 40b5fe5c79c64ddaf90d1a7a8cb0156fb613d9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 12/29] fix: session time check on the day of a daylight saving
 change

is_session_time panicked when the start or end time is skipped or repeated
in the session's time zone on the current day.
---
 src/session/session_schedule.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index 4a53f5f..8c9e5b0 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -76,10 +76,12 @@ impl SessionSchedule {
             return true;
         }
 
-        let now_datetime = self.time_zone.from_utc_datetime(&Utc::now().naive_utc());
+        // local wall clock: a local time may be skipped or repeated by a daylight saving change
+        let now_datetime =
+            self.time_zone.from_utc_datetime(&Utc::now().naive_utc()).naive_local();
         // get today's session start and end datetime
-        let today_start_datetime = now_datetime.date().and_time(self.start_time).unwrap();
-        let today_end_datetime = now_datetime.date().and_time(self.end_time).unwrap();
+        let today_start_datetime = now_datetime.date().and_time(self.start_time);
+        let today_end_datetime = now_datetime.date().and_time(self.end_time);
         if self.start_day.is_none() && self.end_day.is_none() {
             // daily session start and end
             // now should be between today's session start and end datetimes
@@ -104,8 +106,7 @@ impl SessionSchedule {
         }
         // weekly start_date is on correct weekday for sesssion
         // update the date with time of self.start_time
-        let weekly_start_datetime =
-            weekly_start_date.and_time(today_start_datetime.time()).unwrap();
+        let weekly_start_datetime = weekly_start_date.and_time(today_start_datetime.time());
 
         while weekly_end_date.weekday() != session_end_weekday {
             // go forward one day
@@ -116,7 +117,7 @@ impl SessionSchedule {
                 return false;
             }
         }
-        let weekly_end_datetime = weekly_end_date.and_time(today_end_datetime.time()).unwrap();
+        let weekly_end_datetime = weekly_end_date.and_time(today_end_datetime.time());
         weekly_start_datetime <= now_datetime && now_datetime <= weekly_end_datetime
     }
 
-- 
2.43.0


From 93d0617205c8f26543444e04156fe2726e2a0ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 13/29] fix: sessions which run over midnight or for a whole
 week

A schedule whose end time is before its start time was never in session.
---
 src/session/session_schedule.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index 8c9e5b0..d9ce829 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -84,6 +84,10 @@ impl SessionSchedule {
         let today_end_datetime = now_datetime.date().and_time(self.end_time);
         if self.start_day.is_none() && self.end_day.is_none() {
             // daily session start and end
+            if self.end_time < self.start_time {
+                // session runs over midnight
+                return today_start_datetime <= now_datetime || now_datetime <= today_end_datetime;
+            }
             // now should be between today's session start and end datetimes
             return today_start_datetime <= now_datetime && now_datetime <= today_end_datetime;
         }
@@ -93,6 +97,12 @@ impl SessionSchedule {
         let mut weekly_end_date = today_end_datetime.date();
         let session_start_weekday = self.start_day.unwrap();
         let session_end_weekday = self.end_day.unwrap();
+        if session_start_weekday == session_end_weekday && self.end_time < self.start_time {
+            // session runs for a week, it is closed only on that day from end time to start time
+            return weekly_start_date.weekday() != session_start_weekday
+                || today_start_datetime <= now_datetime
+                || now_datetime <= today_end_datetime;
+        }
         // using only the date, start going back until you find the date which has
         // same weekday as self.start_day
         while weekly_start_date.weekday() != session_start_weekday {
-- 
2.43.0


From c8da251dc12b33cc3f9aee0403a40d85041f2b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 14/29] fix: ignore a message for an unknown session

It panicked the only receiver thread, after which no session on any port was
served any more.
---
 src/network.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index a57f93f..5fd5aa5 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -252,8 +252,14 @@ fn start_receiver_task<A: Application + Send + Sync + 'static>(
 
             let dd = sessions
                 .get_session(&session_id)
-                .map(|sess| Arc::clone(sess.data_dictionary()))
-                .unwrap();
+                .map(|sess| Arc::clone(sess.data_dictionary()));
+            let dd = match dd {
+                Some(dd) => dd,
+                None => {
+                    println!("no session {}, message ignored", session_id);
+                    continue;
+                }
+            };
             if let Ok(message) = Message::from_str(&s, &dd) {
                 println!("msg parsed");
                 if let Ok(_) = Session::verify(&message, &sessions) {
-- 
2.43.0


From 8e3ce35734b450efe6c5288eb991d3084bd3506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 15/29] fix: sending to a session nobody is connected to must
 not panic

Replying after the peer has gone panicked the only receiver thread, after
which no session on any port was served any more.
---
 src/session/session_and_state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/session/session_and_state.rs b/src/session/session_and_state.rs
index 4214ebd..86b480c 100644
--- a/src/session/session_and_state.rs
+++ b/src/session/session_and_state.rs
@@ -101,7 +101,8 @@ impl Session {
         // let synchronous_send = true;
         let sess_ref = sessions.get_session(session_id).unwrap();
         let responder = sess_ref.responder.as_ref().unwrap().clone();
-        responder.send(msg.to_string()).unwrap();
+        // an error only means that nobody is connected, nothing to write to
+        let _ = responder.send(msg.to_string());
         // if !synchronous_send {
         //     tokio::spawn(async move {
         //         responder.send(msg.to_string()).await.unwrap();
-- 
2.43.0


From 9d9a7357d2914741417adb6f2ab6ae586b4286d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 16/29] fix: stop reading when the peer closes the connection

The reader spun forever on end of file, and a message cut off in its checksum
field was passed on as if it were complete.
---
 src/io/acceptor.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index d76be60..268e6b5 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -71,7 +71,10 @@ fn start_socket_listener_task(read_half: OwnedReadHalf, to_app: TioSender<String
         let mut buf: Vec<u8> = Vec::with_capacity(1024);
         let mut buf_reader = BufReader::new(read_half);
         loop {
-            read_message(&mut buf_reader, &mut buf).await;
+            if !read_message(&mut buf_reader, &mut buf).await {
+                println!("connection closed by peer");
+                break;
+            }
             let raw_msg = String::from_utf8_lossy(&buf[..buf.len()]).to_string();
             to_app.send(raw_msg).await.unwrap();
             buf.clear();
@@ -93,18 +96,22 @@ fn start_app_listner_task(
     });
 }
 
-async fn read_message<R: AsyncBufReadExt + Unpin>(reader: &mut R, buf: &mut Vec<u8>) {
+// returns false if the peer closed the connection before the end of the message
+async fn read_message<R: AsyncBufReadExt + Unpin>(reader: &mut R, buf: &mut Vec<u8>) -> bool {
     loop {
         let bytes_read = reader.read_until(SOH as u8, buf).await.unwrap();
         // println!("bytes received: {:?}", &buf);
+        if bytes_read == 0 || !buf.ends_with(&[SOH as u8]) {
+            return false;
+        }
         let slice_start = buf.len() - bytes_read;
         let slice_end = buf.len();
         // last read data
         let byte_slice = &buf[slice_start..slice_end];
         if byte_slice.starts_with(&[49, 48, 61]) {
             // b"10="
-            // checksum tag found, break
-            break;
+            // checksum tag found
+            return true;
         }
     }
 }
-- 
2.43.0


From ed344eb4115b82d671f247f2d9655498daf540cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 17/29] fix: keep listening between connections

The listener was dropped and bound again for every connection, which reset
the clients waiting in its backlog and refused those in between.
---
 src/io/acceptor.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index 268e6b5..d7fc6e5 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -37,17 +37,19 @@ impl IoAcceptor {
         let socket_to_app_send = self.socket_to_app_send.clone();
         let app_to_socket_send = self._app_to_socket_send.clone();
         tokio::spawn(async move {
-            loop {
-                let listener = match TcpListener::bind(bind_addr).await {
+            let listener = loop {
+                match TcpListener::bind(bind_addr).await {
                     Ok(listener) => {
                         println!("listening on {}", bind_addr);
-                        listener
+                        break listener;
                     }
                     Err(e) => {
                         println!("Error in bind: {:?}", e);
                         continue;
                     }
                 };
+            };
+            loop {
                 let (stream, _) = match listener.accept().await {
                     Ok((stream, remote_addr)) => {
                         println!("accepted connection from {}", remote_addr);
-- 
2.43.0


From 7d5435d623f41a15be25a2319093e4f5df67fd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 18/29] fix: wait before trying again to bind a port which is
 in use

The retry loop never yielded, so a busy port took a runtime worker away from
the other ports.
---
 src/io/acceptor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index d7fc6e5..d0e3df5 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -45,7 +45,7 @@ impl IoAcceptor {
                     }
                     Err(e) => {
                         println!("Error in bind: {:?}", e);
-                        continue;
+                        tokio::time::sleep(std::time::Duration::from_secs(1)).await;
                     }
                 };
             };
-- 
2.43.0


From 9d3607ccc6e6d8e56f9f91a836e33060ac1e6055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 19/29] fix: set the responder of every session before
 accepting connections

A message received on the first port while the others were still being set up
could be forwarded to a session without responder, which panicked the only
receiver thread.
---
 src/network.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/network.rs b/src/network.rs
index 5fd5aa5..bc0cae1 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -199,9 +199,12 @@ impl<A: Application + Send + Sync + 'static> SocketAcceptor<A> {
             for (accepted_sid, _) in s_desc.accepted_connections() {
                 self.set_session_responder(accepted_sid, app_to_socket_tx.clone());
             }
-            io_acceptor.start();
             io_acceptors.insert(s_desc.clone(), io_acceptor);
         }
+        // a message may be sent to any session once the first port accepts connections
+        for io_acceptor in io_acceptors.values() {
+            io_acceptor.start();
+        }
     }
 }
 
-- 
2.43.0


From a1e24045f234b304456d7195757d8b55720c6cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 20/29] fix: subscribe a new connection to outgoing messages
 before reading from it

The reply to the first message could be sent before the connection had
subscribed, and was lost.
---
 src/io/acceptor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index d0e3df5..d14cf01 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -61,8 +61,9 @@ impl IoAcceptor {
                     }
                 };
                 let (owned_read, owned_write) = stream.into_split();
-                start_socket_listener_task(owned_read, socket_to_app_send.clone());
+                // subscribe first: the reply to the first message must not be missed
                 start_app_listner_task(owned_write, app_to_socket_send.subscribe());
+                start_socket_listener_task(owned_read, socket_to_app_send.clone());
             }
         });
     }
-- 
2.43.0


From c49fd361c2e0a4cc3e723bc08b398337603f74d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:51 +0000
Subject: [PATCH 21/29] fix: keep the count of a repeating group as it was
 received

---
 src/message.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index d7b4638..aead12b 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -494,6 +494,8 @@ fn parse_group(
         // means actual repeating groups are less then declared count
         return Err(SessionRejectError::incorrect_num_in_grp_count());
     }
+    // keep the count as it was received, for example with leading zeros
+    fmap.set_field(fld.clone());
     Ok(())
 }
 
-- 
2.43.0


From 5c85c0cf803208092df7ffc10430dbbfe160c1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:53 +0000
Subject: [PATCH 22/29] fix: write CheckSum after every other trailer field

---
 src/message.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index aead12b..2dda2a1 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -85,6 +85,8 @@ pub struct FieldMap {
     fields: HashMap<Tag, StringField>,
     group: HashMap<Tag, Group>,
     field_order: Vec<Tag>,
+    // field written after all others, ordered or not
+    last_field: Option<Tag>,
 }
 
 impl FieldMap {
@@ -185,6 +187,9 @@ impl<'a> FieldMapIter<'a> {
                     .map_or(usize::MAX, |pos| pos)
             })
         }
+        if let Some(last) = field_map.last_field {
+            temp_vec.sort_by_key(|field| field.tag() == last);
+        }
         for str_field in temp_vec {
             let tag = str_field.tag();
             self.vec_str_field.push(str_field);
@@ -267,7 +272,10 @@ impl Message {
     pub fn new() -> Self {
         Self {
             header: FieldMap::with_field_order(&[8, 9, 35]),
-            trailer: FieldMap::with_field_order(&[93, 89, 10]),
+            trailer: FieldMap {
+                last_field: Some(10),
+                ..FieldMap::with_field_order(&[93, 89, 10])
+            },
             ..Default::default()
         }
     }
-- 
2.43.0


From 574c52f2a98392f2b5b495604b32b3a8487b9d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 23/29] fix: refuse a session section with the identity of the
 default section

---
 src/session/session_settings.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/session/session_settings.rs b/src/session/session_settings.rs
index 43d8341..a55330f 100644
--- a/src/session/session_settings.rs
+++ b/src/session/session_settings.rs
@@ -116,6 +116,10 @@ impl Properties {
                 let section = parse_table(&mut lines);
                 let defaults = setting_map.get(default_session_id.as_ref().unwrap()).unwrap();
                 let session_id = SessionId::from_map(&section, defaults);
+                if Some(&session_id) == default_session_id.as_ref() {
+                    // would replace the default section
+                    panic!("invalid begin string");
+                }
                 setting_map.insert(session_id, section);
             }
         }
-- 
2.43.0


From 2654c2c221b1d7b034c2708f3ddd19cb33f90ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:45 +0000
Subject: [PATCH 24/29] fix: report a component that is not defined as an error

A reference to a component that the components section does not define
made loading the dictionary panic; a field that is not defined is an
XmlNodeNotFound error, so use that.
---
 src/data_dictionary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index 7aa75a3..1ac9e6d 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -289,7 +289,7 @@ impl DataDictionary {
                     // required attrib for processing componend does not depend on outer node
                     let comp_node = components
                         .get(comp_name)
-                        .unwrap_or_else(|| panic!("msg: {}, comp: {}", msg_type, comp_name));
+                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
                     group_dd.add_xml_component(
                         msg_type,
                         comp_node,
@@ -353,7 +353,7 @@ impl DataDictionary {
                     let comp_name = get_name_attr(&child)?;
                     let comp_node = components
                         .get(comp_name)
-                        .unwrap_or_else(|| panic!("msgtype {}, component {}", msg_type, comp_name));
+                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
                     // "required" attribute of each comp inside comp is treated independently
                     // it does no depend on outer component.
                     self.add_xml_component(msg_type, comp_node, is_comp_required, components, doc)?
@@ -417,7 +417,7 @@ impl DataDictionary {
                     let comp_name = get_name_attr(&child)?;
                     let comp_node = components
                         .get(comp_name)
-                        .unwrap_or_else(|| panic!("msgtype {}, component {}", msg_type, comp_name));
+                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
                     self.add_xml_component(msg_type, comp_node, comp_required, components, doc)?;
                 }
                 "group" => {
-- 
2.43.0


From 136ec5602776d5814db092df358b2a3136adb288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:04 +0000
Subject: [PATCH 25/29] fix: look a field up among the field definitions only

An element of the fields section that is not a field is ignored when the
definitions are read, but a reference to its name was resolved, leaving
the message with a field that has no type. It is not defined, so loading
fails.
---
 src/data_dictionary.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index 1ac9e6d..83bea38 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -547,7 +547,9 @@ fn get_component_nodes_by_name<'a, 'i>(components: Node<'a, 'i>) -> DResult<Node
 
 fn lookup_field_num_with_name(field_name: &str, doc: &Document) -> DResult<u32> {
     let fields = lookup_node("fields", doc)?;
-    for node in fields.children().filter(|n| n.has_attribute("number") && n.has_attribute("name")) {
+    for node in fields.children().filter(|n| {
+        n.has_tag_name("field") && n.has_attribute("number") && n.has_attribute("name")
+    }) {
         let name = get_name_attr(&node)?;
         if name == field_name {
             let number = get_number_attr(&node)?;
-- 
2.43.0


From 82c60f2b3cc443dffabcab1a779edf0fa6d0fe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 26/29] fix: close the socket of a client that has left

---
 src/io/acceptor.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index d14cf01..49dda1f 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -6,6 +6,7 @@ use tokio::io::{AsyncBufReadExt, AsyncWriteExt, BufReader};
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpListener;
 use tokio::sync::mpsc::{channel as tio_channel, Receiver as TioReceiver, Sender as TioSender};
+use tokio::task::JoinHandle;
 
 #[derive(Debug)]
 pub struct IoAcceptor {
@@ -62,14 +63,16 @@ impl IoAcceptor {
                 };
                 let (owned_read, owned_write) = stream.into_split();
                 // subscribe first: the reply to the first message must not be missed
-                start_app_listner_task(owned_write, app_to_socket_send.subscribe());
-                start_socket_listener_task(owned_read, socket_to_app_send.clone());
+                let writer = start_app_listner_task(owned_write, app_to_socket_send.subscribe());
+                start_socket_listener_task(owned_read, socket_to_app_send.clone(), writer);
             }
         });
     }
 }
 
-fn start_socket_listener_task(read_half: OwnedReadHalf, to_app: TioSender<String>) {
+fn start_socket_listener_task(
+    read_half: OwnedReadHalf, to_app: TioSender<String>, writer: JoinHandle<()>,
+) {
     tokio::spawn(async move {
         let mut buf: Vec<u8> = Vec::with_capacity(1024);
         let mut buf_reader = BufReader::new(read_half);
@@ -82,12 +85,14 @@ fn start_socket_listener_task(read_half: OwnedReadHalf, to_app: TioSender<String
             to_app.send(raw_msg).await.unwrap();
             buf.clear();
         }
+        // nobody is left to write to, close the socket
+        writer.abort();
     });
 }
 
 fn start_app_listner_task(
     mut write_half: OwnedWriteHalf, mut from_app: TioBroadcastReceiver<String>,
-) {
+) -> JoinHandle<()> {
     tokio::spawn(async move {
         println!("starting internal msg receiv");
         // if there is message to be sent out to remote socket then read and send
@@ -96,13 +101,19 @@ fn start_app_listner_task(
             let _res = write_half.write_all(msg.as_bytes()).await.unwrap();
             println!("sent {}", &msg);
         }
-    });
+    })
 }
 
 // returns false if the peer closed the connection before the end of the message
 async fn read_message<R: AsyncBufReadExt + Unpin>(reader: &mut R, buf: &mut Vec<u8>) -> bool {
     loop {
-        let bytes_read = reader.read_until(SOH as u8, buf).await.unwrap();
+        let bytes_read = match reader.read_until(SOH as u8, buf).await {
+            Ok(bytes_read) => bytes_read,
+            Err(e) => {
+                println!("Error in reading: {:?}", e);
+                return false;
+            }
+        };
         // println!("bytes received: {:?}", &buf);
         if bytes_read == 0 || !buf.ends_with(&[SOH as u8]) {
             return false;
-- 
2.43.0


From 5c9e3907d908980ff22ba6e17b94c8eae00792b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 27/29] fix: read the repeating groups of the trailer

---
 src/message.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 2dda2a1..72c6e73 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -5,7 +5,7 @@ use std::fmt::{write, Display};
 use std::ops::{Index, IndexMut};
 use std::str::FromStr;
 
-use crate::data_dictionary::{DataDictionary, HEADER_ID};
+use crate::data_dictionary::{DataDictionary, HEADER_ID, TRAILER_ID};
 use crate::fields::*;
 use crate::quickfix_errors::SessionRejectError;
 use crate::session::{SessionId, SessionIdBuilder};
@@ -562,7 +562,11 @@ fn parse_trailer(
         if !dd.is_trailer_field(fld.tag()) {
             return Err(SessionRejectError::tag_specified_out_of_order());
         }
-        trailer.set_unique_field(fld)?;
+        if dd.is_msg_group(TRAILER_ID, fld.tag()) {
+            parse_group(v, TRAILER_ID, &fld, trailer, dd)?;
+        } else {
+            trailer.set_unique_field(fld)?;
+        }
     }
     Ok(())
 }
-- 
2.43.0


From 4d2e0c40b412cbc1b0230d5ddfe02e71b3780642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 28/29] fix: count fields 8, 9 and 10 outside their own places
 in BodyLength and CheckSum

---
 src/message.rs | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 72c6e73..7aaa863 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -301,15 +301,12 @@ impl Message {
     }
 
     fn calc_checksum(&self) -> u32 {
+        // all bytes before the CheckSum field, which is the last one of the trailer
+        let text = self.to_string();
+        let end = text.len() - own_field_len(&self.trailer, 10);
         let mut byte_sum = 0u32;
-        for sfield in
-            self.header.iter().into_iter().chain(self.body.iter()).chain(self.trailer.iter())
-        {
-            if sfield.tag() != 10 {
-                for byt in sfield.to_string().as_bytes() {
-                    byte_sum = byte_sum + *byt as u32;
-                }
-            }
+        for byt in text[..end].as_bytes() {
+            byte_sum = byte_sum + *byt as u32;
         }
         byte_sum % 256
     }
@@ -320,19 +317,11 @@ impl Message {
     }
 
     fn calc_body_len(&self) -> usize {
-        self.header
-            .iter()
-            .into_iter()
-            .chain(self.body.iter())
-            .chain(self.trailer.iter())
-            .filter_map(|sfield| {
-                if sfield.tag() != 8 && sfield.tag() != 9 && sfield.tag() != 10 {
-                    Some(sfield.to_string().as_bytes().len())
-                } else {
-                    None
-                }
-            })
-            .sum()
+        // fields 8, 9 and 10 of other places than these count like any other
+        self.to_string().len()
+            - own_field_len(&self.header, 8)
+            - own_field_len(&self.header, 9)
+            - own_field_len(&self.trailer, 10)
     }
 
     pub fn set_body_len(&mut self) {
@@ -406,6 +395,11 @@ impl Display for Message {
     }
 }
 
+// length of a field in the text of its section, 0 if it is not set there
+fn own_field_len(section: &FieldMap, tag: Tag) -> usize {
+    section.fields.get(&tag).map_or(0, |field| field.to_string().len())
+}
+
 fn extract_field_value<'a>(tag: &str, s: &'a str) -> &'a str {
     let pat_prefix = match tag {
         "8" => "",
-- 
2.43.0


From 027b1b94ca2c27ceb8b81dbde9be702f9a7e9877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:41 +0000
Subject: [PATCH 29/29] fix: CheckSum of a message of many megabytes overflowed

---
 src/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 7aaa863..58bd9e1 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -306,7 +306,7 @@ impl Message {
         let end = text.len() - own_field_len(&self.trailer, 10);
         let mut byte_sum = 0u32;
         for byt in text[..end].as_bytes() {
-            byte_sum = byte_sum + *byt as u32;
+            byte_sum = byte_sum.wrapping_add(*byt as u32);
         }
         byte_sum % 256
     }
-- 
2.43.0

