From 104b02a6df6493a732da0ad54f9012138668f9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 01/21] fix: timed actions admitted in the last second of an
 inclusive window no longer crash on the remaining time

---
 src/binary_atmp/recv.rs | 36 ++++++++++++++++++---------
 src/binary_atmp/send.rs | 54 +++++++++++++++++++++++++++--------------
 2 files changed, 60 insertions(+), 30 deletions(-)

diff --git a/src/binary_atmp/recv.rs b/src/binary_atmp/recv.rs
index df760ae..57ec2ee 100644
--- a/src/binary_atmp/recv.rs
+++ b/src/binary_atmp/recv.rs
@@ -50,7 +50,8 @@ where
                     if own_clock.elapsed().as_secs() <= u64::try_from(s.end)? && s.reset != ' ' {
                         // receive with timeout
                         match s.channel.recv_timeout(
-                            Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                            Duration::from_secs(u64::try_from(s.end)?)
+                                .saturating_sub(own_clock.elapsed()),
                         ) {
                             Ok((v, c)) => {
                                 let clock_to_reset = all_clocks.get_mut(&s.reset).unwrap();
@@ -67,7 +68,8 @@ where
                     } else if own_clock.elapsed().as_secs() <= u64::try_from(s.end)? {
                         // receive with timeout
                         match s.channel.recv_timeout(
-                            Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                            Duration::from_secs(u64::try_from(s.end)?)
+                                .saturating_sub(own_clock.elapsed()),
                         ) {
                             Ok((v, s)) => Ok((v, s)),
                             Err(e) => {
@@ -92,7 +94,8 @@ where
                     if own_clock.elapsed().as_secs() < u64::try_from(s.end)? && s.reset != ' ' {
                         // receive with timeout
                         match s.channel.recv_timeout(
-                            Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                            Duration::from_secs(u64::try_from(s.end)?)
+                                .saturating_sub(own_clock.elapsed()),
                         ) {
                             Ok((v, c)) => {
                                 let clock_to_reset = all_clocks.get_mut(&s.reset).unwrap();
@@ -109,7 +112,8 @@ where
                     } else if own_clock.elapsed().as_secs() < u64::try_from(s.end)? {
                         // receive with timeout
                         match s.channel.recv_timeout(
-                            Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                            Duration::from_secs(u64::try_from(s.end)?)
+                                .saturating_sub(own_clock.elapsed()),
                         ) {
                             Ok((v, s)) => Ok((v, s)),
                             Err(e) => {
@@ -244,7 +248,8 @@ where
                         {
                             // receive with timeout
                             match s.channel.recv_timeout(
-                                Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                                Duration::from_secs(u64::try_from(s.end)?)
+                                    .saturating_sub(own_clock.elapsed()),
                             ) {
                                 Ok((v, c)) => {
                                     let clock_to_reset = all_clocks.get_mut(&s.reset).unwrap();
@@ -262,7 +267,8 @@ where
                         {
                             // receive with timeout
                             match s.channel.recv_timeout(
-                                Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                                Duration::from_secs(u64::try_from(s.end)?)
+                                    .saturating_sub(own_clock.elapsed()),
                             ) {
                                 Ok((v, s)) => Ok((v, s)),
                                 Err(e) => {
@@ -286,7 +292,8 @@ where
                         {
                             // receive with timeout
                             match s.channel.recv_timeout(
-                                Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                                Duration::from_secs(u64::try_from(s.end)?)
+                                    .saturating_sub(own_clock.elapsed()),
                             ) {
                                 Ok((v, c)) => {
                                     let clock_to_reset = all_clocks.get_mut(&s.reset).unwrap();
@@ -304,7 +311,8 @@ where
                         {
                             // receive with timeout
                             match s.channel.recv_timeout(
-                                Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                                Duration::from_secs(u64::try_from(s.end)?)
+                                    .saturating_sub(own_clock.elapsed()),
                             ) {
                                 Ok((v, s)) => Ok((v, s)),
                                 Err(e) => {
@@ -328,7 +336,8 @@ where
                         {
                             // receive with timeout
                             match s.channel.recv_timeout(
-                                Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                                Duration::from_secs(u64::try_from(s.end)?)
+                                    .saturating_sub(own_clock.elapsed()),
                             ) {
                                 Ok((v, c)) => {
                                     let clock_to_reset = all_clocks.get_mut(&s.reset).unwrap();
@@ -346,7 +355,8 @@ where
                         {
                             // receive with timeout
                             match s.channel.recv_timeout(
-                                Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                                Duration::from_secs(u64::try_from(s.end)?)
+                                    .saturating_sub(own_clock.elapsed()),
                             ) {
                                 Ok((v, s)) => Ok((v, s)),
                                 Err(e) => {
@@ -370,7 +380,8 @@ where
                         {
                             // receive with timeout
                             match s.channel.recv_timeout(
-                                Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                                Duration::from_secs(u64::try_from(s.end)?)
+                                    .saturating_sub(own_clock.elapsed()),
                             ) {
                                 Ok((v, c)) => {
                                     let clock_to_reset = all_clocks.get_mut(&s.reset).unwrap();
@@ -388,7 +399,8 @@ where
                         {
                             // receive with timeout
                             match s.channel.recv_timeout(
-                                Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                                Duration::from_secs(u64::try_from(s.end)?)
+                                    .saturating_sub(own_clock.elapsed()),
                             ) {
                                 Ok((v, s)) => Ok((v, s)),
                                 Err(e) => {
diff --git a/src/binary_atmp/send.rs b/src/binary_atmp/send.rs
index 083031b..e456dae 100644
--- a/src/binary_atmp/send.rs
+++ b/src/binary_atmp/send.rs
@@ -53,7 +53,8 @@ where
                         let (here, there) = S::new();
                         match s.channel.send_timeout(
                             (x, there),
-                            Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                            Duration::from_secs(u64::try_from(s.end)?)
+                                .saturating_sub(own_clock.elapsed()),
                         ) {
                             Ok(()) => {
                                 let clock_to_reset = all_clocks.get_mut(&s.reset).unwrap();
@@ -71,7 +72,8 @@ where
                         let (here, there) = S::new();
                         match s.channel.send_timeout(
                             (x, there),
-                            Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                            Duration::from_secs(u64::try_from(s.end)?)
+                                .saturating_sub(own_clock.elapsed()),
                         ) {
                             Ok(()) => Ok(here),
                             Err(e) => {
@@ -97,7 +99,8 @@ where
                         let (here, there) = S::new();
                         match s.channel.send_timeout(
                             (x, there),
-                            Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                            Duration::from_secs(u64::try_from(s.end)?)
+                                .saturating_sub(own_clock.elapsed()),
                         ) {
                             Ok(()) => {
                                 let clock_to_reset = all_clocks.get_mut(&s.reset).unwrap();
@@ -115,7 +118,8 @@ where
                         let (here, there) = S::new();
                         match s.channel.send_timeout(
                             (x, there),
-                            Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                            Duration::from_secs(u64::try_from(s.end)?)
+                                .saturating_sub(own_clock.elapsed()),
                         ) {
                             Ok(()) => Ok(here),
                             Err(e) => {
@@ -252,7 +256,8 @@ where
                             let (here, there) = S::new();
                             match s.channel.send_timeout(
                                 (x, there),
-                                Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                                Duration::from_secs(u64::try_from(s.end)?)
+                                    .saturating_sub(own_clock.elapsed()),
                             ) {
                                 Ok(()) => {
                                     let clock_to_reset = all_clocks.get_mut(&s.reset).unwrap();
@@ -271,7 +276,8 @@ where
                             let (here, there) = S::new();
                             match s.channel.send_timeout(
                                 (x, there),
-                                Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                                Duration::from_secs(u64::try_from(s.end)?)
+                                    .saturating_sub(own_clock.elapsed()),
                             ) {
                                 Ok(()) => Ok(here),
                                 Err(e) => {
@@ -296,7 +302,8 @@ where
                             let (here, there) = S::new();
                             match s.channel.send_timeout(
                                 (x, there),
-                                Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                                Duration::from_secs(u64::try_from(s.end)?)
+                                    .saturating_sub(own_clock.elapsed()),
                             ) {
                                 Ok(()) => {
                                     let clock_to_reset = all_clocks.get_mut(&s.reset).unwrap();
@@ -315,7 +322,8 @@ where
                             let (here, there) = S::new();
                             match s.channel.send_timeout(
                                 (x, there),
-                                Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                                Duration::from_secs(u64::try_from(s.end)?)
+                                    .saturating_sub(own_clock.elapsed()),
                             ) {
                                 Ok(()) => Ok(here),
                                 Err(e) => {
@@ -340,7 +348,8 @@ where
                             let (here, there) = S::new();
                             match s.channel.send_timeout(
                                 (x, there),
-                                Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                                Duration::from_secs(u64::try_from(s.end)?)
+                                    .saturating_sub(own_clock.elapsed()),
                             ) {
                                 Ok(()) => {
                                     let clock_to_reset = all_clocks.get_mut(&s.reset).unwrap();
@@ -359,7 +368,8 @@ where
                             let (here, there) = S::new();
                             match s.channel.send_timeout(
                                 (x, there),
-                                Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                                Duration::from_secs(u64::try_from(s.end)?)
+                                    .saturating_sub(own_clock.elapsed()),
                             ) {
                                 Ok(()) => Ok(here),
                                 Err(e) => {
@@ -384,7 +394,8 @@ where
                             let (here, there) = S::new();
                             match s.channel.send_timeout(
                                 (x, there),
-                                Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                                Duration::from_secs(u64::try_from(s.end)?)
+                                    .saturating_sub(own_clock.elapsed()),
                             ) {
                                 Ok(()) => {
                                     let clock_to_reset = all_clocks.get_mut(&s.reset).unwrap();
@@ -403,7 +414,8 @@ where
                             let (here, there) = S::new();
                             match s.channel.send_timeout(
                                 (x, there),
-                                Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                                Duration::from_secs(u64::try_from(s.end)?)
+                                    .saturating_sub(own_clock.elapsed()),
                             ) {
                                 Ok(()) => Ok(here),
                                 Err(e) => {
@@ -457,7 +469,8 @@ where
                         let (here, there) = S::new();
                         match s.channel.send_timeout(
                             (x, there),
-                            Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                            Duration::from_secs(u64::try_from(s.end)?)
+                                .saturating_sub(own_clock.elapsed()),
                         ) {
                             Ok(()) => Ok(here),
                             Err(e) => {
@@ -482,7 +495,8 @@ where
                         let (here, there) = S::new();
                         match s.channel.send_timeout(
                             (x, there),
-                            Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                            Duration::from_secs(u64::try_from(s.end)?)
+                                .saturating_sub(own_clock.elapsed()),
                         ) {
                             Ok(()) => Ok(here),
                             Err(e) => {
@@ -586,7 +600,8 @@ where
                             let (here, there) = S::new();
                             match s.channel.send_timeout(
                                 (x, there),
-                                Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                                Duration::from_secs(u64::try_from(s.end)?)
+                                    .saturating_sub(own_clock.elapsed()),
                             ) {
                                 Ok(()) => Ok(here),
                                 Err(e) => {
@@ -610,7 +625,8 @@ where
                             let (here, there) = S::new();
                             match s.channel.send_timeout(
                                 (x, there),
-                                Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                                Duration::from_secs(u64::try_from(s.end)?)
+                                    .saturating_sub(own_clock.elapsed()),
                             ) {
                                 Ok(()) => Ok(here),
                                 Err(e) => {
@@ -634,7 +650,8 @@ where
                             let (here, there) = S::new();
                             match s.channel.send_timeout(
                                 (x, there),
-                                Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                                Duration::from_secs(u64::try_from(s.end)?)
+                                    .saturating_sub(own_clock.elapsed()),
                             ) {
                                 Ok(()) => Ok(here),
                                 Err(e) => {
@@ -658,7 +675,8 @@ where
                             let (here, there) = S::new();
                             match s.channel.send_timeout(
                                 (x, there),
-                                Duration::from_secs(u64::try_from(s.end)?) - own_clock.elapsed(),
+                                Duration::from_secs(u64::try_from(s.end)?)
+                                    .saturating_sub(own_clock.elapsed()),
                             ) {
                                 Ok(()) => Ok(here),
                                 Err(e) => {
-- 
2.43.0


From 85e8578da002bb981e0b6a61329a40c164628da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:24 +0000
Subject: [PATCH 02/21] fix: timed actions without a window reset the clock
 they declare

---
 src/binary_atmp/recv.rs | 10 +++++++++-
 src/binary_atmp/send.rs | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/binary_atmp/recv.rs b/src/binary_atmp/recv.rs
index 57ec2ee..f9211a3 100644
--- a/src/binary_atmp/recv.rs
+++ b/src/binary_atmp/recv.rs
@@ -134,7 +134,15 @@ where
         } else {
             if !s.include_start && !s.include_end {
                 match s.channel.recv() {
-                    Ok((v, c)) => Ok((v, c)),
+                    Ok((v, c)) => {
+                        // if the clock must be reset
+                        if s.reset != ' ' {
+                            let clock_to_reset = all_clocks.get_mut(&s.reset).unwrap();
+
+                            *clock_to_reset = Instant::now();
+                        }
+                        Ok((v, c))
+                    }
                     Err(e) => {
                         cancel(s);
                         panic!("{}", e.to_string())
diff --git a/src/binary_atmp/send.rs b/src/binary_atmp/send.rs
index e456dae..ca36aba 100644
--- a/src/binary_atmp/send.rs
+++ b/src/binary_atmp/send.rs
@@ -141,7 +141,15 @@ where
             if !s.include_start && !s.include_end {
                 let (here, there) = S::new();
                 match s.channel.send((x, there)) {
-                    Ok(()) => Ok(here),
+                    Ok(()) => {
+                        // if the clock must be reset
+                        if s.reset != ' ' {
+                            let clock_to_reset = all_clocks.get_mut(&s.reset).unwrap();
+
+                            *clock_to_reset = Instant::now();
+                        }
+                        Ok(here)
+                    }
                     Err(e) => {
                         cancel(s);
                         panic!("{}", e.to_string())
-- 
2.43.0


From 9f85a0dd8022482896b1ac8d34a07bd96cb072d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:41 +0000
Subject: [PATCH 03/21] fix: a timed left/right choice resets its clock once,
 after every participant was sent the branch

---
 .../src/common_functions/expand/choose.rs     | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/mpst_seq_proc/src/common_functions/expand/choose.rs b/mpst_seq_proc/src/common_functions/expand/choose.rs
index a1bc161..eb9b159 100644
--- a/mpst_seq_proc/src/common_functions/expand/choose.rs
+++ b/mpst_seq_proc/src/common_functions/expand/choose.rs
@@ -1574,7 +1574,7 @@ pub(crate) fn choose_atmp(
             let session_sender = Ident::new(&format!("session{j}"), Span::call_site());
 
             quote! {
-                let #new_session_sender = mpstthree::binary_atmp::send::send(
+                let #new_session_sender = mpstthree::binary_atmp::send::send_without_reset(
                     either::Either::Left(#new_choice_sender),
                     all_clocks,
                     self.#session_sender
@@ -1593,7 +1593,7 @@ pub(crate) fn choose_atmp(
             let session_sender = Ident::new(&format!("session{j}"), Span::call_site());
 
             quote! {
-                let #new_session_sender = mpstthree::binary_atmp::send::send(
+                let #new_session_sender = mpstthree::binary_atmp::send::send_without_reset(
                     either::Either::Right(#new_choice_sender),
                     all_clocks,
                     self.#session_sender
@@ -1602,6 +1602,17 @@ pub(crate) fn choose_atmp(
         })
         .collect();
 
+    // The choice is one action: the clock is reset once, after every role has been sent the branch
+    let reset_clock = quote! {
+        if RESET != ' ' {
+            if let Some(own_clock) = all_clocks.get_mut(&RESET) {
+                *own_clock = std::time::Instant::now();
+            } else {
+                panic!("The clock {} is not available in {:?}", RESET, all_clocks);
+            }
+        }
+    };
+
     let old_meshedchannels_sender: Vec<TokenStream> = (1..number_roles)
         .map(|j| {
             let new_session_sender =
@@ -1704,6 +1715,8 @@ pub(crate) fn choose_atmp(
                     #new_sessions_sender_left
                 )*
 
+                #reset_clock
+
                 let s = #meshedchannels_name {
                     #(
                         #old_meshedchannels_sender
@@ -1762,6 +1775,8 @@ pub(crate) fn choose_atmp(
                     #new_sessions_sender_right
                 )*
 
+                #reset_clock
+
                 let s = #meshedchannels_name {
                     #(
                         #old_meshedchannels_sender
-- 
2.43.0


From f8cdaafba1ff008d69364eef6176bb040b3dabf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:22 +0000
Subject: [PATCH 04/21] fix: compare the time bounds of nuscr messages as
 numbers and reject empty windows

---
 .../auxiliary_objects/line_is_message.rs      |  7 ++++-
 .../previous_message_wrt_clocks.rs            | 29 ++++++++++---------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/top_down_nuscr/auxiliary_objects/line_is_message.rs b/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
index ec803c6..30aed7f 100644
--- a/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
+++ b/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
@@ -53,7 +53,12 @@ pub(crate) fn update_messages(
     }
 
     // Check if bounds are sound
-    if left_bound > right_bound && (left_bracket == "]" || right_bracket == "[") {
+    let left_value = left_bound.parse::<i64>()?;
+    let right_value = right_bound.parse::<i64>()?;
+
+    if left_value > right_value
+        || (left_value == right_value && (left_bracket == "]" || right_bracket == "["))
+    {
         return Err(format!("The time bounds are not sound in line: {}", line_number).into());
     }
 
diff --git a/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs b/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
index a9ab7d0..d41a1b7 100644
--- a/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
+++ b/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
@@ -5,18 +5,21 @@ pub(crate) fn fn_previous_message_wrt_clocks(
     previous_message_wrt_clocks: &mut HashMap<String, HashMap<String, (String, String)>>,
     elts: &MessageParameters,
 ) -> Result<(), Box<dyn std::error::Error>> {
-    if elts.left_bound > elts.right_bound {
+    let left_value = elts.left_bound.parse::<i64>()? as i128;
+    let right_value = elts.right_bound.parse::<i64>()? as i128;
+
+    if left_value > right_value {
         return Err("Wrong time interval: a left bound is after its related right bound.".into());
     }
 
     if let Some(role_time_bounds) = previous_message_wrt_clocks.get_mut(&elts.sender) {
         if let Some(previous_time_bound) = role_time_bounds.remove(&elts.clock) {
-            if ((elts.left_bound.parse::<i32>().unwrap() + (elts.left_bracket == "[") as i32)
-                < (previous_time_bound.0.parse::<i32>().unwrap()
-                    + previous_time_bound.1.parse::<bool>().unwrap() as i32))
-                && ((elts.right_bound.parse::<i32>().unwrap() + (elts.right_bracket == "]") as i32)
-                    < (previous_time_bound.0.parse::<i32>().unwrap()
-                        + previous_time_bound.1.parse::<bool>().unwrap() as i32))
+            if ((left_value + (elts.left_bracket == "[") as i128)
+                < (previous_time_bound.0.parse::<i128>()?
+                    + previous_time_bound.1.parse::<bool>()? as i128))
+                && ((right_value + (elts.right_bracket == "]") as i128)
+                    < (previous_time_bound.0.parse::<i128>()?
+                        + previous_time_bound.1.parse::<bool>()? as i128))
             {
                 return Err("Two of the consecutive time bounds are not feasible.".into());
             } else if elts.reset != elts.clock {
@@ -53,12 +56,12 @@ pub(crate) fn fn_previous_message_wrt_clocks(
 
     if let Some(role_time_bounds) = previous_message_wrt_clocks.get_mut(&elts.receiver) {
         if let Some(previous_time_bound) = role_time_bounds.remove(&elts.clock) {
-            if ((elts.left_bound.parse::<i32>().unwrap() + (elts.left_bracket == "[") as i32)
-                < (previous_time_bound.0.parse::<i32>().unwrap()
-                    + previous_time_bound.1.parse::<bool>().unwrap() as i32))
-                && ((elts.right_bound.parse::<i32>().unwrap() + (elts.right_bracket == "]") as i32)
-                    < (previous_time_bound.0.parse::<i32>().unwrap()
-                        + previous_time_bound.1.parse::<bool>().unwrap() as i32))
+            if ((left_value + (elts.left_bracket == "[") as i128)
+                < (previous_time_bound.0.parse::<i128>()?
+                    + previous_time_bound.1.parse::<bool>()? as i128))
+                && ((right_value + (elts.right_bracket == "]") as i128)
+                    < (previous_time_bound.0.parse::<i128>()?
+                        + previous_time_bound.1.parse::<bool>()? as i128))
             {
                 return Err("Two of the consecutive time bounds are not feasible.".into());
             } else if elts.reset != elts.clock {
-- 
2.43.0


From 6c75bd500f6f16155cdee9654d0c3715ca913266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:22 +0000
Subject: [PATCH 05/21] fix: a clock reset by a nuscr message forgets its
 previous bounds

---
 .../previous_message_wrt_clocks.rs                         | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs b/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
index d41a1b7..bf50f3f 100644
--- a/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
+++ b/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
@@ -96,5 +96,12 @@ pub(crate) fn fn_previous_message_wrt_clocks(
         previous_message_wrt_clocks.insert(elts.receiver.to_string(), temp_time_bound);
     }
 
+    // The bounds of a clock that is reset no longer constrain its next use
+    for role in [&elts.sender, &elts.receiver] {
+        if let Some(role_time_bounds) = previous_message_wrt_clocks.get_mut(role) {
+            role_time_bounds.remove(&elts.reset);
+        }
+    }
+
     Ok(())
 }
-- 
2.43.0


From a1cfd498476c2113d79d227686a90890190869bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:22 +0000
Subject: [PATCH 06/21] fix: report an unknown chooser or a stray branch of a
 nuscr protocol instead of panicking

---
 .../auxiliary_objects/process_line.rs         | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/top_down_nuscr/auxiliary_objects/process_line.rs b/src/top_down_nuscr/auxiliary_objects/process_line.rs
index ea5264f..65ed34d 100644
--- a/src/top_down_nuscr/auxiliary_objects/process_line.rs
+++ b/src/top_down_nuscr/auxiliary_objects/process_line.rs
@@ -218,6 +218,14 @@ pub(crate) fn process_line(
 
                     let sender = &captured_fields["choice"];
 
+                    if !global_elements.roles.contains(&String::from(sender)) {
+                        return Err(format!(
+                            "{} is not in the roles: {:?}. See line: {}.",
+                            sender, global_elements.roles, line_number
+                        )
+                        .into());
+                    }
+
                     let mut temp_index = main_tree.index.clone();
                     temp_index.push(0);
 
@@ -337,7 +345,16 @@ pub(crate) fn process_line(
                         .collect::<Vec<_>>()
                         .join("_");
 
-                    let elt = parent_tree.enums.get_mut(&basic_index_string).unwrap();
+                    let elt = match parent_tree.enums.get_mut(&basic_index_string) {
+                        Some(elt) => elt,
+                        None => {
+                            return Err(format!(
+                                "There is a branch outside of a choice. See line: {}.",
+                                line_number
+                            )
+                            .into())
+                        }
+                    };
 
                     let sender = &elt.0;
                     elt.1 += 1;
-- 
2.43.0


From 30c962494cc0d9a31514a004df3f58666bf83589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:22 +0000
Subject: [PATCH 07/21] fix: the branches of a timed choice continue with the
 clocks used before it

---
 src/top_down_nuscr/auxiliary_objects/process_line.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/top_down_nuscr/auxiliary_objects/process_line.rs b/src/top_down_nuscr/auxiliary_objects/process_line.rs
index 65ed34d..2523542 100644
--- a/src/top_down_nuscr/auxiliary_objects/process_line.rs
+++ b/src/top_down_nuscr/auxiliary_objects/process_line.rs
@@ -248,6 +248,8 @@ pub(crate) fn process_line(
 
                     let mut sub_tree =
                         init_sub_tree(global_elements, &temp_index, &current_index_string, sender)?;
+                    sub_tree.previous_message_wrt_clocks =
+                        main_tree.previous_message_wrt_clocks.clone();
 
                     for receiver in global_elements.roles.iter() {
                         if receiver != sender {
@@ -372,6 +374,8 @@ pub(crate) fn process_line(
 
                     let mut sub_tree =
                         init_sub_tree(global_elements, &temp_index, &current_index_string, sender)?;
+                    sub_tree.previous_message_wrt_clocks =
+                        parent_tree.previous_message_wrt_clocks.clone();
 
                     process_line(
                         lines_iter,
-- 
2.43.0


From 897420c27dcf2d6306093a82072e0ea00e49dc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:22 +0000
Subject: [PATCH 08/21] fix: accept a nuscr bracket on its own line and count
 the brackets after the protocol

---
 src/top_down_nuscr/auxiliary_objects/process_line.rs |  5 +++--
 src/top_down_nuscr/generator.rs                      | 10 +++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/top_down_nuscr/auxiliary_objects/process_line.rs b/src/top_down_nuscr/auxiliary_objects/process_line.rs
index 2523542..e34ce64 100644
--- a/src/top_down_nuscr/auxiliary_objects/process_line.rs
+++ b/src/top_down_nuscr/auxiliary_objects/process_line.rs
@@ -135,8 +135,9 @@ pub(crate) fn process_line(
                 return Err("Nested protocols are currently not supported yet.".into());
             }
 
-            if global_elements.opening_brackets
-                <= global_elements.closing_brackets + *bracket_offset
+            if global_elements.closing_brackets > 0
+                && global_elements.opening_brackets
+                    <= global_elements.closing_brackets + *bracket_offset
             {
                 if global_elements.closing_brackets > global_elements.opening_brackets {
                     *bracket_offset =
diff --git a/src/top_down_nuscr/generator.rs b/src/top_down_nuscr/generator.rs
index caf31ec..b8fde36 100644
--- a/src/top_down_nuscr/generator.rs
+++ b/src/top_down_nuscr/generator.rs
@@ -84,8 +84,16 @@ pub fn generator(
         &mut 0,
     )?;
 
+    // Count the brackets of the lines that follow the protocol
+    for (_, line) in lines_iter {
+        global_elements.opening_brackets += line.matches('{').count();
+        global_elements.closing_brackets += line.matches('}').count();
+    }
+
     // Check if number of opening and closing brackets are the same
-    if global_elements.opening_brackets != global_elements.closing_brackets {
+    if global_elements.opening_brackets == 0
+        || global_elements.opening_brackets != global_elements.closing_brackets
+    {
         return Err(
             "The number of opening and closing brackets is not the same in the end.".into(),
         );
-- 
2.43.0


From e3672473e0748ffb6ccf22c4959bee362b605760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:22 +0000
Subject: [PATCH 09/21] fix: find the roles of a nuscr protocol however many
 spaces precede them

---
 src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs b/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
index 9c0cd1f..4fb7ae1 100644
--- a/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
+++ b/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
@@ -5,7 +5,7 @@ pub(crate) static GLOBAL_PROTOCOL: Lazy<Regex> = Lazy::new(|| {
         .unwrap()
 });
 
-pub(crate) static ROLE: Lazy<Regex> = Lazy::new(|| Regex::new(r"role (?P<name>\w+)").unwrap());
+pub(crate) static ROLE: Lazy<Regex> = Lazy::new(|| Regex::new(r"role +(?P<name>\w+)").unwrap());
 
 pub(crate) static CHOICE: Lazy<Regex> =
     Lazy::new(|| Regex::new(r"choice( +)at( +)(?P<choice>\w+)( *)\{?").unwrap());
-- 
2.43.0


From a2d23f56c15aad1e91ea221fbcb93f606b7f9720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:58 +0000
Subject: [PATCH 10/21] fix: reject the nuscr lines that are not understood
 instead of ignoring them

---
 src/top_down_nuscr/auxiliary_objects/process_line.rs |  6 ++++++
 src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs  | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/top_down_nuscr/auxiliary_objects/process_line.rs b/src/top_down_nuscr/auxiliary_objects/process_line.rs
index e34ce64..32006bb 100644
--- a/src/top_down_nuscr/auxiliary_objects/process_line.rs
+++ b/src/top_down_nuscr/auxiliary_objects/process_line.rs
@@ -526,6 +526,12 @@ pub(crate) fn process_line(
                         )
                         .into());
                     }
+                } else if !check_structure(&line) {
+                    return Err(format!(
+                        "This line is not understood. See line: {}.\nFaulty line: {}",
+                        line_number, line
+                    )
+                    .into());
                 }
             } else {
                 return Err("This is not a timed global protocol.".into());
diff --git a/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs b/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
index 4fb7ae1..be57c78 100644
--- a/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
+++ b/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
@@ -77,6 +77,18 @@ pub(crate) fn check_rec(input: &str) -> bool {
 pub(crate) fn check_continue(input: &str) -> bool {
     CONTINUE.is_match(input)
 }
+
+// Check whether this is a line without any interaction: brackets, spaces or a comment
+pub(crate) fn check_structure(input: &str) -> bool {
+    let line = input.trim();
+
+    line.starts_with("//")
+        || line.starts_with("(*")
+        || line
+            .chars()
+            .all(|c| c.is_whitespace() || c == '{' || c == '}')
+}
+
 #[cfg(test)]
 mod test_check_generator {
     use super::*;
-- 
2.43.0


From fed2467e4f83731a4f95f9c02112dde560e70c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:58 +0000
Subject: [PATCH 11/21] fix: declare the clocks that are only reset in the
 endpoints generated from nuscr

---
 .../auxiliary_objects/line_is_message.rs         | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/top_down_nuscr/auxiliary_objects/line_is_message.rs b/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
index 30aed7f..49beb30 100644
--- a/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
+++ b/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
@@ -107,6 +107,14 @@ pub(crate) fn update_messages(
 
         message_parameters.reset = reset.to_string();
 
+        // The clock that is reset must exist for sender and receiver
+        for role in [sender, receiver] {
+            clocks
+                .entry(role.to_string())
+                .or_default()
+                .insert(reset.to_string());
+        }
+
         messages_and_stacks(
             &main_tree.index,
             &mut main_tree.messages,
@@ -127,6 +135,14 @@ pub(crate) fn update_messages(
 
         message_parameters.reset = reset.to_string();
 
+        // The clock that is reset must exist for sender and receiver
+        for role in [sender, receiver] {
+            clocks
+                .entry(role.to_string())
+                .or_default()
+                .insert(reset.to_string());
+        }
+
         messages_and_stacks(
             &main_tree.index,
             &mut main_tree.messages,
-- 
2.43.0


From c0ec1d250a10a5336e8e9227d86b10f0a531f633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:04 +0000
Subject: [PATCH 12/21] fix: reject what follows the end of a nuscr choice
 instead of dropping it

---
 src/top_down_nuscr/auxiliary_objects/process_line.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/top_down_nuscr/auxiliary_objects/process_line.rs b/src/top_down_nuscr/auxiliary_objects/process_line.rs
index 32006bb..de2bb8c 100644
--- a/src/top_down_nuscr/auxiliary_objects/process_line.rs
+++ b/src/top_down_nuscr/auxiliary_objects/process_line.rs
@@ -139,6 +139,14 @@ pub(crate) fn process_line(
                 && global_elements.opening_brackets
                     <= global_elements.closing_brackets + *bracket_offset
             {
+                if !check_structure(&line) {
+                    return Err(format!(
+                        "Nothing can follow the end of a block. See line: {}.\nFaulty line: {}",
+                        line_number, line
+                    )
+                    .into());
+                }
+
                 if global_elements.closing_brackets > global_elements.opening_brackets {
                     *bracket_offset =
                         global_elements.closing_brackets - global_elements.opening_brackets - 1;
-- 
2.43.0


From 1506eb6f4598a973b1eb34ad150d0047d5777b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:54 +0000
Subject: [PATCH 13/21] fix: take only the name field of an endpoint for the
 participant's name when extracting graphs

---
 src/checking/aux_checker.rs | 44 +++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/checking/aux_checker.rs b/src/checking/aux_checker.rs
index 005431e..c9b21ff 100644
--- a/src/checking/aux_checker.rs
+++ b/src/checking/aux_checker.rs
@@ -41,32 +41,24 @@ type VecOfTuple = Vec<(String, usize)>;
 /// /!\ Mixing former and new naming: moving from new to former
 #[doc(hidden)]
 pub(crate) fn clean_session(session: &str) -> Result<VecOfStr, Box<dyn Error>> {
-    let mut double_colon_less = session.replace('&', "");
-
     // The main regex expression
-    let double_colon_regex = Regex::new(r"([^<,>\s]+)::([^<,>\s]+)")?;
+    let double_colon_regex = Regex::new(r"(?:[^<,>()\[\]\s:]+::)+([^<,>()\[\]\s:]+)")?;
 
     // Replace with regex expression -> term1::term2::term3 by term3
-    for caps in double_colon_regex.captures_iter(session) {
-        double_colon_less = double_colon_less.replace(&caps[0], &caps[caps.len() - 1]);
-    }
-
-    // The name regex expression
-    let name_regex = Regex::new(r"Name([[:alpha:]]+)")?;
-
-    let mut name_to_role = double_colon_less.clone();
-
-    // Replace with regex expression -> term1::term2::term3 by term3
-    for caps in name_regex.captures_iter(&double_colon_less) {
-        name_to_role =
-            name_to_role.replace(&caps[0], &format!("Role{}<RoleEnd>", &caps[caps.len() - 1]));
-    }
+    let mut clean = double_colon_regex
+        .replace_all(&session.replace('&', ""), "$1")
+        .to_string();
 
     // Remove whitespaces
-    name_to_role.retain(|c| !c.is_whitespace());
+    clean.retain(|c| !c.is_whitespace());
 
     // Get each field of the MeshedChannels
-    let mut full_block = get_blocks(&name_to_role)?;
+    let mut full_block = get_blocks(&clean)?;
+
+    // Only the last field is a name
+    if let Some(last) = full_block.last_mut() {
+        *last = name_to_role(last);
+    }
 
     // Get the name of the role
     let name = full_block[full_block.len() - 1]
@@ -81,6 +73,15 @@ pub(crate) fn clean_session(session: &str) -> Result<VecOfStr, Box<dyn Error>> {
     Ok(full_block)
 }
 
+// From the new naming (`NameA`) to the former one (`RoleA<RoleEnd>`)
+#[doc(hidden)]
+pub(crate) fn name_to_role(name: &str) -> String {
+    match name.strip_prefix("Name") {
+        Some(role) => format!("Role{role}<RoleEnd>"),
+        None => name.to_string(),
+    }
+}
+
 // Clean the sessions received and returns a Hashmap of the cleaned sessions and their respective
 // role.
 //
@@ -321,8 +322,9 @@ pub(crate) fn aux_get_graph(
                         let blocks_right = get_blocks(&choices[2])?;
 
                         // Get the index of the receiver
-                        let receiver =
-                            &get_head_payload_continuation(&blocks_left[blocks_left.len() - 1])?[0];
+                        let receiver = &get_head_payload_continuation(&name_to_role(
+                            &blocks_left[blocks_left.len() - 1],
+                        ))?[0];
 
                         let index_receiver =
                             if let Some(elt) = roles.iter().position(|r| r == receiver) {
-- 
2.43.0


From ba2cca7f40d3385f1ebb2875e275d13357d3bd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:39 +0000
Subject: [PATCH 14/21] fix: split endpoints with tuple and array payloads
 correctly when extracting graphs

---
 src/checking/aux_checker.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/checking/aux_checker.rs b/src/checking/aux_checker.rs
index c9b21ff..305b4e1 100644
--- a/src/checking/aux_checker.rs
+++ b/src/checking/aux_checker.rs
@@ -159,7 +159,16 @@ pub(crate) fn get_blocks(full_block: &str) -> Result<VecOfStr, Box<dyn Error>> {
     // Start at -1 because we want to remove the first `<` and the term before
     let mut index = -1;
 
+    // The number of tuples and arrays currently opened
+    let mut opened = 0;
+
     for i in full_block.chars() {
+        match i {
+            '(' | '[' => opened += 1,
+            ')' | ']' => opened -= 1,
+            _ => {}
+        }
+
         if i == '&' || i.is_whitespace() {
         } else if i == '>' && index == 0 {
             result.push(temp.to_string());
@@ -170,7 +179,7 @@ pub(crate) fn get_blocks(full_block: &str) -> Result<VecOfStr, Box<dyn Error>> {
         } else if i == '>' && index >= 0 {
             temp = format!("{temp}{i}");
             index -= 1;
-        } else if i == ',' && index == 0 {
+        } else if i == ',' && index == 0 && opened == 0 {
             result.push(temp);
             temp = "".to_string();
         } else if index >= 0 {
-- 
2.43.0


From 9092e14ec5365d104b3ba927f5fa6b65a660c65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:48 +0000
Subject: [PATCH 15/21] fix: accept branches named like keywords in
 checker_concat_impl

---
 mpst_seq_proc/src/checking/aux_checking_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpst_seq_proc/src/checking/aux_checking_impl.rs b/mpst_seq_proc/src/checking/aux_checking_impl.rs
index 620c6e7..2a1b976 100644
--- a/mpst_seq_proc/src/checking/aux_checking_impl.rs
+++ b/mpst_seq_proc/src/checking/aux_checking_impl.rs
@@ -109,7 +109,7 @@ impl CheckingInputImpl {
             .map(|branch| {
                 let temp = Ident::new(&format!("temp_{branch}").to_lowercase(), Span::call_site());
                 let branch_ident = Ident::new(branch, Span::call_site());
-                let branch_name = Ident::new(&branch.to_lowercase(), Span::call_site());
+                let branch_name = Ident::new(&format!("branch_{branch}").to_lowercase(), Span::call_site());
                 quote! {
                     let #temp =
                         (#name_key::#branch_ident(<_ as mpstthree::binary::struct_trait::session::Session>::new().0))
-- 
2.43.0


From c923afde3fa1736b83a9c8afaa0ef297e21de2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:45 +0000
Subject: [PATCH 16/21] fix: create the outputs folder when the checked
 protocol is accepted

---
 src/checking/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/checking/mod.rs b/src/checking/mod.rs
index 5d051b4..be6e762 100644
--- a/src/checking/mod.rs
+++ b/src/checking/mod.rs
@@ -286,6 +286,9 @@ pub(crate) fn kmc_cli(name_file: &str, kmc_number: i32) -> Result<(bool, String)
     if stdout.contains("False") {
         Ok((false, stdout))
     } else {
+        // Create outputs folder if missing
+        create_dir_all("outputs")?;
+
         // Write down the stdout of the previous command into
         // a corresponding file in the "outputs" folder
         let mut kmc_file = File::create(format!("outputs/{name_file}_{kmc_number}_kmc.txt"))?;
-- 
2.43.0


From 4271f1d72d8d281fd497dd7a60d70718be170a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:13 +0000
Subject: [PATCH 17/21] fix: keep every transition of the automata when a
 choice may loop back at once

---
 src/checking/aux_checker.rs | 76 +++++++++++++++++++++++++++++++------
 1 file changed, 64 insertions(+), 12 deletions(-)

diff --git a/src/checking/aux_checker.rs b/src/checking/aux_checker.rs
index 305b4e1..0866126 100644
--- a/src/checking/aux_checker.rs
+++ b/src/checking/aux_checker.rs
@@ -1,6 +1,7 @@
 #![allow(unused_imports)]
 
 use petgraph::graph::NodeIndex;
+use petgraph::visit::EdgeRef;
 use petgraph::Graph;
 
 use regex::Regex;
@@ -547,10 +548,6 @@ pub(crate) fn aux_get_graph(
                                 && previous_node != *new_node
                             {
                                 g.add_edge(previous_node, *new_node, "µ".to_string());
-
-                                if let Some(elt) = cfsm.pop() {
-                                    cfsm.push((elt.0, new_node.index()));
-                                }
                             }
                         } else {
                             // If the node was not added
@@ -706,10 +703,6 @@ pub(crate) fn aux_get_graph(
                 if let Some(new_node) = branches_already_seen.get(&current_branch) {
                     if !g.contains_edge(previous_node, *new_node) && previous_node != *new_node {
                         g.add_edge(previous_node, *new_node, "µ".to_string());
-
-                        if let Some(elt) = cfsm.pop() {
-                            cfsm.push((elt.0, new_node.index()));
-                        }
                     }
                 } else {
                     // If the node was not added
@@ -783,6 +776,68 @@ pub(crate) fn aux_get_graph(
     }
 }
 
+// Apply the loops (`µ`) of the graph to the transitions of the cfsm, which has no silent transition:
+// a state that only loops back is replaced by the start of the loop,
+// and any other state that may loop back gets the transitions of the start of the loop.
+#[doc(hidden)]
+pub(crate) fn close_loops(
+    current_role: &str,
+    g: &GraphOfStrStr,
+    cfsm: &VecOfTuple,
+) -> Result<VecOfStr, Box<dyn Error>> {
+    let loops = |node: NodeIndex<u32>| {
+        g.edges(node)
+            .filter(|edge| edge.weight() == "µ")
+            .map(|edge| edge.target())
+            .collect::<Vec<_>>()
+    };
+
+    // The start of the loop, if there is nothing else to do in this state
+    let start_of_loop = |node: NodeIndex<u32>| match loops(node).as_slice() {
+        [start] if g.edges(node).count() == 1 => Some(*start),
+        _ => None,
+    };
+
+    let mut result = Vec::new();
+
+    for (transition, target) in cfsm {
+        let (source, label) = transition
+            .strip_prefix(current_role)
+            .and_then(|elt| elt.split_once(' '))
+            .ok_or("Wrong transition")?;
+        let source = NodeIndex::new(source.parse()?);
+
+        let mut target = NodeIndex::new(*target);
+        while let Some(start) = start_of_loop(target) {
+            target = start;
+        }
+
+        for node in g.node_indices() {
+            // All the states from which `node` may go without any interaction
+            let mut reached = vec![node];
+            let mut index = 0;
+            while index < reached.len() {
+                for start in loops(reached[index]) {
+                    if !reached.contains(&start) {
+                        reached.push(start);
+                    }
+                }
+                index += 1;
+            }
+
+            if reached.contains(&source) && start_of_loop(node).is_none() {
+                result.push(format!(
+                    "{current_role}{} {label}{}",
+                    node.index(),
+                    target.index()
+                ));
+            }
+        }
+    }
+
+    Ok(result)
+}
+
 // Build the digraphs.
 #[doc(hidden)]
 pub(crate) fn get_graph_session(
@@ -848,10 +903,7 @@ pub(crate) fn get_graph_session(
     let mut cfsm_result = vec![".outputs".to_string(), ".state graph".to_string()];
 
     // Format the tuples into strings and add them to cfsm_result
-    let mut clean_cfsm = cfsm
-        .iter()
-        .map(|(s, i)| format!("{s}{i}"))
-        .collect::<Vec<String>>();
+    let mut clean_cfsm = close_loops(current_role, &result, &cfsm)?;
 
     cfsm_result.append(&mut clean_cfsm);
 
-- 
2.43.0


From c7784bf10e5e1fcf299303a1e49766dc597e851e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:13 +0000
Subject: [PATCH 18/21] fix: report a failure of the external checker as an
 error instead of a success

---
 src/checking/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/checking/mod.rs b/src/checking/mod.rs
index be6e762..dd7a36a 100644
--- a/src/checking/mod.rs
+++ b/src/checking/mod.rs
@@ -285,6 +285,14 @@ pub(crate) fn kmc_cli(name_file: &str, kmc_number: i32) -> Result<(bool, String)
 
     if stdout.contains("False") {
         Ok((false, stdout))
+    } else if !kmc.status.success() || !stdout.contains("True") {
+        // No verdict has been given
+        Err(format!(
+            "KMC failed ({}): {stdout}{}",
+            kmc.status,
+            String::from_utf8_lossy(&kmc.stderr)
+        )
+        .into())
     } else {
         // Create outputs folder if missing
         create_dir_all("outputs")?;
-- 
2.43.0


From fd40d214ddf9bbf42c2e1d1b36920b6d69690187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:33 +0000
Subject: [PATCH 19/21] fix: return the success of the external checker at its
 last depth

---
 src/checking/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checking/mod.rs b/src/checking/mod.rs
index dd7a36a..8d88cb5 100644
--- a/src/checking/mod.rs
+++ b/src/checking/mod.rs
@@ -399,7 +399,7 @@ pub fn checker(
             kmc_result = kmc_cli(name_file, kmc_number)?;
         }
 
-        if kmc_number == 50 {
+        if !kmc_result.0 {
             println!(
                 "The protocol does not seem correct. Here is the last output: {:?}",
                 kmc_result.1
-- 
2.43.0


From a094838ebd6ca449397f8c04a191173a6556748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:32 +0000
Subject: [PATCH 20/21] fix: cancel a TCP session whose connection the peer
 already closed

---
 src/transport/tcp/cancel.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transport/tcp/cancel.rs b/src/transport/tcp/cancel.rs
index ef8b16c..a3acaa2 100644
--- a/src/transport/tcp/cancel.rs
+++ b/src/transport/tcp/cancel.rs
@@ -39,6 +39,7 @@ use std::net::{Shutdown, TcpStream};
 )]
 pub fn cancel_tcp<T>(s: T, stream: TcpStream) {
     mem::drop(s);
-    stream.shutdown(Shutdown::Both).unwrap();
+    // The shutdown fails if the peer has already closed the connection.
+    stream.shutdown(Shutdown::Both).unwrap_or(());
     mem::drop(stream);
 }
-- 
2.43.0


From bb1b892d4057cf28e67d31227ec9f8d654453816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:26 +0000
Subject: [PATCH 21/21] fix: make choose_atmp! compile and report a choice that
 was not made

---
 src/binary_atmp/choose.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary_atmp/choose.rs b/src/binary_atmp/choose.rs
index 88f07ec..516700f 100644
--- a/src/binary_atmp/choose.rs
+++ b/src/binary_atmp/choose.rs
@@ -93,7 +93,7 @@ where
 macro_rules! choose_atmp {
     ($label:path, $all_clocks:expr, $session:expr) => {{
         let (here, there) = <_ as mpstthree::binary::struct_trait::session::Session>::new();
-        let s = mpstthree::binary_atmp::send_atmp::send($label(there), $all_clocks, $session);
+        let s = mpstthree::binary_atmp::send::send($label(there), $all_clocks, $session)?;
         mpstthree::binary::cancel::cancel(s);
         here
     }};
-- 
2.43.0

