From 537c3a53e0a6cc0ca1a37765ef783bfea38ebccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 01/19] fix: don't use messages as the format given to sudo's
 printf

---
 sudo_plugin/src/output/print_facility.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/output/print_facility.rs b/sudo_plugin/src/output/print_facility.rs
index 0c19d59..c6a52a6 100644
--- a/sudo_plugin/src/output/print_facility.rs
+++ b/sudo_plugin/src/output/print_facility.rs
@@ -109,7 +109,10 @@ impl Write for PrintFacility {
         let count = unsafe {
             // TODO: level should be bitflags when we start implementing the
             // full conversation interface
-            (printf)(self.level as _, message.as_ptr())
+            //
+            // the message isn't trusted and might contain conversion
+            // specifications, so it can't be used as the format itself
+            (printf)(self.level as _, b"%s\0".as_ptr().cast(), message.as_ptr())
         };
 
         #[allow(clippy::cast_sign_loss)]
-- 
2.43.0


From 6efdd93bfe9ffcefa7500d7c7ea1890d54255fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:48 +0000
Subject: [PATCH 02/19] fix: don't panic on network addresses without a mask

---
 sudo_plugin/src/options/settings.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index 4115411..21898c5 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -327,8 +327,9 @@ impl FromSudoOption for NetAddr {
             .position(|b| *b == b'/' )
             .unwrap_or_else(|| bytes.len());
 
-        let addr = s[        .. mid].parse()?;
-        let mask = s[mid + 1 ..    ].parse()?;
+        // without a separator there's no mask, which is a parse error
+        let addr = s[.. mid].parse()?;
+        let mask = s.get(mid + 1 ..).unwrap_or("").parse()?;
 
         Ok(Self {
             addr,
-- 
2.43.0


From 2f89c808c8338ce697f4a83bb0cbba94f67be829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:48 +0000
Subject: [PATCH 03/19] fix: print each cause of an error once instead of the
 first one forever

---
 sudo_plugin/src/output/print_facility.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/output/print_facility.rs b/sudo_plugin/src/output/print_facility.rs
index c6a52a6..6e8dcf6 100644
--- a/sudo_plugin/src/output/print_facility.rs
+++ b/sudo_plugin/src/output/print_facility.rs
@@ -88,8 +88,11 @@ impl PrintFacility {
         // stabilized
         self.write_line(format!("{}", error).as_bytes())?;
 
-        while let Some(error) = error.source() {
+        let mut cause = error.source();
+
+        while let Some(error) = cause {
             self.write_line(format!("{}", error).as_bytes())?;
+            cause = error.source();
         }
 
         Ok(())
-- 
2.43.0


From 13f273d9abd03f0566dc13324033df4af5822eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:48 +0000
Subject: [PATCH 04/19] fix: don't treat a command whose path isn't UTF-8 as
 sudo -V

---
 sudo_plugin/src/options/command_info.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index 9c56cb9..a19461f 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -16,6 +16,8 @@ use crate::errors::{Result, Error};
 use crate::options::OptionMap;
 
 use std::convert::TryFrom;
+use std::ffi::OsStr;
+use std::os::unix::ffi::OsStrExt;
 use std::os::unix::io::RawFd;
 use std::path::PathBuf;
 
@@ -248,7 +250,12 @@ impl TryFrom<OptionMap> for CommandInfo {
         Ok(Self {
             // in the event that the `-V` flag is passed to `sudo`,
             // there's no command
-            command:       value.get("command").unwrap_or_default(),
+            //
+            // the path isn't necessarily UTF-8, and one that isn't must
+            // not be mistaken for there being no command
+            command:       value.get_bytes(b"command")
+                .map(|path| OsStr::from_bytes(path).into())
+                .unwrap_or_default(),
             runas_gid,
             runas_uid,
             runas_egid:    value.get("runas_egid").unwrap_or(runas_gid),
-- 
2.43.0


From 711dc125a58fe7a1904dc2347da27839a62c4ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:48 +0000
Subject: [PATCH 05/19] fix: recognize -g even if the name of the group isn't
 UTF-8

---
 sudo_pair/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index 6ac49e8..99f85cd 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -549,7 +549,10 @@ impl SudoPair {
 
     // returns true if `-g` was specified
     fn is_sudoing_to_explicit_group(&self) -> bool {
-        self.env.settings.runas_group.is_some()
+        //
+        // the name of the group isn't necessarily UTF-8, so we need to
+        // look at the raw setting
+        self.env.settings.raw.get_bytes(b"runas_group").is_some()
     }
 
     fn socket_path(&self) -> PathBuf {
-- 
2.43.0


From 87384ba5d925fee2033c2cbb1c89a8c5f17b8520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:48 +0000
Subject: [PATCH 06/19] fix: don't allow piping to sessions when only output is
 being logged

---
 sudo_pair/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index 99f85cd..1fdddfe 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -111,6 +111,11 @@ impl IoPlugin for SudoPair {
 
     const NAME: &'static str = "sudo_pair";
 
+    // sudo only hints that stdin should be logged when `log_input` is
+    // set, but sessions can't be piped to regardless of whether it is;
+    // commands that aren't supposed to be logged are exempt instead
+    const IGNORE_IOLOG_HINTS: bool = true;
+
     fn open(env: &'static IoEnv) -> Result<Self> {
         let mut slog = slog(Self::NAME, Self::VERSION);
 
-- 
2.43.0


From 0b8705243f322fc6325284525bc47a5d55f6d67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 07/19] fix: read the BSD authentication type from the key sudo
 uses

sudo passes the -a flag as `bsdauth_type`, so the setting was never
filled and the flag was missing from the command line shown to the pair.
---
 sudo_plugin/src/options/settings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index 21898c5..0632547 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -279,7 +279,7 @@ impl TryFrom<OptionMap> for Settings {
             plugin_path: value.get("plugin_path")?,
             progname:    value.get("progname")?,
 
-            bsd_auth_type:        value.get("bsd_auth_type")       .ok(),
+            bsd_auth_type:        value.get("bsdauth_type")        .ok(),
             close_from:           value.get("closefrom")           .ok(),
             debug_flags:          value.get("debug_flags")         .ok(),
             debug_level:          value.get("debug_level")         .ok(),
-- 
2.43.0


From 71016ecef16155bae284914f5be41be18364c165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 08/19] fix: parse the umask of the command as octal

sudo passes `umask=octal` (e.g., 022), which was read as decimal.
---
 sudo_plugin/src/options/command_info.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index a19461f..9b94e97 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -260,7 +260,10 @@ impl TryFrom<OptionMap> for CommandInfo {
             runas_uid,
             runas_egid:    value.get("runas_egid").unwrap_or(runas_gid),
             runas_euid:    value.get("runas_euid").unwrap_or(runas_uid),
-            umask:         value.get("umask").unwrap_or(0o7777),
+            // sudo formats the umask in octal
+            umask:         value.get_str("umask")
+                .and_then(|umask| mode_t::from_str_radix(umask, 8).ok())
+                .unwrap_or(0o7777),
 
             chroot:            value.get("chroot")            .ok(),
             close_from:        value.get("closefrom")         .ok(),
-- 
2.43.0


From e9f9572fb3caa5a4559ac265f09feaf2d63b2c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 09/19] fix: don't drop negative nice values

---
 sudo_plugin/src/options/command_info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index 9b94e97..08261eb 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -139,7 +139,7 @@ pub struct CommandInfo {
     /// Nice value (priority) to use when executing the command. The nice
     /// value, if specified, overrides the priority associated with the
     /// login_class on BSD systems.
-    pub nice: Option<u64>,
+    pub nice: Option<i64>,
 
     /// If set, prevent the command from executing other programs.
     pub noexec: bool,
-- 
2.43.0


From afca9c6752d8ad647cb43fbb97f9c3ab8f026a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 10/19] fix: recognize the directory a command runs in even if
 it isn't UTF-8

The directory sudo was invoked from was used instead, so the pair was
shown a directory that the command doesn't run in.
---
 sudo_plugin/src/options/command_info.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/options/command_info.rs b/sudo_plugin/src/options/command_info.rs
index 08261eb..165179e 100644
--- a/sudo_plugin/src/options/command_info.rs
+++ b/sudo_plugin/src/options/command_info.rs
@@ -267,7 +267,8 @@ impl TryFrom<OptionMap> for CommandInfo {
 
             chroot:            value.get("chroot")            .ok(),
             close_from:        value.get("closefrom")         .ok(),
-            cwd:               value.get("cwd")               .ok(),
+            // like the command, this isn't necessarily UTF-8
+            cwd:               value.get_bytes(b"cwd")        .map(|path| OsStr::from_bytes(path).into()),
             exec_background:   value.get("exec_background")   .unwrap_or(false),
             exec_fd:           value.get("execfd")            .ok(),
             iolog_compress:    value.get("iolog_compress")    .unwrap_or(false),
-- 
2.43.0


From 1e8183755d820a6f6b76ed4f580f2cb14c7347b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 11/19] fix: show flags whose value isn't UTF-8 in the
 reconstructed command line

---
 sudo_plugin/src/options/settings.rs | 31 ++++++++++++++++-------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index 0632547..de395a5 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -174,6 +174,9 @@ impl Settings {
     pub fn flags(&self) -> Vec<Vec<u8>> {
         let mut flags: Vec<Vec<u8>> = vec![];
 
+        // values that aren't UTF-8 were still typed, so these come from the
+        // raw settings
+
         // `sudoedit` is set if the flag was provided *or* if sudo
         // was invoked as `sudoedit` directly; try our best to intrepret
         // this case, although we'll technically get it wrong in the
@@ -182,23 +185,23 @@ impl Settings {
             flags.push(b"--edit".to_vec());
         }
 
-        if let Some(ref runas_user) = self.runas_user {
+        if let Some(runas_user) = self.raw.get_bytes(b"runas_user") {
             let mut flag = b"--user ".to_vec();
-            flag.extend_from_slice(runas_user.as_bytes());
+            flag.extend_from_slice(runas_user);
 
             flags.push(flag);
         }
 
-        if let Some(ref runas_group) = self.runas_group {
+        if let Some(runas_group) = self.raw.get_bytes(b"runas_group") {
             let mut flag = b"--group ".to_vec();
-            flag.extend_from_slice(runas_group.as_bytes());
+            flag.extend_from_slice(runas_group);
 
             flags.push(flag);
         }
 
-        if let Some(ref prompt) = self.prompt {
+        if let Some(prompt) = self.raw.get_bytes(b"prompt") {
             let mut flag = b"--prompt ".to_vec();
-            flag.extend_from_slice(prompt.as_bytes());
+            flag.extend_from_slice(prompt);
 
             flags.push(flag);
         }
@@ -231,30 +234,30 @@ impl Settings {
             flags.push(b"--non-interactive".to_vec());
         }
 
-        if let Some(ref login_class) = self.login_class {
+        if let Some(login_class) = self.raw.get_bytes(b"login_class") {
             let mut flag = b"--login-class ".to_vec();
-            flag.extend_from_slice(login_class.as_bytes());
+            flag.extend_from_slice(login_class);
 
             flags.push(flag);
         }
 
-        if let Some(ref selinux_role) = self.selinux_role {
+        if let Some(selinux_role) = self.raw.get_bytes(b"selinux_role") {
             let mut flag = b"--role ".to_vec();
-            flag.extend_from_slice(selinux_role.as_bytes());
+            flag.extend_from_slice(selinux_role);
 
             flags.push(flag);
         }
 
-        if let Some(ref selinux_type) = self.selinux_type {
+        if let Some(selinux_type) = self.raw.get_bytes(b"selinux_type") {
             let mut flag = b"--type ".to_vec();
-            flag.extend_from_slice(selinux_type.as_bytes());
+            flag.extend_from_slice(selinux_type);
 
             flags.push(flag);
         }
 
-        if let Some(ref bsd_auth_type) = self.bsd_auth_type {
+        if let Some(bsd_auth_type) = self.raw.get_bytes(b"bsdauth_type") {
             let mut flag = b"--auth-type ".to_vec();
-            flag.extend_from_slice(bsd_auth_type.as_bytes());
+            flag.extend_from_slice(bsd_auth_type);
 
             flags.push(flag);
         }
-- 
2.43.0


From ea306424219498b2c4eec5876c84233609afced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 12/19] fix: don't delete symlinks found at the path of the
 socket

---
 sudo_pair/src/socket.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudo_pair/src/socket.rs b/sudo_pair/src/socket.rs
index eaf45c6..8d6b0f5 100644
--- a/sudo_pair/src/socket.rs
+++ b/sudo_pair/src/socket.rs
@@ -129,7 +129,8 @@ impl Socket {
     }
 
     fn unlink(path: &Path) -> Result<()> {
-        match fs::metadata(&path).map(|md| md.file_type().is_socket()) {
+        // a symlink isn't a socket, even if it points to one
+        match fs::symlink_metadata(&path).map(|md| md.file_type().is_socket()) {
             // file exists, is a socket; delete it
             Ok(true) => fs::remove_file(path),
 
-- 
2.43.0


From 8304368f2b86563381067893b01deb76219fcd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 13/19] fix: ignore runas_groups if the user's groups are
 preserved

---
 sudo_plugin/src/plugin/io_env.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sudo_plugin/src/plugin/io_env.rs b/sudo_plugin/src/plugin/io_env.rs
index ba078d7..3da47cb 100644
--- a/sudo_plugin/src/plugin/io_env.rs
+++ b/sudo_plugin/src/plugin/io_env.rs
@@ -244,7 +244,11 @@ impl IoEnv {
         // the command will be invoked with the original user's groups
         // (it will probably require reading the `sudo` source code to
         // verify this)
-        let mut set : HashSet<_> = self.command_info.runas_groups.as_ref().unwrap_or(
+        //
+        // if `preserve_groups` is set, sudo ignores `runas_groups`
+        let mut set : HashSet<_> = self.command_info.runas_groups.as_ref().filter(
+            |_| !self.command_info.preserve_groups
+        ).unwrap_or(
             &self.user_info.groups
         ).iter().copied().collect();
 
-- 
2.43.0


From f49261870ea4ae3219c1a49bdde4202ef8b1894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:21 +0000
Subject: [PATCH 14/19] fix: heed plugin options that are paths even if they
 aren't UTF-8

The default was used instead, without a word: sockets were created in
another directory than the one that was configured, or the approval
command wasn't recognized.
---
 sudo_pair/src/lib.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/sudo_pair/src/lib.rs b/sudo_pair/src/lib.rs
index 1fdddfe..2187f04 100644
--- a/sudo_pair/src/lib.rs
+++ b/sudo_pair/src/lib.rs
@@ -75,6 +75,7 @@ use crate::socket::Socket;
 
 use std::cell::RefCell;
 use std::collections::HashSet;
+use std::ffi::OsStr;
 use std::fs::File;
 use std::io::{Read, Write};
 use std::os::unix::ffi::OsStrExt;
@@ -743,17 +744,18 @@ impl PluginOptions {
 impl<'a> From<&'a OptionMap> for PluginOptions {
     fn from(map: &'a OptionMap) -> Self {
         Self {
-            binary_path: map.get("binary_path")
-                .unwrap_or_else(|_| DEFAULT_BINARY_PATH.into()),
+            // paths aren't necessarily UTF-8
+            binary_path: map.get_bytes(b"binary_path")
+                .map_or_else(|| DEFAULT_BINARY_PATH.into(), |path| OsStr::from_bytes(path).into()),
 
-            user_prompt_path: map.get("user_prompt_path")
-                .unwrap_or_else(|_| DEFAULT_USER_PROMPT_PATH.into()),
+            user_prompt_path: map.get_bytes(b"user_prompt_path")
+                .map_or_else(|| DEFAULT_USER_PROMPT_PATH.into(), |path| OsStr::from_bytes(path).into()),
 
-            pair_prompt_path: map.get("pair_prompt_path")
-                .unwrap_or_else(|_| DEFAULT_PAIR_PROMPT_PATH.into()),
+            pair_prompt_path: map.get_bytes(b"pair_prompt_path")
+                .map_or_else(|| DEFAULT_PAIR_PROMPT_PATH.into(), |path| OsStr::from_bytes(path).into()),
 
-            socket_dir: map.get("socket_dir")
-                .unwrap_or_else(|_| DEFAULT_SOCKET_DIR.into()),
+            socket_dir: map.get_bytes(b"socket_dir")
+                .map_or_else(|| DEFAULT_SOCKET_DIR.into(), |path| OsStr::from_bytes(path).into()),
 
             gids_enforced: map.get("gids_enforced")
                 .unwrap_or_else(|_| DEFAULT_GIDS_ENFORCED.iter().copied().collect()),
-- 
2.43.0


From a8eb422f7aad45cf7fd5678ab6a95dbb9c0847f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:24 +0000
Subject: [PATCH 15/19] fix: drop the environment even if a plugin panics while
 closing

A panic in the plugin's close() unwound past the code that takes the
environment out of static storage, so a session opened afterwards was
served with the facts of the previous one.
---
 sudo_plugin/src/core.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sudo_plugin/src/core.rs b/sudo_plugin/src/core.rs
index 86e5619..7fd2b94 100644
--- a/sudo_plugin/src/core.rs
+++ b/sudo_plugin/src/core.rs
@@ -27,7 +27,7 @@ use crate::sys;
 
 use std::os::raw;
 use std::path::PathBuf;
-use std::panic::{catch_unwind, UnwindSafe};
+use std::panic::{catch_unwind, AssertUnwindSafe, UnwindSafe};
 
 /// Return codes understood by the `io_plugin.open` callback.
 ///
@@ -194,7 +194,13 @@ pub unsafe extern "C" fn close<P: IoPlugin, S: IoState<P>>(
     error:       raw::c_int,
 ) {
     drop(catch_unwind(|| {
-        S::drop(|plugin| plugin.close(exit_status, error));
+        S::drop(|plugin| {
+            // a panic in the plugin mustn't keep `S` from dropping the
+            // environment, which would then be used by a later session
+            drop(catch_unwind(AssertUnwindSafe(|| {
+                plugin.close(exit_status, error);
+            })));
+        });
     }));
 }
 
-- 
2.43.0


From aa3b0b9a37fc3706c4018f77180c2be92e2ab283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:05 +0000
Subject: [PATCH 16/19] fix: don't evaluate the arguments of sudo_approve as
 code

---
 sample/bin/sudo_approve | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sample/bin/sudo_approve b/sample/bin/sudo_approve
index ec412ef..7dc3a06 100755
--- a/sample/bin/sudo_approve
+++ b/sample/bin/sudo_approve
@@ -49,6 +49,12 @@ usage() {
 }
 
 main() {
+    # assigning these to integers below evaluates them as arithmetic
+    # expressions, which runs any commands that are hidden in them
+    if [[ ! "${2}" =~ ^[0-9]+$ || ! "${3}" =~ ^[0-9]+$ ]]; then
+        usage
+    fi
+
     declare -r socket_path="${1}"
     declare -ri uid="${2}"
     declare -ri pid="${3}"
-- 
2.43.0


From 72413689f8d934e52f4aa663bd476ece3e3dede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:40 +0000
Subject: [PATCH 17/19] fix: wait for the pair with poll instead of select

FD_SET panics on descriptors of FD_SETSIZE and above, and can't unwind:
sudo was aborted, leaving the socket behind, if the user had that many
files open.
---
 sudo_pair/src/socket.rs | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/sudo_pair/src/socket.rs b/sudo_pair/src/socket.rs
index 8d6b0f5..fabdab8 100644
--- a/sudo_pair/src/socket.rs
+++ b/sudo_pair/src/socket.rs
@@ -25,7 +25,6 @@ use std::os::unix::prelude::*;
 use std::os::unix::net::{UnixListener, UnixStream};
 use std::mem;
 use std::path::Path;
-use std::ptr;
 
 use libc::{self, gid_t, mode_t, uid_t};
 
@@ -69,36 +68,29 @@ impl Socket {
                     return Err(Error::last_os_error());
                 }
 
-                let     fd      = listener.as_raw_fd();
-                let mut readfds = mem::MaybeUninit::<libc::fd_set>::uninit();
-
-                libc::FD_ZERO(readfds.as_mut_ptr());
-
-                let mut readfds = readfds.assume_init();
-
-                libc::FD_SET(fd, &mut readfds);
+                let mut pollfd = libc::pollfd {
+                    fd:      listener.as_raw_fd(),
+                    events:  libc::POLLIN,
+                    revents: 0,
+                };
 
                 // rust automatically wraps the `accept()` function in a
                 // loop that retries on SIGINT, so we have to get
-                // creative here and `select(2)` ourselves if we want
-                // Ctrl-C to interrupt the process
-                match libc::select(
-                    fd + 1, // this must be greater than the fd's int value
-                    &mut readfds,
-                    ptr::null_mut(),
-                    ptr::null_mut(),
-                    ptr::null_mut(),
-                ) {
+                // creative here and `poll(2)` ourselves if we want
+                // Ctrl-C to interrupt the process (`select(2)` can't
+                // wait for descriptors of `FD_SETSIZE` and above, which
+                // we get if the user has left that many files open)
+                match libc::poll(&mut pollfd, 1, -1) {
                     1  => (),
                     -1 => return Err(Error::last_os_error()),
-                    0  => unreachable!("`select` returned 0 even though no timeout was set"),
-                    _  => unreachable!("`select` indicated that more than 1 fd is ready"),
+                    0  => unreachable!("`poll` returned 0 even though no timeout was set"),
+                    _  => unreachable!("`poll` indicated that more than 1 fd is ready"),
                 };
 
                 // as a sanity check, confirm that the fd we're going to
-                // `accept` is the one that `select` says is ready
-                if !libc::FD_ISSET(fd, &readfds) {
-                    unreachable!("`select` returned an unexpected file descriptor");
+                // `accept` is the one that `poll` says is ready
+                if pollfd.revents & libc::POLLIN == 0 {
+                    unreachable!("`poll` returned an unexpected event");
                 }
             }
 
-- 
2.43.0


From 0160841f44219f283a41948dc0ab851fcacd28eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:09 +0000
Subject: [PATCH 18/19] fix: show --host and --command-timeout in the
 reconstructed command line

The pair wasn't shown that a command is going to run on another host, or
be ended after a while, although sudo passes both settings to plugins.
---
 sudo_plugin/src/options/settings.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index de395a5..c6663d4 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -269,6 +269,20 @@ impl Settings {
             flags.push(flag);
         }
 
+        if let Some(remote_host) = self.raw.get_bytes(b"remote_host") {
+            let mut flag = b"--host ".to_vec();
+            flag.extend_from_slice(remote_host);
+
+            flags.push(flag);
+        }
+
+        if let Some(timeout) = self.raw.get_bytes(b"timeout") {
+            let mut flag = b"--command-timeout ".to_vec();
+            flag.extend_from_slice(timeout);
+
+            flags.push(flag);
+        }
+
         flags
     }
 }
-- 
2.43.0


From bd419555dd52e8346c3d3298c83b437c9693e3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:10 +0000
Subject: [PATCH 19/19] fix: show the value of --close-from as it was typed

Leading zeros were dropped, and the whole flag if the value had leading
blanks, which sudo accepts.
---
 sudo_plugin/src/options/settings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudo_plugin/src/options/settings.rs b/sudo_plugin/src/options/settings.rs
index c6663d4..01b07c4 100644
--- a/sudo_plugin/src/options/settings.rs
+++ b/sudo_plugin/src/options/settings.rs
@@ -262,9 +262,9 @@ impl Settings {
             flags.push(flag);
         }
 
-        if let Some(close_from) = self.close_from {
+        if let Some(close_from) = self.raw.get_bytes(b"closefrom") {
             let mut flag = b"--close-from ".to_vec();
-            flag.extend_from_slice(close_from.to_string().as_bytes());
+            flag.extend_from_slice(close_from);
 
             flags.push(flag);
         }
-- 
2.43.0

