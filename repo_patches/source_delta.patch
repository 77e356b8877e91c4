From 8db2fb583668a35a86723210a80c4c9874440acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 01/27] fix: keep the bracket kind of a scope when parsing

A free standing (..) or [..] was always stored as a curly scope, so the
document was rendered with other brackets than it was read with.
---
 src/ast1/document.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 60f1691..754d39b 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -300,12 +300,11 @@ impl FromStr for Document {
                         crate::ErrorType::UnclosedScope(*variant),
                     ))
                 }
-                Buffer::Scope { content, .. } => chunks.push(Chunk::new_unchecked(
+                Buffer::Scope {
+                    content, variant, ..
+                } => chunks.push(Chunk::new_unchecked(
                     buffer_line_no,
-                    ChunkVariant::Scope(Scope::new_unchecked(
-                        eval_scope!(content),
-                        ScopeVariant::Curly,
-                    )),
+                    ChunkVariant::Scope(Scope::new_unchecked(eval_scope!(content), *variant)),
                 )),
                 Buffer::Command { depth, scopes, .. } if *depth != 0 => {
                     return Err(crate::Error::new(
-- 
2.43.0


From 25c2fbd7f524eff97aa19b3b353b91e96e406edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 02/27] fix: ignore backslashes inside comments

A backslash in a comment left the cursor in escaped mode, turning the
line break after the comment (or the next special character) into a
command.
---
 src/ast1/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 754d39b..9f10775 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -355,6 +355,7 @@ impl FromStr for Document {
                     comment = false;
                     line_no += 1
                 }
+                _ if comment => continue,
                 '%' if !escaped => {
                     comment = true;
                     continue;
@@ -363,7 +364,6 @@ impl FromStr for Document {
                     escaped = true;
                     continue;
                 }
-                _ if comment => continue,
                 _ => {}
             }
 
-- 
2.43.0


From f4f8cefd5f8f33d66ecc154894831788aaf874bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 03/27] fix: keep escaped characters that directly follow a
 command

After a command, an escaped blank lost its backslash and an escaped
opening bracket was taken for the start of an argument.
---
 src/ast1/document.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 9f10775..9ef708f 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -411,10 +411,10 @@ impl FromStr for Document {
                     trailing,
                     ..
                 } => match c {
-                    c if *depth == 0 && ScopeVariant::is_opening(c) => {
+                    c if *depth == 0 && !escaped && ScopeVariant::is_opening(c) => {
                         buffer.push_scope(ScopeVariant::from_opening(c))
                     }
-                    c if *depth == 0 && c.is_whitespace() => trailing.push(c),
+                    c if *depth == 0 && !escaped && c.is_whitespace() => trailing.push(c),
                     c if *depth == 0 && escaped => {
                         let trailing = trailing.clone();
                         flush!();
-- 
2.43.0


From 0d01a79eb7c0a4ca79cd2530030621c1a38a172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 04/27] fix: line numbers of escaped line breaks and of text
 ending a document

An escaped line break was numbered one line too late, and so was the
text before it; white space between the last command and the end of the
document was numbered with its last line instead of its first.
---
 src/ast1/document.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 9ef708f..0a3988b 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -350,6 +350,9 @@ impl FromStr for Document {
         }
 
         for c in s.chars() {
+            // line which the current character is in
+            let char_line_no = line_no;
+
             match c {
                 '\n' => {
                     comment = false;
@@ -371,6 +374,7 @@ impl FromStr for Document {
                 Buffer::Text { .. } => match c {
                     c if escaped => {
                         flush!();
+                        buffer_line_no = char_line_no;
                         buffer = Buffer::command();
                         buffer.push(c);
 
@@ -425,13 +429,13 @@ impl FromStr for Document {
 
                             flush(
                                 &mut buffer,
-                                buffer_line_no
+                                char_line_no
                                     - trailing.chars().filter(|c| *c == '\n').count() as u32,
                                 &mut chunks,
                             )?;
                         }
 
-                        buffer_line_no = line_no;
+                        buffer_line_no = char_line_no;
 
                         buffer = Buffer::command();
                         buffer.push(c);
@@ -483,6 +487,7 @@ impl FromStr for Document {
                 flush!();
                 buffer = Buffer::text();
                 buffer.push_str(&trailing);
+                buffer_line_no = line_no - trailing.chars().filter(|c| *c == '\n').count() as u32;
                 flush!();
             }
             _ => {
-- 
2.43.0


From ff85634fee90af827691a2eb5fb0bfca8be28700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 05/27] fix: do not drop a backslash at the end of a document

---
 src/ast1/document.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 0a3988b..4cdc02a 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -495,6 +495,14 @@ impl FromStr for Document {
             }
         }
 
+        // nothing follows the last backslash, keep it as a command without a label
+        if escaped {
+            chunks.push(Chunk::new_unchecked(
+                line_no,
+                ChunkVariant::Command(Command::new_unchecked(String::new(), Vec::new())),
+            ))
+        }
+
         Ok(Self(chunks))
     }
 }
-- 
2.43.0


From ba6f9cda3bb9023928b658315959da5e23fe316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 06/27] fix: keep nested brackets inside command arguments

Brackets of the argument's own kind nested in the argument were counted
but not stored, so \a{{x}} was read as \a{x}.
---
 src/ast1/document.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 4cdc02a..e95a2c0 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -458,8 +458,16 @@ impl FromStr for Document {
                         buffer_line_no =
                             line_no - trailing.chars().filter(|c| *c == '\n').count() as u32;
                     }
-                    c if *depth != 0 && scopes.last().unwrap().1.open() == c => *depth += 1,
-                    c if *depth != 0 && scopes.last().unwrap().1.close() == c => *depth -= 1,
+                    c if *depth != 0 && scopes.last().unwrap().1.open() == c => {
+                        *depth += 1;
+                        buffer.push(c)
+                    }
+                    c if *depth != 0 && scopes.last().unwrap().1.close() == c => {
+                        *depth -= 1;
+                        if *depth != 0 {
+                            buffer.push(c)
+                        }
+                    }
                     c if *depth == 0 && ScopeVariant::is_closing(c) => {
                         return Err(crate::Error::new(
                             line_no,
-- 
2.43.0


From 2a1e223524ed35506dce3aa65cfe160f0b2ed425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 07/27] fix: off by one in the lines of stage 2 errors

Lines inside a scope or an environment start from 1, so an error in it
was reported one line too late, possibly past the end of the document.
---
 src/ast2/document.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index d51c0e8..1575e9c 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -226,7 +226,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                     match $x {
                         Ok(k) => k,
                         Err(mut e) => {
-                            e.line += line_no;
+                            e.line += line_no - 1;
                             return Err(e);
                         }
                     }
@@ -238,7 +238,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                     match $x {
                         Ok(k) => k,
                         Err(mut e) => {
-                            e.line += buffer_start;
+                            e.line += buffer_start - 1;
                             return Err(e);
                         }
                     }
-- 
2.43.0


From 133b75832c81fb99ca1dcb56d74aec710f60a266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 08/27] fix: line numbers of environments with arguments
 spanning lines

An environment whose label or arguments contain line breaks was numbered
with the line its arguments end in instead of the line of its \begin, and
converting it back to stage 1 numbered \begin and its content wrongly.
---
 src/ast2/chunk.rs    | 11 +++++++----
 src/ast2/document.rs |  4 +++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ast2/chunk.rs b/src/ast2/chunk.rs
index 050cd31..2cffd37 100644
--- a/src/ast2/chunk.rs
+++ b/src/ast2/chunk.rs
@@ -42,10 +42,10 @@ impl ast1::IntoChunks for Chunk {
                         s.chars().filter(|c| c == &'\n').count()
                     }
 
-                    let end_line_no = self.line_no
+                    // line in which the content starts
+                    let content_line_no = self.line_no
                         + (lines(&prec_begin)
-                            + label.chars().filter(|c| c == &'\n').count()
-                            + lines(&Document::new_unchecked(content.clone()).to_string())
+                            + lines(&label)
                             + args
                                 .iter()
                                 .map(|(prec, arg)| {
@@ -60,6 +60,9 @@ impl ast1::IntoChunks for Chunk {
                                 })
                                 .sum::<usize>()) as u32;
 
+                    let end_line_no = content_line_no
+                        + lines(&Document::new_unchecked(content.clone()).to_string()) as u32;
+
                     let label = ast1::Scope::new_unchecked(
                         ast1::Document::from_str(&label).unwrap().chunks_owned(),
                         ast1::ScopeVariant::Curly,
@@ -80,7 +83,7 @@ impl ast1::IntoChunks for Chunk {
                     )]
                     .into_iter()
                     .chain(content.into_iter().flat_map(|mut chunk| {
-                        chunk.line_no += self.line_no - 1;
+                        chunk.line_no += content_line_no - 1;
                         chunk.into_chunks()
                     }))
                     .chain(
diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index 1575e9c..c03b67f 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -202,6 +202,7 @@ impl TryFrom<crate::ast1::Document> for Document {
 
         let mut buffer_stack = Vec::new();
         let mut buffer_start = 0;
+        let mut env_line_no = 0;
         let mut env_args = Vec::new();
         let mut buffer: Vec<ast1::Chunk> = Vec::new();
         let mut prec_begin = String::new();
@@ -288,6 +289,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                                     s.chars().filter(|c| c == &'\n').count()
                                 }
 
+                                env_line_no = line_no;
                                 buffer_start = line_no
                                     + c.arguments()
                                         .iter()
@@ -336,7 +338,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                                 }
 
                                 chunks.push(Chunk::new_unchecked(
-                                    buffer_start,
+                                    env_line_no,
                                     ChunkVariant::Environment(Environment::new_unchecked(
                                         ast1::Document::new_unchecked(label.chunks_owned())
                                             .to_string(),
-- 
2.43.0


From 520a38e635428eacba91fcf63a59df4eba72043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 09/27] fix: render the text before the label of \end{document}

Stage 3 documents rendered the text of \begin in its place.
---
 src/ast3/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 1d2944a..0efd58e 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -479,7 +479,7 @@ impl Display for Document {
                         ChunkVariant::Command(Command::new_unchecked(
                             "end".to_string(),
                             vec![(
-                                self.body_begin_prec.clone(),
+                                self.body_end_prec.clone(),
                                 Scope::new_unchecked(
                                     vec![Chunk::new_unchecked(
                                         1,
-- 
2.43.0


From 54b4c7c3f27ebee223f359b10d132a6674a22cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 10/27] fix: do not drop the body when a second document
 environment follows

The second environment replaced the first one and its content was lost;
it is now part of the trailing chunks.
---
 src/ast3/document.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 0efd58e..47bcaa6 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -289,7 +289,9 @@ impl TryFrom<ast2::Document> for Document {
             let (line_no, variant) = chunk.decompose();
 
             match variant {
-                ast2::ChunkVariant::Environment(env) if env.label().as_str() == "document" => {
+                ast2::ChunkVariant::Environment(env)
+                    if env.label().as_str() == "document" && cursor == CursorState::Preamable =>
+                {
                     let (_, args, content, begin, end) = Environment::try_from(env)?.decompose();
                     construct.body_args = args;
                     construct.body = content;
-- 
2.43.0


From a8961d3fe782d1d8b5a746b242809b8cd5e79f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 11/27] fix: line number of paragraph breaks of three or more
 lines

---
 src/ast3/paragraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast3/paragraph.rs b/src/ast3/paragraph.rs
index 588a649..9826c15 100644
--- a/src/ast3/paragraph.rs
+++ b/src/ast3/paragraph.rs
@@ -19,7 +19,7 @@ impl Paragraph {
             if let ChunkVariant::Text(s) = chunk.variant() {
                 for c in s.chars() {
                     match c {
-                        '\n' if consec_newlines == 1 => {
+                        '\n' if consec_newlines > 0 => {
                             consec_newlines += 1;
                             line_no += 1;
 
-- 
2.43.0


From 42e5e9072d02480bacbac8b949723dcb573e8b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 12/27] fix: keys and values of document options

The first character of each option was dropped and values were read from
the key.
---
 src/ast3/document.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 47bcaa6..51ec8ac 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -346,6 +346,7 @@ impl TryFrom<ast2::Document> for Document {
                                             BufferMode::Prec => {
                                                 prec.push_str(&buffer);
                                                 buffer.clear();
+                                                arg.push(c);
                                                 buffermode = BufferMode::Arg;
                                             }
                                             BufferMode::Arg if !c.is_whitespace() => arg.push(c),
@@ -398,14 +399,11 @@ impl TryFrom<ast2::Document> for Document {
                                         {
                                             let mut val_started = false;
 
-                                            for c in k.chars() {
+                                            for c in v.chars() {
                                                 if c.is_whitespace() && !val_started {
                                                     equal_post.push(c)
                                                 } else {
-                                                    if val_started {
-                                                        val_started = true;
-                                                    }
-
+                                                    val_started = true;
                                                     val.push(c)
                                                 }
                                             }
-- 
2.43.0


From 88129474d4ca9f8c3cb2a16d1e2837b99e1fc494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 13/27] fix: keep nested maths brackets of the same kind

\( and \[ inside a block of their own kind were counted but dropped.
---
 src/ast3/mathsblock.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 9463944..8159ce0 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -109,13 +109,21 @@ impl MathsBlock {
                     if cmd.label() == "("
                         && mode == MathsMode::SingleDollar(MathsVariant::Brackets) =>
                 {
-                    depth += 1
+                    depth += 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ))
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == "["
                         && mode == MathsMode::DoubleDollar(MathsVariant::Brackets) =>
                 {
-                    depth += 1
+                    depth += 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ))
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == ")"
@@ -153,13 +161,21 @@ impl MathsBlock {
                     if cmd.label() == ")"
                         && mode == MathsMode::SingleDollar(MathsVariant::Brackets) =>
                 {
-                    depth -= 1
+                    depth -= 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ))
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == "]"
                         && mode == MathsMode::DoubleDollar(MathsVariant::Brackets) =>
                 {
-                    depth -= 1
+                    depth -= 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ))
                 }
                 ast2::ChunkVariant::Scope(s) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
-- 
2.43.0


From 681428c1ff1b37c79e14f12fb7af6392fcd9cd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 14/27] fix: keep text inside dollar maths that is followed by
 a command

Text between the opening dollar and a command, scope or environment was
moved in front of the maths block.
---
 src/ast3/mathsblock.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 8159ce0..6184b1f 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -309,7 +309,15 @@ impl MathsBlock {
                         }
                     }
 
-                    push_str!()
+                    if mode == MathsMode::None {
+                        push_str!()
+                    } else if !text_buffer.is_empty() {
+                        // the maths block continues in the next chunk
+                        buffer.push(ast2::Chunk::new_unchecked(
+                            text_buffer_line,
+                            ast2::ChunkVariant::Text(text_buffer),
+                        ))
+                    }
                 }
                 _ => buffer.push(ast2::Chunk::new_unchecked(line_no, variant)),
             }
-- 
2.43.0


From e098e59f423d2ffe0a2b4d3687323f4418efefba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 15/27] fix: refuse double dollar maths closed by a single
 dollar

The single dollar was dropped. Also report the line in which unclosed
dollar maths starts instead of line 0.
---
 src/ast3/mathsblock.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 6184b1f..4012314 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -227,6 +227,7 @@ impl MathsBlock {
                                 MathsMode::None => {
                                     push_str!();
                                     mode = MathsMode::SingleDollar(MathsVariant::Dollars);
+                                    buffer_line = cursor_line_no;
                                     text_buffer_line = cursor_line_no;
                                 }
                                 MathsMode::SingleDollar(MathsVariant::Dollars)
@@ -304,6 +305,12 @@ impl MathsBlock {
                                 MathsMode::SingleDollar(MathsVariant::Brackets)
                                 | MathsMode::DoubleDollar(MathsVariant::Brackets) => {}
                             }
+                        } else if mode == MathsMode::DoubleClosing {
+                            // `$$` can not be closed by a single `$`
+                            return Err(crate::Error::new(
+                                buffer_line,
+                                crate::ErrorType::UnclosedMaths,
+                            ));
                         } else {
                             text_buffer.push(c)
                         }
@@ -319,6 +326,12 @@ impl MathsBlock {
                         ))
                     }
                 }
+                _ if mode == MathsMode::DoubleClosing => {
+                    return Err(crate::Error::new(
+                        buffer_line,
+                        crate::ErrorType::UnclosedMaths,
+                    ))
+                }
                 _ => buffer.push(ast2::Chunk::new_unchecked(line_no, variant)),
             }
         }
-- 
2.43.0


From 3d730deb32f840f7d362d1b952d86d28264a3608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 16/27] fix: line numbers of maths blocks and their content

The content of bracket maths was numbered from the start of the document,
dollar maths was numbered by the line of its last text chunk, and content
before that line made the parser panic.
---
 src/ast3/mathsblock.rs | 48 +++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 4012314..309d956 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -62,6 +62,22 @@ impl Lines for MathsBlock {
 }
 
 impl MathsBlock {
+    /// Maps the content of a maths block starting in a given line,
+    /// the lines of the result are relative to the block
+    fn from_content(
+        mut content: Vec<ast2::Chunk>,
+        line_no: u32,
+    ) -> Result<Vec<Chunk>, crate::Error> {
+        for chunk in content.iter_mut() {
+            *chunk.line_no_mut() -= line_no - 1;
+        }
+
+        Self::from_chunks(content).map_err(|mut e| {
+            e.line += line_no - 1;
+            e
+        })
+    }
+
     /// Maps a `Vec<ast2::Chunk>` to `Vec<Chunk>` with MathsBlocks
     pub fn from_chunks(chunks: Vec<ast2::Chunk>) -> Result<Vec<Chunk>, crate::Error> {
         #[derive(PartialEq)]
@@ -137,7 +153,7 @@ impl MathsBlock {
                         ChunkVariant::MathsBlock(Self::new_unchecked(
                             MathsVariant::Brackets,
                             MathsType::Inline,
-                            Self::from_chunks(std::mem::take(&mut buffer))?,
+                            Self::from_content(std::mem::take(&mut buffer), buffer_line)?,
                         )),
                     ))
                 }
@@ -153,7 +169,7 @@ impl MathsBlock {
                         ChunkVariant::MathsBlock(Self::new_unchecked(
                             MathsVariant::Brackets,
                             MathsType::Outline,
-                            Self::from_chunks(std::mem::take(&mut buffer))?,
+                            Self::from_content(std::mem::take(&mut buffer), buffer_line)?,
                         )),
                     ))
                 }
@@ -251,19 +267,13 @@ impl MathsBlock {
                                     }
 
                                     out.push(Chunk::new_unchecked(
-                                        text_buffer_line,
+                                        buffer_line,
                                         ChunkVariant::MathsBlock(MathsBlock::new_unchecked(
                                             MathsVariant::Dollars,
                                             MathsType::Outline,
-                                            Self::from_chunks(
-                                                std::mem::take(&mut buffer)
-                                                    .into_iter()
-                                                    .map(|mut chunk| {
-                                                        *chunk.line_no_mut() -=
-                                                            text_buffer_line - 1;
-                                                        chunk
-                                                    })
-                                                    .collect(),
+                                            Self::from_content(
+                                                std::mem::take(&mut buffer),
+                                                buffer_line,
                                             )?,
                                         )),
                                     ));
@@ -283,19 +293,13 @@ impl MathsBlock {
                                     }
 
                                     out.push(Chunk::new_unchecked(
-                                        text_buffer_line,
+                                        buffer_line,
                                         ChunkVariant::MathsBlock(MathsBlock::new_unchecked(
                                             MathsVariant::Dollars,
                                             MathsType::Inline,
-                                            Self::from_chunks(
-                                                std::mem::take(&mut buffer)
-                                                    .into_iter()
-                                                    .map(|mut chunk| {
-                                                        *chunk.line_no_mut() -=
-                                                            text_buffer_line - 1;
-                                                        chunk
-                                                    })
-                                                    .collect(),
+                                            Self::from_content(
+                                                std::mem::take(&mut buffer),
+                                                buffer_line,
                                             )?,
                                         )),
                                     ));
-- 
2.43.0


From fdf6a26b2db8f7ca4404845da4423931db9bdc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 17/27] fix: number trailing chunks of stage 3 documents from
 one

Validation and the conversion to stage 2 take the lines of each section
as relative to the section, reading kept absolute lines for this one.
---
 src/ast3/document.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 51ec8ac..27bca86 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -285,6 +285,9 @@ impl TryFrom<ast2::Document> for Document {
 
         let mut cursor = CursorState::Preamable;
 
+        // line in which the trailing chunks start
+        let mut trailing_start = 1;
+
         for chunk in value.chunks_owned() {
             let (line_no, variant) = chunk.decompose();
 
@@ -292,6 +295,8 @@ impl TryFrom<ast2::Document> for Document {
                 ast2::ChunkVariant::Environment(env)
                     if env.label().as_str() == "document" && cursor == CursorState::Preamable =>
                 {
+                    trailing_start = line_no + env.lines() - 1;
+
                     let (_, args, content, begin, end) = Environment::try_from(env)?.decompose();
                     construct.body_args = args;
                     construct.body = content;
@@ -426,12 +431,19 @@ impl TryFrom<ast2::Document> for Document {
                 _ if cursor == CursorState::Preamable => {
                     preamable.push(ast2::Chunk::new_unchecked(line_no, variant))
                 }
-                _ => trailing.push(ast2::Chunk::new_unchecked(line_no, variant)),
+                _ => trailing.push(ast2::Chunk::new_unchecked(
+                    line_no - (trailing_start - 1),
+                    variant,
+                )),
             }
         }
 
         construct.preamable = Paragraph::from_chunks(MathsBlock::from_chunks(preamable)?);
-        construct.trailing = Paragraph::from_chunks(MathsBlock::from_chunks(trailing)?);
+        construct.trailing =
+            Paragraph::from_chunks(MathsBlock::from_chunks(trailing).map_err(|mut e| {
+                e.line += trailing_start - 1;
+                e
+            })?);
 
         Ok(construct)
     }
-- 
2.43.0


From 55eb3b97269a69942e10e99c7d8031cc25b7120a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 18/27] fix: count the lines of the arguments of the document
 environment

---
 src/ast3/document.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 27bca86..45466b6 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -61,6 +61,19 @@ impl Lines for Document {
             .chain(self.trailing.iter())
             .map(|chunk| chunk.lines() - 1)
             .sum::<u32>()
+            + self
+                .body_args
+                .iter()
+                .map(|(prec, arg)| {
+                    prec.chars().filter(|c| c == &'\n').count() as u32 + arg.lines() - 1
+                })
+                .sum::<u32>()
+            + self
+                .body_begin_prec
+                .chars()
+                .chain(self.body_end_prec.chars())
+                .filter(|c| c == &'\n')
+                .count() as u32
             + 1
     }
 }
-- 
2.43.0


From f30a10568e71268e0e062850cd1afc2b8b564ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 19/27] fix: conversion of stage 3 documents to stage 2

Text next to maths and paragraph breaks was left in pieces, so the result
was not the stage 2 document it was made from; the body and the trailing
chunks were numbered wrongly, and a document without a line break before
the body made the conversion panic.
---
 src/ast2/document.rs    | 36 ++++++++++++++++--------------------
 src/ast2/environment.rs |  7 ++-----
 src/ast2/scope.rs       | 10 ++--------
 3 files changed, 20 insertions(+), 33 deletions(-)

diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index c03b67f..a5cfccf 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -90,6 +90,18 @@ impl Document {
 
         self.0.push(chunk)
     }
+
+    /// Maps stage 3 chunks to stage 2 chunks, joining neighbouring text
+    pub(crate) fn lower_chunks(chunks: Vec<ast3::Chunk>) -> Vec<Chunk> {
+        let mut out = Self::default();
+
+        chunks
+            .into_iter()
+            .flat_map(ast3::Chunk::into_chunks)
+            .for_each(|chunk| out.push_chunk_unchecked(chunk));
+
+        out.chunks_owned()
+    }
 }
 
 impl FromStr for Document {
@@ -142,42 +154,26 @@ impl From<ast3::Document> for Document {
         let (_, _, preamable, body, body_args, body_begin_prec, body_end_prec, trailing) =
             value.decompose();
 
-        let preamable = preamable
-            .into_iter()
-            .flat_map(ast3::Chunk::into_chunks)
-            .collect::<Vec<_>>();
+        let preamable = Self::lower_chunks(preamable);
         let prem_lines = preamable.iter().map(|chunk| chunk.lines() - 1).sum::<u32>();
 
         let mut out = Document::new_unchecked(preamable);
 
-        let body_offset = body_args
-            .iter()
-            .map(|(s, arg)| s.chars().filter(|c| c == &'\n').count() as u32 + arg.lines() - 1)
-            .sum::<u32>()
-            + body_begin_prec.chars().filter(|c| c == &'\n').count() as u32;
-        let body_chunks = body
-            .into_iter()
-            .flat_map(ast3::Chunk::into_chunks)
-            .map(|mut chunk| {
-                *chunk.line_no_mut() += body_offset;
-                chunk
-            })
-            .collect::<Vec<_>>();
         let body = Chunk::new_unchecked(
-            prem_lines,
+            prem_lines + 1,
             ChunkVariant::Environment(Environment::new_unchecked(
                 "document".to_string(),
                 body_args
                     .into_iter()
                     .map(|(s, arg)| (s, arg.into()))
                     .collect(),
-                body_chunks,
+                Self::lower_chunks(body),
                 body_begin_prec,
                 body_end_prec,
             )),
         );
 
-        let trailing_offset = body.lines() + prem_lines - 2;
+        let trailing_offset = body.lines() + prem_lines - 1;
 
         out.push_chunk_unchecked(body);
 
diff --git a/src/ast2/environment.rs b/src/ast2/environment.rs
index 1dacd12..1fff8a6 100644
--- a/src/ast2/environment.rs
+++ b/src/ast2/environment.rs
@@ -7,7 +7,7 @@ use crate::{
     InternalError,
 };
 
-use super::{Chunk, IntoChunks as IntoChunks3, Scope};
+use super::{Chunk, Document, Scope};
 
 /// An environment is a scope associated with a command and its arguments
 #[derive(Clone)]
@@ -167,10 +167,7 @@ impl From<ast3::Environment> for Environment {
                 .into_iter()
                 .map(|(s, chunk)| (s, chunk.into()))
                 .collect(),
-            content
-                .into_iter()
-                .flat_map(|chunk| chunk.into_chunks())
-                .collect(),
+            Document::lower_chunks(content),
             prec_begin,
             prec_end,
         )
diff --git a/src/ast2/scope.rs b/src/ast2/scope.rs
index 3b668c2..59d28f2 100644
--- a/src/ast2/scope.rs
+++ b/src/ast2/scope.rs
@@ -7,7 +7,7 @@ use crate::{
     InternalError,
 };
 
-use super::{Chunk, Document, IntoChunks as IntoChunks2, ScopeVariant};
+use super::{Chunk, Document, ScopeVariant};
 
 /// A scoped block
 ///
@@ -117,12 +117,6 @@ impl TryFrom<crate::ast1::Scope> for Scope {
 impl From<ast3::Scope> for Scope {
     fn from(value: ast3::Scope) -> Self {
         let (chunks, variant) = value.decompose();
-        Scope::new_unchecked(
-            chunks
-                .into_iter()
-                .flat_map(ast3::Chunk::into_chunks)
-                .collect(),
-            variant.into(),
-        )
+        Scope::new_unchecked(Document::lower_chunks(chunks), variant.into())
     }
 }
-- 
2.43.0


From 2db187648a5df3c33ac13d50823bd5fff3bd0944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 20/27] fix: do not add a document environment to documents
 read without one

---
 src/ast2/document.rs | 14 ++++++++++++++
 src/ast3/document.rs | 35 +++++++++++++++++++++++++++++++----
 2 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index a5cfccf..dfc2db4 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -151,6 +151,7 @@ impl Lines for Document {
 
 impl From<ast3::Document> for Document {
     fn from(value: ast3::Document) -> Self {
+        let bodyless = value.is_bodyless();
         let (_, _, preamable, body, body_args, body_begin_prec, body_end_prec, trailing) =
             value.decompose();
 
@@ -159,6 +160,19 @@ impl From<ast3::Document> for Document {
 
         let mut out = Document::new_unchecked(preamable);
 
+        if bodyless {
+            trailing
+                .into_iter()
+                .flat_map(ast3::Chunk::into_chunks)
+                .map(|mut chunk| {
+                    *chunk.line_no_mut() += prem_lines;
+                    chunk
+                })
+                .for_each(|chunk| out.push_chunk_unchecked(chunk));
+
+            return out;
+        }
+
         let body = Chunk::new_unchecked(
             prem_lines + 1,
             ChunkVariant::Environment(Environment::new_unchecked(
diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 45466b6..49a3911 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -28,6 +28,9 @@ pub struct Document {
     body_end_prec: String,
 
     trailing: Vec<Chunk>,
+
+    // whether the document has been read without a document environment
+    bodyless: bool,
 }
 
 impl Validate for Document {
@@ -126,9 +129,15 @@ impl Document {
             body_begin_prec,
             body_end_prec,
             trailing,
+            bodyless: false,
         }
     }
 
+    /// Whether the document has been read from a source without a document environment
+    pub fn is_bodyless(&self) -> bool {
+        self.bodyless
+    }
+
     /// Returns the chunks representing the preamable
     pub fn chunks_preamable(&self) -> &Vec<Chunk> {
         &self.preamable
@@ -196,22 +205,28 @@ impl Document {
 
     /// Push a ChunkVarint to body
     pub fn push_body(&mut self, variant: ChunkVariant) -> Result<(), InternalError> {
-        Self::push_vec(&mut self.body, variant)
+        Self::push_vec(&mut self.body, variant)?;
+        self.bodyless = false;
+        Ok(())
     }
 
     /// Push a ChunkVarint to body without checking
     pub fn push_body_unchecked(&mut self, variant: ChunkVariant) {
-        Self::push_vec_unchecked(&mut self.body, variant)
+        Self::push_vec_unchecked(&mut self.body, variant);
+        self.bodyless = false
     }
 
     /// Push a Chunk to body
     pub fn push_body_chunk(&mut self, chunk: Chunk) -> Result<(), InternalError> {
-        Self::push_chunk_vec(&mut self.body, chunk)
+        Self::push_chunk_vec(&mut self.body, chunk)?;
+        self.bodyless = false;
+        Ok(())
     }
 
     /// Push a Chunk to body without checking
     pub fn push_body_chunk_unchecked(&mut self, chunk: Chunk) {
-        Self::push_chunk_vec_unchecked(&mut self.body, chunk)
+        Self::push_chunk_vec_unchecked(&mut self.body, chunk);
+        self.bodyless = false
     }
 
     /// Push a ChunkVariant to preamable
@@ -451,6 +466,7 @@ impl TryFrom<ast2::Document> for Document {
             }
         }
 
+        construct.bodyless = cursor == CursorState::Preamable;
         construct.preamable = Paragraph::from_chunks(MathsBlock::from_chunks(preamable)?);
         construct.trailing =
             Paragraph::from_chunks(MathsBlock::from_chunks(trailing).map_err(|mut e| {
@@ -472,6 +488,17 @@ impl FromStr for Document {
 
 impl Display for Document {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        if self.bodyless {
+            return f.write_str(
+                &self
+                    .preamable
+                    .iter()
+                    .chain(self.trailing.iter())
+                    .map(ToString::to_string)
+                    .collect::<String>(),
+            );
+        }
+
         f.write_str(
             self.preamable
                 .iter()
-- 
2.43.0


From dcd034812c9e7368bf206a64c2b1feb690983edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 21/27] fix: validate text together with the text it is merged
 into

Two texts that are valid alone could be merged into a text with an
unbroken paragraph, leaving the document invalid after accepted pushes.
---
 src/ast3/document.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 49a3911..ffdb0c1 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -167,9 +167,22 @@ impl Document {
         vec.push(chunk)
     }
 
+    /// Validate a ChunkVariant together with the text it will be merged into
+    fn validate_push(vec: &[Chunk], variant: &ChunkVariant) -> Result<(), InternalError> {
+        variant.validate()?;
+
+        if let (Some(ChunkVariant::Text(last)), ChunkVariant::Text(s)) =
+            (vec.last().map(Chunk::variant), variant)
+        {
+            ChunkVariant::Text(format!("{last}{s}")).validate()?;
+        }
+
+        Ok(())
+    }
+
     /// Push a Chunk to a `Vec<Chunk>`
     fn push_chunk_vec(vec: &mut Vec<Chunk>, chunk: Chunk) -> Result<(), InternalError> {
-        chunk.validate()?;
+        Self::validate_push(vec, chunk.variant())?;
 
         let expected_line = vec
             .last()
@@ -198,7 +211,7 @@ impl Document {
 
     /// Push a ChunkVariant to a `Vec<Chunk>`
     fn push_vec(vec: &mut Vec<Chunk>, variant: ChunkVariant) -> Result<(), InternalError> {
-        variant.validate()?;
+        Self::validate_push(vec, &variant)?;
         Self::push_vec_unchecked(vec, variant);
         Ok(())
     }
-- 
2.43.0


From 05a29b61062b19a438f78c689743495361d844d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 22/27] fix: keep an unsanitised environment label as text when
 lowering

---
 src/ast2/chunk.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ast2/chunk.rs b/src/ast2/chunk.rs
index 2cffd37..2549873 100644
--- a/src/ast2/chunk.rs
+++ b/src/ast2/chunk.rs
@@ -63,10 +63,15 @@ impl ast1::IntoChunks for Chunk {
                     let end_line_no = content_line_no
                         + lines(&Document::new_unchecked(content.clone()).to_string()) as u32;
 
-                    let label = ast1::Scope::new_unchecked(
-                        ast1::Document::from_str(&label).unwrap().chunks_owned(),
-                        ast1::ScopeVariant::Curly,
-                    );
+                    // an unsanitised label is kept as text
+                    let label = match ast1::Document::from_str(&label) {
+                        Ok(doc) if doc.to_string() == label => doc.chunks_owned(),
+                        _ => vec![ast1::Chunk::new_unchecked(
+                            1,
+                            ast1::ChunkVariant::Text(label),
+                        )],
+                    };
+                    let label = ast1::Scope::new_unchecked(label, ast1::ScopeVariant::Curly);
 
                     return [ast1::Chunk::new_unchecked(
                         self.line_no,
-- 
2.43.0


From 91f5b12408f15ebee273de601bdc2aa7bda85fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 23/27] fix: lines of environments are counted without
 rendering and cloning every level

---
 src/ast2/chunk.rs    | 14 ++------------
 src/ast2/document.rs |  2 +-
 2 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/ast2/chunk.rs b/src/ast2/chunk.rs
index 2549873..93c2896 100644
--- a/src/ast2/chunk.rs
+++ b/src/ast2/chunk.rs
@@ -2,7 +2,6 @@ use std::{fmt::Display, str::FromStr};
 
 use crate::{
     ast1,
-    ast2::Document,
     traits::{Lines, Validate},
     InternalError,
 };
@@ -48,20 +47,11 @@ impl ast1::IntoChunks for Chunk {
                             + lines(&label)
                             + args
                                 .iter()
-                                .map(|(prec, arg)| {
-                                    lines(prec)
-                                        + lines(
-                                            &Document::new_unchecked(vec![Chunk::new_unchecked(
-                                                1,
-                                                ChunkVariant::Scope(arg.clone()),
-                                            )])
-                                            .to_string(),
-                                        )
-                                })
+                                .map(|(prec, arg)| lines(prec) + arg.lines() as usize - 1)
                                 .sum::<usize>()) as u32;
 
                     let end_line_no = content_line_no
-                        + lines(&Document::new_unchecked(content.clone()).to_string()) as u32;
+                        + content.iter().map(|chunk| chunk.lines() - 1).sum::<u32>();
 
                     // an unsanitised label is kept as text
                     let label = match ast1::Document::from_str(&label) {
diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index dfc2db4..8b71bea 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -303,7 +303,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                                 buffer_start = line_no
                                     + c.arguments()
                                         .iter()
-                                        .map(|(prec, arg)| lines(prec) + lines(&arg.to_string()))
+                                        .map(|(prec, arg)| lines(prec) + arg.lines() as usize - 1)
                                         .sum::<usize>()
                                         as u32;
                                 prec_begin = prec.to_string();
-- 
2.43.0


From fac9081264a32744a1e804c7c3734544f5a90308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:38 +0000
Subject: [PATCH 24/27] fix: validate the arguments of the document environment

---
 src/ast3/document.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index ffdb0c1..c4e867b 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -52,6 +52,10 @@ impl Validate for Document {
             }
         }
 
+        for (_, arg) in self.body_args.iter() {
+            arg.validate()?
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 1a786253202d41b222fe14f50c4d642696a6ba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:42 +0000
Subject: [PATCH 25/27] fix: count the lines of stage 1 errors inside arguments
 from the start of the text

---
 src/ast1/document.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index e95a2c0..7225ae8 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -314,11 +314,24 @@ impl FromStr for Document {
                 }
                 Buffer::Command { label, scopes, .. } => {
                     let mut arguments = Vec::with_capacity(scopes.len());
+                    // lines between the command and its current argument
+                    let mut offset = 0;
 
                     for (content, variant, preceding) in scopes.iter_mut() {
+                        offset += preceding.matches('\n').count() as u32;
+
+                        let chunks = Document::from_str(content)
+                            .map_err(|mut e| {
+                                e.line += offset;
+                                e
+                            })?
+                            .chunks_owned();
+
+                        offset += content.matches('\n').count() as u32;
+
                         arguments.push((
                             std::mem::take(preceding),
-                            Scope::new_unchecked(eval_scope!(content), *variant),
+                            Scope::new_unchecked(chunks, *variant),
                         ))
                     }
 
-- 
2.43.0


From 3d92d2dc323fc7a725a9c3b7d897c9af2a479d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:18 +0000
Subject: [PATCH 26/27] fix: count the lines of stage 2 errors inside arguments
 from the start of the text

---
 src/ast2/command.rs  | 13 ++++++++++++-
 src/ast2/document.rs | 20 +++++++++++++++++---
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/ast2/command.rs b/src/ast2/command.rs
index 21dfafe..46bb439 100644
--- a/src/ast2/command.rs
+++ b/src/ast2/command.rs
@@ -83,9 +83,20 @@ impl TryFrom<crate::ast1::Command> for Command {
         let (label, arguments_o) = value.decompose();
 
         let mut arguments = Vec::with_capacity(arguments_o.len());
+        // lines between the command and its current argument
+        let mut offset = label.matches('\n').count() as u32;
 
         for (prec, scope) in arguments_o {
-            arguments.push((prec, scope.try_into()?))
+            offset += prec.matches('\n').count() as u32;
+
+            let lines = scope.lines();
+            let scope = Scope::try_from(scope).map_err(|mut e| {
+                e.line += offset;
+                e
+            })?;
+
+            offset += lines - 1;
+            arguments.push((prec, scope))
         }
 
         Ok(Self { label, arguments })
diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index 8b71bea..10c1c1c 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -4,7 +4,7 @@ use crate::{
     InternalError,
 };
 
-use super::{Chunk, ChunkVariant, Environment, IntoChunks};
+use super::{Chunk, ChunkVariant, Environment, IntoChunks, Scope};
 
 use std::{fmt::Display, mem, str::FromStr};
 
@@ -268,7 +268,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                 ast1::ChunkVariant::Command(c) => {
                     if !matches!(c.label().as_str(), "begin" | "end") {
                         if buffer_stack.is_empty() {
-                            push_chunks!(ChunkVariant::Command(c.try_into()?));
+                            push_chunks!(ChunkVariant::Command(map_e!(c.try_into())));
                         } else {
                             push_buffer!(ast1::ChunkVariant::Command(c));
                         }
@@ -342,9 +342,23 @@ impl TryFrom<crate::ast1::Document> for Document {
                                 let arguments = std::mem::take(&mut env_args);
 
                                 let mut args_new = Vec::with_capacity(arguments.len());
+                                // line in which the current argument starts
+                                let mut arg_line = env_line_no
+                                    + prec_begin.matches('\n').count() as u32
+                                    + label.lines()
+                                    - 1;
 
                                 for (prec, scope) in arguments {
-                                    args_new.push((prec, scope.try_into()?))
+                                    arg_line += prec.matches('\n').count() as u32;
+
+                                    let lines = scope.lines();
+                                    let scope = Scope::try_from(scope).map_err(|mut e| {
+                                        e.line += arg_line - 1;
+                                        e
+                                    })?;
+
+                                    arg_line += lines - 1;
+                                    args_new.push((prec, scope))
                                 }
 
                                 chunks.push(Chunk::new_unchecked(
-- 
2.43.0


From 1703098463d37f860933b57529a50ec8ddeed0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:30 +0000
Subject: [PATCH 27/27] fix: count the lines of stage 3 errors inside scopes,
 arguments and environments from the start of the text

---
 src/ast3/command.rs     | 13 ++++++++++++-
 src/ast3/document.rs    |  7 ++++++-
 src/ast3/environment.rs | 20 ++++++++++++++++++--
 src/ast3/mathsblock.rs  | 16 +++++++++++++---
 4 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/src/ast3/command.rs b/src/ast3/command.rs
index 48ccd85..518addf 100644
--- a/src/ast3/command.rs
+++ b/src/ast3/command.rs
@@ -68,9 +68,20 @@ impl TryFrom<ast2::Command> for Command {
         let (label, args) = value.decompose();
 
         let mut args_new = Vec::with_capacity(args.len());
+        // lines between the command and its current argument
+        let mut offset = label.matches('\n').count() as u32;
 
         for (prec, scope) in args {
-            args_new.push((prec, scope.try_into()?));
+            offset += prec.matches('\n').count() as u32;
+
+            let lines = scope.lines();
+            let scope = Scope::try_from(scope).map_err(|mut e| {
+                e.line += offset;
+                e
+            })?;
+
+            offset += lines - 1;
+            args_new.push((prec, scope));
         }
 
         Ok(Self::new_unchecked(label, args_new))
diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index c4e867b..098c93f 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -342,7 +342,12 @@ impl TryFrom<ast2::Document> for Document {
                 {
                     trailing_start = line_no + env.lines() - 1;
 
-                    let (_, args, content, begin, end) = Environment::try_from(env)?.decompose();
+                    let (_, args, content, begin, end) = Environment::try_from(env)
+                        .map_err(|mut e| {
+                            e.line += line_no - 1;
+                            e
+                        })?
+                        .decompose();
                     construct.body_args = args;
                     construct.body = content;
                     construct.body_begin_prec = begin;
diff --git a/src/ast3/environment.rs b/src/ast3/environment.rs
index e382aad..1bc6824 100644
--- a/src/ast3/environment.rs
+++ b/src/ast3/environment.rs
@@ -89,15 +89,31 @@ impl TryFrom<ast2::Environment> for Environment {
         let (label, args, content, prec_begin, prec_end) = value.decompose();
 
         let mut args_new = Vec::with_capacity(args.len());
+        // lines between the environment and its current argument, or its content
+        let mut offset = (prec_begin.matches('\n').count() + label.matches('\n').count()) as u32;
 
         for (prec, scope) in args {
-            args_new.push((prec, scope.try_into()?));
+            offset += prec.matches('\n').count() as u32;
+
+            let lines = scope.lines();
+            let scope = Scope::try_from(scope).map_err(|mut e| {
+                e.line += offset;
+                e
+            })?;
+
+            offset += lines - 1;
+            args_new.push((prec, scope));
         }
 
+        let content = MathsBlock::from_chunks(content).map_err(|mut e| {
+            e.line += offset;
+            e
+        })?;
+
         Ok(Self::new_unchecked(
             label,
             args_new,
-            Paragraph::from_chunks(MathsBlock::from_chunks(content)?),
+            Paragraph::from_chunks(content),
             prec_begin,
             prec_end,
         ))
diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 309d956..fb0f4b4 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -98,6 +98,16 @@ impl MathsBlock {
         for chunk in chunks {
             let (line_no, variant) = chunk.decompose();
 
+            // map errors inside the chunk to their absolute line number
+            macro_rules! map_e {
+                ($x:expr) => {
+                    $x.map_err(|mut e: crate::Error| {
+                        e.line += line_no - 1;
+                        e
+                    })?
+                };
+            }
+
             match variant {
                 ast2::ChunkVariant::Command(cmd)
                     if mode == MathsMode::None && matches!(cmd.label().as_str(), ")" | "]") =>
@@ -196,19 +206,19 @@ impl MathsBlock {
                 ast2::ChunkVariant::Scope(s) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
                         line_no,
-                        ChunkVariant::Scope(s.try_into()?),
+                        ChunkVariant::Scope(map_e!(s.try_into())),
                     ));
                 }
                 ast2::ChunkVariant::Environment(env) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
                         line_no,
-                        ChunkVariant::Environment(env.try_into()?),
+                        ChunkVariant::Environment(map_e!(env.try_into())),
                     ));
                 }
                 ast2::ChunkVariant::Command(cmd) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
                         line_no,
-                        ChunkVariant::Command(cmd.try_into()?),
+                        ChunkVariant::Command(map_e!(cmd.try_into())),
                     ));
                 }
                 ast2::ChunkVariant::Text(s)
-- 
2.43.0

