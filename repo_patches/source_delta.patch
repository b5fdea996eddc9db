From f9d354578487f533cf26d8c1972b5a202ef8c966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:02 +0000
Subject: [PATCH 01/35] fix: writing without a position continues at the cursor

Screen.write passed cursor=None on to write_bulk, which unpacked it (TypeError),
and nothing moved the cursor any more.
---
 slate/screen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index 5e39f90..d1278ea 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -190,7 +190,8 @@ class Screen:
 
             alpha_matrix.append(line)
 
-        for ((x, y), line) in data:
+        for cursor, line in data:
+            x, y = self.cursor if cursor is None else cursor
             line = list(line)
             last = len(line) - 1
 
@@ -243,6 +244,8 @@ class Screen:
 
                     x, y = next_x, next_y
 
+            self.cursor = x, y
+
         changes = 0
 
         for y, line in enumerate(write_matrix):
-- 
2.43.0


From 2c80c9d77bca4751adba8a35f9fba6fc5267502b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:02 +0000
Subject: [PATCH 02/35] fix: force_overwrite registers every written cell as a
 change

The argument was accepted and ignored.
---
 slate/screen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/screen.py b/slate/screen.py
index d1278ea..6566db7 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -287,7 +287,7 @@ class Screen:
 
                 new = (char, fg, bg)
 
-                if new != self._cells[y][x]:
+                if force_overwrite or new != self._cells[y][x]:
                     self._cells[y][x] = new
 
                     colors = []
-- 
2.43.0


From c83b9a3f98478ed08d08841839a00d6b15144d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:02 +0000
Subject: [PATCH 03/35] fix: a full redraw keeps the colors of the cells

Only the characters and their text styles were written, so every color vanished and
styles ran on into the cells that follow.
---
 slate/screen.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index 6566db7..843865e 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -33,6 +33,17 @@ def _get_blended(
     return base.blend(other, min(other.alpha+alpha_addition, 1.0), is_background=is_background)  # type: ignore
 
 
+def _get_ansi(char: str, fg: Color | None, bg: Color | None) -> str:
+    """Returns the string that draws a cell with the given content."""
+
+    color = ";".join(layer.ansi for layer in (fg, bg) if layer is not None)
+
+    if color:
+        return f"\x1b[{color}m{char}\x1b[0m"
+
+    return char
+
+
 class ChangeBuffer:
     """A simple class that keeps track of x, y positions of changed characters."""
 
@@ -290,17 +301,9 @@ class Screen:
                 if force_overwrite or new != self._cells[y][x]:
                     self._cells[y][x] = new
 
-                    colors = []
-                    if fg is not None:
-                        colors.append(fg.ansi)
-                    if bg is not None:
-                        colors.append(bg.ansi)
-                    color = ";".join(colors)
-
-                    if color:
-                        char = f"\x1b[{color}m{char}\x1b[0m"
-
-                    self._change_buffer[x, y] = char + ("\n" if has_newline else "")
+                    self._change_buffer[x, y] = _get_ansi(*new) + (
+                        "\n" if has_newline else ""
+                    )
 
                     changes += 1
 
@@ -320,7 +323,7 @@ class Screen:
             buffer = ""
 
             for row in self._cells:
-                buffer += f"\x1b[{y};{x}H" + "".join(str(item) for item, *_ in row)
+                buffer += f"\x1b[{y};{x}H" + "".join(_get_ansi(*cell) for cell in row)
                 y += 1
 
             self._change_buffer.clear()
-- 
2.43.0


From fd1b583066ce5c7ee65d795df0e8959b8d98a7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:02 +0000
Subject: [PATCH 04/35] fix: resizing redraws the kept content instead of
 blanking it

resize registered the fill character as the change of every cell, also of those whose
content it kept, and left changes of cells that no longer exist in the buffer.
---
 slate/screen.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index 843865e..2cc0ac1 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -107,14 +107,12 @@ class Screen:
 
         cells: list[list[tuple[str, Color | None, Color | None]]] = []
         cells_append = cells.append
-        change_buffer = self._change_buffer.__setitem__
 
         for y in range(height):
             row: list[tuple[str, Color | None, Color | None]] = []
 
             for x in range(width):
                 row.append((fillchar, None, None))
-                change_buffer((x, y), fillchar)
 
             cells_append(row)
 
@@ -133,6 +131,16 @@ class Screen:
         self.height = height
 
         self._cells = cells
+        self.invalidate()
+
+    def invalidate(self) -> None:
+        """Registers every cell as changed, so the next render draws all of them."""
+
+        self._change_buffer.clear()
+
+        for y, row in enumerate(self._cells):
+            for x, cell in enumerate(row):
+                self._change_buffer[x, y] = _get_ansi(*cell)
 
     def clear(self, fillchar: str = " ") -> None:
         """Clears the screen's entire matrix.
-- 
2.43.0


From a9933cd2e770566e2643a34a1e0e11cbe7ebbc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:02 +0000
Subject: [PATCH 05/35] fix: drawing does not write a screen.txt into the
 working directory

A debugging leftover, which also made every draw fail in a directory that cannot be
written to.
---
 slate/terminal.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index c9f81bf..ed63e8b 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -406,9 +406,6 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         ansi = self._screen.render(origin=self.origin, redraw=redraw)
 
-        with open("screen.txt", "w") as f:
-            f.write(ansi)
-
         self.stream.write(ansi)
         self.stream.flush()
 
-- 
2.43.0


From 30f9175f4f8494b84c6a5b8d4de2721ef62c061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:02 +0000
Subject: [PATCH 06/35] fix: a draw that fails does not lose the pending
 changes

The changes were dropped before the stream had accepted them, so an error or interrupt
while writing left the display out of step for good.
---
 slate/terminal.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index ed63e8b..b9deb33 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -74,6 +74,7 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
     _previous_size: tuple[int, int] | None = None
     _forced_color_space: ColorSpace | None = None
     _custom_title: str | None = None
+    _draw_failed: bool = False
 
     def __post_init__(self) -> None:
         self._screen = Screen(*self.size)
@@ -404,10 +405,22 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
                 writing changes.
         """
 
-        ansi = self._screen.render(origin=self.origin, redraw=redraw)
+        try:
+            ansi = self._screen.render(origin=self.origin, redraw=redraw)
+
+            if self._draw_failed:
+                ansi = "\x1b[0m" + ansi
+
+            self.stream.write(ansi)
+            self.stream.flush()
+
+        except BaseException:
+            # There is no telling how much got through, so all of it is due again.
+            self._screen.invalidate()
+            self._draw_failed = True
+            raise
 
-        self.stream.write(ansi)
-        self.stream.flush()
+        self._draw_failed = False
 
     def bell(self) -> None:  # no-cov
         """Plays the terminal's bell sound."""
-- 
2.43.0


From 99248b1b6dc5adb99fe2dc9e082accda0d93f01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:02 +0000
Subject: [PATCH 07/35] fix: the last character of a span keeps its styles when
 reset_after is off

---
 slate/span.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index 87c8564..bf891ab 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -441,10 +441,10 @@ class Span:  # pylint: disable=too-many-instance-attributes
                 remaining_sequences = ""
 
         if self.text != "":
-            last = self.text[-1]
+            last = remaining_sequences + self.text[-1]
 
             if sequences != "" and self.reset_after:
-                last = remaining_sequences + last + "\x1b[0m"
+                last += "\x1b[0m"
 
             chars.append(last)
 
-- 
2.43.0


From 98268ab2e6ff4caec8111df8baa3714564c5e8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:02 +0000
Subject: [PATCH 08/35] fix: write_bulk accepts strings, as documented

---
 slate/terminal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index b9deb33..01d811b 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -375,7 +375,10 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
             The number of cells that have been updated as a result of the write.
         """
         changes = self._screen.write_bulk(
-            data,
+            [
+                (cursor, Span.yield_from(line) if isinstance(line, str) else line)
+                for cursor, line in data
+            ],
             force_overwrite=force_overwrite,
             terminal_background=self.background_color.as_background()
         )
-- 
2.43.0


From 3cdcfaa9c4184958ea10f2c873512fc5eea72c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:02 +0000
Subject: [PATCH 09/35] fix: resize listeners can query the terminal's size

The new size was only remembered after notifying the listeners, so one that looked at
the size was notified again, without end.
---
 slate/terminal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index 01d811b..f04f935 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -145,10 +145,10 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         size = get_terminal_size()
 
-        if self._previous_size is not None and size != self._previous_size:
-            self.on_resize(size)
+        previous, self._previous_size = self._previous_size, size
 
-        self._previous_size = size
+        if previous is not None and size != previous:
+            self.on_resize(size)
 
         return size
 
-- 
2.43.0


From df5c5a8283e5e4b17b07fd88f98fc05e03eef3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:00 +0000
Subject: [PATCH 10/35] fix: text that wraps below the screen does not scroll
 it

Whether to scroll was decided for each span of a line after earlier spans had wrapped,
with loop variables the inner loop had overwritten, and the scroll offset was subtracted
once per span. It also modified the character list cached by the span.
---
 slate/screen.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index 2cc0ac1..c953c52 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -214,24 +214,30 @@ class Screen:
             line = list(line)
             last = len(line) - 1
 
+            # A line that starts below the screen scrolls it, one that wraps there is cut
+            scrolls = y - self._scrollback_offset > self.height - 1
+
+            if scrolls:
+                self._scrollback_offset = y - self.height + 1
+
+                self._cells.pop(0)
+                self._cells.append([("", None, None)] * self.width)
+
+            y -= self._scrollback_offset
+
             for i, span in enumerate(line):
                 foreground, background = span.foreground, span.background
                 background = background
                 bg_has_alpha = background is not None and background.alpha != 1.0
 
-                chars = span.get_characters(exclude_color=True, always_include_sequence=True)
+                # The characters are cached by the span, so only ever change a copy
+                chars = list(span.get_characters(exclude_color=True, always_include_sequence=True))
                 chars_len = len(chars)
 
-                if i == last and y - self._scrollback_offset > self.height - 1:
-                    self._scrollback_offset = y - self.height + 1
-                    chars[-1] = chars[-1] + "\n" 
-
-                    self._cells.pop(0)
-                    self._cells.append([("", None, None)] * self.width)
-
-                y -= self._scrollback_offset
+                if scrolls and i == last and chars:
+                    chars[-1] = chars[-1] + "\n"
 
-                for i, char in enumerate(chars):
+                for j, char in enumerate(chars):
                     if self.width <= x or x < 0 or self.height <= y or y < 0:
                         break
 
@@ -239,7 +245,7 @@ class Screen:
                         y += 1
                         continue
 
-                    last = i == chars_len - 1
+                    is_last = j == chars_len - 1
 
                     next_x, next_y = x + 1, y
 
@@ -259,11 +265,11 @@ class Screen:
                         final_bg = write_matrix[y][x][2]
                         final_char = char if not empty else write_matrix[y][x][0]
 
-                    write_matrix[y][x] = (final_char, final_fg, final_bg, last, char != final_char)
+                    write_matrix[y][x] = (final_char, final_fg, final_bg, is_last, char != final_char)
 
                     x, y = next_x, next_y
 
-            self.cursor = x, y
+            self.cursor = x, y + self._scrollback_offset
 
         changes = 0
 
-- 
2.43.0


From a7c83ab1b045ee1563038db540833691265dbd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:07 +0000
Subject: [PATCH 11/35] fix: key reads end when the terminal is closed and
 survive undecodable bytes

---
 slate/core.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index 7e2db8e..1e1d1a0 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -400,7 +400,7 @@ def _getch_posix(  # pylint: disable=used-before-assignment
     # TODO: Both of these should be proper module-level functions to aviod
     #       constant redefiniton.
     if stream.encoding is not None:
-        decode = getincrementaldecoder(stream.encoding)().decode
+        decode = getincrementaldecoder(stream.encoding)("replace").decode
 
     else:
 
@@ -415,10 +415,11 @@ def _getch_posix(  # pylint: disable=used-before-assignment
         while len(buff) < count:
             char = os.read(stream.fileno(), 1)
 
-            try:
-                buff += decode(char)
-            except UnicodeDecodeError:
-                buff += str(char)
+            # The other end is gone, nothing is ever going to come
+            if not char:
+                break
+
+            buff += decode(char)
 
         return buff
 
@@ -438,7 +439,12 @@ def _getch_posix(  # pylint: disable=used-before-assignment
         buff += _read(1)
 
         while _is_ready(stream):
-            buff += _read(1)
+            char = _read(1)
+
+            if not char:
+                break
+
+            buff += char
 
     finally:
         # reset terminal state, set echo on
-- 
2.43.0


From 3ee563ee689300223d93d1972672fce78517bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:09 +0000
Subject: [PATCH 12/35] fix: key reads neither discard typed-ahead input nor
 leave settings changed when interrupted

---
 slate/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index 1e1d1a0..5207103 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -431,11 +431,13 @@ def _getch_posix(  # pylint: disable=used-before-assignment
 
     descriptor = stream.fileno()
     old_settings = termios.tcgetattr(descriptor)
-    tty.setcbreak(descriptor)
 
     buff = ""
 
     try:
+        # Unlike the default, this doesn't discard what has already been typed
+        tty.setcbreak(descriptor, termios.TCSANOW)
+
         buff += _read(1)
 
         while _is_ready(stream):
@@ -448,7 +450,7 @@ def _getch_posix(  # pylint: disable=used-before-assignment
 
     finally:
         # reset terminal state, set echo on
-        termios.tcsetattr(descriptor, termios.TCSADRAIN, old_settings)
+        termios.tcsetattr(descriptor, termios.TCSANOW, old_settings)
 
     return buff
 
-- 
2.43.0


From 5ad70f95e92ee24f3f9cf5904a2f7736eb74a5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:50 +0000
Subject: [PATCH 13/35] fix: timed key reads are on time, lose no input and
 work without an alarm

---
 slate/core.py | 133 ++++++++++++++++++++++++++++----------------------
 1 file changed, 76 insertions(+), 57 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index 5207103..1fb0c37 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -13,11 +13,13 @@ import re
 import signal
 import sys
 import threading
-from codecs import getincrementaldecoder
+from codecs import IncrementalDecoder, getincrementaldecoder
 from contextlib import contextmanager
 from dataclasses import dataclass
 from enum import Enum
+from functools import lru_cache
 from select import select
+from time import monotonic
 from typing import IO, Any, AnyStr, Generator, Literal, TextIO, Iterator
 from io import StringIO
 
@@ -332,18 +334,21 @@ def parse_mouse_event(code: str) -> str | None:
     return f"mouse:{event_name}@{posx};{posy}"
 
 
-def _is_ready(file: IO[AnyStr]) -> bool:  # no-cov
+def _is_ready(
+    file: IO[AnyStr], duration: float | None = 0.0
+) -> bool:  # no-cov
     """Determines if IO object is reading to read.
 
     Args:
         file: An IO object of any type.
+        duration: How long to wait for content, in seconds. Waits forever if None.
 
     Returns:
         A boolean describing whether the object has unread
         content.
     """
 
-    result = select([file], [], [], 0.0)
+    result = select([file], [], [], duration)
     return len(result[0]) > 0
 
 
@@ -385,43 +390,31 @@ def feed(text: str) -> None:
     feeder_stream.seek(0)
 
 
+# The start of a character may arrive well before the rest of it does, so the decoders
+# outlive the calls that use them.
+@lru_cache
+def _get_decoder(descriptor: int, encoding: str) -> IncrementalDecoder:
+    """Returns the decoder for the given descriptor."""
+
+    return getincrementaldecoder(encoding)("replace")
+
+
 def _getch_posix(  # pylint: disable=used-before-assignment
     stream: TextIO = sys.stdin,
-) -> str:  # no-cov
+    duration: float | None = None,
+) -> str | None:  # no-cov
     """Implementation for getting characters on POSIX systems.
 
     Args:
         stream: The stream to read from. Defaults to `sys.stdin`.
+        duration: How long to wait for input, in seconds. Waits forever if None.
 
     Returns:
-        The maximum-length sequence of characters that could be read.
+        The maximum-length sequence of characters that could be read, or None if there
+        was nothing to read for the given duration.
     """
 
-    # TODO: Both of these should be proper module-level functions to aviod
-    #       constant redefiniton.
-    if stream.encoding is not None:
-        decode = getincrementaldecoder(stream.encoding)("replace").decode
-
-    else:
-
-        def decode(item: str) -> str:
-            return item
-
-    def _read(count: int) -> str:
-        """Reads `count` elements of the stream."""
-
-        buff = ""
-
-        while len(buff) < count:
-            char = os.read(stream.fileno(), 1)
-
-            # The other end is gone, nothing is ever going to come
-            if not char:
-                break
-
-            buff += decode(char)
-
-        return buff
+    deadline = None if duration is None else monotonic() + duration
 
     if fed_content := feeder_stream.getvalue():
         feeder_stream.truncate(0)
@@ -430,6 +423,7 @@ def _getch_posix(  # pylint: disable=used-before-assignment
         return fed_content
 
     descriptor = stream.fileno()
+    decoder = _get_decoder(descriptor, stream.encoding or "utf-8")
     old_settings = termios.tcgetattr(descriptor)
 
     buff = ""
@@ -438,15 +432,27 @@ def _getch_posix(  # pylint: disable=used-before-assignment
         # Unlike the default, this doesn't discard what has already been typed
         tty.setcbreak(descriptor, termios.TCSANOW)
 
-        buff += _read(1)
+        while True:
+            wait = None if deadline is None else max(deadline - monotonic(), 0.0)
+
+            if not _is_ready(stream, 0.0 if buff else wait):
+                return buff or None
 
-        while _is_ready(stream):
-            char = _read(1)
+            char = os.read(descriptor, 1)
+            buff += decoder.decode(char, not char)
 
+            # The other end is gone, nothing is ever going to come
             if not char:
                 break
 
-            buff += char
+    except KeyboardInterrupt:
+        decoder.reset()
+        raise
+
+    except OSError:
+        # The error is going to be back for the next read
+        if not buff:
+            raise
 
     finally:
         # reset terminal state, set echo on
@@ -490,21 +496,14 @@ def _getch_nt() -> str:  # no-cov
     return buff
 
 
-def getch(stream: TextIO = sys.stdin, raw: bool = False) -> Key:  # no-cov
-    """Gets characters from the stream, without blocking.
-
-    The implementation is different on POSIX and NT systems, and this method
-    always selects the correct one.
-
-    Args:
-        stream: The stream to read from. Defaults to `sys.stdin`. Note that this is
-            not used on Windows, as the `msvcrt.getch` function does not support
-            alternate streams.
-        raw: If set, the returned string will not be converted to its canonical name,
-            e.g. '\\x1b[D' -> 'left' or '\\x01' -> 'ctrl-a'.
+def _get_key(
+    stream: TextIO, raw: bool, duration: float | None = None
+) -> Key | None:  # no-cov
+    """Implementation of `getch` and `getch_timeout`.
 
     Returns:
-        The longest sequence of characters that could be read from the stream.
+        The key read from the stream, or None if there was nothing to read for the
+        given duration.
     """
 
     if not stream.isatty():
@@ -521,11 +520,14 @@ def getch(stream: TextIO = sys.stdin, raw: bool = False) -> Key:  # no-cov
     # POSIX interrupts on ctrl-c, so we 'emulate' the input when `KeyboardInterrupt`
     # is raised.
     try:
-        key = _getch_posix(stream)
+        key = _getch_posix(stream, duration)
 
     except KeyboardInterrupt:
         key = chr(3)
 
+    if key is None:
+        return None
+
     if raw:
         return Key((key,))
 
@@ -535,16 +537,35 @@ def getch(stream: TextIO = sys.stdin, raw: bool = False) -> Key:  # no-cov
     return Key(POSIX_KEY_NAMES.get(key, (key,)))
 
 
+def getch(stream: TextIO = sys.stdin, raw: bool = False) -> Key:  # no-cov
+    """Gets characters from the stream, without blocking.
+
+    The implementation is different on POSIX and NT systems, and this method
+    always selects the correct one.
+
+    Args:
+        stream: The stream to read from. Defaults to `sys.stdin`. Note that this is
+            not used on Windows, as the `msvcrt.getch` function does not support
+            alternate streams.
+        raw: If set, the returned string will not be converted to its canonical name,
+            e.g. '\\x1b[D' -> 'left' or '\\x01' -> 'ctrl-a'.
+
+    Returns:
+        The longest sequence of characters that could be read from the stream.
+    """
+
+    return _get_key(stream, raw)
+
+
 def getch_timeout(
     duration: float,
     default: str | None = None,
     stream: TextIO = sys.stdin,
     raw: bool = False,
 ) -> Key:  # no-cov
-    """Calls `getch` with a system timeout.
+    """Calls `getch`, giving up once the given duration has passed.
 
-    Note that this on Windows this will call `getch` normally, as `SIGALRM` is not
-    supported on those systems.
+    Note that this on Windows this will call `getch` normally.
 
     Args:
         duration: The timeout's length, in seconds.
@@ -560,14 +581,12 @@ def getch_timeout(
         otherwise `default`.
     """
 
-    # TODO: Potentially look into a Thread-based solution here.
-    if os.name == "nt":
-        return getch(stream=stream, raw=raw)
+    key = _get_key(stream, raw, duration)
 
-    with timeout(duration):
-        return getch(stream=stream, raw=raw)
+    if key is None:
+        return default
 
-    return default
+    return key
 
 
 def set_echo(value: bool = True) -> None:  # no-cov
-- 
2.43.0


From 78916c4afa25c77a02bd54aa5c9f64c75b6f6a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:49 +0000
Subject: [PATCH 14/35] fix: feeding is safe from any thread, keeps what was
 fed before and wakes waiting reads

---
 slate/core.py | 79 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 51 insertions(+), 28 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index 1fb0c37..0d184f8 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -13,6 +13,7 @@ import re
 import signal
 import sys
 import threading
+from collections import deque
 from codecs import IncrementalDecoder, getincrementaldecoder
 from contextlib import contextmanager
 from dataclasses import dataclass
@@ -20,8 +21,7 @@ from enum import Enum
 from functools import lru_cache
 from select import select
 from time import monotonic
-from typing import IO, Any, AnyStr, Generator, Literal, TextIO, Iterator
-from io import StringIO
+from typing import Any, AnyStr, Generator, Literal, TextIO, Iterator
 
 from .color import color, Color
 from .key_names import NT_KEY_NAMES, POSIX_KEY_NAMES
@@ -165,7 +165,14 @@ RE_ANSI = re.compile(r"(?:\x1b\[(.*?)[mH])|(?:\x1b\](.*?)\x1b\\)|(?:\x1b_G(.*?)\
 
 DEFAULT_COLOR_DEFAULTS = {"10": color("#dedede"), "11": color("#141414")}
 
-feeder_stream = StringIO()
+# Appending to and popping from a deque are both atomic, so any thread can feed. The
+# pipe is what wakes up the reads that are already waiting.
+_feed_queue: deque[str] = deque()
+
+if os.name == "posix":
+    _feed_wakeup, _feed_signal = os.pipe()
+    os.set_blocking(_feed_wakeup, False)
+    os.set_blocking(_feed_signal, False)
 
 
 def width(text: str | Span) -> int:
@@ -334,24 +341,6 @@ def parse_mouse_event(code: str) -> str | None:
     return f"mouse:{event_name}@{posx};{posy}"
 
 
-def _is_ready(
-    file: IO[AnyStr], duration: float | None = 0.0
-) -> bool:  # no-cov
-    """Determines if IO object is reading to read.
-
-    Args:
-        file: An IO object of any type.
-        duration: How long to wait for content, in seconds. Waits forever if None.
-
-    Returns:
-        A boolean describing whether the object has unread
-        content.
-    """
-
-    result = select([file], [], [], duration)
-    return len(result[0]) > 0
-
-
 @contextmanager
 def timeout(duration: float) -> Generator[None, None, None]:  # no-cov
     """Allows context to run for a certain amount of time, quits it once it's up.
@@ -386,8 +375,31 @@ def feed(text: str) -> None:
     This can be used to manually "interrupt" an ongoing getch call.
     """
 
-    feeder_stream.write(text)
-    feeder_stream.seek(0)
+    if text == "":
+        return
+
+    _feed_queue.append(text)
+
+    if os.name != "posix":
+        return
+
+    try:
+        os.write(_feed_signal, b"\0")
+    except BlockingIOError:
+        # The pipe is full, so the reads will be woken up regardless
+        pass
+
+
+def _get_fed() -> str:
+    """Removes and returns everything that has been fed so far."""
+
+    fed = ""
+
+    while True:
+        try:
+            fed += _feed_queue.popleft()
+        except IndexError:
+            return fed
 
 
 # The start of a character may arrive well before the rest of it does, so the decoders
@@ -416,10 +428,7 @@ def _getch_posix(  # pylint: disable=used-before-assignment
 
     deadline = None if duration is None else monotonic() + duration
 
-    if fed_content := feeder_stream.getvalue():
-        feeder_stream.truncate(0)
-        feeder_stream.seek(0)
-
+    if fed_content := _get_fed():
         return fed_content
 
     descriptor = stream.fileno()
@@ -434,10 +443,24 @@ def _getch_posix(  # pylint: disable=used-before-assignment
 
         while True:
             wait = None if deadline is None else max(deadline - monotonic(), 0.0)
+            files = [descriptor] if buff else [descriptor, _feed_wakeup]
+            ready = select(files, [], [], 0.0 if buff else wait)[0]
 
-            if not _is_ready(stream, 0.0 if buff else wait):
+            if not ready:
                 return buff or None
 
+            if _feed_wakeup in ready:
+                try:
+                    os.read(_feed_wakeup, 4096)
+                except BlockingIOError:
+                    # Some other read got here first
+                    pass
+
+                if fed_content := _get_fed():
+                    return fed_content
+
+                continue
+
             char = os.read(descriptor, 1)
             buff += decoder.decode(char, not char)
 
-- 
2.43.0


From f060f20b478ac1106f7a4f9b4d459c2c0422535a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:56 +0000
Subject: [PATCH 15/35] fix: querying the default colors ends when the terminal
 does not reply

---
 slate/core.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index 0d184f8..205821f 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -12,7 +12,6 @@ import os
 import re
 import signal
 import sys
-import threading
 from collections import deque
 from codecs import IncrementalDecoder, getincrementaldecoder
 from contextlib import contextmanager
@@ -250,26 +249,18 @@ def get_default_color(
         a leading hash.
     """
 
-    if not sys.stdin.isatty():
+    if not sys.stdin.isatty() or not stream.isatty():
         return DEFAULT_COLOR_DEFAULTS[layer]
- 
-    resp = [""]
-
-    def _read():
-        resp[0] = getch()
-
-    t = threading.Thread(target=_read)
-    t.start()
 
     stream.flush()
     stream.write(f"\x1b]{layer};?\x1b\\")
     stream.flush()
-    t.join()
 
-    reply = str(resp[0])
+    # Some terminals never reply
+    reply = str(getch_timeout(0.5, default="", raw=True))
 
     mtch = RE_PALETTE_REPLY.match(reply)
-    if mtch is None:
+    if mtch is None or mtch[1] != layer:
         return DEFAULT_COLOR_DEFAULTS[layer]
 
     _, red, green, blue = mtch.groups()
-- 
2.43.0


From c45e46226d7918e0ff45062d3a576a7058bada01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:58 +0000
Subject: [PATCH 16/35] fix: no_echo and the queries using it leave echoing as
 it was

---
 slate/core.py     | 13 +++++++++++++
 slate/terminal.py |  5 ++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/slate/core.py b/slate/core.py
index 205821f..c7ca460 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -42,6 +42,7 @@ __all__ = [
     "getch_timeout",
     "get_default_color",
     "get_color_space",
+    "get_echo",
     "feed",
     "Key",
     "set_echo",
@@ -603,6 +604,18 @@ def getch_timeout(
     return key
 
 
+def get_echo() -> bool:  # no-cov
+    """Gets the terminal's ECHO flag.
+
+    Always True on windows, or when there is no terminal.
+    """
+
+    if os.name == "nt" or not sys.stdin.isatty():
+        return True
+
+    return bool(termios.tcgetattr(sys.stdin.fileno())[3] & termios.ECHO)
+
+
 def set_echo(value: bool = True) -> None:  # no-cov
     """Sets the terminal's ECHO flag to the given value.
 
diff --git a/slate/terminal.py b/slate/terminal.py
index f04f935..cff32b6 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -24,6 +24,7 @@ from .core import (
     ColorSpace,
     get_color_space,
     get_default_color,
+    get_echo,
     getch_timeout,
     set_echo,
 )
@@ -244,12 +245,14 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
     def no_echo(self) -> Generator[None, None, None]:  # no-cov
         """Temporarily disables echoing in the terminal."""
 
+        echo = get_echo()
+
         try:
             set_echo(False)
             yield
 
         finally:
-            set_echo(True)
+            set_echo(echo)
 
     @contextmanager
     def report_mouse(self) -> Generator[None, None, None]:  # no-cov
-- 
2.43.0


From 55cde09020d5c53d9ece314325ea1b00f2e9767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:58 +0000
Subject: [PATCH 17/35] fix: only mouse reports are read as mouse events, and
 no input crashes getch

---
 slate/core.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index c7ca460..519521e 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -161,6 +161,8 @@ RE_PALETTE_REPLY = re.compile(
     r"\x1b]((?:10)|(?:11));rgb:([0-9a-f]{4})\/([0-9a-f]{4})\/([0-9a-f]{4})\x1b\\"
 )
 
+RE_MOUSE_EVENT = re.compile(r"\x1b\[<([0-9]+);([0-9]+);([0-9]+)([Mm])")
+
 RE_ANSI = re.compile(r"(?:\x1b\[(.*?)[mH])|(?:\x1b\](.*?)\x1b\\)|(?:\x1b_G(.*?)\x1b\\)")
 
 DEFAULT_COLOR_DEFAULTS = {"10": color("#dedede"), "11": color("#141414")}
@@ -316,14 +318,13 @@ def parse_mouse_event(code: str) -> str | None:
             mouse:{event_name}@{event_x};{event_y}
     """
 
-    if code == "\x1b" or code.count(";") != 2:
-        return None
+    mtch = RE_MOUSE_EVENT.fullmatch(code)
 
-    sequence = code.lstrip("\x1b[<")
-    event, posx, posy_pressed = sequence.split(";")
+    if mtch is None or mtch[1] not in MOUSE_EVENTS:
+        return None
 
-    posy = posy_pressed[:-1]
-    pressed = posy_pressed[-1] == "M"
+    event, posx, posy, state = mtch.groups()
+    pressed = state == "M"
 
     event_name = MOUSE_EVENTS[event]
 
@@ -546,7 +547,9 @@ def _get_key(
     if raw:
         return Key((key,))
 
-    if event := parse_mouse_event("\x1b" + key.split("\x1b")[-1]):
+    _, escape, last = key.rpartition("\x1b")
+
+    if event := parse_mouse_event(escape + last):
         return Key((event,))
 
     return Key(POSIX_KEY_NAMES.get(key, (key,)))
-- 
2.43.0


From 56cbae413635edd03e52c2369b5c4dc4e2c8b530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:00 +0000
Subject: [PATCH 18/35] fix: the home and end keys are not swapped

---
 slate/key_names.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/key_names.py b/slate/key_names.py
index 743214b..9f43ef4 100644
--- a/slate/key_names.py
+++ b/slate/key_names.py
@@ -61,8 +61,8 @@ POSIX_KEY_NAMES = {  # pylint: disable=cyclic-import
     "\x1b[1;5B": ("ctrl-down",),
     "\x1b[1;5C": ("ctrl-right",),
     "\x1b[1;5D": ("ctrl-left",),
-    "\x1b[H": ("end",),
-    "\x1b[F": ("home",),
+    "\x1b[H": ("home",),
+    "\x1b[F": ("end",),
     "\x1b[2~": ("insert",),
     "\x1b[3~": ("delete",),
     "\x1b[Z": ("shift-tab",),
-- 
2.43.0


From 525124ee47c2b550ef35b3c1d9a1fdd98289e06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:01 +0000
Subject: [PATCH 19/35] fix: batch sends the sequences of the synchronized
 update protocol

---
 slate/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index 519521e..f2322fe 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -154,8 +154,8 @@ SET_TITLE = "\x1b]0;{title}\a"
 RESTORE_TITLE = "\x1b[23;0t"
 
 QUERY_SYNCHRONIZED_UPDATE = "\x1b[?2026$p"
-BEGIN_SYNCHRONIZED_UPDATE = "\x1b[?2026$h"
-END_SYNCHRONIZED_UPDATE = "\x1b[?2026$l"
+BEGIN_SYNCHRONIZED_UPDATE = "\x1b[?2026h"
+END_SYNCHRONIZED_UPDATE = "\x1b[?2026l"
 
 RE_PALETTE_REPLY = re.compile(
     r"\x1b]((?:10)|(?:11));rgb:([0-9a-f]{4})\/([0-9a-f]{4})\/([0-9a-f]{4})\x1b\\"
-- 
2.43.0


From 4344197964f154baedf3d0e768d7b1d610c5baa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:02 +0000
Subject: [PATCH 20/35] fix: timeout gives the alarm signal back to the program

---
 slate/core.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index f2322fe..bcc5adc 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -349,17 +349,23 @@ def timeout(duration: float) -> Generator[None, None, None]:  # no-cov
     def _raise_timeout(sig: int, frame: Any) -> None:
         raise TimeoutException("The action has timed out.")
 
+    # set the timeout handler
+    old_handler = signal.signal(signal.SIGALRM, _raise_timeout)
+
     try:
-        # set the timeout handler
-        signal.signal(signal.SIGALRM, _raise_timeout)
-        signal.setitimer(signal.ITIMER_REAL, duration)
-        yield
+        try:
+            signal.setitimer(signal.ITIMER_REAL, duration)
+            yield
+
+        finally:
+            # time may be up before this is done, so it needs the handler below
+            signal.alarm(0)
 
     except TimeoutException:
         pass
 
     finally:
-        signal.alarm(0)
+        signal.signal(signal.SIGALRM, old_handler)
 
 
 def feed(text: str) -> None:
-- 
2.43.0


From a9509f20bf08301dd4078389a30f139340c11569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:36 +0000
Subject: [PATCH 21/35] fix: colors are sent in the color space in use, not the
 one of their first use

---
 slate/color.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/slate/color.py b/slate/color.py
index 7791ac0..e6b9e1a 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -137,6 +137,10 @@ class Color:  # pylint: disable = too-many-instance-attributes
     _origin_colorspace: str = "true_color"
     _constructor: str | None = None
 
+    _ansi: dict[str, str] = field(
+        init=False, repr=False, compare=False, default_factory=dict
+    )
+
     def __post_init__(self) -> None:
         def _set_field(
             key: str, value: float | str | tuple[float, float, float] | ColorSpace
@@ -265,13 +269,24 @@ class Color:  # pylint: disable = too-many-instance-attributes
 
         return WHITE
 
-    @cached_property
+    @property
     def ansi(self) -> str:
-        """Returns the ANSI code that represents this color."""
+        """Returns the ANSI code that represents this color in the color space in use."""
 
         from .terminal import (  # pylint: disable=import-outside-toplevel, cyclic-import
             terminal,
         )
+
+        space = terminal.color_space
+
+        if space.value not in self._ansi:
+            self._ansi[space.value] = self._get_ansi(space)
+
+        return self._ansi[space.value]
+
+    def _get_ansi(self, space: ColorSpace) -> str:
+        """Returns the ANSI code that represents this color in the given color space."""
+
         from .core import (  # pylint: disable=import-outside-toplevel, cyclic-import
             ColorSpace,
         )
@@ -280,18 +295,18 @@ class Color:  # pylint: disable = too-many-instance-attributes
 
         origin = ColorSpace(self._origin_colorspace)
 
-        if terminal.color_space >= origin and (
+        if space >= origin and (
             self._constructor is not None and not self._constructor.startswith("#")
         ):
             return self._constructor
 
-        if terminal.color_space is ColorSpace.TRUE_COLOR:
+        if space is ColorSpace.TRUE_COLOR:
             return f"{lead};2;{';'.join(map(str, self.rgb))}"
 
-        if terminal.color_space is ColorSpace.NO_COLOR:
+        if space is ColorSpace.NO_COLOR:
             return f"{lead};5;{min(232 + self.brightness*23, 255):.0f}"
 
-        if terminal.color_space is ColorSpace.EIGHT_BIT:
+        if space is ColorSpace.EIGHT_BIT:
             # Normalize the color values
             red, green, blue = (x / 255 for x in self.rgb)
 
@@ -303,7 +318,7 @@ class Color:  # pylint: disable = too-many-instance-attributes
 
             return f"{lead};5;{index}"
 
-        if terminal.color_space is ColorSpace.STANDARD:
+        if space is ColorSpace.STANDARD:
             rgb = self.rgb
 
             index = min(
-- 
2.43.0


From 5d9e988bd77f00fbd68c3c38bcfa82cd1ecc7202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:33 +0000
Subject: [PATCH 22/35] fix: no colored codes are sent in the no_color color
 space

---
 slate/color.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/slate/color.py b/slate/color.py
index e6b9e1a..22628cb 100644
--- a/slate/color.py
+++ b/slate/color.py
@@ -293,6 +293,10 @@ class Color:  # pylint: disable = too-many-instance-attributes
 
         lead = 38 + 10 * self.is_background
 
+        # This is no color at all, so not even the standard ones can be used
+        if space is ColorSpace.NO_COLOR:
+            return f"{lead};5;{min(232 + self.brightness*23, 255):.0f}"
+
         origin = ColorSpace(self._origin_colorspace)
 
         if space >= origin and (
@@ -303,9 +307,6 @@ class Color:  # pylint: disable = too-many-instance-attributes
         if space is ColorSpace.TRUE_COLOR:
             return f"{lead};2;{';'.join(map(str, self.rgb))}"
 
-        if space is ColorSpace.NO_COLOR:
-            return f"{lead};5;{min(232 + self.brightness*23, 255):.0f}"
-
         if space is ColorSpace.EIGHT_BIT:
             # Normalize the color values
             red, green, blue = (x / 255 for x in self.rgb)
-- 
2.43.0


From 2f4d9d5efae191f09d213fca1c2be655330d3f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:38 +0000
Subject: [PATCH 23/35] fix: translucent layers do not tint what is written
 over them

---
 slate/screen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slate/screen.py b/slate/screen.py
index c953c52..52322ad 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -265,6 +265,10 @@ class Screen:
                         final_bg = write_matrix[y][x][2]
                         final_char = char if not empty else write_matrix[y][x][0]
 
+                    else:
+                        # Whatever tinted this cell so far has been overwritten
+                        alpha_matrix[y][x].clear()
+
                     write_matrix[y][x] = (final_char, final_fg, final_bg, is_last, char != final_char)
 
                     x, y = next_x, next_y
-- 
2.43.0


From 3488cf883a989afcaaf47b7b8c885060d1cb2e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:33 +0000
Subject: [PATCH 24/35] fix: the window title is stored once and restored only
 when it was stored

---
 slate/terminal.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index cff32b6..b7894db 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -236,7 +236,7 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         finally:
             self.write_control(END_ALT_BUFFER)
-            self.write_control(RESTORE_TITLE)
+            self.set_title(None)
 
             if hide_cursor:
                 self.show_cursor(True)
@@ -291,11 +291,13 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
         """
 
         if new is None:
-            self.write_control(RESTORE_TITLE)
-            self._custom_title = None
+            if self._custom_title is not None:
+                self.write_control(RESTORE_TITLE)
+                self._custom_title = None
+
             return
 
-        if not self._custom_title:
+        if self._custom_title is None:
             self.write_control(STORE_TITLE)
 
         self.write_control(SET_TITLE.format(title=new))
-- 
2.43.0


From 1910aa19a073bb3c52bd22c30a3cdb680c7b1c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:18 +0000
Subject: [PATCH 25/35] fix: listeners that change an event's listeners do not
 disturb its emission

---
 slate/event.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slate/event.py b/slate/event.py
index fd7ad49..116c78b 100644
--- a/slate/event.py
+++ b/slate/event.py
@@ -51,7 +51,8 @@ class Event(Generic[T]):
 
         output = False
 
-        for callback in self._listeners:
+        # Callbacks can change the listeners, which only counts from the next call on
+        for callback in list(self._listeners):
             output |= callback(data) or False
 
         return output
-- 
2.43.0


From 9c24c7e8aefa1e10b467917bdffe614a5df3b5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:56 +0000
Subject: [PATCH 26/35] fix: styled strings keep their leading text and may
 reset and follow each other

---
 slate/span.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index bf891ab..1fb0da3 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -43,7 +43,7 @@ UNSETTERS = {
 
 UNSETTERS_TO_STYLES = {value: key for key, value in UNSETTERS.items()}
 
-RE_ANSI_STYLES = re.compile(r"\x1b\[(?:(.*?))[mH]([^\x1b]+)(?=\x1b)")
+RE_ANSI_STYLES = re.compile(r"\x1b\[([^\x1b]*?)[mH]")
 
 SVG_CHAR_WIDTH = 0.60167
 SVG_CHAR_HEIGHT = 1.265
@@ -189,6 +189,10 @@ def _parse_sequence(
 
             continue
 
+        if part in ["", "0"]:
+            options.clear()
+            continue
+
         if part in SETTERS_TO_STYLES:
             options[SETTERS_TO_STYLES[part]] = True
             continue
@@ -344,27 +348,23 @@ class Span:  # pylint: disable=too-many-instance-attributes
     def yield_from(cls, line: str) -> Generator[Span, None, None]:
         """Generates Span objects from the given line."""
 
-        # Add trailing ESC char to allow detection by regex
-        if not line.endswith("\x1b"):
-            line += "\x1b"
+        line = line.rstrip("\x1b")
 
         options: dict[str, str | bool | Color | None] = {}
 
         index = 0
         for mtch in RE_ANSI_STYLES.finditer(line):
+            if plain := line[index : mtch.start()]:
+                yield Span(plain, **options)  # type: ignore
+
             index = mtch.end()
-            sequence, plain = mtch.groups()
 
-            if (error_part := _parse_sequence(sequence, options)) is not None:
+            if (error_part := _parse_sequence(mtch[1], options)) is not None:
                 raise ValueError(f"Could not parse {error_part!r} in {line!r}.")
 
+        if plain := line[index:]:
             yield Span(plain, **options)  # type: ignore
 
-        line = line.rstrip("\x1b")
-
-        if index < len(line):
-            yield Span(line[index:])
-
     @classmethod
     def first_from(cls, line: str) -> Span | None:
         """Returns the first object generated by `yield_from_line`."""
-- 
2.43.0


From 55645593b34e3e3fc87065adbb35754c98adfca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:57 +0000
Subject: [PATCH 27/35] fix: unsetting a style in a string unsets the style
 spans have

---
 slate/span.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index 1fb0da3..33003de 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -32,10 +32,10 @@ UNSETTERS = {
     "italic": "23",
     "underline": "24",
     "blink": "25",
-    "blink2": "26",
+    "fast_blink": "26",
     "invert": "27",
-    "invisible": "28",
-    "strikethrough": "29",
+    "conceal": "28",
+    "strike": "29",
     "foreground": "39",
     "background": "49",
     "overline": "54",
-- 
2.43.0


From bf7764176561762d749c668e805a44fa62ffdf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:02 +0000
Subject: [PATCH 28/35] fix: an interrupt during a write is not swallowed

The bare except around a lookup that cannot fail also caught KeyboardInterrupt
and anything a signal handler raised there, and the write went on.
---
 slate/screen.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/slate/screen.py b/slate/screen.py
index 52322ad..252ab80 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -282,10 +282,7 @@ class Screen:
                 if cell is blank:
                     continue
 
-                try:
-                    alpha_stack = alpha_matrix[y][x]
-                except:
-                    alpha_stack = {}
+                alpha_stack = alpha_matrix[y][x]
 
                 char, fg, bg, last, bleedthrough = cell
                 fg = fg or Color.white()
-- 
2.43.0


From 09253c4a5df22c5ddc9eebc5e9625003c4e310ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:25 +0000
Subject: [PATCH 29/35] fix: a write or clear that is interrupted leaves the
 screen consistent

An exception raised in it (Ctrl+C, a time limit) could leave cells stored whose
change was not registered, so later draws never showed them. The screen now
remembers that it was interrupted and registers every cell again.
---
 slate/screen.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/slate/screen.py b/slate/screen.py
index 252ab80..eacc7f8 100644
--- a/slate/screen.py
+++ b/slate/screen.py
@@ -89,6 +89,9 @@ class Screen:
         self._cells: list[list[tuple[str, Color | None, Color | None]]] = []
         self._change_buffer = ChangeBuffer()
 
+        # Unset while cells and changes may differ, stays so if that was interrupted
+        self._consistent = True
+
         self.cursor: tuple[int, int] = cursor
         self._scrollback_offset = 0
 
@@ -127,6 +130,8 @@ class Screen:
 
                     cells[y][x] = char, fore, back
 
+        self._consistent = False
+
         self.width = width
         self.height = height
 
@@ -136,12 +141,15 @@ class Screen:
     def invalidate(self) -> None:
         """Registers every cell as changed, so the next render draws all of them."""
 
+        self._consistent = False
         self._change_buffer.clear()
 
         for y, row in enumerate(self._cells):
             for x, cell in enumerate(row):
                 self._change_buffer[x, y] = _get_ansi(*cell)
 
+        self._consistent = True
+
     def clear(self, fillchar: str = " ") -> None:
         """Clears the screen's entire matrix.
 
@@ -193,6 +201,9 @@ class Screen:
             The number of cells that have been updated as a result of the write.
         """
 
+        if not self._consistent:
+            self.invalidate()
+
         blank = (" ", None, terminal_background, False, False)
         write_matrix = [
             [blank] * self.width
@@ -276,6 +287,7 @@ class Screen:
             self.cursor = x, y + self._scrollback_offset
 
         changes = 0
+        self._consistent = False
 
         for y, line in enumerate(write_matrix):
             for x, cell in enumerate(line):
@@ -322,6 +334,8 @@ class Screen:
 
                     changes += 1
 
+        self._consistent = True
+
         return changes
 
 
@@ -332,6 +346,9 @@ class Screen:
             origin: The offset to apply to all positions.
         """
 
+        if not self._consistent:
+            self.invalidate()
+
         x, y = origin
 
         if redraw:
-- 
2.43.0


From 52787b0d39e4dd8d386ed006612fba848da70548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:13 +0000
Subject: [PATCH 30/35] fix: a size query that is interrupted is made up for by
 the next one

When it was cut short (Ctrl+C, a time limit) after the new size was noted and
before the screen had been resized, the screen kept the old size for good.
---
 slate/terminal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slate/terminal.py b/slate/terminal.py
index b7894db..83b3b43 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -151,6 +151,10 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
         if previous is not None and size != previous:
             self.on_resize(size)
 
+        elif previous is not None and size != (self._screen.width, self._screen.height):
+            # The query that noticed the resize was interrupted
+            self._screen.resize(size)
+
         return size
 
     @property
-- 
2.43.0


From dc05b11f917a58d1df0f15ca1571675c5b2d9ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:50 +0000
Subject: [PATCH 31/35] fix: what is left of a character does not outlive the
 stream it came from

---
 slate/core.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/slate/core.py b/slate/core.py
index bcc5adc..27e991b 100644
--- a/slate/core.py
+++ b/slate/core.py
@@ -17,10 +17,10 @@ from codecs import IncrementalDecoder, getincrementaldecoder
 from contextlib import contextmanager
 from dataclasses import dataclass
 from enum import Enum
-from functools import lru_cache
 from select import select
 from time import monotonic
 from typing import Any, AnyStr, Generator, Literal, TextIO, Iterator
+from weakref import WeakKeyDictionary
 
 from .color import color, Color
 from .key_names import NT_KEY_NAMES, POSIX_KEY_NAMES
@@ -402,12 +402,23 @@ def _get_fed() -> str:
 
 
 # The start of a character may arrive well before the rest of it does, so the decoders
-# outlive the calls that use them.
-@lru_cache
-def _get_decoder(descriptor: int, encoding: str) -> IncrementalDecoder:
-    """Returns the decoder for the given descriptor."""
+# outlive the calls that use them. They don't outlive the stream, as its descriptor may
+# be used again for something else.
+_decoders: WeakKeyDictionary[
+    TextIO, dict[str, IncrementalDecoder]
+] = WeakKeyDictionary()
 
-    return getincrementaldecoder(encoding)("replace")
+
+def _get_decoder(stream: TextIO) -> IncrementalDecoder:
+    """Returns the decoder for the given stream."""
+
+    encoding = stream.encoding or "utf-8"
+    decoders = _decoders.setdefault(stream, {})
+
+    if encoding not in decoders:
+        decoders[encoding] = getincrementaldecoder(encoding)("replace")
+
+    return decoders[encoding]
 
 
 def _getch_posix(  # pylint: disable=used-before-assignment
@@ -431,7 +442,7 @@ def _getch_posix(  # pylint: disable=used-before-assignment
         return fed_content
 
     descriptor = stream.fileno()
-    decoder = _get_decoder(descriptor, stream.encoding or "utf-8")
+    decoder = _get_decoder(stream)
     old_settings = termios.tcgetattr(descriptor)
 
     buff = ""
-- 
2.43.0


From 3af34a5c40bb1e09e67ddd97d65a0f7fbd5fae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:43 +0000
Subject: [PATCH 32/35] fix: SVG exports tell apart equal characters of
 different colors

---
 slate/span.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index 33003de..aeaad10 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -383,14 +383,17 @@ class Span:  # pylint: disable=too-many-instance-attributes
 
         group = EMPTY_SPAN
         attrs = EMPTY_SPAN.attrs | {"text": ""}
-        prev_str = ""
+        previous = None
 
-        for char, fg, bg in line:
+        for cell in line:
             # If the previous is completely equal skip parsing to a span
-            if str(char) == prev_str:
-                group = group.mutate(text=group.text + char[-1])
+            if cell == previous:
+                group = group.mutate(text=group.text + group.text[-1:])
                 continue
 
+            previous = cell
+            char, fg, bg = cell
+
             span = cls.first_from(char)
 
             if span is None:
@@ -409,7 +412,6 @@ class Span:  # pylint: disable=too-many-instance-attributes
                 yield group
 
             group = span
-            prev_str = str(group.mutate(reset_after=False))
             attrs = new_attrs
 
         if group is not None:
-- 
2.43.0


From 8e001f5a76b40551a5315f4b29333e06a29025cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:43 +0000
Subject: [PATCH 33/35] fix: SVG exports show strikethrough, also of underlined
 text

---
 slate/span.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slate/span.py b/slate/span.py
index aeaad10..127b84d 100644
--- a/slate/span.py
+++ b/slate/span.py
@@ -62,7 +62,7 @@ STYLE_TO_CSS = {
     "italic": ("font-style", "italic"),
     "dim": ("opacity", "0.7"),
     "underline": ("text-decoration", "underline"),
-    "strikethrough": ("text-decoration", "line-through"),
+    "strike": ("text-decoration", "line-through"),
     "overline": ("text-decoration", "overline"),
 }
 
@@ -469,7 +469,7 @@ class Span:  # pylint: disable=too-many-instance-attributes
 
             elif key in STYLE_TO_CSS and value:
                 key, value = STYLE_TO_CSS[key]
-                css[key] = value
+                css[key] = f"{css[key]} {value}" if key in css else value
 
         return css
 
-- 
2.43.0


From e3ed895e489a1a99e04464f1f64b2527b62aed97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:43 +0000
Subject: [PATCH 34/35] fix: the background of an SVG export has a valid color

---
 slate/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index 83b3b43..ab43dbf 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -475,7 +475,7 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
 
         background = (
             f"<rect width='{total_width}' height='{total_height}'"
-            + f" fill='#{background_color.hex}' rx='9px'></rect>"
+            + f" fill='{background_color.hex}' rx='9px'></rect>"
         )
 
         return SVG_TEMPLATE.format(
-- 
2.43.0


From 9f89fb1ee981f508e134576f0ad077528c1b3032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:44 +0000
Subject: [PATCH 35/35] fix: SVG exports have the size of the screen they show

---
 slate/terminal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slate/terminal.py b/slate/terminal.py
index ab43dbf..d9ebb5c 100644
--- a/slate/terminal.py
+++ b/slate/terminal.py
@@ -470,8 +470,9 @@ class Terminal:  # pylint: disable=too-many-public-methods, too-many-instance-at
         margin_x = 16
         margin_y = 16
 
-        total_width = self.width * SVG_CHAR_WIDTH * font_size + 2 * margin_x
-        total_height = self.height * SVG_CHAR_HEIGHT * font_size + 2 * margin_y
+        # The screen's size, as the terminal may have been resized since
+        total_width = self._screen.width * SVG_CHAR_WIDTH * font_size + 2 * margin_x
+        total_height = self._screen.height * SVG_CHAR_HEIGHT * font_size + 2 * margin_y
 
         background = (
             f"<rect width='{total_width}' height='{total_height}'"
-- 
2.43.0

