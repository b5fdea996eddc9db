"""Writes properties.jsonl (kept as a script so the text stays readable)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
        "mechanism": [dict(name=a, where=b) for a, b in mechanism],
        "observe_at": observe, "hook_needed": None}})

prop("C01", "A completed draw shows exactly what was last written",
 "Whenever a draw completes while the size the library last observed is the terminal's real size, every cell of the terminal shows the character, text styles and opaque foreground and background colours of the last write (or clear fill) that covered it, and a blank where nothing did, for incremental and full draws and for any origin - a full draw even if something else has overwritten the display -, with SVG exports in between changing nothing. This holds after every interleaving of single and bulk writes, of spans or of strings with style and colour sequences, clears, draws and terminal resizes noticed through a size query; such a resize keeps the overlapping content and every cell is shown correctly again after the next draw. Scope: single-width printable text, writes that start on the screen; colours of equal value count as the same; after the origin is changed only a full draw counts.",
 ["histories", "schedules", "inputs"], "every history of write / write_bulk / clear / draw / size queries, with the terminal resized (and its display garbled) at any instant between them",
 "tests call draw once on a fixed screen; none resizes a terminal, redraws coloured content or draws incrementally after several overlapping writes",
 ["slate/screen.py", "slate/terminal.py", "slate/span.py", "slate/color.py"],
 [("cell diffing into a change buffer", "slate/screen.py Screen.write_bulk"), ("change buffer and full rendering", "slate/screen.py Screen.render"), ("re-laying out the cells", "slate/screen.py Screen.resize"), ("resize listener", "slate/terminal.py Terminal.__post_init__")],
 ["the byte stream written by Terminal.draw, interpreted by a terminal emulator"],
 [("cells", "what the screen believes is displayed", "slate/screen.py Screen"), ("change buffer", "cells to transmit at the next draw", "slate/screen.py ChangeBuffer")])

prop("C02", "A failed or interrupted draw loses no change",
 "If the output stream fails or the draw is interrupted at any point (nothing, part or all of the data delivered; on write or on flush), the error reaches the caller and no pending change is forgotten: the first later draw that completes leaves the whole display correct, as in C01. Drawing depends on and affects nothing but its output stream: it creates no file and does not fail because of the state of the file system or working directory.",
 ["fault_sequences", "histories"], "every placement of write errors, short writes, flush errors and interrupts over every history of writes and draws, repeated failures included",
 "no test makes a stream fail; StringIO never does",
 ["slate/terminal.py", "slate/screen.py"],
 [("rendering consumes the change buffer", "slate/screen.py Screen.render"), ("draw writes and flushes the stream", "slate/terminal.py Terminal.draw")],
 ["the emulated display after the first draw that succeeds", "calls reaching the file system"])

prop("C03", "Draws transmit only changed cells and write counts are truthful",
 "Between two completed draws only cells covered by a write, clear or noticed resize in between are printed, each at most once per draw, and rewriting content that is already there, at the same place in the same spans, prints nothing and is counted as 0 updated cells. A write or bulk write returns the number of on-screen cells it updated: at least those whose visible content changed, never more than the distinct on-screen cells it covered, and exactly the latter when overwriting is forced, in which case all of them are printed by the next draw.",
 ["histories", "inputs"], "every history of writes, forced writes, bulk writes, clears, resizes and draws",
 "one test counts changes of one write; it fails at the pinned commit and never looks at what a draw emits after several writes",
 ["slate/screen.py", "slate/terminal.py"],
 [("comparison with the stored cell", "slate/screen.py Screen.write_bulk"), ("clearing the change buffer", "slate/screen.py Screen.render"), ("force_overwrite", "slate/screen.py Screen.write_bulk")],
 ["cells printed by each draw, as seen by the emulator", "return values of write and write_bulk"])

prop("C04", "The cursor follows every write and writing wraps and clips",
 "A write without a position continues exactly where the previous write ended, and the terminal's cursor attribute reports that place: text advances one column per character, wraps from the last column to the first column of the next row, and an assignment to the cursor or a clear (which moves it to the top-left corner) takes effect for the next write. Characters that fall right of, above, left of or (by wrapping) below the screen are dropped and never painted elsewhere, at any screen size.",
 ["histories", "schedules", "inputs"], "every history of positioned and unpositioned writes, cursor assignments, clears and resizes",
 "tests for it exist but fail at the pinned commit, and each tries one write",
 ["slate/screen.py", "slate/terminal.py"],
 [("cursor of the screen", "slate/screen.py Screen.write / write_bulk"), ("wrapping and bounds check", "slate/screen.py Screen.write_bulk"), ("cursor property", "slate/terminal.py Terminal.cursor")],
 ["Terminal.cursor", "positions painted on the emulated display"])

prop("C05", "Typed input is delivered exactly once and in order",
 "Every byte that arrives on the terminal is returned by raw key reads (timed or not) exactly once and in order, decoded with the stream's encoding, however the bytes are split, delayed or typed ahead of the call, and each call returns as soon as some complete character is there and none is waiting, together with everything that was waiting. Undecodable bytes never swallow or alter the valid characters around them. This also holds for reads of a terminal other than standard input, none of whose input turns up elsewhere, not even after it was closed and its descriptor is used again. When the terminal hangs up, a read returns (an empty key once nothing is left) or raises the error instead of spinning or blocking forever. (Ctrl-C is the kernel's: it discards what was typed before it and was not yet read.)",
 ["schedules", "fault_sequences", "inputs"], "every arrival schedule of every byte string: splits inside multi-byte characters, type-ahead between calls, end of file and read errors at any byte",
 "the reading path is marked no-cov: no test has a terminal on stdin",
 ["slate/core.py"],
 [("reading until nothing is ready", "slate/core.py _getch_posix"), ("incremental decoding", "slate/core.py _getch_posix"), ("switching the terminal to cbreak mode", "slate/core.py _getch_posix")],
 ["raw results of getch / getch_timeout compared with the bytes the simulated line discipline accepted"])

prop("C06", "Terminal line settings survive every way a key read can end",
 "However a key read (timed or not) or a terminal query that reads a reply ends - with input, fed text, time-out, Ctrl-C, end of file or a read error, at any instant it can be waiting - the terminal's line settings afterwards are exactly those it had before the call. While it waits, keys are available without Enter and are not echoed, and Ctrl-C is reported as the ctrl-c key instead of killing the program.",
 ["fault_sequences", "schedules", "configurations"], "every initial line setting and every interrupt, time-out, hang-up or error during any system call the read makes",
 "no test reads from a terminal, let alone interrupts the read",
 ["slate/core.py", "slate/terminal.py"],
 [("save and restore of the settings around the read", "slate/core.py _getch_posix"), ("KeyboardInterrupt translated to a key", "slate/core.py getch")],
 ["simulated termios attributes before, during and after each call"])

prop("C07", "A timed key read is on time and gives the right answer",
 "A timed key read returns the input if any arrived (or was fed) before the time-out and the given default otherwise, no later than the time-out, and never raises because time ran out. Input arriving around or after the deadline is never lost: it is returned by this call or by the next one. Afterwards nothing is left behind: the call leaves no timer armed, the program's own alarm handler is still installed, an alarm the program itself had set still goes off, and the call works from any thread. Changes of the wall clock do not matter. Scope: time-outs of 0 or more seconds, no Ctrl-C.",
 ["schedules", "fault_sequences"], "every ordering of input arrival, deadline and slow system calls, on the main or another thread, with or without an application alarm handler",
 "needs control over the clock and the arrival of keys; the code is marked no-cov",
 ["slate/core.py"],
 [("timed reading", "slate/core.py getch_timeout")],
 ["return value, simulated time, signal dispositions and timers after the call, next reads"])

prop("C08", "Fed text is delivered exactly once, in order, and wakes a waiting read",
 "Text passed to feed, by any number of threads at any time, is returned by key reads exactly once, unaltered and in feeding order, ahead of terminal input that is still waiting, and no terminal input is lost because of it. A key read that is already waiting returns as soon as text is fed, and a read that starts when fed text is pending returns it without waiting.",
 ["schedules", "histories"], "every interleaving, at statement level, of feeding threads with the reading thread and with key arrivals",
 "no test calls feed; the losing interleavings need a thread switch inside feed or inside the read",
 ["slate/core.py"],
 [("shared buffer of fed text", "slate/core.py feed, _getch_posix")],
 ["results of reads against a FIFO model with real-time order"],
 [("feeder stream", "text fed and not yet read", "slate/core.py")])

prop("C09", "Key and mouse bursts get their names and no input crashes a read",
 "A key sequence that arrives in one burst is reported under its names whatever was read before it, an SGR mouse report as mouse:<modifiers><button or direction>_<click|release|drag>, hover or scroll at its coordinates (only clicks have releases) with modifiers in the order shift, ctrl, option, and any other text verbatim; raw reads are always verbatim. (Of a burst with a mouse report and something else in it, only the absence of exceptions is promised.) No input whatsoever, including malformed, truncated or unknown reports, other terminal replies and text with semicolons, makes a read raise.",
 ["inputs", "schedules", "histories"], "every byte sequence cut into bursts in every way, across successive reads and feeds",
 "two mouse reports are parsed in isolation; nothing reads a stream",
 ["slate/core.py", "slate/key_names.py"],
 [("mouse report parsing", "slate/core.py parse_mouse_event"), ("event table", "slate/core.py _build_event, MOUSE_EVENTS"), ("key table", "slate/key_names.py POSIX_KEY_NAMES")],
 ["possible values of the keys returned by getch"])

prop("C10", "Terminal queries give the terminal's answer or the fallback, in time",
 "Querying the default colours (also at import), the pixel resolution or synchronized-update support returns what the terminal answered when its reply arrives as one burst, with nothing else waiting, within the waiting time, for every reply latency and thread schedule, also of a terminal given a stream of its own while standard output is redirected, and the documented fallback when the reply is missing, late, cut, malformed or the streams are no terminal or closed; the reply about one default colour is never taken for the other. Where there is no terminal, the default colours and the resolution are not asked for. A query takes less than a second, never raises because of what the terminal sent, and leaves echo and line settings as they were.",
 ["schedules", "fault_sequences", "configurations"], "every latency, loss, truncation or corruption of the reply, and every interleaving of the reader thread with the query",
 "tests run with stdin not a terminal, so only the constant fallback is ever returned",
 ["slate/core.py", "slate/terminal.py"],
 [("reader thread and query", "slate/core.py get_default_color"), ("pixel size query", "slate/terminal.py Terminal.resolution"), ("mode query", "slate/terminal.py Terminal.supports_synchronized_update")],
 ["values returned, simulated time taken, line settings"])

prop("C11", "Mode contexts take effect inside and are undone on every exit path",
 "Inside alt_buffer, report_mouse, batch and no_echo the terminal really is in the alternate buffer (with the cursor hidden unless asked otherwise), reporting mouse events (movement included) in SGR form, in synchronized update, or not echoing. Leaving them - in any nesting of different kinds, normally or through an exception, interrupt or generator close raised at any point of the body, including by a failed draw - leaves the terminal in the main buffer with the cursor shown (where the context hid it; an alt_buffer that was asked not to hide it leaves it alone), not reporting, not in synchronized update, and echoing if and only if it did before; the exception reaches the caller.",
 ["histories", "fault_sequences"], "every nesting and order of the contexts and every point at which the body is abandoned",
 "all of these are marked no-cov; no test enters any of them",
 ["slate/terminal.py", "slate/core.py"],
 [("try/finally in the context managers", "slate/terminal.py alt_buffer, no_echo, report_mouse, batch"), ("control sequences", "slate/core.py"), ("echo flag", "slate/core.py set_echo")],
 ["modes of the emulated terminal and the simulated tty's ECHO flag"])

prop("C12", "Each noticed resize is announced once, with everything consistent",
 "The size, width and height attributes always return the terminal's current size (80 x 24 where it cannot be told). Every query that observes a size different from the previously observed one announces it to each resize listener exactly once, with that size, before returning, after the screen has already taken the new size; a query that observes no change announces nothing. This also holds when listeners themselves query the size, write or draw, when a listener raises (the error reaches the caller and the resize is not announced again), and when the terminal is resized again at any moment. Scope: one thread.",
 ["schedules", "histories"], "every sequence of resizes placed at any instant relative to size queries, including inside listeners",
 "one test reads the size once with no listener and no real change",
 ["slate/terminal.py", "slate/event.py"],
 [("comparison with the previous size", "slate/terminal.py Terminal.size"), ("emission", "slate/event.py Event.__call__")],
 ["listener calls, returned sizes, area painted by draws"],
 [("previous size", "size the library last observed", "slate/terminal.py Terminal")])

prop("C13", "A colour space change governs everything written after it",
 "After the library's terminal is given a colour space (or the override is removed and the environment decides), every colour of everything written to it afterwards, including by colours and spans that were created and used before, is sent in that space: 24-bit codes only in true colour, 256-palette codes in 8-bit, the 16 standard codes in standard, and greyscale palette entries only in no-colour. Each change is announced to its listeners exactly once with the value given, when it is already in force, a listener's error reaches the caller, and a palette colour is sent as given where the space allows. Scope: opaque colours; content that is already on the screen need not be sent again.",
 ["histories", "configurations"], "every sequence of colour space changes, environment changes and writes sharing colour and span objects",
 "the test sets one override and compares the attribute; nothing is drawn, and no colour is reused across spaces",
 ["slate/color.py", "slate/terminal.py", "slate/core.py", "slate/screen.py"],
 [("translation of a colour", "slate/color.py Color.ansi"), ("override", "slate/terminal.py Terminal.color_space"), ("ordering of spaces", "slate/core.py ColorSpace")],
 ["SGR codes in the drawn stream"])

prop("C14", "The window title found at start is always given back",
 "For any sequence of title changes (any strings, repeated, including the empty string), resets, and entries and exits of the alternate buffer, normal or exceptional: the window shows the last title set, and after a reset or after leaving the alternate buffer it shows the title it had before the application's first change since the last restoration. The terminal's title stack is always left as it was found: never popped beyond what the library pushed, and never left with an extra entry. Scope: titles without control characters, alternate buffer blocks that are not nested.",
 ["histories", "fault_sequences"], "every history of set_title, set_title(None) and alt_buffer uses, with the body abandoned at any point",
 "no test sets a title",
 ["slate/terminal.py", "slate/core.py"],
 [("store, set and restore sequences", "slate/terminal.py Terminal.set_title"), ("restoration on exit", "slate/terminal.py Terminal.alt_buffer")],
 ["title and title stack of the emulated terminal"],
 [("custom title", "whether a title was stored", "slate/terminal.py Terminal")])

prop("C15", "Emitting an event reaches every listener once, in order",
 "Emitting an event calls every listener that was registered before the emission started, exactly once per registration, in registration order and with the emitted data, and returns whether any of them returned True, also when other threads or listeners register more listeners or emit the same event meanwhile. (Whether listeners registered or cleared while an emission runs are reached by it is left open.) A registration is never lost, and nothing that cannot be called is ever registered with +=. Events do not share listeners. A listener's exception reaches the emitter, and the event keeps working with the same listeners; clearing removes all listeners for later emissions.",
 ["schedules", "histories"], "every interleaving of registrations, emissions and clears from several threads, and listeners that register, emit or raise",
 "tests emit once to one listener",
 ["slate/event.py"],
 [("listener list and emission loop", "slate/event.py Event")],
 ["recorded listener calls and return values"])

prop("C16", "A timed block is cut at its deadline and leaves no alarm behind",
 "A block run under timeout(d) is abandoned, silently, once d seconds have passed while it is still running, and runs to its end undisturbed otherwise; other exceptions it raises pass through unchanged. Whatever way the block ends, no alarm of it ever goes off later - the clean-up code of a block that was cut is not disturbed -, and the program's own alarm handler is in place again. Scope: blocks that are not nested, d above 0.",
 ["schedules", "fault_sequences"], "every duration of the block's waits relative to the deadline, exceptions at any point, and any prior alarm handler",
 "marked no-cov; a real test would have to sleep, and cannot see an alarm that fires later",
 ["slate/core.py"],
 [("SIGALRM based context manager", "slate/core.py timeout")],
 ["simulated clock, alarm deliveries, signal disposition after the block"])

pure = "pure function of its arguments: hand-picked inputs only"
prop("C17", "Styled strings parse back to the spans that produced them",
 "Rendering spans to a string and parsing that string yields spans with the same text, styles and colours.",
 ["inputs"], "every list of spans", pure, ["slate/span.py"], [("parser", "slate/span.py Span.yield_from")], ["Span.yield_from"])
prop("C18", "Colour conversions stay in range and pick the nearest representable colour",
 "Blending, shading, hue shifting and conversion to each colour space yield valid colours within the target palette, closest by the documented metric, with contrast satisfying the W3C threshold.",
 ["inputs"], "every colour and parameter", pure, ["slate/color.py"], [("colour arithmetic", "slate/color.py Color")], ["Color methods"])
prop("C19", "An SVG export shows exactly the screen's content at one moment",
 "An SVG export, made at any point of a history of writes, clears, draws (failed ones too) and resizes - the window may change size just before or during the export, noticed or not - is well-formed XML and shows the screen as it was at one moment: the image has the size that many cells take, and every cell shows its character at its place, in its opaque foreground and background colour (the default ones where it has none, exchanged if inverted), bold, italic, dimmed, underlined or struck through as it was written, and nothing else is shown. Blanks show their background too. Exporting sends nothing and changes neither the screen nor the cursor, for any font size and default colours.",
 ["histories", "schedules", "inputs"], "every history of writes, clears, draws and resizes before an export, and every instant at which the window changes size during it",
 "not tested at all; what is exported depends on everything written so far and on when the window was resized",
 ["slate/screen.py", "slate/span.py", "slate/terminal.py"],
 [("grouping of equal cells", "slate/span.py Span.group"), ("serialisation", "slate/span.py Span.as_svg, Span.get_svg_styles; slate/screen.py Screen.export_svg_with_styles"), ("frame and size of the image", "slate/terminal.py Terminal.export_svg")],
 ["the exported text, parsed as XML and CSS"])
prop("C20", "Visual width ignores control sequences",
 "The width of a string is the number of printable characters in it, escape sequences excluded.",
 ["inputs"], "every string", pure, ["slate/core.py"], [("regular expression", "slate/core.py width")], ["width"])
prop("C21", "Layered translucent writes blend in order within one bulk write",
 "Within one bulk write, later translucent layers tint what lies beneath and keep the text under blank characters; opaque layers replace it.",
 ["inputs"], "every bulk write", "one failing test with constant values", ["slate/screen.py"], [("alpha stack", "slate/screen.py Screen.write_bulk")], ["Screen.write_bulk"])
prop("C22", "Colour space detection follows the environment variables",
 "The detected colour space is decided by SLATE_COLORSYS, NO_COLOR, COLORTERM and TERM in that order.",
 ["configurations"], "every environment", "four environments tried", ["slate/core.py"], [("detection", "slate/core.py get_color_space")], ["get_color_space"])
prop("C23", "Spans are immutable values",
 "Slicing, splitting and mutating a span yields spans with the same attributes and the selected text, leaving the original unchanged.",
 ["inputs"], "every span and slice", pure, ["slate/span.py"], [("mutate", "slate/span.py Span.mutate")], ["Span methods"])

prop("C24", "Terminals do not interfere with each other",
 "Several Terminal objects on different streams can be used alternately in any order: every operation on one (writes, clears, draws that complete or fail, cursor moves, size queries, title, mode and colour space changes) leaves the others' display, output, cursor, title, modes and listeners exactly as they were, and each behaves as C01 to C04, C12 and C14 say of it alone, also when the same spans and colours are written to several of them and when one has noticed a resize that another has not.",
 ["histories", "fault_sequences"], "every interleaving of operations on two or three terminals, with failing streams and resizes in between",
 "no test uses two terminals",
 ["slate/terminal.py", "slate/screen.py", "slate/event.py", "slate/span.py"],
 [("state kept per object", "slate/terminal.py Terminal, slate/screen.py Screen, slate/event.py Event"), ("cached spans and characters shared by all", "slate/span.py Span.get_characters")],
 ["the emulated displays and output of all terminals after each operation on one"])

prop("C25", "The command line tools report what the terminal does and always end",
 "Run on a terminal, `slate getch` shows its prompt, waits for one burst of input (or Ctrl-C) and prints the names C09 gives it, separated by ' | ' (single characters, and everything under --raw, as Python literals); `slate size` prints the current size; `slate debug` prints the current size, the environment variables and colour space, and the default colours and synchronized update support as C10 has them. On any terminal - mute, slow, sending cut, malformed or unasked-for replies, hung up - or without one, `size` and `debug` end normally within a few seconds, no command raises because of what the terminal sent, and line settings are afterwards as before.",
 ["schedules", "inputs", "fault_sequences"], "every terminal behaviour (reply, latency, loss, malformed or foreign replies, resizes) and every burst of input at every instant",
 "no test runs the program",
 ["slate/__main__.py", "slate/core.py", "slate/terminal.py"],
 [("commands", "slate/__main__.py run_getch, run_size, run_debug"), ("queries", "slate/terminal.py Terminal"), ("key reads", "slate/core.py getch")],
 ["what the program printed, when, and the line settings afterwards"])

prop("C26", "Controls reach the terminal at once, whole and in order",
 "When bell, show_cursor, set_report_mouse or a flushed write_control returns, its effect (for write_control: exactly the given text) has reached the terminal, once, after everything sent or drawn before it; this holds every time it is called, whatever was sent by other means meanwhile and also after the terminal was given another stream. Text given to write_control with flush=False is not pushed out by that call, and arrives unaltered and in order no later than the next flushed control or completed draw. Controls, and the mode contexts other than alt_buffer, change nothing else: not the display, the pending changes or the screen's cursor; drawing in turn changes no mode, and writing, clearing, moving the cursor and querying the size send nothing. If the stream fails, the error reaches the caller and later controls and draws have their full effect again.",
 ["histories", "fault_sequences"], "every interleaving of flushed and unflushed controls with writes and draws on streams that buffer, and every point at which the stream fails",
 "all of these are marked no-cov; no test looks at the order of what reaches the stream",
 ["slate/terminal.py", "slate/core.py"],
 [("direct writing to the stream", "slate/terminal.py Terminal.write_control"), ("switches", "slate/terminal.py Terminal.show_cursor, set_report_mouse, bell"), ("draw writes and flushes the stream", "slate/terminal.py Terminal.draw")],
 ["the characters that reached the terminal after each call", "modes of the emulated terminal"])

prop("C27", "A write, clear or size query that is cut short leaves the screen consistent",
 "If a write or write_bulk within the screen, or a clear, is cut short at any point - by Ctrl-C, by whatever else a signal handler raises, or because the data it was given raises - that very error reaches the caller, and the screen stays usable and truthful: after the next draw every cell the call would have changed shows either what it held before or what it was to hold, every other cell is untouched, and the display shows exactly what the screen holds (a forced redraw changes nothing). The same call made again, and every later write, clear, resize and draw, has its full effect. Only where the cursor is left by the call that was cut short is open. Likewise a size query that is cut short, by Ctrl-C or by an error of a resize listener, raises that very error; whether listeners heard of the change is then open, and the next query that completes leaves the screen with the terminal's size and the content both sizes share.",
 ["fault_sequences", "histories"], "every statement of a write or clear at which an interrupt can strike, every point at which the data can raise, in every history of writes and draws",
 "tests never interrupt a call; which statement is struck decides what is lost",
 ["slate/screen.py", "slate/terminal.py"],
 [("cells and change buffer updated in step", "slate/screen.py Screen.write_bulk, Screen.resize, Screen.invalidate"), ("render after an interruption", "slate/screen.py Screen.render")],
 ["the emulated display after later draws", "the error the caller receives"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
