"""C05: typed input is delivered exactly once and in order."""

import errno

from ..keys import PLAIN, SAFE, Keyboard, Ledger, build_world, draw_piece

RULE = ("characters, escape sequences and pastes are cut into byte chunks that arrive at random "
        "instants (before, during and between reads, also in the middle of a character) while a "
        "program mixes timed and untimed reads; calls may be slow, reads may fail, Ctrl-C and "
        "hang-ups come at random. Non-trivial: at least two reads returned input and a chunk ended "
        "inside a character or arrived while a read was running")
REAL = ["slate.core (getch, getch_timeout, tty handling)", "standard tty module"]
STUBS = ["tty line discipline", "select", "os.read", "termios", "signals", "clock"]

INVALID = [b"\xff", b"\xfe", b"\xc0", b"\xf8", b"\x80", b"\xbf\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98"]


def build(c):
    w = build_world(c)
    w.encoding = c.weighted([(12, "utf-8"), (2, "latin-1"), (1, "ascii"), (1, "euc_jp"), (1, "gb18030"),
                             (1, "cp1252")])
    return w


def chunks(c, data: bytes):
    """Cuts data into pieces, sometimes at every byte."""

    kind = c.weighted([(4, "whole"), (3, "few"), (1, "bytes")])
    if kind == "whole" or len(data) < 2:
        return [data]
    if kind == "bytes" and len(data) < 100:
        return [data[i : i + 1] for i in range(len(data))]
    cuts = sorted({c.between(1, len(data) - 1) for _ in range(c.between(1, 3))})
    edges = [0, *cuts, len(data)]
    return [data[a:b] for a, b in zip(edges, edges[1:])]


def gap(c) -> int:
    return c.weighted([(3, 0), (2, 7), (3, 900), (3, 40_000), (2, 250_000), (1, 3_000_000)])


def encode(w, text: str) -> bytes:
    return text.encode(w.encoding, "ignore")


def script(w, kb, c, invalid: bool):
    """Schedules the typing; returns the valid characters of the invalid mode."""

    when = 0
    expected = ""
    for _ in range(c.between(1, 10)):
        c.begin()
        if invalid:
            data = b""
            for _ in range(c.between(1, 5)):
                if c.chance(2, 5):
                    bad = c.pick(INVALID)
                    data += bad
                    if bad[0] >= 0xC3 and bad[0] != 0xFF:
                        data += b"Q"
                        expected += "Q"
                else:
                    char = c.pick(SAFE)
                    data += encode(w, char)
                    expected += char
        else:
            data = encode(w, draw_piece(c, PLAIN))
            if c.chance(1, 60):
                w.sim.fire("large_paste")
                start = c.draw(10)
                text = "".join(f"{n}é" for n in range(start, start + c.pick([20, 60, 300, 1300])))
                data = encode(w, text)
        for piece in chunks(c, data):
            if piece:
                kb.type_at(when, piece)
                if not kb.w.encoding == "latin-1" and piece[-1] >= 0x80:
                    w.sim.probe("chunk_ends_in_multibyte")
            when += gap(c)
        if c.chance(1, 8) and not invalid:
            kb.ctrl_c_at(when)
        when += gap(c)
        c.end()
    when += 1 + gap(c)
    kb.type_at(when, b"Z")
    return expected + "Z", when


def execute(w):
    c = w.c
    kb = Keyboard(w, elsewhere=True)
    if c.chance(1, 3):
        kb.make_slow()
    invalid = w.encoding == "utf-8" and c.chance(1, 4)
    expected, last = script(w, kb, c, invalid)
    transient = c.chance(1, 8)
    if transient:
        def fault():
            w.tty.read_faults.append(errno.EIO)
            w.sim.log("the next read will fail")

        w.sim.at(c.draw(last + 1), fault)
    hangup = c.weighted([(5, None), (2, "eof"), (2, "error")])
    if hangup:
        def hang_up():
            w.sim.log("the terminal hangs up")
            w.sim.fire("hangup")
            if hangup == "eof":
                w.tty.eof = True
            else:
                w.tty.error = errno.EIO

        w.sim.at(last + c.pick([0, 0, 1, 500_000]), hang_up)
    ledger = Ledger(kb)
    got = ""
    returned = 0
    allow = (OSError,)

    def finished() -> bool:
        return "Z" in got[-1:] if invalid else (w.sim.now >= last and ledger.waiting() == 0)

    for _ in range(400):
        if finished():
            break
        c.begin()
        kb.think()
        if w.side is not None and c.chance(1, 4):
            kb.aside()
        timed = c.chance(1, 2)
        duration = c.pick([0.0, 0.001, 0.05, 0.3, 2.0, 10.0]) if timed else None
        out = kb.call(duration=duration, allow=allow, explicit=c.chance(1, 8))
        if out["error"] is not None and not (transient or hangup):
            w.sim.fail("raised", f"a key read raised {out['error']!r}")
        if out["error"] is not None:
            w.sim.probe("read_error_reached_caller")
            if hangup and w.sim.now >= last and ledger.waiting() == 0:
                break
        if out["text"] == "" and not out["timeout"]:
            if not hangup or not (w.tty.eof or w.tty.error):
                w.sim.fail("empty", "a key read returned nothing although the terminal is open")
            if not invalid and ledger.waiting():
                w.sim.fail("input", "a key read reported the hang-up before the waiting input")
        if invalid:
            got += "".join(ch for ch in (out["text"] or "") if ch in SAFE + "QZ")
        else:
            ledger.check(out, timing=not w.tty.read_faults and not transient)
        returned += bool(out["text"])
        c.end()
    else:
        w.sim.fail("stuck", "400 reads did not deliver the input")
    if invalid:
        if got != expected:
            w.sim.fail("input", f"valid characters {expected!r} became {got!r}")
        w.sim.probe("invalid_bytes_mode")
    # nothing may come twice, or out of nowhere
    w.slow = None
    kb.slow_total = 0
    if hangup:
        w.sim.sleep(1_000_000)
        w.tty.read_faults.clear()
        for _ in range(2):
            out = kb.call(duration=c.pick([None, 0.5]), allow=allow)
            if out["text"]:
                w.sim.fail("input", f"a read after the end returned {out['text']!r}")
            if out["end"] - out["start"] > 600_000:
                w.sim.fail("late", "a read of a hung-up terminal waited")
    else:
        w.tty.read_faults.clear()
        out = kb.call(duration=0.01)
        if not out["timeout"]:
            w.sim.fail("input", f"a read without input returned {out['text']!r}")
    if w.tty.queue:
        w.sim.fail("input", f"{bytes(w.tty.queue)!r} was never read")
    return returned >= 2 and bool(w.sim.probes)
