#!/usr/bin/env python3
"""Development aid (no check uses it): the simulated tty against the kernel's pseudo terminals.

    ptycheck.py [N] [SEED]    N random scripts of typing, mode changes, polls and reads on both
"""
import os, pty, random, select, sys, termios, time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst.kernel import Choices
from dst.world import Tty, World

count = int(sys.argv[1]) if len(sys.argv) > 1 else 300
rng = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
FLAGS = [termios.ICANON, termios.ECHO, termios.ICANON | termios.ECHO]


def settle(master, slave, echo):
    """Waits until the line discipline has dealt with what was typed."""
    out = b""
    while select.select([master], [], [], 0.03)[0]:
        out += os.read(master, 4096)
    return out


bad = 0
for number in range(count):
    master, slave = pty.openpty()
    model = Tty(World(Choices(seed=number)))
    attrs = termios.tcgetattr(slave)
    attrs[0], attrs[1] = termios.ICRNL, 0
    attrs[3] = termios.ICANON | termios.ECHO | termios.ISIG
    termios.tcsetattr(slave, termios.TCSANOW, attrs)
    model.attrs[0], model.attrs[3] = attrs[0], attrs[3]
    script = []
    for _ in range(rng.randint(3, 25)):
        op = rng.choice(["type", "type", "mode", "read", "read", "poll", "flush"])
        if op == "type":
            data = bytes(rng.choice(b"ab\xc3\xa9 \n\r;[") for _ in range(rng.randint(1, 6)))
            os.write(master, data)
            real = settle(master, slave, True)
            before = len(model.echoed)
            model.arrive(data)
            same = real == bytes(model.echoed[before:])
            script.append((op, data, real, bytes(model.echoed[before:])))
        elif op in ("mode", "flush"):
            when = termios.TCSAFLUSH if op == "flush" else rng.choice([termios.TCSANOW, termios.TCSADRAIN])
            new = termios.tcgetattr(slave)
            new[3] = termios.ISIG | rng.choice([0, *FLAGS])
            if not new[3] & termios.ICANON:
                new[6][termios.VMIN], new[6][termios.VTIME] = rng.choice([(1, 0), (1, 0), (0, 0), (4, 0), (4, 5), (0, 5)])
            termios.tcsetattr(slave, when, new)
            simulated = model.get_attrs()
            simulated[3] = new[3]
            if not new[3] & termios.ICANON:
                for which in (termios.VMIN, termios.VTIME):
                    simulated[6][which] = new[6][which]
            model.set_attrs(when, simulated)
            same = termios.tcgetattr(slave)[3] == model.attrs[3]
            script.append((op, new[3]))
        elif op == "poll":
            real = bool(select.select([slave], [], [], 0)[0])
            same = real == bool(model.pollable())
            script.append((op, real, bool(model.pollable())))
        else:
            if not select.select([slave], [], [], 0)[0] or not model.pollable():
                continue
            size = rng.choice([1, 1, 3, 100])
            real = os.read(slave, size)
            got = model.take(size)
            same = real == got
            script.append((op, size, real, got))
        if not same:
            bad += 1
            print(number, *script, sep="\n  ")
            break
    # hang-up: the other end is gone
    os.close(master)
    if model.available() == 0:
        try:
            ended = os.read(slave, 1) == b""
        except OSError:
            ended = True
        if not ended:
            bad += 1
            print(number, "no end after hang-up")
    os.close(slave)
print(f"{count} scripts, {bad} differ")
