"""Ports, and clients that judge what they receive."""

import os
import random
import socket
import time

from vmon import core


def port():
    """A port that's free for tcp and udp; not an ephemeral one."""
    rng = random.Random()
    while True:
        num = rng.randrange(10000, 32000)
        try:
            for kind in (socket.SOCK_STREAM, socket.SOCK_DGRAM):
                with socket.socket(socket.AF_INET, kind) as sock:
                    sock.bind(("0.0.0.0", num))
        except OSError:
            continue
        return num


def accepts(num, host="127.0.0.1"):
    """Whether connections to a port are accepted."""
    try:
        with socket.create_connection((host, num), 1.0) as sock:
            # it may have been given that port, and reached itself
            return sock.getsockname() != sock.getpeername()
    except OSError:
        return False


def listening(num):
    """Wait for a server to listen."""
    return core.wait_for(lambda: accepts(num))


def read_all(sock, seconds=10.0):
    """What arrives until the other side closes; and whether it did."""
    end, out = time.monotonic() + seconds, b""
    sock.settimeout(0.2)
    while time.monotonic() < end:
        try:
            data = sock.recv(1 << 16)
        except socket.timeout:
            continue
        except OSError:
            return out, True
        if not data:
            return out, True
        out += data
    return out, False


def taken(address):
    """Whether a udp port is in use (without using it)."""
    with open("/proc/net/udp", encoding="ascii") as table:
        return any(
            line.split()[1].endswith(f":{address[1]:04X}")
            for line in list(table)[1:]
        )


def held(address):
    """Whether this process has a udp socket of this address."""
    for name in os.listdir("/proc/self/fd"):
        try:
            if not os.readlink(f"/proc/self/fd/{name}").startswith("socket"):
                continue
            copy = os.dup(int(name))
        except OSError:
            continue
        with socket.socket(fileno=copy) as sock:
            if (
                sock.family == socket.AF_INET
                and sock.type == socket.SOCK_DGRAM
                and sock.getsockname() == tuple(address)
            ):
                return True
    return False


def bound(address):
    """Wait for a udp socket to be bound."""
    return core.wait_for(lambda: taken(address))
