"""HTTP and FTP servers of one file, on the loopback, with faults.  What they serve is
read from control files (JSON) for every request:  servers.py DIR"""
import base64
import json
import pathlib
import socket
import struct
import sys
import threading
import time


def ctl(d):
    for _ in range(50):
        try:
            return json.loads((d / "ctl.json").read_text())
        except ValueError:
            time.sleep(0.01)


def reset(s):
    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    s.close()


def http(d, s):
    f = s.makefile("rb")
    line = f.readline().decode().split()
    head = {}
    while True:
        x = f.readline().decode().strip()
        if not x:
            break
        k, _, v = x.partition(":")
        head[k.lower()] = v.strip()
    f.close()
    c = ctl(d)
    with (d / "log").open("a") as log:
        log.write(f"http {line[1] if len(line) > 1 else ''} {head.get('accept', '')}\n")
    how = c["how"]
    data = (d / "content").read_bytes() if c["body"] == "content" else (d / c["body"]).read_bytes()
    reply = lambda status, body=b"", extra="": s.sendall(f"HTTP/1.1 {status} X\r\nContent-Length: {len(body)}\r\nConnection: close\r\n{extra}\r\n".encode() + body)
    if how == "drop":
        return s.close()
    if c.get("auth") and head.get("authorization") != "Basic " + base64.b64encode(c["auth"].encode()).decode():
        return reply(401, b"who?")
    if how in ("404", "500", "403"):
        return reply(int(how), b"<html>error page</html>")
    if line[1] != c["path"]:
        return reply(404, b"<html>no such file</html>")
    at = c.get("at", 0)
    if how in ("length", "short", "reset", "stall"):
        part = data if how == "length" else data[:at]
        s.sendall(f"HTTP/1.1 200 OK\r\nContent-Length: {len(data)}\r\nLast-Modified: Mon, 06 Jan 2020 00:00:00 GMT\r\n\r\n".encode() + part)
        if how == "stall":
            time.sleep(1.0)
    elif how in ("chunked", "shortchunked"):
        s.sendall(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")
        part = data if how == "chunked" else data[:at]
        n = max(1, len(data) // 3)
        for k in range(0, len(part), n):
            x = part[k:k + n]
            s.sendall(f"{len(x):x}\r\n".encode() + x + b"\r\n")
        if how == "chunked":
            s.sendall(b"0\r\n\r\n")
    elif how == "close":
        s.sendall(b"HTTP/1.0 200 OK\r\n\r\n" + data)
    else:
        return reply(500)
    if how == "reset":
        time.sleep(0.05)
        return reset(s)


def ftp(d, s):
    f = s.makefile("rb")
    say = lambda t: s.sendall((t + "\r\n").encode())
    if ctl(d)["how"] == "421":
        return say("421 too many")
    say("220 ready")
    data, user = None, ""
    while True:
        line = f.readline().decode().strip()
        if not line:
            return
        cmd, _, arg = line.partition(" ")
        cmd = cmd.upper()
        c = ctl(d)
        how = c["how"]
        if cmd == "USER":
            user = arg; say("331 password")
        elif cmd == "PASS":
            if how == "530" or (c.get("auth") and c["auth"] != f"{user}:{arg}"):
                say("530 no")
            else:
                say("230 in")
        elif cmd in ("EPSV", "PASV"):
            data = socket.socket(); data.bind(("127.0.0.1", 0)); data.listen(1)
            p = data.getsockname()[1]
            say(f"229 Entering ({'|||%d|' % p})" if cmd == "EPSV" else f"227 Entering (127,0,0,1,{p >> 8},{p & 255})")
        elif cmd == "RETR":
            with (d / "log").open("a") as log:
                log.write(f"ftp {arg}\n")
            if how == "550" or arg != c["path"]:
                say("550 no such file"); continue
            say("150 here")
            k, _ = data.accept()
            content = (d / "content").read_bytes()
            at = c.get("at", 0)
            if how in ("426", "gone", "ftpreset", "ftpstall"):
                k.sendall(content[:at])
                if how == "426":
                    k.close(); say("426 broken")
                elif how == "gone":
                    f.close(); reset(s); k.close(); return
                elif how == "ftpreset":
                    time.sleep(0.05); reset(k); say("426 broken")
                else:
                    time.sleep(1.0); k.close(); return
            else:
                k.sendall(content); k.close(); say("226 done")
            data.close()
        elif cmd == "NLST":
            say("150 here")
            k, _ = data.accept()
            k.sendall("".join(r + "\r\n" for r in c["listing"]).encode()); k.close(); say("226 done")
        elif cmd == "MDTM":
            if how == "nomdtm":
                say("550 no time")
            elif how == "500mdtm":
                say("500 what")
            elif how == "dropmdtm":
                f.close(); reset(s); return
            else:
                t = c["times"].get(arg, "")
                say(f"213 {t}" if t else "550 no time")
        elif cmd == "QUIT":
            say("221 bye"); return
        else:
            say("200 ok")


def serve(fn, d, sock):
    while True:
        k, _ = sock.accept()
        def run(k=k):
            try:
                fn(d, k)
            except (OSError, IndexError):
                pass
            finally:
                try:
                    k.shutdown(socket.SHUT_RDWR)
                except OSError:
                    pass
                k.close()
        threading.Thread(target=run, daemon=True).start()


if __name__ == "__main__":
    d = pathlib.Path(sys.argv[1])
    ports = []
    for fn in (http, ftp):
        sock = socket.socket(); sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); sock.bind(("127.0.0.1", 0)); sock.listen(64)
        ports.append(sock.getsockname()[1])
        threading.Thread(target=serve, args=(fn, d, sock), daemon=True).start()
    # a port nobody listens at
    shut = socket.socket(); shut.bind(("127.0.0.1", 0)); ports.append(shut.getsockname()[1])
    (d / "ports.tmp").write_text(json.dumps(ports)); (d / "ports.tmp").rename(d / "ports")
    # ends with the check that started it
    sys.stdin.read()
