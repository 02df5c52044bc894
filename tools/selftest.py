#!/usr/bin/env python3
"""Compares the harness's reference hash functions, HMAC and HKDF with Python's hashlib and hmac."""
import hashlib, hmac, os, random, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = random.Random(7)
lines, want = [], []
for i in range(4000):
    name = r.choice(["md5", "sha1", "blake2b", "blake2s"])
    top = {"md5": 16, "sha1": 20, "blake2b": 64, "blake2s": 32}[name]
    out = r.randint(1, top) if name.startswith("b") else top
    key = r.randbytes(r.choice([0, 1, top, r.randint(0, top)])) if name.startswith("b") else b""
    def new(data=b"", name=name, out=out, key=key):
        if name.startswith("b"):
            return getattr(hashlib, name)(data, digest_size=out, key=key)
        return hashlib.new(name, data)
    block = 128 if name == "blake2b" else 64
    def H(k, m):
        if len(k) > block:
            k = new(k).digest()
        k = k.ljust(block, b"\0")
        return new(bytes(x ^ 0x5c for x in k) + new(bytes(x ^ 0x36 for x in k) + m).digest()).digest()
    n = lambda: r.choice([0, 1, block - 9, block - 8, block - 1, block, block + 1, 2 * block, 2 * block + 1, r.randint(0, 600)])
    mode = r.choice(["digest", "hmac", "hkdf"])
    x = lambda b: "x" + b.hex()
    if mode == "digest":
        m = r.randbytes(n())
        lines.append(f"{name} {out} {x(key)} digest {x(m)}")
        want.append(new(m).hexdigest())
    elif mode == "hmac":
        k, m = r.randbytes(n()), r.randbytes(n())
        lines.append(f"{name} {out} {x(key)} hmac {x(k)} {x(m)}")
        want.append(H(k, m).hex())
        if name in ("md5", "sha1"):
            assert H(k, m) == hmac.new(k, m, name).digest()
    else:
        s, m, info, l = r.randbytes(n()), r.randbytes(n()), r.randbytes(r.randint(0, 40)), r.randint(0, 5 * out)
        prk = H(s, m); t = b""; okm = b""; c = 0
        while len(okm) < l:
            c += 1; t = H(prk, t + info + bytes([c])); okm += t
        lines.append(f"{name} {out} {x(key)} hkdf {x(s)} {x(m)} {x(info)} {l}")
        want.append(okm[:l].hex())
got = subprocess.run([here + "/target/release/jester_dst", "selftest"], input="\n".join(lines) + "\n", capture_output=True, text=True).stdout.split("\n")
bad = [l for l, w, g in zip(lines, want, got) if w != g]
print("%d cases, %d differ" % (len(lines), len(bad)))
sys.exit(1 if bad else 0)
