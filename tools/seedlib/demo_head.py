import os, subprocess, struct, sys, zlib, hashlib
BIN = sys.argv[1]

def png(path, w, h, f):
    raw = b''.join(b'\0' + b''.join(bytes(f(x, y)) for x in range(w)) for y in range(h))
    def chunk(t, d): return struct.pack('>I', len(d)) + t + d + struct.pack('>I', zlib.crc32(t + d))
    open(path, 'wb').write(b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', struct.pack('>IIBBBBB', w, h, 8, 2, 0, 0, 0))
                           + chunk(b'IDAT', zlib.compress(raw)) + chunk(b'IEND', b''))

def run(*args, **kw):
    return subprocess.run([BIN, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100, **kw)

def rows(name):
    return open('output/' + name + '.csv').read().splitlines()

def check(ok, what):
    if not ok:
        print('BROKEN:', what); sys.exit(1)

