"""Stand-in for an external AAA helper: shows every request to the harness and prints the answer the harness gives."""
import sys, socket, os, json
s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
s.connect(sys.argv[1])
inp, out = sys.stdin.buffer, sys.stdout.buffer
def put(d): s.sendall(len(d).to_bytes(4, 'big') + d)
def get(n):
    b = b''
    while len(b) < n:
        d = s.recv(n - len(b))
        if not d: os._exit(0)
        b += d
    return b
put(b'hello %d' % os.getpid() + (' '.join([''] + sys.argv[2:])).encode())
while True:
    req = []
    while True:
        l = inp.readline()
        if not l: os._exit(0)
        if l == b'\n': break
        req.append(l)
    put(b'req ' + b''.join(req))
    a = json.loads(get(int.from_bytes(get(4), 'big')))
    if a['noise']:
        sys.stderr.write('n' * a['noise']); sys.stderr.flush()
    for c in a['chunks']:
        out.write(c.encode('latin-1')); out.flush()
