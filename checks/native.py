"""child process: call one entry point of the native library (argv: so entry result-file; request on stdin)"""
import ctypes
import resource
import struct
import sys

so, entry, res = sys.argv[1:4]
count = int(sys.argv[4]) if len(sys.argv) > 4 else 1     # several calls in a row: no faults, as many inputs in a row
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
data = sys.stdin.buffer.read()
ni, no, np, choice, nth, kind = struct.unpack_from('<QQQQqQ', data, 0)
inp = struct.unpack_from('<%dd' % (ni * count), data, 48)
par = struct.unpack_from('<%dQ' % np, data, 48 + 8 * ni * count)
lib = ctypes.CDLL(so)
lib.vh_set_choice(ctypes.c_uint32(choice))
I = (ctypes.c_double * max(1, ni))(*inp[:ni])
O = (ctypes.c_double * max(1, no))()
P = (ctypes.c_uint64 * max(1, np))(*par)
fn = getattr(lib, entry)
fn.restype = ctypes.c_uint64
if count > 1:
    with open(res, 'wb') as f:
        for k in range(count):
            I = (ctypes.c_double * max(1, ni))(*inp[ni * k:ni * (k + 1)])
            st = fn(I, O, P)
            f.write(struct.pack('<Q', st) + struct.pack('<%dd' % no, *list(O)[:no]))
    sys.exit(0)
faulted = 0
if nth >= 0:
    sh = ctypes.CDLL(None)
    sh.vh_fault_arm(ctypes.c_long(nth), ctypes.c_long(kind))
st = fn(I, O, P)
if nth >= 0:
    faulted = sh.vh_fault_done()
with open(res, 'wb') as f:
    f.write(struct.pack('<Q', st) + struct.pack('<%dd' % no, *list(O)[:no]) + bytes([faulted]))
