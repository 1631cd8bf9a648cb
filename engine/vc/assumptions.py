"""Assumptions left unchecked, per property."""

COMMON = [
    'go/ssa (golang.org/x/tools) translates /repo faithfully to SSA form; the Go compiler agrees with it',
    'the VC generator (engine/vc) and z3 are correct',
    'external functions behave as modelled in engine/vc/natives.py (bufio.Reader.Peek/Discard, bufio.Writer, bytes.Buffer, encoding/binary, reflect, sort, fmt.Sprintf of integers, hash/crc32, time, sync, net.Conn)',
    'a slice handed out by bufio.Reader.Peek keeps its content (the reader is filled once and never refilled while the slice is used)',
    'no byte sequence or list in memory is longer than 2^46 elements; the heap is never exhausted',
    'machine integers are exact (two\'s complement bit-vectors); floating-point values are only moved bit for bit',
]
CODEC = [
    'strings handed to the encoder are at most 32767 bytes, byte blobs and arrays at most 0x7ffffff0 elements (the range of their length fields)',
    'the bufio.Reader is at least as large as the data it decodes (the dispatcher creates it with the message length)',
]
BY = {}


def of(prop):
    out = list(COMMON)
    if prop in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06'):
        out += CODEC
    return out + BY.get(prop, [])
