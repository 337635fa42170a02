"""Stand-in for the optional zstd package, which is not installed here: the same functions, a
different compression.  Only tile data written with it is ever read with it."""
import zlib

MAGIC = bytes.fromhex("28b52ffd")


class Error(Exception):
    pass


def compress(data, level=3, threads=0, *args):
    return MAGIC + zlib.compress(bytes(data), max(1, min(level, 9)))


def decompress(data):
    data = bytes(data)
    if data[:4] != MAGIC:
        raise Error("Input data invalid or missing content size in frame header.")
    try:
        return zlib.decompress(data[4:])
    except zlib.error as exc:
        raise Error(str(exc)) from None


ZSTD_compress = encode = dumps = compress
ZSTD_uncompress = uncompress = decode = loads = decompress
