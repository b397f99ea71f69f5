"""P21: a missing chunk reads as the fill value, never as leftover data."""
import facts, access
from common import Check


def main():
    C = Check('P21', 'typestate of the chunk buffers over all paths of the read and write entry points; existence facts on every path that reads, fills or empties a chunk')
    chks = {'P21': C}
    units = facts.load(['core', 'core_s3'])
    access.analyse(chks, units['core'])
    for n in sorted(units):
        u = units[n]
        access.chunk_writers(chks, u)
        access.all_fill(chks, u)
        access.missing_reads(chks, u)
        access.raw(chks, u)
    C.minimum('entry points', 3)
    C.minimum('chunk stores', 2)
    C.minimum('output writes', 2)
    C.minimum('encoders', 1)
    C.minimum('raw copies', 1)
    C.minimum('paths on which the object is missing', 1)
    C.assumptions += ['a codec that reports success has produced the bytes of the whole chunk (P04 decides that failures are reported)']
    C.finish()


if __name__ == '__main__':
    main()
