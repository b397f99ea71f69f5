"""P16: a partial write leaves everything outside of it as it was."""
import facts, access, grid
from common import Check


def main():
    C = Check('P16', 'typestate of the chunk buffers and shard slots over all paths of the write entry points; per axis arithmetic of block, overlap and block range by linear reasoning')
    chks = {'P16': C}
    units = facts.load(['core', 'core_s3'])
    access.analyse(chks, units['core'])
    for n in sorted(units):
        u = units[n]
        access.chunk_writers(chks, u)
        access.all_fill(chks, u)
        access.missing_reads(chks, u)
    grid.check(C, units['core'])
    C.minimum('entry points', 3)
    C.minimum('chunk stores', 2)
    C.minimum('shard writes', 1)
    C.minimum('chunk writers', 2)
    C.minimum('overlap cases', 1)
    C.minimum('block cases', 1)
    C.assumptions += ['subview / copyView / fillView address exactly the box they are given (decided for their stride arithmetic by P18 and P10 only in part)',
                      'no other writer changes the same chunk at the same time']
    C.finish()


if __name__ == '__main__':
    main()
