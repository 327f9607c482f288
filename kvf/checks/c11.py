"""What the text writers write is a valid file that describes the mesh."""
from checks.c10 import *

EXPLANATION = (
    'The text that each writer emits is derived as a sequence of lines with symbolic numbers and matched against the grammar of the '
    'format (header, counts, one line per vertex and per face, in order, with the indices the format demands); coordinates are '
    'evaluated exactly before they are converted, and printed in the shortest form that reads back exactly.')
ASSUMPTIONS = ['std::to_chars without precision prints the shortest text that reads back as the same double']


def run(ctx):
    p = ctx.prog()
    for f in functions(ctx, WRITERS):
        fmt = f['n'].rsplit('_', 1)[-1]
        if fmt in ('obj', 'off', 'ply') and 'ostream' in p.tname(f['params'][0]['t']):
            ctx.guarded('what is written', f, lambda: writer(ctx, f, fmt))
    for f in functions(ctx, ('kigumi::write_triangle_soup', 'write_region')):
        ctx.guarded('the format is that of the extension', f, lambda: dispatch(ctx, f, True))
    for f in p.find('kigumi::io::ascii::operator<<'):
        if f.get('body') is not None:
            ctx.guarded('how a coordinate is printed', f, lambda: printed(ctx, f))
