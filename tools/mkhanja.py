# The published hanja dictionary: a snapshot of hanja/table.go at the pinned
# commit (592ae86), as pairs.  Run once; the output is committed, and the
# checks compare the table in the tree with it.
import re, sys
pairs = {}
for m in re.finditer(r'^\s*(0x[0-9a-fA-F]+):\s*(0x[0-9a-fA-F]+),', open(sys.argv[1]).read(), re.M):
    pairs[int(m[1], 16)] = int(m[2], 16)
print('# hanja reading')
for k in sorted(pairs):
    print('0x%04x 0x%04x' % (k, pairs[k]))
