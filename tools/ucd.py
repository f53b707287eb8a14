#!/usr/bin/env python3
"""Writes harness/ucd.h: the general category of the first characters, from the Unicode database of Python."""
import unicodedata, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
allc = ['Lu','Ll','Lt','Lm','Lo','Mn','Mc','Me','Nd','Nl','No','Pc','Pd','Ps','Pe','Pi','Pf','Po','Sm','Sc','Sk','So','Zs','Zl','Zp','Cc','Cf','Cs','Co','Cn']
out = '// Generated by tools/ucd.py from the Unicode character database: the general category of the first characters.\n'
out += 'static const struct { const char *name; unsigned mask; } cats[] = {'
for n in allc: out += '{"%s",%du},' % (n, 1 << allc.index(n))
for n in 'LMNPSZC': out += '{"%s",%du},' % (n, sum(1 << i for i, a in enumerate(allc) if a[0] == n))
out += '{"LC",%du}};\n' % sum(1 << allc.index(a) for a in ('Lu', 'Ll', 'Lt'))
out += 'static const unsigned char ucd[0x180] = {' + ','.join(str(allc.index(unicodedata.category(chr(c)))) for c in range(0x180)) + '};\n'
open(V + '/harness/ucd.h', 'w').write(out)
