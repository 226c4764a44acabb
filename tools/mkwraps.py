#!/usr/bin/env python3
"""Development helper: generates sim/fi_wraps.inc and sim/fi_wraps.ld from FreeImage.h (output is committed)."""
import re
src = open('/usr/include/FreeImage.h', errors='replace').read()
src = re.sub(r'FI_DEFAULT\([^)]*\)', '', src)
decls = re.findall(r'^DLL_API\s+(.+?)\s*DLL_CALLCONV\s+(FreeImage_\w+)\s*\(([^;]*)\);', src, re.M)
out, names = [], []
special = {'FreeImage_Unload', 'FreeImage_OpenMemory', 'FreeImage_CloseMemory'}
dibmut = {'FreeImage_FlipHorizontal', 'FreeImage_FlipVertical', 'FreeImage_AdjustCurve', 'FreeImage_AdjustGamma',
          'FreeImage_AdjustBrightness', 'FreeImage_AdjustContrast', 'FreeImage_Invert', 'FreeImage_AdjustColors',
          'FreeImage_SetChannel', 'FreeImage_Paste', 'FreeImage_PreMultiplyWithAlpha', 'FreeImage_FillBackground', 'FreeImage_SwapColors'}
dibread = {'FreeImage_Save', 'FreeImage_SaveToHandle', 'FreeImage_SaveToMemory', 'FreeImage_SaveU', 'FreeImage_ConvertToRawBits'}
plain = {'FreeImage_Initialise', 'FreeImage_DeInitialise', 'FreeImage_GetFileType', 'FreeImage_GetFileTypeFromHandle', 'FreeImage_GetFileTypeFromMemory',
         'FreeImage_GetFIFFromFilename', 'FreeImage_AcquireMemory', 'FreeImage_ReadMemory', 'FreeImage_WriteMemory', 'FreeImage_SeekMemory',
         'FreeImage_FIFSupportsExportBPP', 'FreeImage_FIFSupportsExportType', 'FreeImage_FIFSupportsWriting', 'FreeImage_FIFSupportsReading'}
for ret, name, args in decls:
    ret = ret.strip()
    al = [] if args.strip() in ('', 'void') else [a.strip() for a in args.split(',')]
    if '...' in args or '(' in args: continue
    an = [re.search(r'(\w+)\s*(\[\])?$', a).group(1) for a in al]
    isbmp = re.sub(r'\s', '', ret) == 'FIBITMAP*'
    if not (isbmp or name in special or name in dibmut or name in dibread or name in plain): continue
    if name == 'FreeImage_LockPage': continue
    ret = re.sub(r'\s*\*', '*', ret)
    sig = ', '.join(al)
    call = '__real_%s(%s)' % (name, ', '.join(an))
    dibs = [(n, a) for n, a in zip(an, al) if re.match(r'FIBITMAP\s*\*', a)]
    names.append(name)
    out.append('%s __real_%s(%s);' % (ret, name, sig))
    out.append('%s __wrap_%s(%s) {' % (ret, name, sig))
    if name == 'FreeImage_Unload':
        out.append('  sim::fiUnload(dib); FiScope s; __real_FreeImage_Unload(dib);')
    elif name == 'FreeImage_OpenMemory':
        out.append('  if (sim::fiFault("FreeImage_OpenMemory")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIMEMORY* m = %s; sim::fiNewMem(m); return m;' % call)
    elif name == 'FreeImage_CloseMemory':
        out.append('  sim::fiCloseMem(stream); FiScope s; %s;' % call)
    else:
        for n, a in dibs: out.append('  sim::fiTouch(%s, %s);' % (n, 'true' if name in dibmut and (n == dibs[0][0]) else 'false'))
        if isbmp:
            out.append('  if (sim::fiFault("%s")) { sim::count(F_fi_null); return nullptr; } FiScope s; FIBITMAP* b = %s; sim::fiNew(b); return b;' % (name, call))
        elif name in dibmut or name in dibread:
            if ret == 'BOOL': out.append('  if (sim::fiFault("%s")) { sim::count(F_fi_false); return FALSE; } FiScope s; return %s;' % (name, call))
            else: out.append('  FiScope s; return %s;' % call)
        else:
            out.append('  FiScope s; return %s;' % call)
    out.append('}')
open('/verif/sim/fi_wraps.inc', 'w').write('// generated by tools/mkwraps.py\n' + '\n'.join(out) + '\n')
open('/verif/sim/fi_wraps.ld', 'w').write('\n'.join('--wrap=' + n for n in names) + '\n')
print(len(names))
