"""What each check runs: harness entry points, parameters and bounds."""
COMMON_ASSUME = ['clang 18 compiles the sources to LLVM IR faithfully and the executor (engine/) interprets that IR faithfully: cross-checked per run by replaying solver models of complete paths through the g++ build with ASan/UBSan',
  'Z3 answers unsat correctly; every sat answer is re-evaluated and replayed',
  'malloc does not fail; IEEE-754 arithmetic in round-to-nearest; little-endian x86-64']
SPECS = {}
def spec(pid, **k): SPECS[pid] = k
LAYS = range(18)
VALID = lambda l, t: (0 <= l < 20 and 0 <= t <= 4) and (t == 4 if l >= 18 else t >= 2 if l >= 10 else l >= 6 or t != 4)

spec('C01', unit='lib', harness=['codec.cpp'], covers=['decoded'],
  jobs=lambda tier: [dict(id='l%d' % l, entry='h_c01', params=[0, l, 0, a]) for l in LAYS for a in ([0] if tier == 'quick' else [0, 1, 3])],
  bounds='every bit pattern of every valid layout/type pair except 16-bit floats and the packed floats (C04, C05); all components symbolic at once')
spec('C02', unit='lib', harness=['codec.cpp'], covers=['encoded', 'ref'],
  jobs=lambda tier: [dict(id='l%d-t%d' % (l, t), entry='h_c02', params=[0, l, t]) for l in LAYS for t in range(5) if VALID(l, t) and not (t == 4 and l < 10)] + [dict(id='ref%d' % b, entry='h_c02_ref', params=[0, b]) for b in (2, 8, 10, 16)],
  bounds='every double except NaN in all four components')
spec('C03', unit='lib', harness=['codec.cpp'], covers=['round trip'],
  jobs=lambda tier: [dict(id='l%d-t%d' % (l, t), entry='h_c03', params=[0, l, t]) for l in LAYS for t in range(5) if VALID(l, t) and not (t == 4 and l < 10)],
  bounds='every bit pattern')

HALF = range(6, 10)
spec('C04', unit='lib', harness=['codec2.cpp'], covers=['half decoded', 'half encoded', 'half round trip', 'flag'],
  jobs=lambda tier: [dict(id='%s-f%d-l%d' % (e, hw, l), entry='h_c04_' + e, params=[hw, l, 0]) for hw in (0, 1) for l in HALF for e in ('dec', 'enc', 'rt')] + [dict(id='wide-f%d-l%d' % (hw, l), entry='h_c04_enc', params=[hw, l, 1]) for hw in (0, 1) for l in HALF] + [dict(id='flag%d' % hw, entry='h_c04_flag', params=[hw]) for hw in (0, 1)],
  bounds='every half pattern and every non-NaN double in all components, with the F16C capability bit on and off')
def shared(tier):
    r = [(0, 997), (1040, 2048)]; out = []
    r += [(e, e + 1) for e in (997, 1008, 1009, 1023, 1038)] if tier == 'quick' else [(e, e + 1) for e in range(997, 1040)]
    for a, b in r:
        for big in range(3):
            for oth in [x for x in range(3) if x != big] if tier == 'quick' else [3]: out.append(dict(id='shared%d-%d-%d' % (a, big, oth), entry='h_c05_shared', params=[0, 19, 4, big, oth, a, b]))
    return out
spec('C05', unit='lib', harness=['codec2.cpp'], covers=['packed float decoded', 'packed float encoded', 'shared exponent encoded', 'packed round trip'],
  jobs=lambda tier: [dict(id='dec-l%d' % l, entry='h_c05_dec', params=[0, l]) for l in (18, 19)] + [dict(id='rt-l%d' % l, entry='h_c05_rt', params=[0, l]) for l in (18, 19)] + [dict(id='enc%d' % i, entry='h_c05_enc', params=[0, 18, 4, i]) for i in (0, 1, 2) + ((-1,) if tier != 'quick' else ())] + shared(tier),
  bounds='every 32-bit pattern (infinity/NaN codes of 11/11/10 excluded when decoding), every finite double')
spec('C06', unit='lib', harness=['codec2.cpp'], covers=['touched', 'refused'],
  jobs=lambda tier: [dict(id='l%d-f%d-o%d' % (l, hw, o), entry='h_c06', params=[hw, l, o]) for l in range(20) for hw in ((0,) if l not in HALF else (0, 1)) for o in ((1 + l % 7,) if tier == 'quick' else range(1, 17))] + [dict(id='bad%d' % l, entry='h_c06_bad', params=[0, l]) for l in list(range(-1, 24))],
  bounds='all element bytes, neighbouring bytes and values symbolic; layout enum values -1..23, type enum values -2..8; alignment offsets as listed in the jobs')
NORM = [(l, t) for l in range(10) for t in (0, 1)]
C07Q = {(4, 0): (4,), (5, 0): (2, 4, 9, 11)} # the others of these take minutes
spec('C07', unit='lib', harness=['codec2.cpp'], covers=['undone', 'ends', 'any box', 'plain'],
  jobs=lambda tier: [dict(id='undo%d-l%d-t%d' % (b, l, t), entry='h_c07_undo', params=[0, l, t, b]) for l, t in NORM for b in (C07Q.get((l, t), (0, 2, 4, 8, 9, 11)) if tier == 'quick' else range(13))]
    + [dict(id='end%d-l%d-t%d' % (w, l, t), entry='h_c07_ends', params=[0, l, t, w]) for l, t in NORM for w in range(5) if tier != 'quick' or (w, l, t) != (3, 4, 0)]
    + [dict(id='any-l%d-t%d' % (l, t), entry='h_c07_any', params=[0, l, t]) for l, t in NORM]
    + [dict(id='plain-l%d-t%d' % (l, t), entry='h_c07_plain', params=[0, l, t]) for l in range(20) for t in (2, 3, 4) if VALID(l, t)],
  bounds='every value inside 13 concrete boxes (extents from 1e-13 to 6e38); every box and value within +-1e100 with an extent above 1e-15 or none: corners, outside values and agreement with storing the place in the box')
spec('C08', unit='lib', harness=['codec2.cpp'], covers=['expanded', 'sequence'],
  jobs=lambda tier: [dict(id='step', entry='h_c08_step', params=[0])] + [dict(id='seq%d' % n, entry='h_c08_init', params=[0, n]) for n in range(0, 4 if tier == 'quick' else 6)],
  bounds='one step from every box without NaN with every value; sequences from the initial bounds of up to 3 (thorough: 5) finite or NaN values')

LNAMES = ['X8', 'X8Y8', 'X8Y8Z8', 'X8Y8Z8W8', 'W2X10Y10Z10', 'W2Z10Y10X10', 'X16', 'X16Y16', 'X16Y16Z16', 'X16Y16Z16W16', 'X32', 'X32Y32', 'X32Y32Z32', 'X32Y32Z32W32', 'X64', 'X64Y64', 'X64Y64Z64', 'X64Y64Z64W64', 'Z10Y11X11_UFloat', 'E5Z9Y9X9_UFloat',
  'R8', 'R8G8', 'R8G8B8', 'R8G8B8A8', 'A2R10G10B10', 'A2B10G10R10', 'R16', 'R16G16', 'R16G16B16', 'R16G16B16A16', 'R32', 'R32G32', 'R32G32B32', 'R32G32B32A32', 'R64', 'R64G64', 'R64G64B64', 'R64G64B64A64', 'B10G11R11_UFloat', 'E5B9G9R9_UFloat']
TNAMES = ['UNorm', 'SNorm', 'UInt', 'SInt', 'Float']; PNAMES = ['PointList', 'LineList', 'LineStrip', 'TriangleList', 'TriangleStrip', 'TriangleFan', 'PatchList']
def c09(tier):
    j = [dict(id='tables', entry='h_c09_tables', params=[0], opts='hash=real'), dict(id='valid', entry='h_c09_valid', params=[0]), dict(id='range', entry='h_c09_range', params=[0])]
    for w, names in ((0, LNAMES[:20]), (1, LNAMES[20:]), (2, TNAMES), (3, PNAMES)):
        j += [dict(id='case%d-%d' % (w, i), entry='h_c09_case', params=[0, w, i], opts='hash=real') for i in range(len(names))]
    for w, names in ((0, LNAMES), (1, TNAMES), (2, PNAMES)):
        j += [dict(id='any%d-%d' % (w, n), entry='h_c09_any', params=[0, w, n, -1, 0]) for n in range(0, 6 if tier == 'quick' else 8)]
        for i, s in enumerate(names): # the first characters of a name, then free ones
            for keep, n in [(len(s) - 1, 1), (len(s), 1)] + ([(max(0, len(s) - 4), 4), (max(0, len(s) - 3), 3), (len(s), 2)] if tier != 'quick' else []): j.append(dict(id='near%d-%d-%d-%d' % (w, i, keep, n), entry='h_c09_any', params=[0, w, n, i, keep]))
    return list({x['id']: x for x in j}.values())
spec('C09', unit='lib', harness=['names.cpp'], covers=['tables', 'valid pair', 'invalid pair', 'any case', 'unknown name', 'known name', 'outside'], jobs=c09,
  bounds='every enum value; every letter-case variant of every name (with the real hash function); every string of up to 5 (thorough: 7) bytes and every name with its last bytes free or bytes added')
def c10(tier):
    P = lambda l, t: l * 8 + t
    E = [P(0, 2), P(8, 4), P(18, 4), P(5, 0)]; j = []
    for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)):
        for k in range(n):
            for names in (0, 1): j.append(dict(id='seq%d-%d-%d' % (n, k, names), entry='h_c10_seq', params=[0, n, k, names] + E[:n]))
    j += [dict(id='many%d-%d-%d' % (n, k, w), entry='h_c10_many', params=[0, n, k, w]) for n, k, w in ((20, 3, 18), (20, 19, 10), (300, -1, 299), (300, -1, 120))]
    j += [dict(id='two%d-%d' % (a, b), entry='h_c10_two', params=[0, a, b]) for a in range(3) for b in range(3)]
    if tier != 'quick': j += [dict(id='two%d-%d' % (a, b), entry='h_c10_two', params=[0, a, b]) for a, b in ((3, 2), (2, 3), (3, 3))]
    return j
spec('C10', unit='lib', harness=['names.cpp'], covers=['accepted', 'duplicate', 'invalid', 'found', 'not found', 'equal', 'different', 'contained', 'not contained'], jobs=c10,
  bounds='sequences of up to 3 (thorough: 4) appends, one of them with any layout (-1..20) and type (-1..4), names of 0..2 free bytes or 23 bytes with a free last one; pairs of formats of up to 2 (thorough: 3) elements; formats of 20 to 300 elements', outside='names with embedded NUL')
spec('C11', unit='lib', harness=['names.cpp'], covers=['whole', 'partial', 'index written', 'index types'],
  jobs=lambda tier: [dict(id='count', entry='h_c11_count', params=[0]), dict(id='misc', entry='h_c11_misc', params=[0])] + [dict(id='index%d-%d' % (t, n), entry='h_c11_index', params=[0, t, n, 4]) for t in (1, 2) for n in ((1, 2, 7) if tier == 'quick' else range(1, 20))],
  bounds='every primitive type value, 32-bit count and patch size; every index value at every position of buffers of up to 7 (thorough: 19) indices')

# scenario -> (input streams)
NIN = [1, 1, 2, 3, 1, 2]
LISTS = [0, 1, 3]
def conv(id, entry, scn, prim, n, it=1, mx=-1, its=111, nvs=333, restarts=0, patch=0, fork=0, ident=0, **k):
    return dict(id=id, entry=entry, params=[0, scn, prim, n, it, mx, its, nvs, restarts, patch, fork, ident], opts=k.pop('opts', 'merge'), **k)
def large(positions, vertices, it, ot, prim=0, mx=-1, per=1, free=0, bad=0, last=0, patch=0, bounds=0):
    p = [0, positions, vertices, it, ot, prim, mx, per, free, bad, last, patch, bounds]
    return dict(id='large' + '-'.join(map(str, p[1:])), entry='h_large', params=p, opts='merge hash=real insts=2000000000')
def strip(positions, it, ot, prim, mx, every=0):
    p = [0, positions, it, ot, prim, mx, every]
    return dict(id='strip' + '-'.join(map(str, p[1:])), entry='h_large_strip', params=p, opts='merge hash=real insts=2000000000')
def c12(tier):
    j = [large(65541, 65538, 2, 2, last=1), large(65540, 65540, 0, 2, 1), large(65540, 65540, 0, 0, 0, free=1)]
    for scn, its, nvs, n in ((7, 11, 22, 3), (7, 0, 99, 3), (8, 1, 2, 2), (8, 0, 9, 2)):
        for prim in (0, 2): j.append(conv('w%d-p%d-%d' % (scn, prim, its), 'h_c12', scn, prim, n, 1 + prim // 2, -1, its, nvs))
    for scn in range(6):
        for prim, n, patch in ((0, 3, 0), (1, 4, 0), (3, 3, 0), (6, 4, 2), (2, 3, 0), (4, 4, 0), (5, 3, 0)):
            for it, its, nvs in ((1, 122, 222), (2, 211, 313), (2, 20, 233)):
                j.append(conv('s%d-p%d-%d-%d' % (scn, prim, it, its), 'h_c12', scn, prim, n, it, -1, its, nvs, 0, patch))
                if prim in (2, 4, 5) and its != 20: j.append(conv('r-s%d-p%d-%d-%d' % (scn, prim, it, its), 'h_c12', scn, prim, n, it, -1, its, nvs, 1, patch))
    return j
spec('C12', unit='lib', harness=['conv.cpp', 'large.cpp'], covers=['resolved'], jobs=c12, bounds='6 scenarios of 1-3 input and 1-2 output streams (differing and repeated layouts, unused elements, unaligned elements); 3-4 positions, 2-3 vertices per indexed stream; every vertex byte, every index value in range and every restart placement; scenarios with 3 output streams and vertices of 64 and 257 bytes; 65 537 and more vertices or positions with a free end')

def c13(tier):
    j = [large(65541, 65538, 2, 1, 0, last=1), large(65541, 65541, 0, 1, 3), large(65540, 65540, 0, 1, 1), large(65537, 65537, 0, 1, 0, 65535), large(65540, 70, 2, 1, 0, 4, 1000), large(131100, 65540, 2, 1, 6, -1, 2, patch=300), large(65568, 65568, 0, 1, 6, patch=32)]
    for scn, its in ((7, 0), (7, 11), (8, 0), (9, 0)):
        for mx in (0, 1): j.append(conv('w%d-%d-m%d' % (scn, its, mx), 'h_c13', scn, mx, 4 - 2 * (scn > 7), 1, mx, its, 33))
    for scn, its in ((0, 0), (1, 0), (0, 2), (2, 20), (3, 10)):
        big = tier != 'quick' or scn == 0
        for prim, patch, n, maxes in ((0, 0, 5 if big else 4, (0, 1, 2, 3)), (1, 0, 6 if big else 4, (1, 2, 3, 4)), (3, 0, 6 if big else 3, (2, 3, 4, 5)), (6, 2, 6 if big else 4, (1, 2, 4)), (6, 4, 8 if scn == 0 and its == 0 else 4, (3, 5))):
            for mx in maxes: j.append(conv('s%d-%d-p%d.%d-m%d' % (scn, its, prim, patch, mx), 'h_c13', scn, prim, n, 1 + mx % 2, mx, its, 343, 0, patch))
    return j
spec('C13', unit='lib', harness=['conv.cpp', 'large.cpp'], covers=['split', 'one buffer'], jobs=c13, bounds='point/line/triangle/patch lists of 3 to 8 positions, maximum index values 0 to 5, 4 stream scenarios; every vertex byte (hence every pattern of equal vertices) and index value; scenarios with 3 output streams and vertices of 64 and 257 bytes; 65 537 and more vertices or positions with a free end')
def c14(tier):
    j = [strip(65560, 0, 1, 2, 65534), strip(65560, 2, 1, 2, 65534), strip(65560, 0, 1, 4, 65533), strip(65660, 2, 1, 4, 65533, 1001), strip(76660, 2, 1, 4, 65533, 7), strip(65560, 0, 1, 5, 65534), strip(65600, 2, 1, 5, 65533, 300), strip(65561, 2, 2, 4, 65538, 5), strip(65600, 2, 1, 2, 65533, 100)]
    for prim in (2, 4, 5):
        for mx in ((1, 2, 3) if prim == 2 else (2, 3, 4)):
            for n in ((4, 6) if tier == 'quick' else (4, 5, 6, 7, 8)):
                j.append(conv('p%d-m%d-n%d' % (prim, mx, n), 'h_c14', 0, prim, n, 1, mx, 0, 999))
                j.append(conv('r-p%d-m%d-n%d' % (prim, mx, n), 'h_c14', 0, prim, n, 2, mx, 1, 9, 1, ident=1))
            j.append(conv('i-p%d-m%d' % (prim, mx), 'h_c14', 1, prim, 4 if tier == 'quick' else 6, 1, mx, 2, 3, 1))
            j.append(conv('t-p%d-m%d' % (prim, mx), 'h_c14', 3, prim, 4 if tier == 'quick' else 6, 1, mx, 221, 999, 1, ident=1))
    return j
spec('C14', unit='lib', harness=['conv.cpp', 'large.cpp'], covers=['split', 'drawn', 'split after one vertex'], jobs=c14, bounds='strips and fans of 4 or 6 positions (thorough: up to 8), maximum index values 1 to 4 around the splitting points; every vertex byte, index value and restart placement; strips and fans of more than 65 535 positions with 16-bit indices')
def c15(tier):
    j = [large(65541, 65538, 2, 2, last=1), large(131076, 65538, 2, 2), large(65540, 300, 1, 1)]
    for scn, its, n in ((7, 0, 3), (7, 21, 3), (8, 0, 3), (8, 1, 3), (9, 0, 2), (9, 1, 2), (10, 0, 3), (10, 1, 3), (11, 0, 2), (11, 0, 3), (11, 1, 2)):
        for mx in ((-1, 0) if scn < 8 else (0,) if scn < 10 else (-1, 1)): j.append(conv('w%d-%d-%d-m%d' % (scn, its, n, mx), 'h_c15', scn, 0, n, 1, mx, its, 33))
    for scn, its, nvs, n in ((0, 0, 9, 5), (1, 0, 9, 4), (2, 0, 99, 3), (3, 0, 999, 3), (0, 1, 3, 5), (1, 2, 3, 4), (2, 12, 33, 3), (3, 120, 333, 3), (5, 0, 99, 3)):
        if tier != 'quick': n += 1
        for prim, patch, mx in ((0, 0, -1), (0, 0, 2), (1, 0, -1), (1, 0, 2), (3, 0, -1), (3, 0, 3), (6, 3, -1), (2, 0, -1), (4, 0, -1), (5, 0, -1)):
            m = n - n % {1: 2, 3: 3, 6: 3}.get(prim, 1)
            j.append(conv('s%d-%d-p%d-m%d' % (scn, its, prim, mx), 'h_c15', scn, prim, m, 1 + n % 2, mx, its, nvs, 1 if prim in (2, 4, 5) and its and '0' not in str(its) else 0, patch))
    return j
spec('C15', unit='lib', harness=['conv.cpp', 'large.cpp'], covers=['new vertex', 'shared vertex'], jobs=c15, bounds='scenarios of 1-3 streams, 3-5 positions (thorough: one more), all primitive types, splitting and not; every vertex byte and index value; vertex hashes are abstracted to one bucket (real in the large jobs); scenarios with 3 output streams and vertices of 64 and 257 bytes (of which a few bytes are free); 65 537 and more vertices or positions with a free end')
def c16(tier):
    j = [large(65540, 65540, 0, 0, 0, free=1), large(65541, 65538, 2, 0, last=1), large(65541, 3, 1, 0, 3), large(65540, 65540, 2, 0, 2)]
    for scn, its in ((7, 0), (7, 12), (8, 0), (8, 1), (9, 0), (9, 2)): j.append(conv('w%d-%d' % (scn, its), 'h_c16', scn, 0, 3, 0, -1, its, 33))
    for scn in range(6):
        for its, nvs in ((0, 999), (111, 444), (222, 232), (102, 323), (20, 232)):
            for prim, patch, n in ((0, 0, 5), (1, 0, 4), (2, 0, 4), (3, 0, 6), (4, 0, 5), (5, 0, 4), (6, 2, 4)):
                j.append(conv('s%d-%d-p%d' % (scn, its, prim), 'h_c16', scn, prim, n, 0, -1, its, nvs, 0, patch))
    return j
spec('C16', unit='lib', harness=['conv.cpp', 'large.cpp'], covers=['flattened'], jobs=c16, bounds='6 scenarios, 5 mixes of indexed and direct streams, all primitive types, 4-6 positions; every vertex byte and index value; scenarios with 3 output streams and vertices of 64 and 257 bytes; 65 537 and more vertices or positions with a free end')
def c17(tier):
    q = tier == 'quick'; j = [dict(id='invalid', entry='h_c17_invalid', params=[0])] + [large(n, v, it, ot, bad=1) for n, v, it, ot in ((65540, 65539, 2, 2), (65538, 65535, 1, 0), (65537, 65537, 2, 0))] + [large(65540, 65539, 2, 1)]
    for prim in range(7):
        for two in ((prim % 2,) if q else (0, 1)): j.append(dict(id='add%d-%d' % (prim, two), entry='h_c17_add', params=[0, prim, 3 if prim == 6 else 0, 2 if q else 3, two, 0], opts='merge'))
    if q: j += [dict(id='three%d' % p, entry='h_c17_add', params=[0, p, 0, 3, p % 2, 1], opts='merge') for p in (0, 3, 5)]
    def cv(scn, prim, n, it, mx, its, nvs, miss=0, patch=0): j.append(dict(id='s%d-p%d-n%d-i%d-m%d-%d-%d%s' % (scn, prim, n, it, mx, its, nvs, '-miss' if miss else ''), entry='h_c17_convert', params=[0, scn, prim, n, it, mx, its, nvs, miss, patch], opts='merge'))
    for scn, its, nvs in ((0, 1, 2), (0, 2, 3), (1, 2, 2), (2, 12, 32), (2, 20, 30), (3, 120, 232), (4, 1, 3), (0, 2, 0)):
        for prim, n, patch in ((0, 3, 0), (1, 2, 0), (1, 4, 0), (2, 4, 0), (3, 3, 0), (4, 4, 0), (5, 4, 0), (6, 4, 2)):
            for it in (0, 1): cv(scn, prim, n if q or scn else n + patch + (prim == 1) * 2 + (prim == 3) * 3 + (prim not in (1, 3, 6)), it, 2 if it and prim % 2 else -1, its, nvs, 0, patch)
    for scn in (0, 2, 3): cv(scn, 0, 2, 1, -1, 111, 222, 1)
    for prim in range(7): cv(1, prim, 0, 2, -1, 0, 0, 0, 1)
    return j
spec('C17', unit='lib', harness=['conv2.cpp', 'large.cpp'], covers=['added', 'refused', 'missing element', 'invalid converter', 'converted', 'not converted'], jobs=c17, bounds='sequences of up to 3 addVertexStream calls with any of 6 formats, null data, index types and 32-bit counts; conversions with any index values (in range or not) over 2-4 positions with bounds-checked buffers; repeated conversion')
spec('C18', unit='lib', harness=['conv2.cpp'], covers=['valid', 'invalid'],
  jobs=lambda tier: [dict(id='c%d-%d%d%d' % (k, ns, a, b), entry='h_c18', params=[0, ns, a, b, k], opts='') for ns, a, b in ((0, 0, 0), (1, 0, 0), (1, 1, 0), (1, 2, 0), (2, 1, 0), (2, 0, 1), (2, 1, 1), (2, 2, 2), (2, 0, 0), (3, 1, 1), (3, 2, 0)) for k in ((0, 1, 2, 3) if ns == 1 else (0, 1))], bounds='0-3 output streams of 0-2 elements, every primitive type (and Invalid), index type, 32-bit patch size and maximum, all four constructors')
def c19(tier):
    q = tier == 'quick'; j = [dict(id='w-%d-%d' % (it, a), entry='h_c19', params=[0, 6, 2, 0, 9, it, a, 0], opts='merge') for it in (0, 1) for a in (0, 2, 3) if it == 0 or not q]
    for scn, its, nvs, n, it in ((5, 0, 99, 2, 1), (4, 0, 9, 2, 0), (4, 2, 2, 2, 0), (1, 2, 2, 2, 0), (3, 0, 999, 2, 0)) + (() if q else ((4, 0, 9, 2, 1), (5, 12, 22, 2, 1), (5, 0, 99, 3, 1), (2, 12, 22, 3, 1))):
        for a in range(4):
            for b in range(4):
                if q and scn == 5 and a > 1 and b == 1: continue
                j.append(dict(id='s%d-%d-%d%d' % (scn, its, a, b) + ('-n3' if n == 3 else ''), entry='h_c19', params=[0, scn, n, its, nvs, it, a, b], opts='merge'))
    return j
spec('C19', unit='lib', harness=['conv2.cpp'], covers=['transformed', 'unknown name'], jobs=c19, bounds='every pair of transforms on the first two output elements, any API form and order with adding streams; 2 positions (thorough: 3), every input value')
def c20(tier):
    j = [large(65541, 65538, 2, 2, last=1, bounds=1), large(65540, 65540, 0, 1, bounds=1), large(65542, 65541, 2, 0, 1, last=1, bounds=1), large(65540, 30, 1, 1, per=2500, bounds=1)]
    for scn, its, n in ((7, 0, 2), (7, 21, 2), (8, 0, 2), (8, 1, 2)):
        for prim in (0,): j.append(dict(id='w%d-%d-p%d' % (scn, its, prim), entry='h_c20', params=[0, scn, prim, n, 0, its, 33, 0, -1, int(its > 0)], opts='merge'))
    for scn in range(6):
        for prim, n, its, nvs, rs, mx, it in ((0, 3, 0, 999, 0, -1, 1), (0, 3, 111, 222, 0, -1, 0), (2, 3, 221, 222, 1, 2, 2), (4, 3, 212, 222, 1, -1, 1), (3, 3, 20, 223, 0, 2, 1), (6, 4, 0, 999, 0, 1, 1)):
            if tier == 'quick' and (scn == 5 and prim == 3 or scn > 2 and prim == (2 if scn == 4 else 4)): continue
            if tier != 'quick': n = n + (3 if prim == 3 else 2 if prim == 6 else 1)
            if NIN[scn] == 3 and rs and tier == 'quick': its = its - 200 # fewer choices: the third stream has no indices, and no restarts then
            if rs and '0' in str(its).zfill(3)[-NIN[scn]:]: rs = 0
            j.append(dict(id='s%d-p%d-%d' % (scn, prim, its), entry='h_c20', params=[0, scn, prim, n, it, its, nvs, rs, mx, int(its > 0)], opts='merge'))
    return j
spec('C20', unit='lib', harness=['conv2.cpp', 'large.cpp'], covers=['bounds'], jobs=c20, bounds='6 scenarios, 3-4 positions, every vertex byte (floats within +-1e30), index value and restart placement; scenarios with 3 output streams and vertices of 64 and 257 bytes; 65 537 and more vertices or positions with a free end')
spec('C21', unit='tool', only=['Base64.cpp', 'Path.cpp'], harness=['text.cpp'], covers=['encoded', 'accepted', 'rejected', 'null'],
  jobs=lambda tier: [dict(id='null', entry='h_c21_null', params=[0])] + [dict(id='enc%d' % n, entry='h_c21_enc', params=[0, n, 0], opts='merge') for n in list(range(0, 17 if tier == 'quick' else 50)) + [60]] + [dict(id='enc%d-%d' % (n, k), entry='h_c21_enc', params=[0, n, k], opts='merge') for n, k in ((257, 37), (300, 50), (1000, 200), (4099, 1000))] + [dict(id='dec%d' % n, entry='h_c21_dec', params=[0, n, 0], opts='merge') for n in list(range(0, 17 if tier == 'quick' else 33)) + [36, 48, 49]] + [dict(id='dec%d-%d' % (n, k), entry='h_c21_dec', params=[0, n, k], opts='merge') for n, k in ((260, 37), (1024, 150), (1025, 150), (4096, 1000))],
  bounds='every byte string of 0-16 (thorough: 49) bytes, every text of 0-16 (thorough: 32) characters in a buffer of exactly that size; data and texts of up to 4099 bytes with some bytes free')
spec('C22', unit='tool', only=['Base64.cpp', 'Path.cpp'], harness=['text.cpp'], covers=['with directory', 'bare', 'joined'],
  jobs=lambda tier: [dict(id='split%d' % n, entry='h_c22_split', params=[0, n]) for n in list(range(0, 19 if tier == 'quick' else 33)) + [40, 64]] + [dict(id='join%d-%d' % (a, b), entry='h_c22_join', params=[0, a, b]) for a in range(0, 6 if tier == 'quick' else 13) for b in range(0, 6 if tier == 'quick' else 13)] + [dict(id='join%d-%d' % (a, b), entry='h_c22_join', params=[0, a, b]) for a, b in ((40, 2), (2, 40), (300, 300), (0, 300), (300, 0))],
  bounds='every path of up to 18 (thorough: 32) characters and every pair of up to 5 (thorough: 12) characters each; NUL-free; longer paths (64 and 300 characters) with some characters free', outside='other platforms\' separators (Windows code is not compiled here)')
TOOL = dict(unit='tool', vfs=True, flags=['-DRAPIDJSON_48BITPOINTER_OPTIMIZATION=0', '-include', 'rj_numbers.h'])
def c24(tier):
    q = tier == 'quick'; j = []
    def add(*p): j.append(dict(id='r' + '-'.join(map(str, p)), entry='h_c24', params=[0] + list(p)))
    for n in range(0, 3 if q else 5): add(1, 1, n, 1, 0, 0, 0, 0, 1); add(1, 1, 1, n, 1, 1, 0, 0, 1); add(1, 1, 1, 1, 2, 1, n, 0, 1)
    add(1, 1, 17, 0, 0, 0, 0, 0, 1) if not q else None
    for it in (0, 1, 2):
        for ni in ((0, 1, 2, 3) if it else (0,)): add(2, 2, 1, 1, it, ni, 1, 0, 3)
    add(12, 1, 0, 0, 1, 12, 0, 0, 2); add(1, 20, 1, 0, 2, 1, 0, 0, 1)
    add(1, 1, 0, 0, 0, 0, 0, 1, 1); add(2, 6, 0, 0, 1, 2, 0, 0, 4); add(2, 1, 0, 0, 0, 0, 0, 0, 1); add(1, 2, 0, 0, 0, 0, 0, 1, 1) if not q else None
    return j
spec('C24', harness=['result.cpp', 'toolvfs.cpp'], covers=['finite', 'not finite', 'indices', 'no indices'], jobs=c24, **TOOL,
  bounds='1-2 output streams of 1-6 elements, 0-3 index buffers; every 32-bit count and base vertex, every double as bounds of one element, names and data references of up to 2 (thorough: 4) arbitrary bytes, which parsed back give the original; up to 12 streams, 12 buffers and 20 elements', outside='the decimal spelling of numbers (rapidjson\'s, replaced by a reversible one), NUL in strings, validity of UTF-8')
C23LEN = [200, 760, 400]
def c23(tier):
    q = tier == 'quick'; j = []
    def add(id, e, *p, **k): j.append(dict(id=id, entry='h_c23_' + e, params=[0] + list(p), opts='forkaddr', **k))
    step = 45
    for b in (0, 1, 2):
        for m in ((0, 1, 2, 4) if q and b == 1 else (0, 1, 2, 3, 4) if q or b else (0, 1, 2, 3, 4, 5)):
            for f in range(0, C23LEN[b], 4 if m == 5 else step): add('mut%d-%d-%d' % (b, m, f), 'mut', b, f, f + step, m)
    for s in range(24):
        add('kind%d' % s, 'kind', s, -1)
        if True:
            for s2 in range(s + 1, 24): add('kind%d-%d' % (s, s2), 'kind', s, s2)
    N = [LNAMES[:20], LNAMES[20:], TNAMES, ['uint16', 'uint32'], PNAMES, ['identity', 'bounds', 'unormtosnorm', 'snormtounorm'], ['uint16', 'uint32']]
    for w, names in enumerate(N):
        for i, s in enumerate(names):
            add('name%d-%d' % (w, i), 'name', w, i, -1, 0)
            if True: add('near%d-%d' % (w, i), 'name', w, i, len(s) - 1, 1); add('more%d-%d' % (w, i), 'name', w, i, len(s), 1)
            if not q: add('near2-%d-%d' % (w, i), 'name', w, i, len(s) - 2, 3)
        for n in range(0, 4 if q else 6): add('free%d-%d' % (w, n), 'name', w, 0, 0, n)
    for n in range(0, 6 if q else 8): add('num%d' % n, 'num', n, 0)
    for n in range(1, 4 if q else 6): add('big%d' % n, 'num', n, 1)
    for a, b, c, n in ((2, 0, 1, 1), (1, 1, 2, 1), (3, 0, 1, 1), (2, 1, 2, 1), (1, 1, 1, 2), (2, 2, 2, 0)) + (() if q else ((2, 2, 3, 1), (2, 1, 2, 2))): add('unique%d%d%d-%d' % (a, b, c, n), 'unique', a, b, c, n, 0)
    for a, b, c, n, k in ((1, 1, 1, 1, 1), (1, 1, 0, 1, 2)): add('unique%d%d%d-%d-%d' % (a, b, c, n, k), 'unique', a, b, c, n, k)
    for a, b, c, k in ((1, 1, 1, 0), (2, 0, 1, 0), (1, 0, 2, 0)): add('unique%d%d%d-long' % (a, b, c), 'unique', a, b, c, 17, k)
    for h in range(3): add('again%d' % h, 'again', h)
    for w in range(7): add('file%d' % w, 'file', w)
    for n in (4095, 4096, 4097, 8192): add('long%d' % n, 'long', n)
    return j
spec('C23', harness=['config.cpp', 'toolvfs.cpp'], covers=['accepted', 'rejected', 'unreadable'], jobs=c23, **TOOL,
  bounds='three configuration texts with any byte at any position replaced, removed or inserted, or two adjacent ones replaced (thorough: two anywhere in the first text), and cut off anywhere; any JSON kind (or nothing) for each pair of 24 members; every letter case of every enum name and names with any last characters; number texts of up to 5 (thorough: 7) characters; names of 0-2 characters for 2-5 elements; sequences of two loads', outside='texts further from the templates; NUL characters; duplicate members; null as primitiveType (undocumented)')

def c25(tier):
    q = tier == 'quick'; j = []
    def add(id, e, *p, o='merge'): j.append(dict(id=id, entry='h_main' + e, params=[0] + list(p), opts=o))
    NV = {0: 2, 1: 2, 2: 2, 3: 2, 4: 3, 5: 2, 6: 2, 7: 2, 8: 2, 9: 2, 10: 3}
    for k in range(11):
        n = NV[k]
        for w in range(5): add('s%d-w%d' % (k, w), '', k, w, 0, 0, 0, n, n, 1, w)
        for d, i in ((2, 2), (5, 0), (4, 2), (1, 0), (3, 3)) + (() if q else ((0, 1), (1, 1))): # absolute, sub-directory, a name like the prefix, inline, inline with another prefix case
            if q and d in (1, 3) and k in (4, 10, 9): n = 1
            if d in (1, 3) and k == 2: n = 1
            add('s%d-d%d%d' % (k, d, i), '', k, 0, d, i, 0, n, n, 1, 0)
        if not q: add('s%d-more' % k, '', k, 3, 0, 0, 0, n + 2, n + 1, 2, 0)
    for k in (0, 1, 2, 3, 6, 9, 10):
        ns = 2 if k in (2, 3, 9) else 1
        for t in range(ns):
            for idx in (0, 1):
                if idx and (k in (0, 9) or (k == 3 and t == 0)): continue
                for what in range(6): add('bad%d-%d%d-%d' % (k, t, idx, what), '_bad', k, (t + what) % 4, t, idx, what)
    for n in (0, 1, 2, 3, 4, 5, 8) if q else (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12):
        add('text%d' % n, '_text', 0, 0, n)
        if n <= (4 if q else 8): add('itext%d' % n, '_text', 1, 1, n)
    for k in (0, 2, 3):
        for n in range(0, 5 if q else 8): add('name%d-%d' % (k, n), '_name', k, n)
    for what in range(7): add('cfg%d' % what, '_cfg', what, o='forkaddr')
    for what in range(6): j.insert(0, dict(id='big%d' % what, entry='h_main_big', params=[0, what, 0], opts='merge insts=2000000000' + ' hash=real' * (what == 5)))
    return j
spec('C25', harness=['main.cpp', 'toolvfs.cpp'], covers=['converted', 'converted with indices', 'refused'], jobs=c25, **TOOL, bounds='11 configurations (1-2 streams each way, all ways of indexing, transforms, refused ones) of 1-3 vertices and indices (thorough: up to 5); every vertex byte (one free byte per stream where transforms compute) and index value; 5 places of the configuration, 7 ways to deliver the data; every text of up to 5 or 8 (thorough: 9, 12) characters as inline data; data sizes 0-9; a read error after any number of bytes; every element name of up to 4 (thorough: 7) characters in a transform', outside='real file systems, other platforms, data beyond 4 GiB, embedded NUL characters; the stream and stdio classes are in-memory stand-ins')
def c26(tier):
    q = tier == 'quick'; j = []
    def add(id, e, *p, o='merge'): j.append(dict(id=id, entry='h_main' + e, params=[0] + list(p), opts=o))
    NV = {0: 2, 1: 2, 2: 2, 3: 2, 4: 3, 5: 2, 6: 2, 8: 2, 9: 2}
    for k in NV:
        for o in range(10): add('s%d-o%d' % (k, o), '', k, 0, 0, 0, o, NV[k] + (0 if q else 2), NV[k] + (k in (1, 8)), 0, 4 + o % 4)
    for k in (0, 1, 2, 9):
        for what in range(9):
            for o in ((0,) if what in (4, 5) else (1, 2, 3)):
                if what in (4, 5) or o != 1 or what < 7: add('out%d-%d-%d' % (k, what, o), '_out', k, o, what)
    add('many', '', 11, 0, 0, 0, 1, 2, 0, 0, 0); add('many3', '', 11, 0, 0, 0, 3, 2, 0, 0, 0)
    for what, o in ((3, 1), (4, 1), (5, 1), (5, 10)): j.insert(0, dict(id='big%d-%d' % (what, o), entry='h_main_big', params=[0, what, o], opts='merge insts=2000000000' + ' hash=real' * (what == 5)))
    for what in (0, 1, 2, 3, 6, 7): add('deep-%d' % what, '_out', 1, 7, what)
    return j
spec('C26', harness=['main.cpp', 'toolvfs.cpp'], covers=['converted', 'converted with indices', 'cannot write'], jobs=c26, **TOOL, bounds='9 configurations, 11 output directories (none, nested, absolute, with stale files, repeated and trailing slashes); the first to sixth open, write, close, mkdir or print failing, a failing flush, files and directories in the way; 12 output streams, several index buffers (65 541 vertices)', outside='real file systems, other platforms, data beyond 4 GiB, embedded NUL characters; the stream and stdio classes are in-memory stand-ins')
def c27(tier):
    q = tier == 'quick'; j = []
    def add(*p): j.append(dict(id='a' + '_'.join(map(str, p)), entry='h_c27', params=[0, len(p)] + list(p), opts='merge'))
    add()
    for n in range(0, 9 if q else 13): add(n); add(-1, -7, n); add(n, -2, -7)
    for a in range(1, 9): add(-a); add(-1, -7, -a); add(-3, -8, -a); [add(-a, -b) for b in range(1, 9)]
    for a in (1, 2, 5): add(-3, -8, -a, -7); add(-a, -7, -4, -8)
    for a in ((-1, -7, -3, -8, -6), (-1, -7, -3, -8, -1, -7), (-4, -8, -2, -7, -4, -8), (-1, -7, -3, -8, 3), (-1, -7, 3, -3, -8), (-3, -8, -1, -7, -4), (-1, 3, -1, -7, -3, -8), (-3, 2, -3, -8, -1, -7), (-1, -7, -1, -7, -1, -7, -3, -8)): add(*a)
    for n in range(0, 3 if q else 6): add(-1, n); add(-3, n); add(-4, n, -2, -7)
    return j
spec('C27', harness=['main.cpp', 'toolvfs.cpp'], covers=['help', 'refused', 'converted with indices'], jobs=c27, **TOOL, bounds='up to 4 arguments: every text of up to 8 (thorough: 12) characters as one of them, every pair of known words; lists of 5 to 8 arguments', outside='real file systems, other platforms, data beyond 4 GiB, embedded NUL characters; the stream and stdio classes are in-memory stand-ins')
