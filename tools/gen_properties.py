#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

VV='lib/src/VertexValue.cpp'; VF='lib/src/VertexFormat.cpp'; CV='lib/src/Converter.cpp'
p('C01','Decoding an element yields exactly the value its format defines',
  'For every valid layout/type pair and every bit pattern, reading an element yields, per stored component in the layout\'s bit positions: the integer itself for UInt/SInt, code/(2^n-1) for UNorm, the code mapped linearly from the lowest code at -1 to the highest at +1 for SNorm, and the stored 32/64-bit float itself. Components the layout does not store are Y=0, Z=0, W=1.',
  ['inputs'],'every valid (layout, type) with 8/16/32/64-bit or 2-10-10-10 components and every bit pattern of the element',
  'Tests decode one hand-picked value per format; a wrong mask, shift, sign extension or divisor for other codes or components goes unseen.',
  [VV],[('VertexValue::fromData and the unpack* helpers',VV)],observe=['VertexValue::fromData'])
p('C02','Encoding an element stores the nearest representable value, saturating',
  'Writing a value to an integer or normalized element stores in each component the code whose value is nearest to the given one after clamping to the format\'s range ([0,1] for UNorm, [-1,1] for SNorm, the integer range for UInt/SInt), so out-of-range values saturate and never wrap. Writing to a 32/64-bit float element stores that value rounded to the nearest float of that size.',
  ['inputs'],'every valid (layout, type) with 8/16/32/64-bit or 2-10-10-10 components and every non-NaN double in every component',
  'Tests encode a few in-range values; rounding direction, saturation ends and cross-component bleed must hold for all 2^64 doubles.',
  [VV],[('VertexValue::toData and the pack* helpers',VV)],observe=['VertexValue::toData'])
p('C03','Decode then encode in the same format returns the same bytes',
  'For every valid layout/type pair, reading an element and writing the value back in the same format reproduces the original bytes, so a conversion whose input and output formats agree is lossless. Excluded are NaN payloads, the documented double limit for 64-bit integers (above 2^53) and non-canonical shared-exponent encodings, which keep their value rather than their bits.',
  ['inputs'],'every valid (layout, type) and every non-NaN bit pattern of the element',
  'The tests round-trip one bit pattern per format out of up to 2^256.',
  [VV],[('VertexValue::fromData / toData',VV)],observe=['VertexValue::fromData','VertexValue::toData'])
p('C04','16-bit float elements convert correctly on every CPU',
  'Reading a 16-bit float yields the exact value of its IEEE half encoding (zeros, denormals and infinities included), and writing stores a half adjacent to the value (taken as a 32-bit float) with error at most half a unit in the last place, overflow to infinity only beyond the half range. This holds both with and without hardware half-float support, and every non-NaN half survives reading and writing back on either.',
  ['inputs','configurations'],'all 65536 half patterns, all non-NaN floats, with the hardware capability bit on and off',
  'Tests use exactly representable values and exercise only the path of the CPU they run on.',
  [VV,'lib/src/HalfFloat.h','lib/src/HalfFloat.cpp'],[('packHalfFloatValues/unpackHalfFloatValues',VV),('hardware path','lib/src/HalfFloat.h')],observe=['VertexValue::fromData','VertexValue::toData'])
p('C05','Packed small-float elements (11/11/10, shared exponent) convert faithfully',
  'Reading a Z10Y11X11_UFloat or E5Z9Y9X9_UFloat element yields for X, Y and Z exactly the value of each component\'s encoding, independent of the other components (bar the shared exponent), and W=1. Writing any finite value stores a representable neighbour of it in every component: negative values become zero, values above the maximum saturate to the largest finite value, and nothing wraps.',
  ['inputs'],'every 32-bit pattern of both layouts without infinity/NaN codes, and every finite double in X, Y, Z',
  'Tests use the single triple (1.25, 2, 5.5); zero components, denormals and range ends are never tried.',
  [VV],[('Z10Y11X11_UFloat / E5Z9Y9X9_UFloat cases',VV)],observe=['VertexValue::fromData','VertexValue::toData'])
p('C06','Element access touches exactly the element and rejects invalid formats',
  'Reading or writing an element accesses only the bytes of that element (its layout size), at any alignment; writing sets all of them as a function of the stored components only, and leaves every neighbouring byte alone. A null pointer, an invalid layout or a type the layout cannot hold returns false without touching memory, for 8-bit, 2-10-10-10, 16-bit and packed-float layouts.',
  ['inputs'],'every layout and type enum value including out-of-range ones, every alignment, every buffer content',
  'Tests use aligned variables of generous size and never look at neighbouring bytes.',
  [VV],[('VertexValue::fromData / toData',VV)],observe=['VertexValue::fromData','VertexValue::toData'])
p('C07','Bounds-normalized encoding spans the box and can be undone',
  'Encoding with a bounding box into UNorm maps the box minimum to 0, the maximum to 1 and values between linearly (SNorm: -1 to +1), rounding to the nearest code and saturating outside the box; a component whose box has no extent (less than the double epsilon) is stored as a value that interpolation still maps back to it. Interpolating between minimum and maximum with the decoded value returns the original within half a code step, and for non-normalized types the box has no effect.',
  ['inputs'],'every finite value and box with min <= value <= max per component, every normalized layout',
  'Tests encode only the two box corners of one box.',
  [VV],[('VertexValue::toData with bounds',VV)],observe=['VertexValue::toData(bounds)','Converter Transform::Bounds'])
p('C08','Expanding bounds keeps the tightest box around everything seen',
  'After expanding freshly initialized bounds with any sequence of values, each component of the minimum/maximum equals the smallest/largest of that component over all finite values seen, and expanding never shrinks the box. NaN components are ignored.',
  ['inputs','histories'],'every pre-state box and every value, including infinities, signed zeros and NaN; one step from any state plus the initial state',
  'Tests expand with a handful of ordered values.',
  ['lib/include/VFC/VertexValue.h',VV],[('VertexValue::expandBounds','lib/include/VFC/VertexValue.h'),('initialBoundsMin/Max',VV)],observe=['VertexValue::expandBounds'])
p('C09','Names, sizes and validity of formats form one consistent table',
  'Every layout, element type and primitive type maps to its own documented name (XYZW and RGBA spellings for layouts) and back, in any letter case, and every other string or null maps to Invalid. A layout\'s size equals the number of bytes its name spells, and validity accepts exactly the documented pairs: no floats in 8-bit and 2-10-10-10, no normalized 32/64-bit, only Float for the packed floats.',
  ['inputs'],'every enum value, every letter-case variant of every name, every string up to a length bound',
  'Tests sample a few names; table slips for a single entry or letter case go unseen.',
  [VF],[('name tables, maps and sizes',VF),('isElementValid',VF)],observe=['elementLayoutName/FromName','elementTypeName/FromName','primitiveTypeName/FromName','elementLayoutSize','isElementValid'])
p('C10','A vertex format is always a gap-free packing of uniquely named elements',
  'After any sequence of append attempts, the elements are exactly the accepted ones in order, each starting where the previous one ends, and the stride is the sum of their sizes. An append is accepted exactly when layout/type is valid and no element has that name; a rejected append reports the reason and changes nothing, lookup by name finds exactly the element of that name, and equality and containment follow from the elements.',
  ['histories','inputs'],'every sequence of appends of arbitrary layouts, types and names, up to the stated length',
  'Tests append a fixed handful of elements.',
  [VF,'lib/include/VFC/VertexFormat.h'],[('VertexFormat::appendElement/find/containsElements',VF)],observe=['VertexFormat public API'])
p('C11','Vertex-count rules and index access are right for every value',
  'A vertex count is accepted for a primitive type exactly when it forms whole primitives (any for points; even for line lists; multiples of 3 or of the patch size for triangle and patch lists; 0 or at least 2 for line strips, 0 or at least 3 for triangle strips and fans). Writing an index and reading it back returns it (for 16-bit, its low 16 bits) without disturbing other indices, missing data yields the default, and the size, maximum and restart value of an index type are those of its width.',
  ['inputs'],'every 32-bit count, every patch size > 0, every index value and position in a bounded buffer',
  'Tests check a few counts; boundary values per primitive are sampled.',
  [VF,'lib/include/VFC/IndexData.h'],[('isVertexCountValid',VF),('getIndexValue/setIndexValue/indexSize/maxIndexValue','lib/include/VFC/IndexData.h')],observe=['isVertexCountValid','IndexData.h functions'])
p('C12','Every converted index resolves to the vertex the input index described',
  'For every output position, the vertex found through the output index plus its base vertex holds, element by element and in every output stream, the conversion of the input data that this position referred to in the input stream supplying that element. The number and order of positions is that of the input, and primitive restarts stay where they were and are output as the restart value of the output index type.',
  ['inputs'],'all vertex data and index contents (any index types in and out, several input and output streams, several elements per stream) within the stated vertex and index counts',
  'Tests convert one quad; wrong stride/offset/stream arithmetic or index narrowing hides for particular layouts and index patterns.',
  [CV],[('Converter::convert',CV),('addVertex / addIndex',CV)],observe=['Converter::getVertices','Converter::getIndices'])
p('C13','List index buffers split without breaking primitives',
  'For point, line, triangle and patch lists with any maximum index value, the index buffers together list the same primitives in the same order as an unsplit conversion, each buffer holds whole primitives only, no index exceeds the maximum, and base vertex plus index always lies inside the vertex data. A new buffer is started only when the next primitive might not fit.',
  ['inputs'],'all index contents, all vertex data and all admissible maximum index values, within the stated counts',
  'Tests split one fixed mesh per primitive type at one place.',
  [CV,'lib/include/VFC/Converter.h'],[('room check and buffer switch in Converter::convert',CV)],observe=['Converter::getIndices','Converter::getVertices'])
p('C14','Strip and fan index buffers split without losing or inventing primitives',
  'For line strips, triangle strips and triangle fans with any restarts and any maximum index value, drawing the index buffers one after the other produces the same lines or triangles in the same order, with the same winding, as drawing the input. No index except a restart exceeds the maximum, base vertex plus index always lies inside the vertex data, and no memory outside the converter\'s data is touched, also when consecutive vertices are identical.',
  ['inputs'],'all index contents including restarts and repeated vertices, and all admissible maximum index values, within the stated counts',
  'Tests split one strip and one fan at one place without repeated vertices.',
  [CV],[('copyConnectedVertices / copyVertex / addVertex',CV)],observe=['Converter::getIndices','Converter::getVertices'])
p('C15','Indexed output stores each distinct vertex once per index buffer',
  'With indices, two positions in one index buffer share an index exactly when their converted vertices are byte-identical across all output streams. Vertices are stored in order of first use, every stored vertex is used as long as no strip or fan had to be continued in a new buffer, and all output streams hold the same number of vertices, which is the reported vertex count.',
  ['inputs'],'all vertex data contents (so all equality patterns between vertices) within the stated counts, single and multiple output streams',
  'Tests have fixed equality patterns; hashing or comparison faults need particular byte patterns.',
  [CV],[('VertexRef / VertexHash / addVertex',CV)],observe=['Converter::getVertices','Converter::getIndices','Converter::getVertexCount'])
p('C16','Unindexed output is the flattened vertex sequence',
  'When no index type is requested, there are no index buffers and the vertex data of every output stream is the conversion of the referenced input vertices, one per input position in order, without merging. Input streams with and without their own indices may be mixed.',
  ['inputs'],'all vertex data and index contents, mixing indexed and unindexed streams, within the stated counts',
  'Tests flatten one quad.',
  [CV],[('Converter::convert without indices',CV)],observe=['Converter::getVertices','Converter::getIndices'])
p('C17','Bad streams and unusable conversions are refused without reading out of bounds',
  'Adding a stream returns false with an error message when data is missing, its position count differs from earlier streams or forms no whole primitives, or it redefines an element; converting returns false with an error message when the converter is invalid, an element has no stream, an index is out of range for its stream, a restart is used without output indices, or vertices were already converted. Whatever the streams contain, no byte outside the data the caller supplied is ever read, and a successful call logs nothing.',
  ['inputs','histories'],'all stream parameters, index contents and call orders within the stated counts',
  'Tests try single hand-made errors in one order.',
  [CV],[('Converter::addVertexStream / convert checks',CV)],observe=['return values','error handler','memory accesses'])
p('C18','Converter construction validates its configuration',
  'A converter is valid exactly when it has at least one output stream, none of them empty, a real primitive type, a non-zero patch size for patch lists and, with indices, a maximum index value that is large enough for one primitive and not above the index type\'s range; otherwise an error is logged and its output format is empty. The default maximum leaves the restart value free, and the getters report the configuration given.',
  ['inputs','configurations'],'every primitive type, index type, patch size and 32-bit maximum index value, formats of 0..2 streams',
  'Tests try a few constructor arguments per error.',
  [CV,'lib/include/VFC/Converter.h'],[('Converter::Converter',CV)],observe=['Converter::isValid','getters','error handler'])
p('C19','Each element gets exactly the transform set for it',
  'Setting a transform by name or position affects only that element and is reported back; unknown names return false and change nothing. On conversion Identity stores the value itself, UNormToSNorm stores 2v-1, SNormToUNorm stores v/2+1/2 and Bounds stores the value normalized by the bounds of that element\'s own referenced input values.',
  ['inputs','histories'],'all values and all assignments of transforms to the elements of one or two output streams, within the stated counts',
  'Tests set one transform on a quad.',
  [CV,'lib/include/VFC/Converter.h'],[('Converter::setElementTransform / convert',CV)],observe=['Converter::getElementTransform','Converter::getVertices'])
p('C20','Reported element bounds are the exact bounds of the referenced input values',
  'After conversion the bounds of each output element equal the component-wise minimum and maximum of the untransformed input values of that element over all referenced vertices, wherever the element lies in its input stream. Unreferenced vertices and restarts do not contribute, and unknown names return false.',
  ['inputs'],'all vertex data and index contents, streams with several elements, within the stated counts',
  'Tests have one element per stream and reference every vertex.',
  [CV],[('bounds pass in Converter::convert',CV),('Converter::getVertexElementBounds',CV)],observe=['Converter::getVertexElementBounds'])
p('C21','Base64 encoding and decoding are exact inverses and decoding is strict',
  'Encoding yields the standard padded base64 text of the bytes, and decoding it gives back the same bytes. Decoding accepts exactly the strings made of whole 4-character groups of the standard alphabet with correct padding only at the very end, rejects everything else (including null), and never reads past the end of the string. Unused trailing bits of the last group are not checked.',
  ['inputs'],'every byte sequence and every string up to the stated length',
  'Tests use a few fixed strings.',
  ['tool/Base64.cpp'],[('base64::encode / decode','tool/Base64.cpp')],observe=['base64::encode','base64::decode'])
p('C22','Path helpers split and join consistently',
  'The file name is what follows the last separator, the parent directory is what precedes it (the root for top-level absolute paths, empty without separator), and a path is absolute exactly when it begins with a separator. Joining yields the right path when it is absolute or the left is empty, the left when the right is empty, and otherwise both with exactly one separator added if the left does not end in one, so that joining parent and file name gives a path to the same file.',
  ['inputs'],'every pair of strings up to the stated length',
  'Tests use a few fixed paths.',
  ['tool/Path.cpp'],[('path::*','tool/Path.cpp')],observe=['path::getFileName','path::getParentDirectory','path::join','path::isAbsolute'])
p('C23','A configuration file is accepted exactly when well-formed and is read faithfully',
  'Loading a configuration yields the output formats, index type, primitive type, patch points, input streams and transforms it states, with the documented defaults for optional members and enum names in any letter case. Missing or wrongly typed members, unknown enum names, empty format lists, invalid layout/type pairs, duplicate element names, non-positive patch points for patch lists, text that is not JSON and files that cannot be read completely make loading fail with an error message.',
  ['inputs'],'configurations from the stated templates with symbolic enum names, numbers, member names and value kinds',
  'Tests load a fixed list of good and bad documents.',
  ['tool/ConfigFile.cpp'],[('ConfigFile::load and its readers','tool/ConfigFile.cpp')],observe=['ConfigFile::load','ConfigFile getters','error handler'])
p('C24','The result file describes the conversion truthfully',
  'The result JSON is well-formed and lists, for each output stream in order, its elements with name, layout, type, offset and bounds, its stride and its data reference; then the vertex count and, when indices were requested, the index type and each index buffer\'s count, base vertex and data reference. Non-finite bounds are written as null, strings are escaped so that parsing gives back the original, and the index members are absent when no indices were requested.',
  ['inputs'],'all counts, base vertices, offsets, and element names and data references up to the stated length',
  'Tests compare three fixed documents.',
  ['tool/ResultFile.cpp'],[('resultFile','tool/ResultFile.cpp')],observe=['resultFile'])
p('C25','The tool feeds the converter exactly the data the configuration names',
  'For each stream the tool loads the named file relative to the configuration\'s directory (or the inline base64 data, prefix in any letter case), passes it with counts equal to its size divided by vertex stride or index size, and keeps it alive until conversion; every configured transform is applied. A configuration or data that cannot be read completely or decoded, has a fractional element or cannot be converted, or a transform naming an unknown element, makes the tool fail with a message and produce no result and no output files. Empty data may be refused.',
  ['inputs','fault_sequences'],'all inline data contents and sizes, file contents and missing files, within the stated bounds',
  'Functional tests run one configuration per data source.',
  ['tool/main.cpp'],[('loadData / setupConverter / main','tool/main.cpp')],observe=['tool exit status','tool output','error output'])
p('C26','The tool writes out exactly what was converted',
  'On success the tool prints a result whose vertex and index data (inline base64, or files in the output directory, which is created as needed) are byte for byte the converted data, with one index entry per index buffer and counts that match the data. If the output directory or a file cannot be created or written, or the result cannot be printed, it exits with failure and a message, and prints no result when an output file failed.',
  ['inputs','fault_sequences'],'all converted contents, output modes and output directory names, failing writes at every file, within the stated bounds',
  'Functional tests run one mesh per output mode, with long paths and data.',
  ['tool/main.cpp','tool/ResultFile.cpp'],[('writeOutput / writeFile / mkdirRecursive / main','tool/main.cpp')],observe=['stdout','output files','exit status'])
p('C27','The command line is interpreted as documented',
  'The options -i/--input and -o/--output, in any order, name the configuration (standard input when absent) and the output directory (inline output when absent). -h or --help prints a help text naming every option, layout, type, primitive and transform, exits successfully and does nothing else. An argument that is no option, or an option without its value, makes the tool exit with failure and a message, creating nothing.',
  ['inputs','configurations'],'every argument text up to the stated length, every pair of the known words, with and without values',
  'Functional tests call the tool with a few fixed command lines.',
  ['tool/main.cpp'],[('main / printHelp','tool/main.cpp')],observe=['exit status','stdout','stderr','files created'])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
