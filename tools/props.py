#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (properties without harnesses in registry.py are left out)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import registry

L = []


def p(id, title, statement, over, why, files, mech, na=None):
    assert len(title) <= 80, title
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over[0], text=over[1]), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None), na=na))


IN = ['inputs']
p('C01', 'WTF-8 validation accepts exactly well-formed strings',
  'Turning bytes into a WTF-8 string succeeds for exactly the byte sequences that the WTF-8 definition calls well-formed, and the error otherwise names the longest valid prefix and an ill-formed stretch inside the input. No input makes validation read outside its bytes or panic. A code point type built from an integer exists exactly for 0 to 0x10FFFF.',
  (IN, 'every byte string up to the stated length; every 32-bit integer'),
  'The tests try a handful of byte strings; validity depends on combinations of lead, continuation and neighbouring surrogate bytes that number in the billions.',
  ['wtf8/src/std_internal.rs', 'wtf8/src/lib.rs'], [('validation', 'wtf8/src/std_internal.rs'), ('checked constructors', 'wtf8/src/lib.rs')])
p('C02', 'WTF-8 string operations keep strings well-formed and mean what they say',
  'Pushing, concatenating, slicing, truncating and converting WTF-8 strings give strings that are again well-formed (a high surrogate followed by a low one becomes one character) and that denote exactly the expected sequence of code points and UTF-16 units. Equality, ordering and hashing agree with the byte contents. Slicing inside a character is refused.',
  (IN, 'all strings up to a number of code points, all code points including surrogates, all index pairs'),
  'Unit tests use a few literals; the operations branch on the classes of the characters at the seam, and unsafe code relies on the outcome.',
  ['wtf8/src/lib.rs', 'wtf8/src/std_internal.rs'], [('surrogate pairing on concatenation', 'wtf8/src/lib.rs'), ('boundary checks', 'wtf8/src/lib.rs')])
p('C03', 'Strings of class files decode and encode as modified UTF-8',
  'Writing a string as modified UTF-8 gives the encoding the class file format defines (zero as two bytes, characters beyond the basic plane as two three-byte surrogates) and reading it back gives the same string. Bytes that are not modified UTF-8 are refused with an error, never accepted as an ill-formed string. A string whose encoding is longer than 65535 bytes is refused.',
  (IN, 'every byte string up to the stated length, every string up to a number of code points, lengths around the 65535 limit'),
  'The tests decode a few literals; the decoder branches on every byte and its neighbours and skips validity checks by unsafe code.',
  ['src/mod_utf8.rs', 'src/rw.rs'], [('decoder', 'src/mod_utf8.rs'), ('encoder', 'src/mod_utf8.rs'), ('length-prefixed strings', 'src/rw.rs')])
p('C04', 'Numbers, flags, versions and kinds keep their value and byte order',
  'Every number is written big-endian in the width of its field and reads back as the same value, and input that ends early is an error. Flags keep every defined bit and drop only undefined ones, versions keep both numbers and unknown ones are refused, and method handle kinds map to exactly the numbers 1 to 9.',
  (IN, 'all values of every width, all flag words, all version words, all kind bytes, every truncation'),
  'Tests check single values.',
  ['src/rw.rs', 'src/flags.rs', 'src/version.rs', 'src/dynamic.rs'], [('numeric reading and writing', 'src/rw.rs'), ('flag sets', 'src/flags.rs'), ('version numbers', 'src/version.rs')])
p('C05', 'Constant pools round-trip, share equal entries and refuse bad references',
  'Reading a constant pool gives every constant under its index, with long and double entries taking two, and a reference that is zero, out of range, into the second half of a wide entry or to an entry of another kind is an error. Building a pool gives each distinct constant one index, at which a reader of the written pool finds it. A pool that needs more than 65535 slots is refused.',
  (['inputs', 'histories'], 'all pools up to a number of entries of every kind, all reference values, all insertion sequences of bounded length'),
  'Tests use fixed pools; index arithmetic with wide entries and wrong references depends on the whole sequence of entries.',
  ['src/cp.rs', 'src/constants/mod.rs'], [('reading and lookups', 'src/cp.rs'), ('insertion with sharing', 'src/cp.rs')])
p('C06', 'Descriptors parse and print exactly',
  'Parsing accepts exactly the field and method descriptors of the class file format and gives the type they denote, and printing a type gives the descriptor that parses back to it. Anything else, including text after a complete descriptor and more than 255 dimensions, is an error.',
  (IN, 'every ASCII text up to the stated length, types with arbitrary class names, dimensions around the limit'),
  'Tests parse a few well-formed descriptors.',
  ['src/ty.rs'], [('descriptor parser', 'src/ty.rs'), ('descriptor printer', 'src/ty.rs')])
p('C07', 'Generic signatures parse and print exactly',
  'Parsing accepts exactly the class, field, method and local signatures of the class file format and gives the structure they denote, and printing a structure gives a signature that parses back to it. Text that is not a signature is an error and never a panic.',
  (IN, 'every ASCII text up to the stated length, every sequence of grammar tokens up to a length, bounded structures with arbitrary identifiers'),
  'Tests parse a few signatures from the JDK; the recursive grammar has unboundedly many shapes and error paths.',
  ['src/signature.rs'], [('signature parser', 'src/signature.rs'), ('signature printers', 'src/signature.rs')])
p('C08', 'Bytecode reads as the instructions it encodes',
  'Reading the code of a method gives, for every opcode and operand (including the wide forms), the instruction the JVM specification defines, at the right position and with the right operands and constants. Opcodes that do not exist, operands of the wrong kind and instructions cut off by the end of the code are errors. Shorthand opcodes give the same instruction as their long form.',
  (IN, 'all 256 opcodes with all operand bytes, all constants they may refer to, wide and cut-off forms, at every alignment'),
  'Tests read a few compiled methods which use a small part of the 200 opcodes and of the operand values.',
  ['src/insn.rs', 'src/code.rs', 'src/code/convert.rs'], [('instruction decoder', 'src/insn.rs'), ('conversion to labelled code', 'src/code.rs')])
p('C09', 'Instructions are written as bytecode with the same meaning',
  'Writing code gives bytes that a JVM decodes to the same instructions with the same operands and constants, whichever of the short, normal or wide encodings is chosen. Reading the written bytes gives back the code.',
  (IN, 'every kind of instruction, all operand values, all constants'),
  'Tests write few instructions; the writer chooses between encodings by operand value.',
  ['src/insn.rs', 'src/code.rs', 'src/code/convert.rs', 'src/loadable.rs'], [('instruction encoder', 'src/code.rs'), ('choice of short forms', 'src/insn.rs')])
p('C10', 'Jumps and switches reach the instruction they name',
  'After reading, every jump and switch of a method targets the instruction at the position the bytes say; after writing, the encoded offset leads to where the label stands, for near and far targets and with correct switch padding. A jump to a position that is not an instruction, or to a label that is not in the code, is an error.',
  (IN, 'all jump kinds and offsets in bounded code, all switch tables up to a size, every alignment, distances around the 16-bit limit'),
  'Tests contain few jumps, all near; sizes of jumps and their offsets depend on each other.',
  ['src/code.rs', 'src/code/convert.rs', 'src/insn.rs'], [('label resolution', 'src/code.rs'), ('jump sizing', 'src/code.rs'), ('switch encoding', 'src/insn.rs')])
p('C11', 'Exception tables, line numbers, local variables stay on their code',
  'Exception handlers, line numbers, local variable names and types, and annotations inside code refer, after reading, to the same positions, ranges, slots and types as in the class file, and after writing the positions are those of the same instructions. An entry that names a position outside the code is an error rather than a panic or a silent change.',
  (IN, 'all entries with symbolic positions, slots, types and names in bounded code'),
  'Tests compare a few compiled methods.',
  ['src/code.rs', 'src/code/convert.rs', 'src/annotation/'], [('code attributes', 'src/code.rs'), ('ranges by labels', 'src/code.rs')])
p('C12', 'Stack map frames keep their form, offsets and types',
  'A stack map frame of any of the compact or full forms is read as the form, offset and verification types it encodes and is written back as bytes with the same meaning. Frame tags and type tags that do not exist are errors.',
  (IN, 'all frame tags, all offsets, all verification types, bounded numbers of locals and stack entries'),
  'Tests do not exercise most of the frame forms; tag arithmetic covers 256 values.',
  ['src/code.rs', 'src/code/structure.rs'], [('frame forms', 'src/code.rs')])
p('C13', 'Annotations keep every value and target',
  'Annotations, type annotations, parameter annotations and annotation defaults read as the values, targets and paths the class file states and are written back with the same meaning, in the visible or invisible group they came from. Element values whose constant does not fit their type and unknown tags are errors.',
  (IN, 'every kind of element value to a nesting depth, every target and path, symbolic numbers and names'),
  'Tests read few annotations; tag and target dispatch has dozens of cases.',
  ['src/annotation/', 'src/attr.rs', 'src/member.rs'], [('element values', 'src/annotation/mod.rs'), ('type annotation targets', 'src/annotation/type_annotation.rs')])
p('C14', 'Whole classes keep their header, members and attributes',
  'Reading a class gives its version, flags, name, superclass, interfaces, fields, methods and attributes as the file states, and writing it gives a file with the same contents whose counts and references are consistent. A wrong magic number, a file cut short at any byte, or a reference that does not resolve is an error.',
  (IN, 'class files with bounded numbers of interfaces, fields, methods and attributes, symbolic contents, every truncation'),
  'Tests read some JDK classes, if Java is present at all.',
  ['src/clazz.rs', 'src/member.rs', 'src/attr.rs'], [('class reading and writing', 'src/clazz.rs'), ('member reading and writing', 'src/member.rs')])
p('C15', 'Attributes are framed by their length and unknown ones are kept',
  'Every attribute is written with a length that equals its contents, and reading consumes exactly the stated length; an attribute whose contents are shorter or longer than stated is an error. An attribute with an unknown name keeps its name and bytes through reading and writing, wherever it stands.',
  (IN, 'all attribute places, names and contents of bounded size, all stated lengths'),
  'Tests contain only well-formed attributes with known names.',
  ['src/attr.rs', 'src/member.rs', 'src/code.rs', 'coffer_macros/src/'], [('attribute framing', 'coffer_macros/src/'), ('raw attributes', 'src/attr.rs')])
p('C16', 'Dynamic constants, call sites and method handles resolve to their bootstrap',
  'A dynamic constant or call site read from a class has the bootstrap method, arguments, name and descriptor its indices point to, also when arguments are themselves dynamic; writing keeps them and stores equal bootstrap methods once. The validity check of method handles accepts exactly those whose kind fits the member. Dangling indices and bootstrap methods that need their own result are errors, not panics or endless recursion.',
  (IN, 'all method handle kinds and members, bounded bootstrap tables with arbitrary index values'),
  'Tests do not cover nested or cyclic bootstrap arguments or index errors.',
  ['src/dynamic.rs', 'src/cp.rs', 'src/clazz.rs', 'src/loadable.rs'], [('late resolution of bootstrap methods', 'src/cp.rs'), ('bootstrap table', 'src/clazz.rs')])
p('C17', 'No input bytes make reading panic, loop or over-allocate',
  'Reading any bytes as a class file, or as any of its parts, ends with a value or an error: it does not panic, overflow, read out of bounds, run forever or allocate memory out of proportion to the input (more than 1 MiB at once for a short input). Nesting so deep that it exhausts the stack is excepted.',
  (IN, 'all byte strings of bounded length after fixed valid prefixes for every structure'),
  'Tests feed valid classes only; malformed input is an open-ended space.',
  ['src/clazz.rs', 'src/cp.rs', 'src/insn.rs', 'src/code.rs', 'src/attr.rs', 'src/annotation/', 'src/signature.rs', 'src/ty.rs'], [('error type and checked reads', 'src/error.rs'), ('readers', 'src/rw.rs')])
p('C18', 'Modules, inner classes and other class attributes keep their contents',
  'Module declarations, inner classes, enclosing methods, nest lists, source files, debug extensions, thrown exceptions, parameter names and constant values read as the class file states them and are written back with the same meaning. Optional parts stay absent when absent.',
  (IN, 'all combinations of optional parts and flags, bounded lists, symbolic names and constants'),
  'Tests contain one or two examples of some of these attributes.',
  ['src/module.rs', 'src/attr.rs', 'src/member.rs', 'src/clazz.rs'], [('module attribute', 'src/module.rs'), ('class attributes', 'src/attr.rs'), ('member attributes', 'src/member.rs')])
p('C19', 'Values compare and combine lawfully: floats, conditions, types',
  'Floating-point constants compare by bit pattern, so that equality is an equivalence that agrees with hashing and distinguishes zeros and NaN payloads. Negating a jump condition gives exactly the opposite outcome for all operands, and type helpers give the sizes and array types the JVM defines.',
  (IN, 'all bit patterns, all operand pairs, all conditions, all dimension sums up to 255'),
  'Tests sample single values.',
  ['src/total_floats.rs', 'src/code/structure.rs', 'src/ty.rs'], [('total float wrappers', 'src/total_floats.rs'), ('condition negation', 'src/code/structure.rs')])
p('C20', 'What does not fit the format is refused, never truncated',
  'Writing a structure with more elements, bytes or slots than its count or length field can hold fails with an error. Nothing is ever written with a count, length or offset that differs from the contents.',
  (IN, 'sizes around every 8-bit and 16-bit limit'),
  'Tests write small structures only.',
  ['src/rw.rs', 'src/helper.rs', 'src/cp.rs', 'src/code.rs', 'src/clazz.rs', 'src/mod_utf8.rs'], [('checked count conversion', 'src/helper.rs'), ('code size limit', 'src/code.rs'), ('pool size limit', 'src/cp.rs')])
p('C21', 'Input and output faults surface as errors and leave no false success',
  'When the source ends or fails at any byte, or the destination fails or stops accepting data at any byte, the operation returns that error. Short reads and short writes do not change the result.',
  (['fault_sequences', 'inputs'], 'a fault at every byte position, every split of the data into short reads and writes'),
  'Tests use in-memory buffers which never fail.',
  ['src/rw.rs', 'src/clazz.rs', 'src/cp.rs'], [('use of exact reads and complete writes', 'src/rw.rs')])
p('C22', 'Reading, writing and reading again changes nothing',
  'Whenever bytes are accepted as a structure, writing the result succeeds, and reading what was written gives an equal structure (stack maps, which are not kept, and the place of the bootstrap method table aside).',
  (IN, 'all byte strings of bounded length after fixed valid prefixes for every structure'),
  'Tests compare single round trips of valid samples.',
  ['src/clazz.rs', 'src/code.rs', 'src/attr.rs', 'src/annotation/', 'src/module.rs'], [('paired readers and writers', 'coffer_macros/src/')])


def main():
    have = [x for x in L if x['id'] in registry.PROPS or x['na']]
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for x in have:
            f.write(json.dumps({k: v for k, v in x.items() if k != 'na'}) + '\n')
    m = dict(version=1, setup_cmd='python3 check.py --setup', checks=[], not_applicable=[])
    for x in have:
        if x['na']:
            m['not_applicable'].append(dict(property=x['id'], reason=x['na']))
            continue
        P = registry.PROPS[x['id']]
        m['checks'].append(dict(property=x['id'], quick_cmd='python3 check.py ' + x['id'], thorough_cmd='python3 check.py %s --thorough' % x['id'],
                                technique='symbolic execution of the compiled code (rustc LLVM IR) with SMT solving (z3), counterexamples replayed natively',
                                level='model_checking', level_note='Holds for all inputs within the bounds: ' + '; '.join('%s: %s' % (h.what, h.bounds('quick')) for h in P.harnesses if not h.thorough_only)[:1500] + '. Trusts the executor in engine/, z3, and the reference model in harness/src; see DESIGN.md.'))
    m['notes'] = 'known findings and repairs: known_findings.json; no hooks in /repo are needed.'
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
    print(len(have), 'properties')


main()
