"""Which harnesses decide which property, and within which bounds."""

COMMON = ['rustc 1.99.1 debug build (overflow checks and debug assertions on), x86-64, lowered to LLVM IR; LLVM sroa/early-cse/instcombine/simplifycfg/inline preserve its meaning',
          'the symbolic executor in engine/ and z3 4.8.12 (every model is re-evaluated, every counterexample is replayed natively, sampled passing paths are replayed natively)',
          'the allocator never fails below 64 MiB; HashMap lookups are decided for a hasher that maps all keys to one value (a legal hasher: any result that depends on hash values would differ)',
          'error-message text produced by format! is not part of any property and is abstracted unless a counterexample fails to replay']


class H:
    def __init__(self, name, what, bounds, quick=(), thorough=None, covers=(), opts=(), cost=1, nondet=False, tq=400, tt=3000, thorough_only=False):
        self.name, self.entry, self.what = name, 'h_' + name, what
        self._b, self._q, self._t = bounds, tuple(quick), tuple(thorough) if thorough is not None else tuple(quick)
        self.covers, self.opts, self.cost, self.nondet, self._tq, self._tt, self.thorough_only = covers, list(opts), cost, nondet, tq, tt, thorough_only

    def params(self, tier):
        return self._t if tier == 'thorough' else self._q

    def bounds(self, tier):
        p = self.params(tier)
        return self._b.format(*p) if p else self._b

    def limit(self, tier):
        return self._tt if tier == 'thorough' else self._tq


class P:
    def __init__(self, harnesses, level='model_checking', assumptions=()):
        self.harnesses, self.level, self.assumptions = harnesses, level, list(assumptions) + COMMON


PROPS = {}

PROPS['C01'] = P([
    H('wtf_validate', 'validation accepts exactly well-formed WTF-8', 'all byte strings of length 0..={0}', (6,), (8,), covers=('accepted', 'rejected'), cost=5),
    H('wtf_vlong', 'validation of long strings', 'all byte strings of length 0..={0} after and before concrete text (0, 7, 8, 17, 40 ASCII characters; 23 code points of all lengths)', (3,), (4,), covers=('accepted', 'rejected'), cost=4),
    H('wtf_codepoint', 'code point classification', 'all 32-bit values', covers=('scalar', 'surrogate', 'out of range')),
])
PROPS['C02'] = P([
    H('wtf_views', 'code point, UTF-16 and UTF-8 views', 'all strings of 0..={0} code points', (3,), (4,), covers=('surrogate', 'no surrogate')),
    H('wtf_wide', 'UTF-16 round trip', 'all sequences of 0..={0} code units', (4,), (6,), covers=('wide',)),
    H('wtf_push', 'pushing code points', 'all sequences of 0..={0} code points', (3,), (4,), covers=('push',)),
    H('wtf_concat', 'concatenation', 'all pairs of strings of 0..={0} code points each', (2,), (3,), covers=('pair joined', 'no pair')),
    H('wtf_long', 'views of long strings', 'all strings of 0..={0} code points after and before concrete text (as wtf_vlong)', (1,), (2,), covers=('surrogate', 'no surrogate'), cost=4),
    H('wtf_clong', 'concatenation of long strings', 'all pairs of code points, the first after, the second before concrete text (as wtf_vlong)', covers=('pair joined', 'no pair'), cost=4),
    H('wtf_slice', 'slicing and truncation', 'all strings of 0..={0} code points, all index pairs', (2,), (3,), covers=('range', 'from', 'to', 'truncate')),
    H('wtf_eqhash', 'equality, order, hash', 'all pairs of strings of 0..={0} code points', (2,), (3,), covers=('equal', 'different')),
    H('wtf_ascii', 'ASCII case mapping', 'all strings of 0..={0} code points', (2,), (3,), covers=('ascii',)),
])
PROPS['C03'] = P([
    H('mutf_decode', 'modified UTF-8 decoding', 'all byte strings of length 0..={0}', (7,), (9,), covers=('strict', 'tolerated', 'rejected'), cost=9),
    H('mutf_encode', 'modified UTF-8 encoding', 'all strings of 0..={0} code points', (3,), (4,), covers=('encode',), cost=4),
    H('mutf_dlong', 'decoding of long strings', 'all byte strings of length 0..={0} after and before concrete text (as wtf_vlong)', (3,), (5,), covers=('strict', 'tolerated', 'rejected'), cost=4),
    H('mutf_elong', 'encoding of long strings', 'all strings of 0..={0} code points after and before concrete text (as wtf_vlong)', (1,), (2,), covers=('encode',), cost=4),
    H('mutf_units', 'modified UTF-8 of UTF-16', 'all sequences of 0..={0} UTF-16 units', (3,), (4,), covers=('units',), cost=5),
    H('mutf_prefixed', 'length-prefixed strings', 'all strings of 0..={0} code points, every truncation', (1,), (2,), covers=('prefixed',)),
    H('mutf_limit', 'the 65535 byte limit', 'all code points after 65529..=65536 ASCII characters', covers=('fits', 'too long'), cost=3),
])
PROPS['C04'] = P([
    H('prim_num', 'numbers', 'all values of every number type, one missing byte', covers=('num',)),
    H('prim_flags', 'flags', 'all 16-bit values of every flag type', covers=('flags',)),
    H('prim_version', 'versions', 'all 32-bit values', covers=('known', 'unknown')),
    H('prim_kind', 'method handle kinds', 'all 8-bit values', covers=('kind', 'no kind')),
])
PROPS['C19'] = P([
    H('prim_total32', 'total equality of 32-bit floats', 'all triples of bit patterns', covers=('total',)),
    H('prim_total64', 'total equality of 64-bit floats', 'all triples of bit patterns', covers=('total',)),
    H('prim_negate', 'jump conditions', 'all conditions, all pairs of 32-bit operands', covers=('negate',)),
    H('prim_type', 'type helpers', 'all pairs of dimensions that sum to at most 255', covers=('type',)),
])
PROPS['C06'] = P([
    H('desc_parse', 'descriptor parsing', 'all ASCII strings of length 0..={0}', (6,), (7,), covers=('method', 'field', 'rejected'), cost=8),
    H('desc_write', 'descriptor writing', 'all field types (dimensions 1, 2, 255; symbolic class name of one code point), methods of 0..={0} parameters', (1,), (2,), covers=('field', 'method'), cost=5),
    H('desc_name', 'class names in descriptors', 'all class names of 0..={0} code points', (2,), (3,), covers=('name',)),
    H('desc_dims', 'dimension limit', '254..=257 dimensions', covers=('dims', 'refused')),
])
PROPS['C07'] = P([
    H('sig_text', 'signature parsing of any text', 'all ASCII strings of length 0..={0}, 8 kinds of signature', (6,), (7,), covers=('accepted', 'rejected'), cost=9),
    H('sig_tokens', 'signature parsing of token sequences', 'all sequences of 0..={0} grammar tokens after three prefixes', (4,), (5,), covers=('accepted', 'rejected'), cost=9),
    H('sig_value', 'signature printing and parsing of values', 'bounded shapes (see harness), all printable ASCII identifiers', covers=('value',), cost=9),
    H('sig_unicode', 'Unicode identifiers', 'all identifiers of 1..={0} Unicode scalar values', (2,), (3,), covers=('unicode',), cost=3),
    H('sig_pool', 'signatures in a constant pool', 'nine kinds, an identifier of any code point (surrogates included)', covers=('read', 'refused')),
    H('sig_dims', 'dimension limit', '254..=257 dimensions', covers=('dims', 'refused')),
])
PROPS['C13'] = P([
    H('anno_value', 'element values', 'every kind of element value, nesting depth 0..={0}, arrays of 0..=2, symbolic numbers and names', (1,), (2,), covers=('value',), cost=8, nondet=True),
    H('anno_narrow', 'element values that must fit their type', 'all tags except arrays, all 32-bit constants', covers=('fits', 'refused')),
    H('anno_list', 'annotation lists', '0..=2 annotations of 0..={0} pairs, six places', (2,), (3,), covers=('list',), cost=6, nondet=True),
    H('anno_default', 'annotation defaults', 'as element values, depth 1', covers=('default',), cost=5, nondet=True),
    H('anno_type', 'type annotations of classes, methods, fields', 'all targets with symbolic operands, paths of 0..=2', covers=('type',), cost=6),
    H('anno_target', 'targets and paths', 'all 3-byte strings, four kinds', covers=('target',)),
    H('anno_param', 'parameter annotations', '0..=2 parameters of 0..=1 annotations', covers=('param',)),
])
PROPS['C05'] = P([
    H('cp_read', 'pools of entries', '0..={0} entries of every kind with symbolic contents, all 16-bit indices', (2,), (3,), covers=('entry', 'no entry'), cost=8),
    H('cp_tag', 'single entries', 'all tags, 0..=9 symbolic bytes', covers=('read', 'refused'), cost=5),
    H('cp_cut', 'truncated pools', 'two entries of every kind, every proper prefix', covers=('cut',), cost=6),
    H('cp_link', 'references between entries', 'one entry of every referring kind with all 16-bit references into a pool of every linked kind', covers=('ok', 'none'), cost=6),
    H('cp_simple', 'numbers and strings', 'all values, all 16-bit indices', covers=('simple',)),
    H('cp_write', 'insertion of raw entries', 'all sequences of {0} entries (the first kind any of 17, the others the same or long/int/class), symbolic contents', (2,), (3,), covers=('written',), cost=7),
    H('cp_insert', 'insertion of constants', 'every kind of constant with symbolic names and numbers', covers=('inserted',), cost=5),
    H('cp_insert_misc', 'insertion of names', 'every kind with symbolic names', covers=('inserted',), cost=3),
    H('cp_full', 'full pools', '0..=3 free slots, a one or two slot entry, with and without an equal entry present; contents fixed', covers=('fits', 'refused'), opts=('--real-hash',), cost=9),
])
PROPS['C08'] = P([
    H('insn_read', 'single instructions', 'all opcodes except jumps and switches (see C10), all operand bytes, a pool with an entry of every kind', covers=('read', 'refused'), cost=8),
    H('insn_cut', 'instructions that are cut off', 'all opcodes, every number of missing bytes, four alignments', covers=('refused',), cost=5),
    H('insn_any', 'any code', 'all codes of 0..={0} bytes', (2,), (3,), covers=('read', 'refused'), cost=9),
])
PROPS['C09'] = P([
    H('insn_plain', 'instructions without constants', 'all kinds, all operand values', covers=('written',), cost=6),
    H('insn_const', 'instructions with constants', 'all kinds, symbolic names', covers=('written',), cost=6),
    H('insn_two', 'pairs of instructions', 'all kinds with constants followed by a short one', covers=('written',), cost=5),
    H('insn_ldc_far', 'constants with large indices', 'indices 252..=260, symbolic contents', covers=('written',), cost=5),
    H('insn_named', 'named constructors', 'all constructors, all operands', covers=('named',)),
    H('insn_bad', 'arrays', 'all dimension bytes, three types', covers=('written', 'refused')),
])
PROPS['C10'] = P([
    H('jump_read', 'reading jumps', 'all jump opcodes, all offsets, two positions', covers=('read', 'refused'), cost=5),
    H('jump_read2', 'reading two jumps', 'goto and one of ifeq, jsr, goto_w, all offsets', covers=('read', 'refused'), cost=6),
    H('switch_read', 'reading switches', 'four alignments, 0..={0} entries, all keys, offsets and counts', (2,), (3,), covers=('read', 'refused'), cost=9),
    H('jump_many', 'many targets', '301 jumps', covers=('read',), cost=8),
    H('jump_read_far', 'reading long code', 'code of 32768 and 32868 bytes, six far targets', covers=('read',), opts=('--real-hash',), cost=8),
    H('jump_write', 'writing jumps', 'all conditions, four instructions of two sizes, all label positions and numbers', covers=('written',), cost=6),
    H('jump_missing', 'missing labels', 'all kinds of jump, all label numbers', covers=('there', 'missing')),
    H('switch_write', 'writing switches', 'four alignments, tables of 0..={0} (one more for table switches), all keys, three labels', (2,), (3,), covers=('written',), cost=7),
    H('switch_range', 'table bounds', 'all lowest keys, 0..=2 entries', covers=('written', 'refused')),
    H('jump_far', 'far jumps', 'distances 32762..=32771 and four kinds of jump, both directions', covers=('written',), cost=9),
    H('jump_nested', 'jumps over jumps', 'distances around the limit, both directions', covers=('written',), cost=9),
    H('switch_far', 'switches among far jumps', 'four alignments, near and far', covers=('written',), cost=8),
])
PROPS['C12'] = P([
    H('frame_value', 'frames', 'every form, all offsets, full frames of 0..={0} locals and stack entries, one type of any kind with symbolic names and positions', (2,), (4,), covers=('value',), cost=8),
    H('frame_bad', 'impossible frames', 'all chop counts, 1..=5 appended locals', covers=('written', 'refused')),
    H('frame_bytes', 'frames from any bytes', 'all byte strings of length 0..={0}', (8,), (10,), covers=('read', 'refused'), cost=9),
    H('frame_full', 'full frames from any bytes', '0..={0} locals of any type', (2,), (3,), covers=('read', 'refused'), cost=7),
    H('frame_in_code', 'tables of frames in code', 'one frame, all byte strings of length 0..={0}', (5,), (6,), covers=('read', 'refused'), cost=8),
])
PROPS['C11'] = P([
    H('meta_catch', 'reading exception tables', '1..={0} handlers, all positions, symbolic class names', (2,), (3,), covers=('read', 'refused'), cost=7),
    H('meta_catch_type', 'classes of exception handlers', 'all 16-bit references', covers=('read', 'refused')),
    H('meta_lines', 'reading line numbers', '1..={0} entries in one or two tables, all positions and lines', (2,), (3,), covers=('read', 'refused'), cost=7),
    H('meta_locals', 'reading local variables', '1..={0} entries in each table, in both orders, all positions, lengths and slots', (1,), (2,), covers=('read', 'refused'), cost=9),
    H('meta_anno', 'reading type annotations in code', 'all twelve targets, all positions and operands, 0..=2 ranges', covers=('read', 'refused'), cost=9),
    H('meta_target', 'target tags', 'all 256 tags', covers=('read', 'refused')),
    H('meta_raw', 'reading unknown attributes of code', 'all contents of 0..={0} bytes', (3,), (6,), covers=('read',)),
    H('meta_w_catch', 'writing exception tables', '1..=2 handlers at all labels, symbolic class names', covers=('written',), cost=7),
    H('meta_w_lines', 'writing line numbers', '1..=2 at all places, all lines', covers=('written',), cost=7),
    H('meta_w_locals', 'writing local variables', '1..=2 at all labels, all slots, symbolic names', covers=('written', 'refused'), cost=7),
    H('meta_w_anno', 'writing type annotations in code', 'all twelve targets at all labels, symbolic operands', covers=('written',), cost=8),
    H('meta_w_missing', 'missing labels', 'all label numbers, eight places', covers=('written', 'refused')),
    H('meta_w_raw', 'writing unknown attributes of code', 'all contents of 0..={0} bytes', (3,), (6,), covers=('written',)),
    H('meta_w_far', 'positions behind far jumps', 'near and far, symbolic lines and slots', covers=('written',), cost=8),
])
PROPS['C18'] = P([
    H('attr_module', 'module declarations', 'each part in turn with 0..=2 elements, all flags, symbolic names, present and absent versions', covers=('module',), cost=6),
    H('attr_inner', 'inner classes', '0..={0} inner classes, all flags, each optional part present and absent', (2,), (3,), covers=('inner',), cost=5),
    H('attr_class', 'other class attributes', 'ten kinds, lists of 0..=2, symbolic names', covers=('class',), cost=4),
    H('attr_field', 'field attributes', 'four kinds, all constants of five types', covers=('field',)),
    H('attr_method', 'method attributes', 'four kinds, 0..=3 exceptions', covers=('method',)),
    H('attr_params', 'parameter names', '0..=3 parameters, all flags, names present and absent', covers=('params',)),
    H('attr_refs', 'references', '17 places, all 16-bit references into a pool of every kind of entry', covers=('resolves', 'refused'), cost=4),
])
PROPS['C15'] = P([
    H('attr_len', 'stated lengths', 'every known attribute of classes, fields and methods (a sample of each), all 32-bit lengths', covers=('exact', 'refused'), cost=7),
    H('attr_len_type', 'stated lengths of type annotations', 'three places, all 32-bit lengths', covers=('exact', 'refused'), cost=3),
    H('attr_count', 'counts against lengths', 'six lists with 0..=3 elements, all counts and all 32-bit lengths', covers=('exact', 'refused'), cost=6),
    H('attr_debug', 'text', '0..=3 characters, all 32-bit lengths', covers=('exact', 'refused')),
    H('attr_name', 'names near known ones', 'every known name of every place with one symbolic character added or changed in four positions, all contents of 2 bytes', covers=('unknown', 'known'), cost=6),
    H('attr_place', 'known names in other places', '16 names, contents of 0..={0} bytes', (2,), (4,), covers=('kept',), cost=3),
    H('attr_raw', 'reading unknown attributes', 'all contents of 0..={0} bytes, all 32-bit lengths, names with any code point', (3,), (6,), covers=('read', 'refused'), cost=4),
    H('attr_raw_write', 'writing unknown attributes', 'all contents of 0..={0} bytes, names with any code point', (3,), (6,), covers=('written',)),
    H('attr_name_ref', 'references to names', 'all 16-bit references', covers=('read', 'refused')),
    H('attr_order', 'order of attributes', '0..={0} attributes, known and unknown mixed, in fields and methods', (2,), (3,), covers=('order',), cost=5),
])
PROPS['C14'] = P([
    H('class_read', 'reading classes', 'each part in turn (0..=2 interfaces, 0..={0} fields, methods, attributes of every kind), all versions and flags, symbolic names', (2,), (3,), covers=('read',), cost=7),
    H('class_write', 'writing classes', 'the same', (2,), (3,), covers=('written',), cost=7),
    H('class_cut', 'classes that are cut short', 'the same classes with at most {0} members, every proper prefix', (1,), (2,), covers=('cut',), cost=7),
    H('class_head', 'magic number and version', 'all first 8 bytes', covers=('read', 'refused')),
    H('class_refs', 'references', 'seven places, all 16-bit references into a pool of every kind of entry', covers=('resolves', 'refused'), cost=3),
    H('class_counts', 'counts', 'four places, all 16-bit counts', covers=('read', 'refused'), cost=3),
])
PROPS['C16'] = P([
    H('dyn_handle', 'method handles', 'all kinds, fields and methods, names around <init> and <clinit>', covers=('valid', 'invalid'), cost=4),
    H('dyn_read', 'reading dynamic constants and call sites', 'tables of 0..=2 bootstrap methods with 0..={0} arguments, all 16-bit table indices, handles and argument references (two of them symbolic at a time)', (1,), (2,), covers=('read', 'refused'), cost=8),
    H('dyn_cycle', 'bootstrap methods that need each other', '{0} bootstrap methods with 0..=2 dynamic arguments, all 16-bit table indices', (2,), (3,), covers=('read', 'refused'), cost=8),
    H('dyn_resolve', 'late resolution', '0..=2 bootstrap methods, 0..=3 references, all 16-bit indices', covers=('resolved', 'refused'), cost=3),
    H('dyn_write', 'writing equal and different bootstrap methods', 'two uses, four tables given by the user, all 32-bit arguments', covers=('written',), cost=6),
    H('dyn_args', 'writing arguments', '0..={0} static arguments of five kinds and four nestings', (1,), (2,), covers=('written',), cost=6),
    H('dyn_table', 'tables', 'all kinds of handles, 0..=2 arguments, the first of every kind', covers=('table',), cost=5),
])
PROPS['C21'] = P([
    H('io_read_fault', 'a failing source', 'classes with at most {0} members, symbolic contents; an error at every byte', (1,), (2,), covers=('fault',), cost=7),
    H('io_read_pieces', 'a source that gives pieces', 'the same classes; single bytes, a split and an interruption at every byte', (1,), (2,), covers=('pieces',), cost=9),
    H('io_write_fault', 'a failing destination', 'the same classes; an error and the end of the room at every byte', (1,), (2,), covers=('fault',), cost=8),
    H('io_write_pieces', 'a destination that takes pieces', 'the same classes; single bytes, a split and an interruption at every byte', (1,), (2,), covers=('pieces',), cost=9),
    H('io_part', 'parts of classes', 'nine kinds of parts; an error, the end, a split and an interruption at every byte and single bytes, reading and writing', covers=('read fault', 'write fault', 'read pieces', 'write pieces'), cost=9),
    H('io_plain', 'plain values', 'nine types; an error, the end, a split and an interruption at every byte and single bytes, reading and writing', covers=('read fault', 'write fault'), cost=4),
    H('io_pool', 'pools', 'every kind of constant; an error, the end, a split and an interruption at every byte and single bytes, reading and writing', covers=('read fault', 'write fault'), cost=6),
])
PROPS['C17'] = P([
    H('any_pool', 'any bytes after the version', '0..={0} bytes', (12,), (14,), covers=('refused',), cost=8),
    H('any_body', 'any bytes after a pool', '10..=10+{0} bytes', (10,), (14,), covers=('accepted', 'refused'), cost=8),
    H('any_class_attr', 'class attributes', 'every kind, all contents of 0..={0} bytes', (8,), (10,), covers=('accepted', 'refused'), cost=9),
    H('any_field_attr', 'field attributes', 'every kind, all contents of 0..={0} bytes', (10,), (12,), covers=('accepted', 'refused'), cost=9),
    H('any_method_attr', 'method attributes', 'every kind, all contents of 0..={0} bytes', (9,), (11,), covers=('accepted', 'refused'), cost=9),
    H('any_code_attr', 'attributes of code', 'line numbers and local variables: all contents of 0..={1} bytes; others: of 0..={0} bytes', (8, 12), (9, 22), covers=('accepted', 'refused'), cost=9),
    H('any_code', 'what follows the instructions', 'all contents of 4..=4+{0} bytes', (12,), (16,), covers=('accepted', 'refused'), cost=8),
    H('any_const', 'constants', 'one constant of every kind with all references and all handle kinds, nine uses', covers=('accepted', 'refused'), cost=7),
    H('any_insns', 'instructions', 'one instruction of any kind with all operands, switches with 0..={0} entries and with all counts', (2,), (3,), covers=('accepted', 'refused'), cost=9),
    H('any_value', 'annotation values', 'up to {1} nested arrays around 0..={0} bytes', (6, 3), (7, 4), covers=('accepted', 'refused'), cost=8),
    H('any_text', 'text of descriptors and signatures', '0..={0} Unicode characters after nine beginnings', (3,), (4,), covers=('accepted', 'refused'), cost=7),
    H('any_frame', 'full frames', '0..={0} bytes', (9,), (11,), covers=('accepted', 'refused'), cost=5),
])
PROPS['C22'] = P([
    H('again_body', 'any bytes after a pool', '14..=14+{0} bytes', (6,), (10,), covers=('accepted', 'refused'), cost=8),
    H('again_class_attr', 'class attributes', 'every kind, all contents of 0..={0} bytes', (8,), (10,), covers=('accepted', 'refused'), cost=9, nondet=True),
    H('again_field_attr', 'field attributes', 'every kind, all contents of 0..={0} bytes', (10,), (12,), covers=('accepted', 'refused'), cost=9, nondet=True),
    H('again_method_attr', 'method attributes', 'every kind, all contents of 0..={0} bytes', (9,), (11,), covers=('accepted', 'refused'), cost=9, nondet=True),
    H('again_code_attr', 'attributes of code', 'line numbers and local variables: all contents of 0..={1} bytes; others: of 0..={0} bytes', (8, 12), (9, 22), covers=('accepted', 'refused'), cost=9),
    H('again_code', 'what follows the instructions', 'all contents of 4..=4+{0} bytes', (12,), (16,), covers=('accepted', 'refused'), cost=8),
    H('again_const', 'constants', 'one constant of every kind with all references and all handle kinds, nine uses', covers=('accepted', 'refused'), cost=7),
    H('again_insns', 'instructions', 'one instruction of any kind with all operands, switches with 0..={0} entries and with all counts', (2,), (3,), covers=('accepted', 'refused'), cost=9),
])
_full = next(h for h in PROPS['C05'].harnesses if h.name == 'cp_full')
_mutf = next(h for h in PROPS['C03'].harnesses if h.name == 'mutf_limit')
PROPS['C20'] = P([
    H('lim_class', 'members and attributes', '65535..=65537 elements, eight lists, symbolic flags', covers=('fits', 'refused'), opts=('--steps', '1500000000'), cost=9),
    H('lim_attr', 'lists in attributes', '65535..=65537 elements, seven lists', covers=('fits', 'refused'), cost=9),
    H('lim_anno', 'annotations', '65535..=65537 elements, six lists', covers=('fits', 'refused'), cost=9),
    H('lim_module', 'module declarations', '65535..=65537 elements, eight lists', covers=('fits', 'refused'), cost=9),
    H('lim_byte', 'counts of one byte', '254..=257 elements, seven lists, symbolic contents', covers=('fits', 'refused'), cost=4),
    H('lim_code', 'lists in code', '65535..=65537 elements, eight lists', covers=('fits', 'refused'), cost=9),
    H('lim_frame', 'full frames', '65535..=65537 types', covers=('fits', 'refused'), cost=5),
    H('lim_length', 'the length of code', '65530..=65536 bytes before an instruction of three kinds with all operands', covers=('fits', 'refused'), cost=8),
    H('lim_name', 'names in classes', '65534..=65537 bytes, five places, one symbolic character', covers=('fits', 'refused'), cost=6),
    H('lim_pairs', 'element pairs', '65535..=65537 pairs', covers=('fits', 'refused'), opts=('--real-hash',), cost=9, thorough_only=True),
    _full, _mutf,
])


def _share(to, frm, *names):
    """Harnesses of one property that belong to the statement of another one, too."""
    PROPS[to].harnesses += [next(h for h in PROPS[frm].harnesses if h.name == n) for n in names]


_share('C08', 'C10', 'jump_read', 'switch_read')
_share('C09', 'C10', 'jump_write', 'switch_write', 'jump_far')
_share('C14', 'C18', 'attr_class', 'attr_field', 'attr_method', 'attr_refs')
_share('C14', 'C15', 'attr_order')
_share('C15', 'C11', 'meta_raw', 'meta_w_raw')
_share('C20', 'C12', 'frame_bad')
_share('C20', 'C10', 'jump_far', 'switch_range')
_share('C20', 'C09', 'insn_bad')
PROPS['C20'].harnesses.append(H('insn_operand', 'operands', 'all instructions without constants, all operand values', covers=('written',), cost=6))
