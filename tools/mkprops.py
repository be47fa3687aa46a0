#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to keep the statements readable)."""
import json, os
D = 'include/configor/details/'
J = 'include/configor/json.hpp'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))

prop('C01', 'Text encodings are exact and inverse to each other',
     'For every Unicode scalar value (U+0000 to U+10FFFF without surrogates), encoding it as UTF-8, UTF-16 or UTF-32 writes exactly the code units the Unicode standard prescribes, and decoding those units gives back the same value and consumes exactly those units. A value above U+10FFFF is refused: encoding it writes nothing and marks the stream failed, and decoding input that denotes one, that is cut off inside a character, or whose UTF-16 lead surrogate is not followed by a trail surrogate marks the stream failed. Decoding at the end of input reports end of input and nothing else, and the pass-through encoding copies every unit unchanged in both directions.',
     ['inputs'], 'all 2^32 code point values, all input texts at every position, the narrow and wide character types',
     'Tests encode and decode a handful of Chinese and emoji strings; the guarantee is over every code point, every truncation point and every unit sequence.',
     [D + 'encoding.hpp'],
     [('utf8 encode/decode', D + 'encoding.hpp: class utf8'), ('utf16 encode/decode', D + 'encoding.hpp: class utf16'),
      ('utf32 encode/decode', D + 'encoding.hpp: class utf32'), ('auto_utf dispatch by unit size', D + 'encoding.hpp: class auto_utf'),
      ('surrogate arithmetic', D + 'encoding.hpp: namespace unicode'), ('pass-through', D + 'encoding.hpp: class ignore')],
     observe=['stream contents and state after encode/decode'])

prop('C02', 'JSON string literals are decoded exactly',
     'Parsing a string literal yields exactly the characters it denotes: every unescaped character unchanged, the eight short escapes as their characters, \\uXXXX (hex digits of either case) as that code unit, and a lead/trail pair of \\u escapes as the single character they encode. A literal that is not closed, holds a raw control character below U+0020, uses an unknown escape, fewer than four hex digits, or a lead surrogate escape not followed by a trail surrogate escape is rejected with a deserialization error. Reading stops exactly after the closing quote.',
     ['inputs'], 'every input text, of every length, for each source and target character type',
     'Tests sample about twenty literals; the property ranges over every character sequence and all 65536 \\u escapes and pairs.',
     [J, D + 'encoding.hpp'],
     [('string scanning', J + ': json_parser::scan_string'), ('hex escapes', J + ': json_parser::read_escaped_codepoint'),
      ('surrogate pairs', D + 'encoding.hpp: unicode::decode_surrogates')],
     observe=['parsed string value', 'exception'])

prop('C03', 'JSON numbers are read with their exact value or rejected',
     'A number without fraction and exponent is read as an integer with exactly its decimal value when it fits the integer type, and is rejected otherwise, never altered. A number with a fraction or an exponent is read as a float whose value is the decimal value written, up to floating-point rounding. Malformed numbers (a sign without digits, a point without a following digit, an exponent without digits or starting with zero, an exponent directly after a lone zero) are rejected with a deserialization error, and reading stops exactly after the last character of the number.',
     ['inputs'], 'every digit sequence of every length, with every sign, fraction and exponent',
     'Tests sample a few dozen numbers; overflow, long fractions, large exponents and malformed tails are reached only by quantifying over all texts.',
     [J], [('number scanning', J + ': json_parser::scan_number/scan_integer/scan_float/scan_exponent'),
           ('sign application', J + ': json_parser::get_integer/get_float')],
     observe=['parsed value and its type', 'exception'])

prop('C04', 'Tokens, white space and comments are recognised exactly',
     'Outside string literals, any mix of spaces, tabs, line breaks, line comments (//) and block comments (/* */) may separate tokens without effect on the result, and a block comment ends at its first */. The structural characters and the words true, false and null are recognised exactly as written, each consuming exactly its own characters. A NUL character outside a string literal ends the input. Any other character where a token should start, a word that differs from these in any character, a lone slash or an unclosed block comment is rejected with a deserialization error.',
     ['inputs'], 'every input text at every position',
     'Tests try a few documents with comments; the guarantee is about every placement and every character, including non-ASCII ones.',
     [J], [('token dispatch', J + ': json_parser::scan'), ('white space and comments', J + ': json_parser::skip_spaces/skip_comments'),
           ('words', J + ': json_parser::scan_literal')],
     observe=['token sequence', 'parsed value', 'exception'])

prop('C05', 'A document parses to exactly the value it denotes',
     'Parsing accepts exactly one value: arrays keep their elements in order, objects keep every key with the value written after it (the first one when a key repeats), and nesting is preserved to any depth. Any token sequence that does not form a document (missing or extra separators, mismatched or unclosed brackets, a non-string key, anything but white space and comments after the value) is rejected with a deserialization error. A comma directly before a closing bracket is accepted and has no effect.',
     ['inputs'], 'every token sequence of every length and nesting depth',
     'Tests parse about a dozen well-formed documents and a few broken ones; the grammar is an unbounded recursive set.',
     [D + 'parser.hpp'], [('recursive descent', D + 'parser.hpp: basic_parser::do_parse'), ('trailing input check', D + 'parser.hpp: basic_parser::parse')],
     observe=['parsed tree', 'exception'])

prop('C06', 'Errors surface as library exceptions or reach the error handler',
     'Every error found while parsing, from the first character to the last, is raised as a deserialization error and every error found while serializing as a serialization error. When an error handler is installed, each such error is passed to it exactly once and the call returns normally unless the handler itself throws; without one it propagates to the caller. The strict, ignore and record policies respectively rethrow the error, drop it, and keep its message.',
     ['inputs', 'fault_sequences'], 'every failing input, with and without handler, each policy',
     'Tests install a handler on one failing document; the property covers failure at every point, including the first character.',
     [D + 'parser.hpp', D + 'serializer.hpp', D + 'exception.hpp', J],
     [('parse wrapper', D + 'parser.hpp: basic_parser::parse'), ('dump wrapper', D + 'serializer.hpp: basic_serializer::dump'),
      ('policies', D + 'exception.hpp: error_handler_with')],
     observe=['exception at the caller', 'handler calls'])

prop('C07', 'Dumped strings are valid, exact JSON string literals',
     'A dumped string is a quoted literal that denotes exactly the original text: quotation mark, backslash and the five short-escape control characters use their two-character escapes, every other control character below U+0020 is written as a \\u escape of four upper-case hex digits, and everything else is written in the output encoding unchanged. With unicode escaping enabled every character from U+007F up is written as one \\u escape, or as a surrogate pair of escapes above U+FFFF. Text that the source encoding cannot decode raises a serialization error.',
     ['inputs', 'configurations'], 'every string, escaping on or off, each character type',
     'Tests dump a few strings; the guarantee is over every code point and string length.',
     [J], [('string output', J + ': json_serializer::put_string'), ('hex escape', J + ': json_hex'),
           ('surrogates', D + 'encoding.hpp: unicode::encode_surrogates')],
     observe=['dumped text', 'exception'])

prop('C08', 'Dumped documents have exactly the structure of the value',
     'Compact output contains exactly the value: brackets, colons and commas as JSON requires, array elements in order, object members in key order, nothing else. Indented output differs only by line breaks and indentation: each element or member of a non-empty container on its own line, indented by step times depth, with the closing bracket on its own line at the depth of the container. Both hold for every value, at any depth and size, and dumping never changes the value.',
     ['inputs', 'configurations'], 'every value tree, every indent step and character',
     'Tests compare a few fixed dumps; the guarantee covers all shapes, sizes and depths.',
     [D + 'serializer.hpp', J], [('tree walk', D + 'serializer.hpp: basic_serializer::do_dump'), ('separators and layout', J + ': json_serializer::next'),
                                 ('indentation', D + 'serializer.hpp: class indent')],
     observe=['dumped text'])

prop('C09', 'Dumped numbers keep their value and type',
     'Every integer is dumped as its exact decimal digits. A float is dumped so that it is read back as a float and never as an integer: an integral float of magnitude below 2^63 as its exact integer digits followed by .0, any other finite float formatted at the configured precision with .0 added when neither a point nor an exponent is left. A float that is not finite raises a serialization error.',
     ['inputs', 'configurations'], 'every integer and every float, every precision and float format',
     'Tests dump a few numbers; large, integral, tiny and non-finite floats are not tried.',
     [J], [('integer output', J + ': json_serializer::put_integer'), ('float output', J + ': json_serializer::put_float')],
     observe=['dumped text', 'exception'])

prop('C10', 'Values own their contents: copies are independent, nothing leaks',
     'Copying or assigning a value, self-assignment included, yields an equal value that shares nothing with the original, so that changing one never shows in the other. Moving transfers the contents and leaves the source null, and swapping exchanges two values. Every string, array and object a value holds is released exactly once, and none is used after its release, whatever the sequence of operations.',
     ['histories', 'inputs'], 'every value of every type and every sequence of construct, copy, move, assign, swap, clear and destroy',
     'Tests copy and move a few values; leaks, double frees and sharing need every type and operation order.',
     [D + 'value.hpp'], [('copy/move/assign/swap/destroy', D + 'value.hpp: class basic_value')],
     state=[('type_', 'the active alternative', D + 'value.hpp'), ('data_', 'owned pointer or scalar', D + 'value.hpp')],
     observe=['value contents', 'allocation balance'])

prop('C11', 'Access to elements and members is checked and consistent',
     'at() and constant operator[] return the addressed element or member, and raise an out-of-range error for an index not below the size or an absent key and an invalid-key error on any other kind of value. Writing through operator[] creates exactly the addressed element or member (turning a null into a container first), keeps all others, and raises an invalid-key error on any other kind of value and an out-of-range error for an index no array can have. erase removes exactly the addressed element or member, push_back and emplace_back append exactly one element to an array or null and raise a type error otherwise, clear empties a value and keeps its kind, and size, empty and count agree with what element access shows.',
     ['histories', 'inputs'], 'every value, index, key and sequence of modifications',
     'Tests access a few containers; the guarantee covers every value kind, index and key.',
     [D + 'value.hpp'], [('element access', D + 'value.hpp: basic_value::at/operator[]'), ('modifiers', D + 'value.hpp: basic_value::push_back/emplace_back/erase/clear')],
     observe=['returned element', 'exception', 'contents'])

prop('C12', 'Comparison of values is a lawful equality and order',
     'Two values are equal exactly when they have the same kind and equal contents, an integer and a float being compared after converting the integer to the float type. Equality is reflexive (except for a NaN) and symmetric, != is its negation, and <, <=, > and >= agree with each other: a > b means b < a, a <= b means not b < a, a >= b means not a < b. Values of the same kind are ordered as their contents, elements first to last.',
     ['inputs'], 'every pair of values',
     'Tests compare a few pairs; laws quantify over all pairs of all kinds.',
     [D + 'value.hpp'], [('comparison operators', D + 'value.hpp: operator==, operator<, ...')],
     observe=['comparison results'])

prop('C13', 'Typed access never reinterprets a value',
     'Reading a value as a type it does not hold raises a type error (a pointer request gives null, reading into a variable reports false and leaves it alone), and reading it as a type it holds gives exactly the stored contents. Integers convert to any integer type and floats to any floating-point type by the usual numeric conversion, booleans only to bool, and null reads as an empty array or object. A value built from a scalar, a string or null holds that very scalar, string or null (unsigned integers up to the largest integer). The is_ predicates and type() always agree with what typed access accepts.',
     ['inputs'], 'every value kind and every requested type',
     'Tests request matching types and a few mismatches; the guarantee covers the whole kind by type table and every content.',
     [D + 'value.hpp', D + 'conversion.hpp'], [('get / try_get', D + 'value.hpp'), ('from_config / to_config for scalars', D + 'conversion.hpp')],
     observe=['returned value', 'exception'])

prop('C14', 'Containers and pointers survive conversion to a value and back',
     'Converting a sequence, set, map, array or smart pointer to a value keeps every element, in order for ordered containers, and converting back gives an equal container, whatever the target held before. Empty pointers become null and null becomes an empty pointer or container; filling a shared pointer leaves the object it shared before as it was. Converting a value of the wrong kind raises an error (get into a variable returns false instead), unless it is an empty array or object, which gives an empty container. A fixed-size target takes the first elements of an array value and keeps the rest of its own.',
     ['inputs'], 'every supported container type and every content',
     'Tests convert one or two samples per type.',
     [D + 'conversion.hpp'], [('container conversions', D + 'conversion.hpp')], observe=['converted container', 'exception'])

prop('C15', 'Iteration visits every element exactly once, in order',
     'Iterating an array or object value forward visits each element or member exactly once in order, backward iteration visits the same ones in reverse, and a scalar is one element while null is none. Iterator arithmetic and comparison agree with positions, key() and value() give the visited member, and dereferencing an iterator at the end raises an error. Erasing through an iterator removes exactly the elements addressed and returns the position that follows them.',
     ['inputs', 'histories'], 'every value and every iterator position',
     'Tests iterate a few containers.',
     [D + 'iterator.hpp', D + 'value.hpp'], [('iterator', D + 'iterator.hpp: class iterator')], observe=['visited elements', 'exception'])

prop('C16', 'Every input source delivers exactly its characters',
     'Reading from a string, a C string, a C file, an input adapter or a stream delivers every character of the source exactly once and in order, whether the reader peeks, takes single characters or blocks, in any mix, and end of input is reported only after the last character. Block reads report exactly the number of characters delivered and write nothing behind them. (An adapter announces its end by an end-of-file character; its text holds neither that nor NUL, and wide text does not hold the end-of-file value.) A document therefore parses to the same value or error from every kind of source.',
     ['inputs', 'histories'], 'every source text and every mix of peek, get and block reads',
     'Tests read one document per source; mixed peeks and block reads, NUL and high bytes are not tried.',
     [D + 'stream.hpp', D + 'parser.hpp'], [('stream buffers', D + 'stream.hpp: fast_*_istreambuf, basic_iadapterstream')],
     observe=['characters read', 'counts'])

prop('C17', 'Every output sink receives exactly the dumped text',
     'Writing to a string, an output adapter or a stream delivers every character written exactly once and in order, whether written singly or in blocks of any length, including zero. Dumping the same value with the same options gives the same text for every kind of sink, and text already in a target string is kept in front of it.',
     ['inputs', 'histories'], 'every text and every mix of single and block writes',
     'Tests dump to each sink once.',
     [D + 'stream.hpp', D + 'serializer.hpp'], [('stream buffers', D + 'stream.hpp: fast_string_ostreambuf, basic_oadapterstream')],
     observe=['sink contents'])

prop('C18', 'Bound user types convert field by field and back',
     'Converting an object of a bound user type to a value yields an object value holding every listed field under its name with the converted contents and no other member (an optional field that holds its default may be left out; null stands for an object whose fields are all left out), whatever the value held before. Converting back restores every listed field. A missing required field raises an error (get into a variable returns false), a missing optional field leaves that field of the target unchanged, a present one is made from its member, and no field that is not listed is touched. Neither direction changes its source. A type with conversion functions or a binder of its own gets exactly what they make, and their errors are reported.',
     ['inputs', 'programs'], 'every bound type, field contents and subset of present fields',
     'Tests bind two or three sample structs.',
     [D + 'conversion.hpp', D + 'value.hpp'], [('binder', D + 'conversion.hpp: CONFIGOR_BIND'), ('paths to binders', D + 'value.hpp: do_get')], observe=['converted object', 'exception'])

prop('C19', 'Results do not depend on the state of the caller\'s streams',
     'Number formatting, white space handling and digit grouping set on a caller\'s stream or its locale never change which value is parsed (a stream extraction may skip leading white space first) or what numbers a dump contains, apart from the documented width, fill, precision and float format. Parsing or dumping leaves the caller\'s stream formatting flags and locale as they were, except that a width used as indent is cleared.',
     ['configurations', 'inputs'], 'every combination of stream flags and locale',
     'Tests use default streams.',
     [D + 'parser.hpp', D + 'serializer.hpp', J, D + 'wrapper.hpp'], [('private stream objects', 'basic_parser / basic_serializer constructors'), ('stream operators', D + 'wrapper.hpp')],
     observe=['parsed value', 'dumped text', 'caller stream state'])

prop('C20', 'Parsing a dump gives the value back',
     'For every value without non-finite floats and with well-formed text, parsing its dump succeeds and gives an equal value, compact or indented with white space, with or without unicode escaping, narrow or wide (floats up to the configured precision). Dumping that result again gives the identical text when the value holds no float (a float is written with the precision in force each time).',
     ['inputs', 'configurations'], 'every value tree and every dump option',
     'Tests round-trip a few documents.',
     [J, D + 'parser.hpp', D + 'serializer.hpp'], [('parser and serializer together', J)], observe=['value after dump and parse'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
