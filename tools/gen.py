#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/imu')

def A(files, *mech):
    return {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}

CRCF = ['Src/crc/crc8_base.c', 'Src/crc/crc16_base.c', 'Src/crc/crc32_base.c', 'Src/crc/crc8_variants', 'Src/crc/crc16_variants', 'Src/crc/crc32_variants']
SORTF = ['Src/sort/bubble_sort.c', 'Src/sort/heap_sort.c', 'Src/sort/insertion_sort.c', 'Src/sort/selection_sort.c', 'Src/utils.c']
P = []

def prop(id, title, statement, over, text, why, anchors):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anchors))

prop('C01', 'Every CRC variant computes its catalogued checksum',
     'For every message, each of the CRC-8, CRC-16 and CRC-32 functions, started fresh and finished, returns the checksum defined by the width, polynomial, '
     'initial value, input/output reflection and final XOR its name stands for in the CRC catalogue (as documented in its header). '
     'This includes the empty message and messages of any length.',
     ['inputs'], 'all messages of all lengths, for all 46 variants',
     'Each variant is tested with a few fixed strings; a wrong one of the 256 table entries is only hit by some bytes.',
     A(CRCF, ('lookup tables and parameters', 'Src/crc/crc*_variants/*.c'), ('table-driven engines', 'Crc8Base, Crc16Base, Crc32Base')))
prop('C02', 'CRC over chunks equals CRC over the whole message',
     'A message may be split anywhere into consecutive chunks, passing each intermediate result as the previous CRC and finishing (final XOR and output '
     'reflection) only on the last chunk: the result equals the one-shot checksum. Variants without a final flag chain directly in the same way.',
     ['histories', 'inputs'], 'all messages, all splits into consecutive chunks, including empty chunks',
     'Tests split one message at one position for a few variants.',
     A(CRCF, ('last_crc_ptr / final_crc handling', 'Src/crc/crc*_variants/*.c')))
prop('C03', 'CRC base engines and table generators are correct for every polynomial',
     'The table generators produce, for every polynomial, the 256 remainders of bytewise polynomial division (most significant bit first). '
     'The base engines compute, for any table, initial value, reflection flags and final XOR, the byte-at-a-time CRC recurrence over exactly the given number of bytes, '
     'reflecting each input byte and the result and applying the final XOR exactly when asked.',
     ['inputs'], 'all polynomials, tables, messages, initial values and flag combinations',
     'Tests use the catalogue polynomials and a few short messages.',
     A(['Src/crc/crc8_base.c', 'Src/crc/crc16_base.c', 'Src/crc/crc32_base.c'], ('engines', 'Crc8Base, Crc16Base, Crc32Base'), ('generators', 'Crc*Base_tableCalculator')))
prop('C04', 'Integer serialization has the documented byte order on every host',
     'Serializing an 8/16/24/32-bit integer writes exactly its 1/2/3/4 bytes in the named order (BE most significant first, LE least significant first) and nothing else, and '
     'deserializing returns exactly the value of those bytes (24-bit values zero-extended). '
     'Hence each pair is a round trip and the wire format does not depend on the endianness of the host.',
     ['inputs', 'configurations'], 'all values, all buffer contents, little- and big-endian targets',
     'Tests use a handful of constants on one little-endian host.',
     A(['Src/utils.c'], ('fixed-width codecs', 'Utils_serialize*/Utils_deserialize*')))
prop('C05', 'Blob copies and element swap move exactly the given bytes',
     'For every size, the big-endian blob functions copy the bytes in order and the little-endian ones in reversed order, writing exactly that many bytes and reading nothing else; '
     'swapping two non-overlapping elements exchanges all their bytes and changes nothing else.',
     ['inputs'], 'all sizes (including 0 and sizes above 2^31) and all contents',
     'Tests use short blobs; index-width and off-by-one errors appear at sizes they never reach.',
     A(['Src/utils.c'], ('blob codecs', 'Utils_serializeBlob*/Utils_deserializeBlob*'), ('swap', 'Utils_swapElements')))
prop('C06', 'Bit operations are exact for all words and positions',
     'Set, clear, toggle and test act on exactly the named bit for positions 0..31 and otherwise report failure without writing the output. '
     'Rotation by n equals the mathematical rotation by n mod 32 for every n, and reflecting the low n bits (n up to 32) reverses exactly those bits.',
     ['inputs'], 'all 32-bit words and all bit positions/counts of the parameter type',
     'Tests sample a few words and positions out of 2^40 combinations.',
     A(['Src/bit_manipulation.c'], ('bit primitives', 'BitManipulation_*')))
prop('C07', 'Character classes and decimal parsing are exact',
     'Upper/lower/alphabetic tests are true for exactly the ASCII letters, for all 256 character values. Powers of ten are exact for exponents 0..9 and rejected otherwise. '
     'String-to-integer succeeds exactly for strings of decimal digits of length at most 10 whose value fits 32 bits (and for length 0, giving 0), returning that value; it reads only the given characters.',
     ['inputs'], 'all characters, all exponents, all strings of every length 0..255',
     'Tests sample some strings around the 32-bit limit.',
     A(['Src/utils.c'], ('classification', 'Utils_isUpperChar/isLowerChar/isAlpha'), ('parsing', 'Utils_stringToUint32, Utils_quickUint32Pow10')))
prop('C08', 'Caesar cipher shifts letters only and decryption inverts encryption',
     'For every message and every shift value 0..255, encryption replaces each ASCII letter by the letter shift positions later in the same case (mod 26) and leaves every other byte and the '
     'terminator untouched; decryption with the same shift restores the original message. Nothing outside the string is read or written.',
     ['inputs'], 'all strings, all 256 shifts',
     'Tests use a few messages and shifts.',
     A(['Src/crypto/caesar_cipher.c'], ('cipher', 'CaesarCipher_encrypt/CaesarCipher_decrypt')))
prop('C09', 'Vernam cipher maps letters to letters and decryption inverts encryption',
     'When the key is alphabetic and as long as the message, encryption maps each ASCII letter to the letter of the same case advanced by the key letter\'s index (mod 26), leaves other bytes untouched, '
     'and decryption with the same key restores the message. When the lengths differ both report failure and leave the message unchanged.',
     ['inputs'], 'all messages and all alphabetic keys of equal length; all mismatching lengths',
     'Tests use a few message/key pairs out of 52x256 letter pairs.',
     A(['Src/crypto/vernam_cipher.c'], ('cipher', 'VernamCipher_encrypt/VernamCipher_decrypt')))
prop('C10', 'ChaCha20 output is the RFC 8439 key stream XORed with the message',
     'For every key, nonce, initial counter, length and message, output byte i is message byte i XOR byte i mod 64 of the RFC 8439 block for counter inc + i/64 (mod 2^32). '
     'Hence applying the function twice restores the message, and exactly the given number of bytes is read and written.',
     ['inputs'], 'all keys, nonces, counters (including wrap), lengths (including partial last blocks) and messages',
     'Tests use the RFC vectors; carry patterns, counters near the wrap and unusual lengths are not reached.',
     A(['Src/crypto/chacha20.c', 'Src/bit_manipulation.c', 'Src/utils.c'], ('block function', 'Block, QuarterRound'), ('stream', 'Chacha20_crypt')))
prop('C11', 'ChaCha20 control flow and memory addresses do not depend on secrets',
     'While encrypting or decrypting, the sequence of branches taken and memory addresses accessed, and any operation of data-dependent duration, depend only on the public parameters '
     '(length, pointers, nonce, counter), never on the key or message bytes.',
     ['inputs'], 'all pairs of keys and messages of equal length',
     'A functional test cannot observe which branch or table line was touched.',
     A(['Src/crypto/chacha20.c'], ('constant-time shape', 'Chacha20_crypt and everything it calls')))
prop('C12', 'Base64 encoding is RFC 4648 with padding',
     'For every input and a sufficient output size, encoding produces exactly the RFC 4648 standard-alphabet text with = padding, 4*ceil(n/3) characters, NUL-terminated, and reports success; '
     'if the text with its terminator does not fit, it reports failure.',
     ['inputs'], 'all inputs of all lengths and all output sizes',
     'Tests encode a few strings; each of the 64 symbols at each of the 4 positions and each remainder class is not covered.',
     A(['Src/base64.c'], ('encoder', 'Base64_encode')))
prop('C13', 'Base64 decoding inverts encoding',
     'For every non-empty byte string, decoding its RFC 4648 text with sufficient room reports success and yields exactly the original bytes; unpadded text decodes to the same bytes.',
     ['inputs'], 'all byte strings of all lengths (all three remainder classes)',
     'Tests decode a few strings.',
     A(['Src/base64.c'], ('decoder', 'Base64_decode')))
prop('C14', 'Base64 never reads or writes outside its buffers',
     'For arbitrary (also malformed) input of any length and any output size, encoding and decoding read only the given input bytes and write only the given output bytes, '
     'and nothing is written when failure is known up front from the sizes.',
     ['inputs'], 'all input bytes, all input lengths, all output sizes (including 0)',
     'Tests use matching buffer sizes and well-formed text; an overrun by one byte goes unnoticed.',
     A(['Src/base64.c'], ('bounds', 'Base64_encode, Base64_decode')))
prop('C15', 'JSON building never overruns and a failed step changes nothing',
     'For every buffer size, existing content, key and value, starting, adding and ending write only inside the given buffer size and leave a NUL-terminated string on success; '
     'each succeeds exactly when the resulting text with its terminator fits, and on failure the buffer content is unchanged.',
     ['inputs', 'histories'], 'all buffer sizes, all strings, all step sequences',
     'Tests use a few sizes; every off-by-one between size computation and writes needs its own size.',
     A(['Src/json.c'], ('builder', 'Json_startString, Json_addData, Json_endString')))
prop('C16', 'JSON building appends exactly the specified text',
     'Starting produces "{", adding appends "key":"value" verbatim, preceded by a comma exactly when the text already ends with a quote, and ending appends "}". '
     'The previously built text is kept unchanged as a prefix.',
     ['inputs', 'histories'], 'all keys, values and prior contents that fit',
     'Tests compare a few built strings.',
     A(['Src/json.c'], ('builder', 'Json_startString, Json_addData, Json_endString')))
prop('C17', 'JSON lookup stays in bounds and returns only a complete quoted value of the key',
     'For arbitrary buffer contents (also malformed) lookup reads only the given number of buffer bytes and writes only the given value size; when it reports success the value is NUL-terminated inside its '
     'buffer, contains no quote and is the text between two quotes after the key, and the key occurs in the buffer between quotes followed by a colon (with at most white space in between). In text as the '
     'builder makes it, from keys of letters and digits and values without quotes, with or without white space around colons and commas, lookup returns the value of the first pair with the key when it fits '
     'with its terminator, and fails otherwise.',
     ['inputs'], 'all buffer contents and sizes, all keys, all value sizes',
     'Tests look up a few keys in well-formed text.',
     A(['Src/json.c'], ('lookup', 'Json_findByKey')))
prop('C18', 'The queue is a bounded FIFO',
     'Over every history of enqueue, dequeue, front and rear on a queue of any capacity and element size, elements leave in the order they entered, unaltered; front and rear show the oldest and newest '
     'element; operations fail exactly when full/empty (or given null) and then change neither the queue nor the output.',
     ['histories', 'inputs'], 'all operation sequences, capacities, element sizes and contents (including index wrap-around)',
     'Tests run a few short histories on small queues.',
     A(['Src/queue.c'], ('ring buffer', 'Queue_init, Queue_enqueue, Queue_dequeue, Queue_front, Queue_rear')))
prop('C19', 'The priority queue serves the highest priority and evicts only lower ones',
     'Over every history, dequeue returns an element of maximal priority and removes exactly it, keeping all other elements with their priorities; enqueue into a full queue replaces an element of minimal priority only if the new '
     'priority is strictly higher and otherwise fails without changing anything. Each stored element keeps its own priority.',
     ['histories', 'inputs'], 'all operation sequences, capacities, element sizes, contents and priorities (including ties)',
     'Tests run a few short histories.',
     A(['Src/priority_queue.c'], ('selection and compaction', 'PriorityQueue_enqueue, PriorityQueue_dequeue')))
prop('C20', 'The map stores the last value per key',
     'After any history of insertions, looking up a key returns the value of the last successful insertion with a byte-wise equal key and fails (leaving the output untouched) if there was none. '
     'Insertion of a new key fails exactly when the map is full, overwriting an existing key always succeeds, and other entries never change.',
     ['histories', 'inputs'], 'all insertion histories, key and value sizes, capacities and contents',
     'Tests run a few short histories.',
     A(['Src/map.c'], ('lookup and update', 'Map_init, Map_insert, Map_getValue, GetIndex')))
prop('C21', 'The scheduler runs exactly the active registered tasks in slot order',
     'Initialisation empties every slot; adding fills the first free slot and fails without change when none is free; running calls exactly the functions of the non-empty active slots, once each, in slot order. '
     'No other slot is changed by any of them.',
     ['histories', 'inputs'], 'all table sizes and contents',
     'Tests use a few slots.',
     A(['Src/scheduler.c'], ('task table', 'Scheduler_init, Scheduler_addTask, Scheduler_run')))
prop('C22', 'Sorting only permutes the elements',
     'For every buffer, element count, element size (at most 64 bytes for insertion sort) and comparator, each sort leaves the buffer holding exactly the same elements as before, in some order, each element intact.',
     ['inputs'], 'all buffers, element counts and sizes, and arbitrary (even inconsistent) comparators',
     'Tests sort a few arrays and compare with one expected order.',
     A(SORTF, ('sorts', 'BubbleSort_sort, HeapSort_sort, InsertionSort_sort, SelectionSort_sort'), ('swap', 'Utils_swapElements')))
prop('C23', 'Sorts touch and compare only elements of the buffer',
     'For every element count (including 0 and 1) and size, each sort reads and writes only the bytes of the given elements, and calls the comparator only with pointers to complete elements (of the buffer or an intact copy of one).',
     ['inputs'], 'all element counts and sizes, arbitrary comparator answers',
     'An out-of-range comparison or swap is usually silent in a test.',
     A(SORTF, ('index arithmetic', 'BubbleSort_sort, HeapSort_sort, InsertionSort_sort, SelectionSort_sort')))
prop('C24', 'Sorting leaves the elements in comparator order',
     'For every buffer and every comparator that is a strict weak order ("first is greater than second"), after sorting no element is greater than its successor.',
     ['inputs'], 'all buffers, counts, sizes and consistent comparators',
     'Tests sort a few arrays.',
     A(SORTF, ('sorts', 'BubbleSort_sort, HeapSort_sort, InsertionSort_sort, SelectionSort_sort')))
prop('C25', 'The library keeps no hidden state',
     'No call leaves anything behind except in the objects its caller passed in: results depend only on the arguments and the memory they refer to, so all functions are re-entrant and may be used '
     'concurrently on distinct objects, from interrupts, and from inside their own callbacks.',
     ['histories', 'schedules'], 'all call histories and interleavings on distinct objects',
     'Single-threaded tests of one call at a time do not observe retained state.',
     A(['Src'], ('no mutable static storage', 'all translation units')))
prop('C26', 'The library never allocates, recurses, does I/O or leaves its call graph',
     'Every operation uses only automatic storage of statically bounded size: no heap, no recursion, no variable-size arrays, no I/O or other system service. '
     'The only foreign code it ever runs is a callback its caller supplied and pure string/memory functions.',
     ['inputs', 'fault_sequences'], 'all inputs; allocation failure cannot occur',
     'Tests do not exhaust heap or stack and cannot show that a call never happens.',
     A(['Src'], ('resolved call graph', 'all translation units')))
prop('C27', 'Read-only inputs are never written and no pointer is kept',
     'Memory passed through a pointer-to-const parameter is never modified by the call, so constants and ROM data may be passed. '
     'No function keeps a pointer to its arguments after returning, except the storage handed to a container initialiser, and none leaves a pointer to its own automatic storage.',
     ['inputs', 'histories'], 'all calls of all exported functions',
     'A transient write that is undone, or a pointer kept for later, is invisible to tests with writable inputs.',
     A(['Src'], ('const parameters', 'all exported functions')))
prop('C28', 'Byte buffers are accessed bytewise',
     'Caller byte buffers are read and written only byte by byte (or by memory-copy functions), so any alignment is accepted and the result does not depend on the host\'s byte order or alignment rules.',
     ['inputs', 'configurations'], 'all buffer alignments and hosts',
     'Tests run on one host that tolerates misaligned access, mostly with aligned buffers.',
     A(['Src'], ('byte buffers', 'all exported functions taking byte or char pointers')))
prop('C29', 'No function accesses memory outside the objects it was given',
     'Under the documented preconditions (valid pointers to objects of the stated sizes, NUL-terminated strings), every library function reads and writes only inside the objects passed to it and its own locals, '
     'reads no uninitialised local, and never dereferences a null pointer it accepts as an argument.',
     ['inputs'], 'all admissible arguments, sizes, contents and object states',
     'Tests run without bounds instrumentation on a few sizes.',
     A(['Src'], ('all accesses', 'all translation units')))
prop('C30', 'No undefined arithmetic',
     'For all admissible arguments no library function performs a signed overflow (left shifts into the sign bit included), a shift by the operand width or more, or a division by zero.',
     ['inputs'], 'all admissible arguments',
     'Such operations usually produce a plausible value on the test host.',
     A(['Src'], ('all arithmetic', 'all translation units')))
prop('C31', 'Every call terminates',
     'For all admissible arguments every library function returns after a number of steps bounded by its size arguments, provided the supplied callbacks return (bubble sort: provided the comparator is consistent).',
     ['inputs'], 'all admissible arguments',
     'Tests terminate on their samples; wrapping counters and non-advancing loops need specific sizes.',
     A(['Src'], ('all loops', 'all translation units')))
prop('C32', 'Failed operations leave objects and outputs untouched',
     'When a container, bit, decimal-power, cipher or JSON-building operation reports failure, every object it was given, including its output parameter, has the same contents as before the call.',
     ['inputs', 'histories'], 'all failing calls in all object states',
     'Tests check the status of a failing call, rarely that nothing else changed.',
     A(['Src/queue.c', 'Src/priority_queue.c', 'Src/map.c', 'Src/scheduler.c', 'Src/bit_manipulation.c', 'Src/utils.c', 'Src/json.c', 'Src/crypto/vernam_cipher.c'],
       ('status returning operations', 'all functions returning bool')))


def main():
    import props
    with open(V + '/properties.jsonl', 'w') as fh:
        for p in P:
            fh.write(json.dumps(p) + '\n')
    checks = []
    na = []
    for p in P:
        r = props.REG.get(p['id'])
        if r is None:
            na.append({'property': p['id'], 'reason': NA.get(p['id'], 'machinery not finished yet')})
            continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3 imu/check.py %s' % p['id'], 'thorough_cmd': 'python3 imu/check.py %s' % p['id'],
                       'technique': r.get('technique') or r['rule'][:160], 'level': r['level'], 'level_note': r.get('note') or DEFNOTE})
    m = {'version': 1, 'setup_cmd': 'python3 imu/setup.py', 'checks': checks, 'not_applicable': na}
    with open(V + '/MANIFEST.json', 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')
    print(len(checks), 'claimed', len(na), 'not applicable')


NA = {}
DEFNOTE = ('decided on the LLVM IR (clang -O0 + mem2reg) of every file under Src on every run; trusts the clang front end and the checker itself')
if __name__ == '__main__':
    main()
