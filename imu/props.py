"""property id -> how it is decided"""
import ir
import rules

_p = {}


def prog(target=()):
    if target not in _p:
        _p[target] = ir.load(target=target)
    return _p[target]


def struct(rule):
    return lambda tier: rule(prog())


def ai(pid):
    def f(tier):
        import analyse
        return analyse.check(pid, tier)
    return f


TB = ['clang 18 front end and mem2reg', 'imu/ir.py (IR reader)', 'imu/engine.py, loops.py, models.py, term.py, lin.py (abstract interpreter)', 'imu/specs.py (specification)']
REG = {
    'C11': dict(run=struct(rules.chacha_constant_time), level='other',
                rule='taint closure from message and key over Chacha20_crypt and everything it reaches: no branch, address, shift amount, '
                     'division operand, length or variable-time external call may be tainted'),
    'C25': dict(run=struct(rules.no_hidden_state), level='other',
                rule='no store, copy or fill reachable from the API may have a static object in the points-to set of its destination'),
    'C26': dict(run=struct(rules.closed_call_graph), level='other',
                rule='every call resolves to a library function, an allow-listed pure string/memory function or a caller-supplied callback; '
                     'no cycle in the call graph; every automatic object has constant size'),
    'C27': dict(run=struct(rules.const_inputs), level='other',
                rule='per entry point: nothing it reaches writes memory passed through a pointer-to-const parameter; no pointer parameter '
                     'or address of an automatic object is left in memory that survives the call (init functions: their storage)'),
    'C28': dict(run=struct(rules.byte_access), level='other',
                rule='every load/store whose points-to set contains a caller byte buffer is one byte wide (multi-byte data goes through '
                     'explicit byte composition or memcpy)'),
    'C04': dict(run=ai('C04'), level='proof', trusted=TB, rule='value numbering of every byte written/returned against the byte-order specification, on a little- and a big-endian target'),
    'C05': dict(run=ai('C05'), level='proof', trusted=TB, rule='inductive loop invariants for an arbitrary byte J of an arbitrary size'),
    'C06': dict(run=ai('C06'), level='proof', trusted=TB, rule='Boolean functions of every result bit against the specification'),
    'C07': dict(run=ai('C07'), level='proof', trusted=TB, rule='Boolean/linear domain over all strings of each length'),
    'C01': dict(run=ai('C01'), level='proof', trusted=TB, rule='inductive loop invariant relating the accumulator to the specified remainder, table lookups as Boolean functions of the index; generic in the message and its length'),
    'C02': dict(run=ai('C02'), level='proof', trusted=TB, rule='per call: raw register in, raw register out for any previous value; chunking follows from the same recurrence'),
    'C03': dict(run=ai('C03'), level='proof', trusted=TB, rule='engine with an arbitrary table for each flag combination; generators with a symbolic polynomial'),
    'C08': dict(run=ai('C08'), level='proof', trusted=TB, rule='inductive invariant for an arbitrary character J of a string of arbitrary length; letter rotation as Boolean functions'),
    'C09': dict(run=ai('C09'), level='proof', trusted=TB, rule='inductive invariant for an arbitrary character J of strings of arbitrary lengths; letter rotation as Boolean functions'),
    'C10': dict(run=ai('C10'), level='proof', trusted=TB, rule='value numbering of all 64 bytes of an arbitrary block Q against the RFC 8439 block function'),
    'C12': dict(run=ai('C12'), level='proof', trusted=TB, rule='the four characters of an arbitrary group Q and of the last group as Boolean functions of its bytes, inductive in the number of groups'),
    'C13': dict(run=ai('C13'), level='proof', trusted=TB, rule='decoding of the specified text of arbitrary bytes, for an arbitrary group Q and for the last group, padded and unpadded'),
    'C14': dict(run=ai('C14'), level='proof', trusted=TB, rule='bounds of every access for arbitrary text, length and output size; frame condition when refused from the sizes'),
    'C19': dict(run=ai('C19'), level='proof', trusted=TB, rule='every operation from an arbitrary state: maximality/minimality by an arbitrary slot K, compaction by an arbitrary slot and byte, inductive in the number of slots'),
    'C20': dict(run=ai('C20'), level='proof', trusted=TB, rule='insert and lookup from an arbitrary state with pairwise different keys: the sought key is that of an arbitrary entry H, or of none; contents by an arbitrary slot and byte; inductive in the number of entries'),
    'C18': dict(run=ai('C18'), level='proof', trusted=TB, rule='representation invariant established by init and preserved by every operation, from an arbitrary state; contents by an arbitrary slot and byte'),
    'C22': dict(run=ai('C22'), level='proof', trusted=TB, rule='multiset-with-hole domain: every write to the buffer is an exchange of two elements or a move through one local copy, inductive in all loops; the exchange itself by an arbitrary byte J'),
    'C23': dict(run=ai('C23'), level='proof', trusted=TB, rule='linear loop invariants on the indices: every access and every comparator argument is a complete element, for all counts and sizes'),
    'C24': dict(run=ai('C24'), level='other', trusted=TB, rule='for up to 6 elements (thorough: 7), all contents and all strict weak orders: transitively closed order knowledge per partition entails sortedness at the exit'),
    'C21': dict(run=ai('C21'), level='proof', trusted=TB, rule='init and add from an arbitrary table by an arbitrary slot and the first free slot; run as a trace property over two arbitrary slots K < L: called once each, in order, exactly when runnable; inductive in the number of slots'),
    'C15': dict(run=ai('C15'), level='proof', trusted=TB, rule='bounds of every write, exact success condition and an arbitrary byte J of the buffer on failure, for strings of arbitrary lengths'),
    'C16': dict(run=ai('C16'), level='proof', trusted=TB, rule='every punctuation character and an arbitrary character J of the text so far, the key and the value, for arbitrary lengths, with and without separator'),
    'C17': dict(run=ai('C17'), level='proof', trusted=TB, rule='inductive over all loops for arbitrary contents and sizes: bounds, terminator, an arbitrary character J of the value, a known match of the key with an arbitrary position Q up to the colon; '
                'that a pair in builder-made text is found: for two pairs of fixed small lengths, all characters'),
    'C29': dict(run=ai('C29'), level='proof', trusted=TB, rule='every load, store, copy and string operation of every library function: inside an object (region bounds by linear invariants), initialised, not null, not read-only'),
    'C30': dict(run=ai('C30'), level='proof', trusted=TB, rule='every signed addition, subtraction, multiplication, shift and division of every library function: interval and linear invariants exclude overflow, oversized shifts and zero divisors'),
    'C31': dict(run=ai('C31'), level='proof', trusted=TB, rule='every loop of every library function unfolds completely or has an iteration count bounded by a linear function of the sizes; no recursion'),
    'C32': dict(run=ai('C32'), level='proof', trusted=TB, rule='frame condition on every failing outcome: all fields, an arbitrary byte of each buffer, and the output parameter'),
}
