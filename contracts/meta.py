"""What each property's check claims, and what all of them assume."""
TRUSTED = [
 'clang 18 front end (-O0) and opt -passes=mem2reg produce IR with the meaning of the C source',
 '/verif/lbv: IR reader, memory model and obligation generator (VC generation by symbolic execution, loops cut by invariants, callees replaced by contracts)',
 'z3 (python bindings in /opt/veriftools/pyvenv)',
 'the mathematical lemmas over integers, bit-vectors and floats stated in lbv/terms.py',
]
ASSUMPTIONS = [
 'library functions (malloc, calloc, realloc, free, strcpy, memcpy, memmove, strlen, strcmp, printf family, math.h, ctype) behave as modelled in lbv/libc.py; C locale',
 'allocation either succeeds with fresh memory or ends the process (emalloc and friends exit on failure)',
 'floating-point arithmetic (+ - * / pow and math.h) is an uninterpreted but deterministic function; comparisons and conversions are IEEE',
 'table capacities stay below 2^26 entries; symbol ids fit 16 bits',
 'code is extracted with UNIT_TEST off, tracing off, and one textual change: the prototype in run.h is given its parameter list',
 'single thread; asynchronous interruption is modelled only as the interrupted flag changing between statements',
]
S = 'the whole interpreter end to end on generated programs and sessions, including the few functions that have no contract (evidence lists those that have) and the composition of all of them'
P = 'Contracts on the functions listed under functions_verified are discharged for all inputs and all iterations; '
def e(level, text): return dict(level=level, explanation=text, standin=S)
OPS = 'each listed opcode of the interpreter loop is verified against a postcondition on the abstract machine state (stacks, variables, control stacks, program counter, output events) for every machine state satisfying the machine invariant; '
REST = 'the parser functions of its statements are verified against the reference grammar over an arbitrary token stream (which instructions are emitted, in which order, for which tokens), the emitter and the line index against a sequence of instructions, the lexer (P17) against the characters of the line; that these contracts compose to the whole run is covered by the bounded stand-in only.'
META = {
 'P01': e('other', P + 'line entry, insertion, replacement, deletion and invalidation of compiled code are proved on the sorted line table, and the dialogue (each typed line read whole and interpreted once) on an arbitrary input; that these contracts compose is covered by the bounded stand-in only.'),
 'P02': e('other', P + 'the functions of the monitor and of the line table are proved against the statement of the property on abstract line tables and texts; the terminal and the rest of the session are covered by the bounded stand-in.'),
 'P03': e('other', P + 'the functions of the monitor and of the line table are proved against the statement of the property on abstract line tables and texts; the terminal and the rest of the session are covered by the bounded stand-in.'),
 'P04': e('other', P + 'the functions of the monitor and of the line table are proved against the statement of the property on abstract line tables and texts; the terminal and the rest of the session are covered by the bounded stand-in.'),
 'P05': e('other', P + OPS + REST),
 'P06': e('other', P + OPS + REST),
 'P07': e('other', P + OPS + REST),
 'P08': e('other', P + OPS + REST),
 'P09': e('other', P + OPS + REST),
 'P10': e('other', P + OPS + REST),
 'P11': e('other', P + OPS + REST),
 'P12': e('other', P + OPS + REST),
 'P13': e('other', P + OPS + REST),
 'P14': e('other', P + OPS + REST),
 'P15': e('other', P + OPS + REST),
 'P16': e('other', P + OPS + REST),
 'P17': e('other', P + OPS + REST),
 'P18': e('other', P + OPS + REST),
 'P19': e('other', P + OPS + REST),
 'P20': e('other', P + OPS + REST),
 'P21': e('other', P + OPS + REST),
}
