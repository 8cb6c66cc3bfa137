import json
def P(id,title,stmt,over,qt,why,files,mech,state=(),obs=()):
    return dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None))
I=['inputs']; PR=['programs']; H=['histories']
L=[
P('P01','The stored program is a map from line numbers to the last text entered',
 'After any sequence of entered program lines, replacements and deletions, the stored program contains exactly the line numbers whose last entry had text, each with that text exactly as typed after the number, in ascending order. A bare number deletes that line if present and changes nothing otherwise; NEW empties the program; a number that is zero or too big is refused and changes nothing.',
 ['histories','inputs'],'every sequence of line entries, deletions and NEW, in any order and any number, with any line numbers and texts',
 'Unit tests insert three or four lines in a couple of orders; position search, insertion and table growth depend on the whole history.',
 ['Monitor/interactive.c','Basic/source.c'],[('enter_source_line / find_source_linenum / insert_source_line / delete_source_line','Basic/source.c'),('program_line, read_num','Monitor/interactive.c')],
 [('SOURCE.lines','ascending array of (number, text)','Basic/source.h')],['LIST','SAVE']),
P('P02','SAVE followed by LOAD reproduces the program; bad files are refused',
 'Saving writes one line per program line, number, space, then the text, in order, and loading such a file yields the same program, for every program whose lines fit the file line limit. A file that has a line without a number, with a number of zero or too big, or with numbers that do not strictly increase is refused, and a failed save is reported to the user.',
 ['inputs','histories'],'every stored program and every text file',
 'Tests load well-formed files only and compare run output; no test saves a program, reloads it or feeds a badly ordered file.',
 ['Basic/source.c','Monitor/interactive.c'],[('load_source_file / load_source_string / append_source_line','Basic/source.c'),('save_source_file','Basic/source.c'),('load, save commands','Monitor/interactive.c')],[],['the file written','LIST after LOAD']),
P('P03','RENUM renumbers every line and every reference, or changes nothing',
 'RENUM new,start,step gives the lines from start onwards the numbers new, new+step, ... and leaves earlier lines alone, and every GOTO, GOSUB, THEN, ELSE, ON and RESTORE reference to a renumbered line follows it, so the program behaves as before. Text that is not a line reference (strings, remarks, DATA, other numbers) is unchanged, and when the new numbers would collide, go out of order or overflow the command is refused and nothing changes.',
 ['programs','inputs'],'every stored program and every RENUM argument triple',
 'No existing test runs RENUM at all; every pairing of statement forms with renumbered targets matters.',
 ['Monitor/interactive.c','Basic/source.c','Basic/lexer.c'],[('renumber and its helpers','Monitor/interactive.c')],[],['LIST after RENUM','RUN after RENUM']),
P('P04','LIST prints exactly the requested range, in order, page by page',
 'LIST prints each stored line of the requested range exactly once, in ascending order, as number, space, text; the forms are no range, a starting number, start-, -end and start-end, both ends inclusive and need not be stored. With the P flag the listing pauses after each full page until ENTER is typed and then goes on without losing or repeating a line.',
 ['inputs','programs'],'every stored program, every range form and bounds, and every answer at the page prompt',
 'LIST is not exercised by any test beyond whole-program listing; range endpoints and page boundaries are combinations.',
 ['Monitor/interactive.c','Basic/source.c'],[('list, get_list_numbers','Monitor/interactive.c'),('find_source_linenum','Basic/source.c')],[],['standard output']),
P('P05','A jump always reaches exactly the line it names, or reports an error',
 'GOTO, GOSUB, IF-THEN line, ON-GOTO and ON-GOSUB transfer control to the first statement of the line whose number they name, wherever it is in the program. If no such line is stored, the jump is a run-time error that names the jumping line and nothing of any other line is executed.',
 PR,'every program: all sets of line numbers, all jump forms, forward, backward and to the same line',
 'Tests jump among a few nearby lines; the line map is hashed and rebuilt per compile, so collisions, many lines and edits matter.',
 ['Basic/run.c','Basic/linemap.c','Basic/parse.c','Basic/emit.c'],[('go_to','Basic/run.c'),('linemap_insert, lookup','Basic/linemap.c')],[],['program output','error report']),
P('P06','RETURN resumes after the most recent unreturned GOSUB; ON picks the nth line',
 'RETURN continues with the statement after the latest GOSUB that has not been returned from, for any nesting up to the supported depth, and is a run-time error without a pending GOSUB, as is nesting too deep. ON n transfers to the nth listed line, continues with the next statement when the integer n is out of range and is a run-time error when n is not an integer; RETURN from ON-GOSUB continues after the whole ON statement.',
 PR,'every program and every call history, every selector value and list length',
 'Tests reach depth two and selectors in range; full-stack and out-of-range cases and multi-statement lines are combinations.',
 ['Basic/run.c','Basic/parse.c'],[('push_return / pop_return, on_goto, on_gosub, execute','Basic/run.c')],[('VM.retstack','return addresses, last in first out','Basic/run.c')],['program output','error report']),
P('P07','FOR/NEXT iterates by step until the limit is passed, for every nesting',
 'FOR evaluates start, limit and step once and runs the body at least once; each NEXT adds the step and repeats while the variable has not passed the limit in the direction of the step, and otherwise continues after the NEXT. NEXT without a variable belongs to the most recent loop, NEXT with variables to those loops, restarting a loop on the same variable replaces it, and NEXT without a matching loop or too deep nesting is a run-time error.',
 PR,'every program: all start, limit and step values including negative, zero and fractional, all nestings and jumps out of loops',
 'Tests use a few ascending loops; loop-stack rotation on re-entry, exits by GOTO and the depth limit depend on history.',
 ['Basic/run.c'],[('for_loop, next, find_for, execute','Basic/run.c')],[('VM.for_stack','active loops','Basic/run.c')],['program output','error report']),
P('P08','Array elements are independent cells with bounds checked on every access',
 'Each element of a one- or two-dimensional array holds the last value stored in it, or zero or the empty string if none, and no store changes any other element or variable. DIM bounds are inclusive from 0 and a repeated DIM starts a fresh array; an array used without DIM gets, per dimension, bound 10 or the first subscript if that is larger; a negative, fractional or too large subscript, a wrong number of subscripts or too big an array is a run-time error that stores nothing.',
 PR,'every array shape within the element limit, every subscript value and every sequence of stores and reads',
 'Tests access a few cells of small arrays; the offset computation must be injective for every shape.',
 ['Basic/arrays.c','Basic/run.c','Basic/symbol.c'],[('compute_offset, dimension_array, new_numeric_array','Basic/arrays.c'),('get/set paren','Basic/run.c')],[],['program output','error report']),
P('P09','Expressions evaluate by the documented precedence, associativity and types',
 'Every numeric or string expression evaluates as the documented grammar says: OR, AND, NOT, one comparison, + and -, * and /, unary minus, ^ (right associative), primaries, from loosest to tightest, with operators of one level applied left to right and arithmetic in double precision. Mixing numbers and strings or an ill-formed expression is a syntax error reported before anything runs, and an expression that needs more than the available operand space is a run-time error.',
 PR,'every expression tree over all operators, operand values and parenthesisations',
 'Tests evaluate a handful of fixed expressions; precedence pairs, parity of repeated signs and stack limits are combinatorial.',
 ['Basic/parse.c','Basic/run.c','Basic/emit.c'],[('expression parser by level','Basic/parse.c'),('push, pop, arithmetic and comparison opcodes','Basic/run.c')],[],['PRINT output','error report']),
P('P10','String functions and comparisons obey their character-level laws',
 'LEN, LEFT$, RIGHT$, MID$, concatenation, CHR$, ASC, STR$ and VAL return what the manual says for every string and number: counts beyond the end are clipped, ASC of the empty string is 0, and a negative or fractional count, a MID$ start outside the string, a code outside 0 to 255, text that is not a number, or a result over 255 characters is a run-time error. String comparison is by character code with a proper prefix smaller, and no operation changes any other string.',
 ['inputs','programs'],'every string and every numeric argument, including zero, negative, fractional and beyond the length',
 'Tests use a few strings with in-range arguments; boundary arguments and string sharing are not sampled.',
 ['Basic/run.c'],[('string opcodes, pop_str, left/right/mid','Basic/run.c')],[],['PRINT output','error report']),
P('P11','A DEF function returns its body with the argument bound, without side effects',
 'Calling a user-defined function evaluates its defining expression with the parameter standing for the argument and every other variable at its current value, and afterwards the variable of the parameter’s name is as before, defined or not. A later DEF replaces the function; calling a function before its DEF has been executed, a wrong number or type of arguments, or calling a user-defined function inside another one is reported as an error.',
 PR,'every function definition and every call in every expression context',
 'Tests define two or three functions; restoring the parameter and calls after errors depend on history.',
 ['Basic/run.c','Basic/def.c','Basic/parse.c','Basic/bcode.c'],[('call_def, end_def, B_DEF','Basic/run.c'),('bcode_copy_def','Basic/bcode.c')],[],['PRINT output','error report']),
P('P12','READ delivers DATA items in program order, each exactly once',
 'Successive READs deliver the DATA items of the whole program in line order and, within a line, left to right, each once, whatever order the code runs in; RESTORE starts again from the first item and RESTORE line from the first item on or after that existing line. Reading past the last item, restoring to an absent line or reading text into a numeric variable is a run-time error, and quoted and unquoted items keep exactly their text.',
 PR,'every placement of DATA, READ and RESTORE statements and every control flow between them',
 'Tests read one or two DATA lines in order; restore targets without data and data before/after jumps are combinations.',
 ['Basic/run.c','Basic/parse.c','Basic/lexer.c'],[('find_data, B_READ, B_RESTORE','Basic/run.c'),('data statement','Basic/parse.c')],[],['PRINT output','error report']),
P('P13','INPUT assigns each field of the typed line to its variable, or asks again',
 'INPUT prints its prompt, splits the typed line at commas and assigns the fields in order, numbers to numeric and text to string variables; an invalid number or too few fields gives the documented message and repeats the statement from its prompt, surplus fields are discarded with a message. LINE INPUT assigns the whole typed line, commas included, to its string variable, and the end of input is a run-time error.',
 ['inputs','programs'],'every INPUT statement and every sequence of typed lines including the end of input',
 'Regression tests run without typed input except one error test.',
 ['Basic/run.c','Basic/parse.c'],[('input_buf, input_num, input_str, input_line, input_sep, input_end','Basic/run.c')],[],['variables after INPUT','standard output']),
P('P14','PRINT lays out items by column: commas, semicolons, TAB, SPC, newline',
 'PRINT writes its items left to right, a number with a space before and after, a string as it is, and ends the line unless the last separator is a comma or semicolon; a comma writes spaces, at least one, up to the next 8-column field. TAB(n) moves to column n, on a new line when already past it, SPC(n) writes n spaces, and the column carries over from one PRINT to the next and counts every character written since the last line end.',
 PR,'every list of items and separators, every starting column, every TAB and SPC argument',
 'Tests compare a few fixed layouts; the column depends on all earlier output.',
 ['Basic/run.c'],[('print opcodes, column tracking','Basic/run.c')],[('VM.col','output column','Basic/run.c')],['standard output']),
P('P15','IF executes exactly the chosen branch, to the end of the line',
 'When the condition is non-zero the THEN part is executed to the end of the line or the ELSE, and the ELSE part is not; when it is zero the part after the ELSE of that IF is executed, or the rest of the line skipped when it has none. An ELSE belongs to the nearest IF before it; branches may be line numbers or statements including further IFs, and execution goes on with the following line.',
 PR,'every nesting of IF, THEN, ELSE and statement sequences and every condition value',
 'Tests cover a few single-level IFs; pairing of nested ELSEs is structural recursion.',
 ['Basic/run.c','Basic/parse.c'],[('B_IF_THEN, B_IF_ELSE, B_ELSE','Basic/run.c'),('if statement','Basic/parse.c')],[],['program output']),
P('P16','Variables are kept apart by name, kind and form, and reset when promised',
 'Two spellings of a name differing only in letter case denote one variable; names differing otherwise, in the dollar sign, or in being followed by a parenthesis denote distinct ones, and assigning to one never changes another. A variable never assigned reads as zero or the empty string; CLEAR, RUN and NEW reset all of them; direct statements share the variables of the program, and a built-in function name cannot be used as a variable.',
 ['programs','histories'],'every set of names (any number, any hash collisions) and every history of assignments and resets',
 'Tests use a few short names; the symbol table is hashed with chains and grows.',
 ['Basic/symbol.c','Basic/run.c','Shared/stringuniq.c'],[('sym_lookup, sym_insert','Basic/symbol.c'),('get/set simple','Basic/run.c')],[],['PRINT output']),
P('P17','Text is split into the documented tokens, whatever the spacing and case',
 'Keywords are recognised in any letter case, numbers and quoted strings are read exactly, names are whole words unless crunched text is selected, in which case a keyword is recognised wherever it starts, and remarks run to the end of the line. Anything outside the syntax is reported with the offending line and position and the program does not run; listing the names or only parsing reports the same result as running would.',
 ['inputs','programs','configurations'],'every program text, in both the normal and the crunched reading and in the list, names and parse-only modes',
 'Lexer unit tests use fixed sentences; adjacency of every keyword with every neighbour is not sampled.',
 ['Basic/lexer.c','Basic/token.c','Basic/parse.c','Shared/hash.c'],[('lex_next, keyword matching','Basic/lexer.c'),('find_keyword','Basic/token.c')],[],['behaviour of RUN','--list-names','--parse']),
P('P18','Errors are contained: reported once, nothing else disturbed, session usable',
 'No program text, typed line or input makes the interpreter crash, hang or touch memory it does not own; every error is reported once, with the line it occurred in, and stops only the running code. Afterwards the stored program and the variables are as the completed statements left them, and the next command behaves as if the failed evaluation had not begun.',
 ['programs','inputs','histories'],'every program, every failing statement and every continuation of the session after the error',
 'Error tests stop at the first error and never continue the session.',
 ['Basic/run.c','Basic/parse.c','Monitor/interactive.c'],[('run_error, abandon_evaluation, longjmp recovery','Basic/run.c'),('parse_error','Basic/parse.c')],[],['error report','behaviour of later commands','sanitizers']),
P('P19','STOP and CONT resume exactly; edits invalidate; state is shared with direct mode',
 'CONT after STOP continues with the statement following the STOP, with all variables, loops, calls and the data position as they were, unless the program was changed meanwhile, in which case or when nothing was stopped it is refused with a message. Direct statements read and change the same variables as the program, never its text, and RUN always starts a fresh execution of the current text.',
 ['histories','programs'],'every sequence of RUN, STOP, CONT, direct statements and edits',
 'The one STOP test never continues.',
 ['Basic/run.c','Monitor/interactive.c'],[('run_program, run_immediate, vm_continue, ensure_program_compiled, vm_source_changed','Basic/run.c')],[],['program output','messages']),
P('P20','Every memory block is released exactly once and never used afterwards',
 'After any error-free program or session, the number of blocks allocated equals the number released when the interpreter ends, and no block is read, written or released after its release. Assigned, concatenated, read and input strings stay valid until replaced.',
 ['programs','histories'],'every program or session that ends without an error',
 'The memory report is never compared by a test; ownership depends on the sequence of assignments and clears.',
 ['Basic/run.c','Basic/source.c','Basic/symbol.c','Basic/arrays.c','Basic/bcode.c','Shared/utils.c'],[('emalloc/efree accounting','Shared/utils.c'),('string ownership on the string stack','Basic/run.c')],[],['--report-memory','sanitizers']),
P('P21','Numeric functions and logical operators satisfy their definitions',
 'ABS, INT (rounding down), SGN, SQR, LOG, EXP, SIN, COS, TAN and ATN return the mathematical function value in double precision, LOG of a non-positive number being a run-time error; comparisons give -1 or 0, and AND, OR, NOT act bitwise on 32-bit integers, anything else being a run-time error. RND gives a value in [0,1) and RANDOMIZE n makes the following sequence a function of n alone.',
 ['inputs','programs'],'every numeric argument, including zero, negatives, large magnitudes and domain edges',
 'Tests check a few values per function.',
 ['Basic/run.c','Basic/builtin.c'],[('numeric builtin opcodes','Basic/run.c')],[],['PRINT output','error report']),
]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
for x in L:
    assert len(x['title'])<=80,x['id']
