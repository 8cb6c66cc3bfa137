"""Which obligations decide which property.  A harness is 'module:name' or 'op:B_CODE'.
Each entry also lists the functions that a property depends on and that are not (fully)
under contract: those are covered by the labelled bounded stand-in."""
ARR = ['op:B_DIM_NUM', 'op:B_DIM_STR', 'op:B_GET_PAREN_NUM', 'op:B_GET_PAREN_STR', 'op:B_SET_ARRAY_NUM', 'op:B_SET_ARRAY_STR']
ARRFN = ['arrays:' + x for x in ('create', 'access1', 'access2', 'zero', 'release')]
SYM = lambda *a: ['symbols:' + x for x in a]
REL = ['op:B_%s_NUM' % x for x in ('EQ', 'LT', 'GT', 'NE', 'LE', 'GE')]
RELS = ['op:B_%s_STR' % x for x in ('EQ', 'LT', 'GT', 'NE', 'LE', 'GE')]
ARITH = ['op:B_' + x for x in ('ADD', 'SUB', 'MUL', 'DIV', 'POW', 'NEG', 'PUSH_NUM', 'POP_NUM')]
LOGIC = ['op:B_OR', 'op:B_AND', 'op:B_NOT']
FUNCS = ['op:B_' + x for x in ('ABS', 'ATN', 'COS', 'EXP', 'SIN', 'TAN', 'SQR', 'INT', 'LOG', 'SGN')]
STRS = ['op:B_' + x for x in ('PUSH_STR', 'POP_STR', 'CONCAT', 'LEFT', 'RIGHT', 'MID3', 'LEN', 'ASC', 'CHR', 'STR', 'VAL', 'TIME_STR')]
VARS = ['op:B_GET_SIMPLE_NUM', 'op:B_SET_SIMPLE_NUM', 'op:B_GET_SIMPLE_STR', 'op:B_SET_SIMPLE_STR']
DEFS = ['op:B_DEF', 'op:B_GET_PAREN_NUM/DEF', 'op:B_GET_PAREN_STR/DEF', 'op:B_END_DEF']

LMAP = ['linemap:lookup', 'linemap:insert', 'linemap:new_map', 'bcode:index']
EMIT = ['bcode:' + x for x in ('bcode_next', 'emit', 'emit_source_line', 'emit_basic_line', 'emit_num', 'emit_str', 'emit_str_ptr', 'emit_var', 'emit_param', 'emit_count', 'patch_opcode', 'patch_count')]

GRAM = lambda *a: ['grammar:' + x for x in a]
STM = lambda *a: ['grammar:stmt_' + x for x in a]
EXPR = GRAM('expression', 'OR_expression', 'AND_expression', 'NOT_expression', 'relational_expression', 'add_expr', 'mult_expr', 'neg_expr', 'power_expr', 'primary_expression')
LEX = lambda *a: ['lexer:' + x for x in a]
TOKENS = lambda *a: ['tokens:' + x for x in a]
NUMBER = LEX(*[k + x for k in ('integer', 'decimal', 'point') for x in ('', '_exponent', '_negative')])
SES = lambda *a: ['session:' + x for x in a]
SYS = lambda *a: ['system:' + x for x in a]
CMD = lambda *a: ['command:' + x for x in a]
MON = lambda *a: ['monitor:' + x for x in a]

# what every program depends on: statements and lines are compiled in order, code is emitted and indexed, and run
COMPILE = GRAM('complete_statement', 'parse_line', 'parse_source', 'identifier') + EMIT + LMAP
RUNS = SES('run_program', 'run_immediate') + ['op:B_SOURCE_LINE', 'op:B_ON_LINE', 'op:B_NOP', 'op:B_END']
LEXBASE = LEX('words', 'string', 'other', 'integer') + TOKENS('identifier', 'keyword_names')
MONBASE = MON('interpret', 'find_command', 'command', 'immediate', 'program_line', 'check_eol', 'skip_space', 'read_num')
SRC = ['store:' + x for x in ('enter_line', 'delete_line', 'clear', 'find_linenum', 'append', 'replace', 'load_file', 'save_file', 'parse_number', 'wrap', 'delete_all')]
ALLOPS = ARR + REL + RELS + ARITH + LOGIC + FUNCS + STRS + VARS + DEFS + ['op:B_' + x for x in (
    'GOTO GOTRUE GOSUB RETURN ON_GOTO ON_GOSUB FOR NEXT_VAR NEXT_IMP READ_NUM READ_STR RESTORE RESTORE_LINE DATA '
    'INPUT_STR INPUT_NUM INPUT_LINE INPUT_BUF INPUT_SEP INPUT_END PRINT_LN PRINT_SPC PRINT_TAB PRINT_COMMA PRINT_NUM PRINT_STR CLS '
    'IF_THEN IF_ELSE ELSE CLEAR SOURCE_LINE PARAM ON_LINE INKEY NOP STOP END RND SEED RAND').split()]
ALLSTM = STM('CLEAR', 'CLS', 'DATA', 'DEF', 'DIM', 'END', 'FOR', 'GOSUB', 'GOTO', 'ID', 'IF', 'INPUT', 'LET', 'LINE', 'NEXT', 'ON', 'PRINT', 'RANDOMIZE', 'READ', 'REM', 'RESTORE', 'RETURN', 'STOP', 'other')

PROPS = {
    'P01': ['store:enter_line', 'store:delete_line', 'store:clear', 'store:find_linenum'] + MON('program_line', 'read_num', 'skip_space', 'interpret') + SES('edits') + SYS('line_complete', 'get_line', 'interact') + CMD('text_access', 'new_text'),
    'P02': ['store:load_file', 'store:save_file', 'store:append', 'store:parse_number'] + MON('demarcate', 'command', 'check_eol') + SES('edits') + CMD('text_access', 'new_text', 'text_error', 'list_file'),
    'P03': MON('renumber') + ['store:replace', 'store:find_linenum'] + MON('renum_numbers', 'read_num', 'skip_space') + CMD('text_access'),
    'P04': MON('list_', 'list_numbers', 'page_flag', 'read_num', 'skip_space', 'check_eol', 'command') + SYS('await_newline') + CMD('text_access'),
    'P05': ['op:B_GOTO', 'op:B_GOTRUE'] + LMAP + STM('GOTO', 'IF') + SYS('delete_index', 'run_error') + CMD('line_report'),
    'P06': ['op:B_GOSUB', 'op:B_RETURN', 'op:B_ON_GOTO', 'op:B_ON_GOSUB'] + STM('GOSUB', 'RETURN', 'ON'),
    'P07': ['op:B_FOR', 'op:B_NEXT_VAR', 'op:B_NEXT_IMP'] + STM('FOR', 'NEXT') + SES('open_loop', 'tracing'),
    'P08': ARR + ARRFN + STM('DIM', 'ID', 'LET') + GRAM('identifier'),
    'P09': ARITH + REL + LOGIC + EMIT + EXPR,
    'P10': STRS + RELS + SYM('builtins_table') + ['vmio:convert'] + GRAM('primary_expression', 'add_expr', 'relational_expression'),
    'P11': DEFS + ['bcode:copy_def'] + SYM('defs', 'undefine') + STM('DEF') + GRAM('identifier', 'primary_expression'),
    'P12': ['op:B_' + x for x in ('READ_NUM', 'READ_STR', 'RESTORE', 'RESTORE_LINE', 'DATA')] + ['vmio:convert'] + SES('run_program') + STM('DATA', 'READ', 'RESTORE') + LEX('data') + ['store:wrap'],
    'P13': ['op:B_INPUT_' + x for x in ('STR', 'NUM', 'LINE', 'BUF', 'SEP', 'END')] + ['vmio:convert'] + STM('INPUT', 'LINE'),
    'P14': ['op:B_PRINT_LN', 'op:B_PRINT_SPC', 'op:B_PRINT_TAB', 'op:B_PRINT_COMMA', 'op:B_PRINT_NUM', 'op:B_PRINT_STR', 'op:B_CLS'] + STM('PRINT', 'CLS') + GRAM('print_builtin_name') + SYS('spaces') + CMD('screen'),
    'P15': ['op:B_IF_THEN', 'op:B_IF_ELSE', 'op:B_ELSE'] + STM('IF', 'GOTO', 'LET', 'ID', 'PRINT', 'other') + GRAM('complete_statement', 'parse_line'),
    'P16': VARS + ['op:B_CLEAR'] + SES('run_program', 'run_immediate') + SYM('lookup', 'insert', 'new_table', 'hashing', 'undefine', 'forget', 'unknown_arrays') + STM('CLEAR', 'ID', 'LET') + GRAM('identifier') + SYS('new_machine', 'small_machine', 'stringname'),
    'P17': LEX('words', 'crunched', 'string', 'other', 'no_text', 'small') + NUMBER + TOKENS('identifier', 'prefix', 'names', 'keyword_names', 'lex_errors') + SYM('hashing') + MON('find_command') + STM('REM', 'other', 'DATA') + GRAM('parse_source', 'parse_line', 'error_report', 'print_builtin_name') + CMD('name_insert', 'name_walk', 'name_set', 'list_names', 'one_name', 'one_file', 'builtin_lookup', 'options', 'option_defaults', 'option_help'),
    'P18': TOKENS('lex_errors', 'names') + ['op:B_' + x for x in ('SOURCE_LINE', 'PARAM', 'ON_LINE', 'INKEY', 'NOP')] + SES('run_', 'run_program', 'run_immediate') + GRAM('parse_source', 'error_report') + SYS('run_error', 'messages', 'line_complete', 'get_line', 'interact', 'oscli', 'help_text') + CMD('line_report', 'text_error', 'one_file', 'main_function') + SES('tracing', 'compile_only') + SYM('kind_names', 'code_line'),
    'P19': ['op:B_STOP', 'op:B_END'] + MON('immediate', 'command') + SES('run_program', 'run_immediate', 'continue_', 'edits', 'run_') + STM('END', 'STOP') + CMD('interrupts') + SYS('small_machine') + SES('compile_only'),
    'P20': SES('run_program', 'run_immediate', 'edits', 'run_') + ['store:delete_all'] + STRS + SYM('undefine', 'forget', 'defs') + ['arrays:release'] + GRAM('parse_source') + SYS('alloc', 'realloc', 'dup', 'release', 'delete_code', 'new_code', 'latest', 'delete_index', 'keywords', 'lex_object', 'opcode_formats', 'new_machine', 'delete_machine', 'interact') + CMD('memory_report', 'main_function', 'one_file', 'list_file', 'list_names', 'name_walk', 'name_set'),
    'P21': FUNCS + LOGIC + SYM('builtins_table') + ['op:B_RND', 'op:B_SEED', 'op:B_RAND'] + STM('RANDOMIZE') + GRAM('primary_expression'),
}

MORE = {
    'P01': MONBASE + ['store:append', 'store:parse_number', 'store:replace', 'store:delete_all'],
    'P02': MONBASE + ['store:clear', 'store:delete_all', 'store:find_linenum', 'store:enter_line'] + CMD('one_file', 'main_function'),
    'P03': MONBASE + LEXBASE + LEX('data', 'small') + CMD('new_text') + SES('edits') + ['store:append', 'store:wrap'],
    'P04': MONBASE + CMD('list_file') + ['store:find_linenum'],
    'P05': COMPILE + RUNS + ['op:B_' + x for x in ('ON_GOTO', 'ON_GOSUB', 'GOSUB', 'IF_THEN', 'IF_ELSE', 'ELSE')] + STM('ON', 'GOSUB') + ['store:find_linenum'] + SES('run_'),
    'P06': COMPILE + RUNS + ['op:B_GOTO', 'op:B_GOTRUE'] + STM('GOTO') + SYS('run_error', 'new_machine') + SES('continue_'),
    'P07': COMPILE + RUNS + VARS + EXPR + SYS('run_error', 'new_machine') + ['op:B_POP_NUM', 'op:B_PUSH_NUM'],
    'P08': COMPILE + RUNS + VARS + EXPR + SYM('lookup', 'insert', 'forget', 'unknown_arrays') + ['op:B_CLEAR', 'op:B_INPUT_STR', 'op:B_INPUT_NUM'],
    'P09': COMPILE + VARS + LEX('other', 'integer') + STM('LET', 'ID', 'PRINT', 'IF') + SYS('run_error', 'new_machine') + GRAM('error_report'),
    'P10': COMPILE + EXPR + VARS + LEX('string') + SYS('run_error', 'dup', 'alloc') + ['op:B_PRINT_STR', 'op:B_SET_ARRAY_STR', 'op:B_GET_PAREN_STR'],
    'P11': COMPILE + RUNS + EXPR + VARS + ['op:B_PARAM', 'op:B_CLEAR'] + SYM('lookup', 'insert', 'forget', 'builtins_table') + SYS('new_code', 'delete_code'),
    'P12': COMPILE + RUNS + VARS + ['op:B_SET_ARRAY_NUM', 'op:B_SET_ARRAY_STR', 'op:B_CLEAR', 'op:B_PUSH_STR', 'op:B_PUSH_NUM'] + SYS('run_error', 'new_machine') + SES('continue_'),
    'P13': COMPILE + VARS + ['op:B_SET_ARRAY_NUM', 'op:B_SET_ARRAY_STR', 'op:B_PRINT_STR', 'op:B_PRINT_LN'] + SYS('line_complete', 'get_line', 'run_error', 'small_machine'),
    'P14': COMPILE + RUNS + EXPR + ['op:B_INPUT_STR', 'op:B_INPUT_LINE', 'op:B_INPUT_BUF'] + SYS('new_machine', 'small_machine'),
    'P15': COMPILE + RUNS + ALLSTM + EXPR + ['op:B_GOTRUE', 'op:B_GOTO'],
    'P16': COMPILE + RUNS + ARR + ARRFN + DEFS + LEXBASE + SES('edits', 'run_') + ['op:B_FOR', 'op:B_NEXT_VAR', 'op:B_READ_NUM', 'op:B_READ_STR'] + SYM('defs', 'builtins_table') + GRAM('primary_expression', 'print_builtin_name'),
    'P17': COMPILE + ALLSTM + EXPR + SYS('keywords', 'lex_object', 'messages'),
    'P18': ALLOPS + ALLSTM + EXPR + COMPILE + MONBASE + SRC + ARRFN + SYM('defs', 'undefine', 'forget', 'lookup', 'insert') + LEX('words', 'string', 'other', 'data', 'small') + ['vmio:convert']
           + SES('edits', 'continue_', 'open_loop') + CMD('interrupts', 'list_file', 'list_names', 'options') + SYS('delete_machine', 'new_machine', 'spaces', 'await_newline'),
    'P19': MONBASE + SRC[:6] + ['op:B_CLEAR', 'op:B_SOURCE_LINE'] + SYS('new_machine', 'delete_machine', 'delete_index') + COMPILE,
    'P20': ALLOPS + ALLSTM + EXPR + COMPILE + SRC + ARRFN + SYM('lookup', 'insert', 'new_table', 'unknown_arrays') + SES('continue_', 'compile_only') + MON('interpret', 'immediate', 'program_line', 'renumber') + CMD('new_text', 'text_access'),
    'P21': COMPILE + EXPR + REL + ['op:B_NEG', 'op:B_PUSH_NUM'] + SYS('run_error'),
}
for _p in PROPS: PROPS[_p] = list(dict.fromkeys(PROPS[_p] + MORE.get(_p, [])))
