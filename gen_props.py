#!/usr/bin/env python3
# Writes properties.jsonl (kept as code so the statements stay reviewable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=hook)))
W='parser_library/src/workspaces/'; C='parser_library/src/context/'; PR='parser_library/src/processing/'; L='language_server/src/'
p('C01','Edited documents always equal the client\'s text',
 'After any sequence of open, full-text and incremental change notifications, the text the server holds and analyses for a document is exactly the text the client has under the LSP text model (UTF-16 columns, LF, CR and CRLF line ends). Versions and the set of open documents follow the notifications, and a change notification for a document the server does not know changes nothing.',
 ['histories','inputs'],'every history of open/change/close notifications, with any ranges inside the document, any inserted text including multi-byte characters and every line terminator',
 'The tests apply about a dozen fixed edits, one per scenario, to one short document; the line index is updated incrementally, so the errors are in combinations of edits.',
 [W+'file_impl.cpp',W+'processor_file_impl.cpp',W+'file_manager_impl.cpp'],
 [('did_change / replace_text / create_line_indices',W+'file_impl.cpp'),('did_open_file/did_change_file/did_close_file',W+'file_manager_impl.cpp')],
 [('text_','current document text',W+'file_impl.h'),('lines_ind_','line start offsets kept incrementally',W+'file_impl.h')],
 ['file_manager_impl::find_file()->get_text()'])
p('C02','Queued requests run once, in order; superseded work is cancelled',
 'Every message handed to the request queue is executed exactly once and in arrival order, one at a time. When a new edit of a file arrives while a request of that file is running, the running request and the queued older requests of the same file get their cancellation flag raised, the newest edit of a file is never cancelled by older or unrelated requests, and cancelling a request never drops it. Shutting a server down waits for its running request and discards no other server\'s requests.',
 ['schedules','histories'],'every interleaving of producers, the worker thread and the shutdown call, for any number of files and servers',
 'Two tests drive one producer with fixed sleeps; the property is about all interleavings of three threads over a shared deque.',
 [L+'request_manager.cpp',L+'blocking_queue.h',L+'json_queue_channel.cpp'],
 [('add_request/handle_request_/finish_server_requests',L+'request_manager.cpp'),('push/pop/terminate',L+'blocking_queue.h')],
 [('requests_','pending deque',L+'request_manager.h'),('currently_running_file_','file of the running request',L+'request_manager.h'),('cancel_','shared cancellation flag',L+'request_manager.h')],
 ['server::message_received','cancellation token'])
p('C03','Message framing and LSP session lifecycle',
 'Any stream of well-framed messages is decoded to exactly those JSON messages in order whatever the header order, body bytes or chunking, bodies that are not JSON never desynchronise or crash the reader, and everything written is framed so that it decodes to the same messages (the Content-Length given is taken to be the length of the body). Each well-formed supported request gets exactly one response, in order, notifications none, unknown or malformed messages never stop the session, and the process result is success exactly when shutdown preceded exit.',
 ['inputs','histories'],'every byte stream and every sequence of client messages',
 'Tests feed three well-formed messages and three lifecycle sequences; the guarantee is over all streams and message orders.',
 [L+'base_protocol_channel.cpp',L+'dispatcher.cpp',L+'server.cpp',L+'lsp/lsp_server.cpp'],
 [('read_message/write_message',L+'base_protocol_channel.cpp'),('dispatcher::run_server_loop',L+'dispatcher.cpp'),('server::call_method / on_shutdown / on_exit',L+'lsp/lsp_server.cpp')],
 [('shutdown_request_received_','lifecycle flag',L+'server.h')],['bytes on the output stream','return value of the server loop'])
p('C04','Debug sessions receive exactly their own messages, in order',
 'Each debugger message of the client is delivered to the session it names and to no other receiver, in order and unchanged, ordinary language-server messages never reach a debug session, and everything a session writes is returned to the client tagged with that session. A session exists from its first message until its disconnect, its messages carry consecutive sequence numbers, and its end never affects other sessions or the language server.',
 ['histories','schedules'],'every interleaving of messages of any number of sessions, including session ends',
 'The tests route single messages to mocks; they never interleave several sessions with session ends.',
 [L+'message_router.cpp',L+'dap/dap_session_manager.cpp',L+'dap/dap_session.cpp',L+'dap/dap_message_wrappers.cpp'],
 [('message_router::write',L+'message_router.cpp'),('session_manager::write',L+'dap/dap_session_manager.cpp')],
 [('sessions','live debug sessions',L+'dap/dap_session_manager.h')],['json_sink::write'])
p('C05','Diagnostics depend on current contents only, not on history',
 'After any history of opening, editing, closing and watched-file changes, the diagnostics shown for an open program are those of an analysis of the contents (editor buffers before files on disk) at its latest analysis, which takes place whenever it or a file it used is opened, edited, closed or reported as changed, and whenever the configuration changes while it uses libraries. Diagnostics of files that no longer belong to an open program are withdrawn, edits of a macro or copy member are reflected in every open program using it, a configuration that cannot be read is reported and leaves the previous one in effect, and a program without a processor group shows no diagnostics once they exceed the configured limit.',
 ['histories','configurations'],'every history of open/change/close/watched-file events over a program with macros, nested macros and copy members in its libraries, under any program and processor-group configuration',
 'About ten scripted scenarios exist in the workspace tests; caches (parse results, dependencies, library file lists) make the result depend on event order.',
 [W+'workspace.cpp',W+'file_manager_impl.cpp',W+'processor_file_impl.cpp',W+'library_local.cpp','parser_library/src/workspace_manager_impl.h'],
 [('parse_file / did_close_file / did_change_watched_files',W+'workspace.cpp'),('dependency bookkeeping',W+'processor_file_impl.cpp')],
 [('dependants_','open programs',W+'workspace.h'),('dependencies_','files a program used',W+'processor_file_impl.h')],['diagnostics consumer'])
p('C06','Programs use the configured processor group and library order',
 'A program analysed in a workspace uses the processor group that the configuration assigns to it (an exact program entry before wildcard entries, wildcard entries in order, * standing for any characters, ? for one and everything else for itself), and every macro or copy name resolves to the first library of that group, in listed order, that contains it under the configured extensions. Programs without a group use no library, a file outside of every workspace folder (or in the innermost of several) uses the configuration of no (that) folder, entries that name an unknown group are reported and ignored, SYSPARM is that of the group, and optional libraries that are missing are silently skipped while required ones are reported.',
 ['configurations','inputs'],'every pgm_conf/proc_grps combination, wildcard pattern, file name and placement of members in libraries',
 'The tests sample a few configurations; the mapping is a function of configuration, names and directory contents.',
 [W+'workspace.cpp',W+'library_local.cpp',W+'wildcard.cpp',W+'processor_group.h'],
 [('get_proc_grp_by_program / parse_library',W+'workspace.cpp'),('wildcard2regex',W+'wildcard.cpp'),('library_local::load_files',W+'library_local.cpp')],
 [],['diagnostics','parse_library result'])
p('C07','Conditional assembly follows the HLASM branching and call rules',
 'Statements of open code, macros and copy members are executed in exactly the order the conditional-assembly rules prescribe: AIF/AGO (including computed and multiple-condition forms), MEXIT/MEND, nested and recursive macro calls, branches forward and backward, in and out of copy members, and the ACTR branch limit. Every execution ends.',
 ['programs'],'every program built of assignments, branches, sequence symbols, macro definitions (nested too), calls and copy members',
 'Tests are hand-written programs of a few lines checking one feature each.',
 [PR+'processing_manager.cpp',PR+'instruction_sets/ca_processor.cpp',PR+'statement_processors/macrodef_processor.cpp',PR+'statement_providers/members_statement_provider.cpp',C+'hlasm_context.cpp'],
 [('jump_in_statements / register_sequence_symbol',PR+'processing_manager.cpp'),('process_AIF/AGO/ACTR',PR+'instruction_sets/ca_processor.cpp')],
 [('scope_stack_','macro nesting',C+'hlasm_context.h'),('branch_counter','ACTR budget',C+'code_scope.h')],['final variable-symbol values'])
p('C08','Variable symbols: scope, type, arrays, parameters and sublists',
 'Global variables are one shared object per name in every scope that declares them, local variables and macro parameters exist only in their own macro call and start at their default each time, and the type declared first (or by the first assignment) governs later uses. Macro parameters receive positional, keyword, default and label values by the call rules, and sublists, SYSLIST, SYSNDX, N\' and K\' agree with the operands as written.',
 ['programs'],'every program of declarations, assignments and macro calls with any nesting and any operand shapes',
 'Each test checks one declaration or call shape.',
 [C+'hlasm_context.cpp',C+'macro.cpp',C+'common_types.h',C+'variables/macro_param.cpp',C+'variables/set_symbol.h',PR+'instruction_sets/macro_processor.cpp'],
 [('create_global_variable / create_local_variable',C+'hlasm_context.cpp'),('macro_definition::call',C+'macro.cpp')],
 [('globals_','global variables',C+'hlasm_context.h')],['final variable-symbol values'])
p('C09','Conditional-assembly expressions evaluate to their HLASM value',
 'Arithmetic, logical and character conditional-assembly expressions evaluate to the value HLASM assigns: 32-bit arithmetic with truncating division and division by zero giving zero, operator precedence, shift and mask functions, comparison of strings shorter-first in EBCDIC order, substring, duplication, concatenation and the built-in functions. Overflow and invalid operands are reported instead of giving a wrong value.',
 ['inputs','programs'],'every expression tree over the operators and functions, every operand value',
 'One or two values per operator are tested.',
 ['parser_library/src/expressions/conditional_assembly/*','parser_library/src/expressions/conditional_assembly/terms/*'],
 [('ca_arithmetic_policies / ca_binary_operator','parser_library/src/expressions/conditional_assembly/ca_expr_policy.cpp')],
 [],['values of SETA/SETB/SETC symbols'])
p('C10','Storage layout: every label gets its HLASM address',
 'For every sequence of section, LOCTR, ORG, alignment, data and instruction statements, each label has the section and offset the HLASM layout rules give it (ORG with a boundary operand only in the first location counter of a section and without a target in front of the section), section sizes and ORG-without-operand use the highest address reached, and the result is the same whether lengths are known immediately or only later in the source.',
 ['programs'],'every sequence of CSECT/DSECT/LOCTR/ORG/DC/DS/instruction/EQU statements',
 'Fixed layouts only; the space/counter structure is a graph of postponed spaces, where errors depend on the sequence.',
 [C+'ordinary_assembly/location_counter.cpp',C+'ordinary_assembly/loctr_dependency_resolver.h',C+'ordinary_assembly/section.cpp',C+'ordinary_assembly/ordinary_assembly_context.cpp',PR+'instruction_sets/asm_processor.cpp'],
 [('location_counter / space resolution',C+'ordinary_assembly/location_counter.cpp')],[],['symbol values'])
p('C11','Symbol values do not depend on the order of definitions',
 'The value of each symbol defined by EQU equals the value of its expression over the final symbol values (absolute, or relocatable with its sections and their multiplicities), whichever order the definitions come in, also when storage sizes depend on symbols defined later. Its type and length attributes are the explicit operands; otherwise the type is U and the length is that of the leftmost term where that term is already defined. Analysis always ends: a cyclic definition is reported (at a statement of the cycle, or for a cycle through storage sizes at a statement that defines an address), an undefined symbol at each statement that refers to it, neither is reported otherwise, and symbols that depend on neither keep their exact values.',
 ['programs'],'every graph of EQU definitions over absolute and relocatable symbols and attribute references, in every statement order',
 'Tests contain a few two- and three-symbol chains.',
 [C+'ordinary_assembly/symbol_dependency_tables.cpp',C+'ordinary_assembly/symbol.cpp',C+'ordinary_assembly/address.cpp',C+'ordinary_assembly/dependency_collector.cpp'],
 [('symbol_dependency_tables::resolve / check_cycle',C+'ordinary_assembly/symbol_dependency_tables.cpp')],[],['symbol values','E033/E010 diagnostics'])
p('C12','An operation code means its latest definition',
 'At each statement, the operation code denotes the newest macro definition or OPSYN assignment of that name executed so far, else the library macro, else the built-in instruction; a cancelled mnemonic is unknown until redefined, an OPSYN alias keeps the meaning its source had when the OPSYN ran, conditional-assembly mnemonics inside a macro definition keep the meaning they had when it was defined, and definitions inside code that is skipped have no effect.',
 ['programs'],'every order of macro definitions, redefinitions, OPSYN statements, library members and calls',
 'One redefinition or OPSYN per test.',
 [C+'hlasm_context.cpp',PR+'instruction_sets/asm_processor.cpp',PR+'processing_manager.cpp',PR+'statement_providers/statement_provider.cpp'],
 [('get_operation_code / add_mnemonic / remove_mnemonic',C+'hlasm_context.cpp')],[('opcode_mnemo_','alias map',C+'hlasm_context.h')],['which macro body ran'])
p('C13','Lookahead finds the right target and leaves no trace',
 'A forward branch in open code reaches the first later statement carrying that sequence symbol, and an attribute reference to a symbol defined later yields the attributes of its first later definition, in open code and in copy members. Searching ahead has no other effect: statements passed over are not executed or defined early, and everything afterwards behaves as if no search had happened.',
 ['programs'],'every placement of branch targets, attribute references and definitions in open code, copy members and macros',
 'Tests have one lookahead per program.',
 [PR+'statement_processors/lookahead_processor.cpp',PR+'processing_manager.cpp',C+'hlasm_context.cpp','parser_library/src/parsing/parser_impl.cpp'],
 [('start_lookahead/finish_lookahead, find_lookahead_symbol',PR+'processing_manager.cpp')],[],['final variable-symbol values'])
p('C14','Macro debugger stops exactly where it should',
 'Stepping in, stepping over, continuing and breakpoints stop the traced program at exactly the statements the debugger contract prescribes, the reported call stack and variable values are those of that moment, and the program always runs to its end or stops on disconnect, with exactly one exit notification. Commands in any order never hang, crash or change the analysed result.',
 ['programs','histories','schedules'],'every program and every sequence of debugger commands at every stop',
 'Tests step through four fixed programs.',
 ['parser_library/src/debugging/debugger.cpp','parser_library/src/debugging/*_variable.cpp',L+'dap/dap_feature.cpp'],
 [('debugger::impl::statement','parser_library/src/debugging/debugger.cpp')],[('stop_on_next_stmt_, step_over_','stop conditions','parser_library/src/debugging/debugger.cpp')],['stopped/exited events, stack frames, variables'])
p('C15','Navigation agrees with what the program defines and uses',
 'For every position of an analysed program, go-to-definition leads to the statement that defines the symbol, operation code, variable or sequence symbol there, find-references returns exactly all occurrences of that same object, and hover describes it (type of a variable, value and attributes of an ordinary symbol, signature and comments of a macro); objects of the same name in different scopes (different macros, open code) are never mixed up, wherever the lines of a scope come from (copy members, library macros, around nested definitions). Completion after & and . offers exactly the variable and sequence symbols of the scope, completion of an operation code offers every macro defined. A global variable is navigated within each scope that declares it.',
 ['programs','inputs'],'every program and every cursor position',
 'Tests query a few dozen positions in four programs.',
 ['parser_library/src/lsp/lsp_context.cpp','parser_library/src/lsp/file_info.cpp',PR+'statement_analyzers/lsp_analyzer.cpp',PR+'statement_analyzers/occurence_collector.cpp'],
 [('definition/references/hover','parser_library/src/lsp/lsp_context.cpp')],[],['definition, references responses'])
p('C16','Physical lines form the right logical statements',
 'Continuation columns (72/16), sequence-number columns, remarks, line ends and ICTL-free defaults are honoured for every record: each logical statement consists of exactly the text HLASM joins, in the standard and the alternative operand formats. AREAD consumes exactly the next record and AINSERT records are read back in queue order before the following source.',
 ['inputs','programs'],'every sequence of records of any length with any continuation characters, and any mix of AREAD and AINSERT',
 'Tests use single hand-formatted statements.',
 ['parser_library/src/lexing/lexer.cpp','parser_library/src/parsing/parser_impl.cpp','parser_library/src/parsing/error_strategy.h','parser_library/src/processing/instruction_sets/asm_processor.cpp'],
 [('lexer continuation handling','parser_library/src/lexing/lexer.cpp'),('opencode_provider::aread/ainsert','parser_library/src/parsing/parser_impl.cpp')],[],['final variable-symbol values'])
p('C17','Data definitions have the HLASM length, alignment and attributes',
 'Every DC/DS operand occupies the number of bytes HLASM prescribes for its duplication factor, type, extension, modifiers and nominal values, is aligned as its type requires unless an explicit length is given, and its label has the corresponding length, type, scale and integer attributes, whether asked before or after the definition and whether its modifiers are defined before or after; lists of operands are laid out consecutively, and an operand HLASM does not accept (type, modifier range, nominal value) is reported on its statement.',
 ['inputs'],'every combination of type, duplication factor, length modifier (bytes and bits) and nominal values',
 'Each type is tested with a few values.',
 ['parser_library/src/checking/data_definition/*','parser_library/src/expressions/data_definition.cpp'],
 [('data_def_type::get_length/get_alignment','parser_library/src/checking/data_definition/data_def_type_base.cpp')],[],['label addresses and L\' attributes'])
p('C18','Machine instructions have their length and accept exactly their operands',
 'Every machine instruction and extended mnemonic is placed on a halfword boundary and occupies the 2, 4 or 6 bytes of its format, and its label has type I and that length. Its operand list is accepted exactly when it has an admissible number of operands (an extended mnemonic: without those it fixes) and each of them has the form of its format (register, mask, immediate, relative, vector register, D(B), D(X,B), D(L,B)) and lies in its range; every operand that does not is reported on the statement, nothing else is, and it makes no difference whether its symbols are defined before or after.',
 ['inputs','programs'],'every mnemonic with every list of operands of any form and value',
 'Each format is tested with a few instructions.',
 [C+'instruction.cpp',C+'instruction.h','parser_library/src/checking/instr_operand.cpp',PR+'instruction_sets/mach_processor.cpp',PR+'instruction_sets/low_language_processor.cpp'],
 [('machine_instruction::check',C+'instruction.cpp'),('address_operand::check','parser_library/src/checking/instr_operand.cpp'),('transform_mnemonic',PR+'instruction_sets/low_language_processor.cpp')],[],['diagnostics, label addresses and attributes'])
p('C19','Diagnostics point at the statement that caused them and at how it was reached',
 'A diagnostic of conditional assembly, macro processing, symbol definition, operation codes or instruction operands (also one found only when later symbols are known) names the file and a line of the (possibly continued) statement that caused it, and its related locations are exactly the COPY and macro call statements active at that moment, innermost first and ending in the open code of the program; that also holds inside COPY members, macros, library macros and COPY members of macros nested in any order, for limits (nesting, ACTR) and for statements of open code that are passed over by a lookahead, whoever started it. No statement that executes in error lacks such a diagnostic and no diagnostic points anywhere else.',
 ['inputs','programs'],'every program and every chain of calls and members leading to an error',
 'Tests count diagnostics and look at codes; few look at the line, almost none at the related locations.',
 ['parser_library/src/diagnosable_ctx.h',C+'hlasm_context.cpp',PR+'processing_manager.cpp',PR+'statement_processors/ordinary_processor.cpp'],
 [('hlasm_context::processing_stack',C+'hlasm_context.cpp'),('diagnosable_ctx::add_diagnostic_inner','parser_library/src/diagnosable_ctx.h')],[],['diagnostics with file, line and related locations'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
