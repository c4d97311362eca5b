NOTES = ('All checks are static analyses of the sources in /repo (override with VERIF_REPO): clang 18 compiles each file to LLVM IR, '
         'engine/irx extracts it, and the rules in rules/ decide every obligation; nothing of the library is executed.  Undecided '
         'obligations raise no alarm and are counted in the evidence.')
IR = 'Trusts clang\'s front end and its mem2reg/inlining passes; analyses the NDEBUG build.  '
PROPS = []
def P(**k):
    PROPS.append(k)

P(id='A01', title='Every AST type is registered once and type tests follow the documented hierarchy',
  statement='Every node type declared in the public header has a distinct type value, a type name, and a node of that type reports exactly '
            'that type. A node is an instance of its own type and of exactly the ancestor types the hierarchy gives it, and of no other type. '
            'Nodes built by a constructor report the type of that constructor.',
  over=['inputs', 'programs'], quant='all node types, and all pairs of a node type and a tested type',
  why='The tests look at the types of the nodes a few sample queries produce; there are about 120 types and 14 000 pairs of types, and no '
      'test asks about types that the queries do not reach or about an is-a relation that must not hold.',
  files=['lib/src/ast.c', 'lib/src/astnode.h', 'lib/src/cypher-parser.h.in', 'lib/src/ast_*.c'],
  mechanism=[('type table', 'lib/src/ast.c'), ('virtual tables with parent types', 'lib/src/ast_*.c'), ('cypher_astnode_instanceof', 'lib/src/ast.c')],
  observe=['cypher_astnode_type', 'cypher_astnode_typestr', 'cypher_astnode_instanceof'],
  technique='constant-data analysis of the type and virtual tables in LLVM IR, path analysis of the lookup functions',
  note=IR + 'Decides the tables completely; the lookup functions are decided by path enumeration over their (small) bodies.')

P(id='A02', title='Constructors accept exactly the children their node type allows',
  statement='Creating an AST node succeeds only if every required child is given and every child given is a node of the kind the node type allows and '
            'is contained in the list of children; otherwise it fails with EINVAL and no node. A list argument is validated element by element, '
            'over its whole length, and valid arguments are not rejected.',
  over=['inputs', 'programs'], quant='every constructor, every argument of it, every element of every list argument',
  why='The unit tests construct nodes through the grammar, which passes valid arguments; the guards on about 110 constructors are never '
      'exercised with bad arguments, nor with bad elements at every list position.',
  files=['lib/src/ast_*.c', 'lib/src/astnode.h', 'lib/src/util.h'],
  mechanism=[('REQUIRE, REQUIRE_TYPE, REQUIRE_CONTAINS', 'lib/src/util.h, lib/src/astnode.h'), ('constructors', 'lib/src/ast_*.c')],
  observe=['cypher_ast_* constructors', 'errno'],
  technique='path-sensitive guard analysis of every constructor in LLVM IR against a table of node types',
  note=IR + 'Paths are enumerated once around each loop with affine loop facts; the expected types per argument are the table in spec/ast.json.')

P(id='A03', title='Accessors return exactly what the constructor was given',
  statement='For every node type, each accessor returns the child, list element, list length, flag, operator or text the node was constructed with; '
            'list accessors return element i for every i within the length and NULL outside it. Optional values that were not given read '
            'as absent.',
  over=['inputs', 'programs'], quant='every accessor of every node type, all constructor arguments, all indices',
  why='Tests read back a few accessors on nodes made from sample queries, where neighbouring fields are often NULL or equal, so a swapped or '
      'shifted field or an off-by-one on a list bound goes unnoticed.',
  files=['lib/src/ast_*.c'],
  mechanism=[('node structures', 'lib/src/ast_*.c'), ('accessor functions', 'lib/src/ast_*.c')],
  observe=['cypher_ast_*_get_*', 'cypher_ast_*_n*', 'cypher_ast_*_is_* / has_*'],
  technique='store/load place matching between constructor and accessor in LLVM IR (affine offsets)',
  note=IR + 'Places are matched by byte offset from the node, so field names and layout are free to change.')

P(id='A04', title='Accessors reject nodes of the wrong type',
  statement='Every accessor given a node that is not an instance of its node type (or NULL) fails with EINVAL and its failure value and reads '
            'nothing of the node\'s private contents. An accessor given a node of its type never fails that way.',
  over=['inputs', 'programs'], quant='every accessor and every type of the node passed',
  why='Every test passes a node of the right type; a missing or wrong guard makes no difference to them.',
  files=['lib/src/ast_*.c', 'lib/src/astnode.h'],
  mechanism=[('REQUIRE_TYPE at the head of each accessor', 'lib/src/ast_*.c')],
  observe=['return value and errno of every accessor'],
  technique='path-sensitive guard-dominates-access analysis in LLVM IR',
  note=IR)

P(id='A05', title='Cloning an AST reproduces every node, child and attribute',
  statement='A clone of an AST has, for every node, the same type, the same number of children in the same order, and every accessor of the clone '
            'yields the clone of the child, or a copy of the value, that the accessor of the original yields; absent parts stay absent. '
            'The clone shares no memory with the original, and cloning fails only for lack of memory.',
  over=['inputs', 'programs'], quant='every node type, all combinations of present and absent parts, lists of every length',
  why='There is one clone test of one query; about 110 clone functions and their optional parts are otherwise never run.',
  files=['lib/src/ast.c', 'lib/src/ast_*.c', 'lib/src/astnode.h'],
  mechanism=[('clone functions of the virtual tables', 'lib/src/ast_*.c'), ('cypher_ast_clone', 'lib/src/ast.c'), ('child_index', 'lib/src/astnode.h')],
  observe=['cypher_ast_clone', 'accessors of the clone'],
  technique='path-sensitive value-flow from source fields through clone_child to constructor arguments in LLVM IR',
  note=IR + 'Positions, ordinals and annotations are outside this property. List loops are followed once around.')

P(id='A06', title='Freeing an AST releases each of its nodes and their memory exactly once',
  statement='Freeing an AST releases the node, all of its descendants, everything each node owns and every annotation attached to them, each exactly once; '
            'freeing a single node leaves its children alone. Freeing NULL does nothing, and nothing that is not part of the AST is released.',
  over=['inputs', 'programs'], quant='every node type, every path of its release function, all trees',
  why='The tests free ASTs but do not run under a leak or double-free detector, and reach only some of the node types.',
  files=['lib/src/ast.c', 'lib/src/ast_*.c', 'lib/src/astnode.h', 'lib/src/annotation.c'],
  mechanism=[('release functions of the virtual tables', 'lib/src/ast_*.c'), ('cypher_ast_free, cypher_ast_vfree, cypher_astnode_release', 'lib/src/ast.c')],
  observe=['cypher_ast_free', 'cypher_astnode_free', 'heap balance'],
  technique='ownership analysis: memory stored by each constructor against memory freed on every path of the release function, in LLVM IR',
  note=IR)

P(id='A07', title='Detail strings and AST printing are complete and stay within their buffer',
  statement='Printing the detail string of a node never writes outside the buffer given, whatever its size, and returns the length of the full text '
            'independently of that size. The text names every child the node has by its ordinal, under its own name, omits absent ones, and printing an AST prints every node, '
            'regrowing its buffer as needed.',
  over=['inputs', 'programs'], quant='every node type, every buffer size including 0, all combinations of present and absent children, lists of every length',
  why='The tests print to one large buffer and never to one that is too small; the bounds, the returned length and the regrowth do not matter to them.',
  files=['lib/src/ast.c', 'lib/src/ast_*.c', 'lib/src/util.c'],
  mechanism=[('detailstr functions of the virtual tables', 'lib/src/ast_*.c'), ('snprint_sequence, cypher_astnode_detailstr_realloc, _cypher_ast_fprint', 'lib/src/ast.c'), ('snprintf_realloc', 'lib/src/util.c')],
  observe=['cypher_astnode_detailstr', 'cypher_ast_fprint'],
  technique='symbolic-offset (linear form) dataflow over every path of each detail string function in LLVM IR',
  note=IR + 'Widths returned by snprintf are unknown non-negative quantities. The wording of the text is not judged.')

P(id='F01', title='Printing an AST prints every node once, in order, with its details',
  statement='cypher_ast_fprint and cypher_ast_fprintv (and the printing of a segment or a result) print every node of the ASTs given once, parents before children and children in order, '
            'as one entry of its ordinal, its start and end offset, one "> " for each level, its type and its detail string, with the special characters of the detail escaped. '
            'The columns are as wide as their widest value, details are wrapped only where a width is given, each colour is switched off again, NULL colours mean none, and '
            'the result is negative when a write or an allocation fails and 0 otherwise.',
  over=['inputs', 'programs', 'fault_sequences'], quant='every AST or list of ASTs, every width, every colorization, every failing write or allocation',
  why='The tests do not print to a stream that fails, compare few and small trees, and use neither widths that wrap nor characters that need escapes.',
  files=['lib/src/ast.c', 'lib/src/result.c', 'lib/src/segment.c', 'lib/src/util.c'],
  mechanism=[('_cypher_ast_fprint, ast_fprint_detail, ast_fprint_field_widths, decimal_width', 'lib/src/ast.c'), ('cypher_parse_result_fprint_ast', 'lib/src/result.c'), ('cypher_parse_segment_fprint_ast', 'lib/src/segment.c')],
  observe=['cypher_ast_fprint', 'cypher_ast_fprintv', 'cypher_parse_result_fprint_ast', 'cypher_parse_segment_fprint_ast'],
  technique='dataflow: the sequence of output tokens of every path of the printing functions (format strings parsed, loops as repetitions with their counts) against the entry that is due, and a must-check analysis of every failure, in LLVM IR',
  note=IR + 'That the detail string itself is right is A07; that snprintf_realloc keeps its buffer is A07 and M03.')

P(id='W01', title='cypher-lint reports every error and succeeds only when there are none',
  statement='cypher-lint exits with status 0 exactly when every input named on the command line (standard input for - or when none is named) was opened and parsed without a parse error and '
            'without a failure to read or to print, or when only --help or --version was asked for; unknown options are failures. '
            'Every parse error of every input is written to standard error as file:line:column: message, followed by its context and a marker below its offset. '
            'The options do what the usage text says and nothing else, and the AST is dumped to standard output only with --ast, with the width and colours asked for.',
  over=['inputs', 'programs', 'fault_sequences'], quant='every command line, every number of inputs with any number of errors each, every failing call',
  why='No test runs the linter: its exit status and messages, which scripts and editors rely on, are not tested at all.',
  files=['linter/src/cypher-lint.c'],
  mechanism=[('main, longopts, shortopts', 'linter/src/cypher-lint.c'), ('process, process_streamed, process_all, parse_callback', 'linter/src/cypher-lint.c'), ('print_error', 'linter/src/cypher-lint.c')],
  observe=['cypher-lint: exit status, standard output, standard error'],
  technique='dataflow: every path of the linter in LLVM IR, what each option changes, which results reach the exit status (also through the loops over inputs and errors), and the text written for an error, against the usage text',
  note=IR + 'That the library finds the errors and places them right is E01, P01 and R01.')

P(id='A08', title='Annotations are found, replaced, removed and released consistently',
  statement='An annotation attached to a node under a context is found under exactly that node and context until it is replaced, removed, or the node or context is freed; '
            'attaching again replaces the data and reports the previous data. The release handler of the context is called exactly once with the node and data '
            'when the node or the context is freed, and never for a removed annotation.',
  over=['histories', 'inputs', 'fault_sequences'], quant='all histories of attach, remove, get and free on any nodes and contexts',
  why='The tests attach at most a few annotations; the links of both lists matter only when annotations are removed from the middle, or nodes and contexts are freed in different orders.',
  files=['lib/src/annotation.c', 'lib/src/annotation.h', 'lib/src/ast.c'],
  mechanism=[('doubly linked lists per node and per context', 'lib/src/annotation.c')],
  observe=['cypher_astnode_attach_annotation', 'cypher_astnode_get_annotation', 'cypher_astnode_remove_annotation', 'cypher_ast_annotation_context_free', 'release handler'],
  technique='value-numbered effect summaries of every path checked against the doubly-linked-list invariant (inductive step), in LLVM IR',
  note=IR + 'The list invariant is assumed on entry and shown to be kept by each operation.')

P(id='M01', title='No path through a function abandons memory it allocated',
  statement='Whenever an operation of the library or the linter returns, successfully or not, all memory it allocated has been released or is '
            'owned by an object that is still reachable and will be released with it. This holds on every failure path, in particular when a later '
            'allocation fails.',
  over=['fault_sequences', 'inputs'], quant='every allocation, every path from it to a return of the function, every failing later step',
  why='The test-suite never injects an allocation failure, so none of the cleanup code runs.',
  files=['lib/src/*.c', 'linter/src/cypher-lint.c'],
  mechanism=[('cleanup labels in every function', 'lib/src/*.c'), ('vector, string buffer, block ownership', 'lib/src/parser.c, lib/src/vector.c')],
  observe=['heap balance at return'],
  technique='ownership typestate over all acyclic paths of each function in LLVM IR, with computed callee summaries',
  note=IR + 'Memory stored into another object or passed to an indirect call is taken to be owned by it.')

P(id='M02', title='No allocation result is used before it was found not to be NULL',
  statement='When the system refuses memory the library reports failure and continues to be usable: the result of an allocation, '
            'its own or a library function\'s, is never dereferenced, nor handed to code that dereferences it, on a path where it may be NULL.',
  over=['fault_sequences', 'inputs'], quant='every allocation and every use of its result on every path',
  why='The tests never make an allocation fail.',
  files=['lib/src/*.c', 'linter/src/cypher-lint.c'],
  mechanism=[('NULL check after every allocation', 'lib/src/*.c')],
  observe=['absence of a NULL dereference'],
  technique='NULL-check typestate over all acyclic paths of each function in LLVM IR, with callee summaries',
  note=IR)

P(id='M03', title='No memory is released twice or used after its release',
  statement='On every path, including every failure path, each piece of memory is released at most once and is not read, written or passed on after '
            'it was released.',
  over=['fault_sequences', 'inputs'], quant='every release, every later use on every path of the same function or through its callees',
  why='Cleanup code that would release twice runs only after failures that the tests never provoke.',
  files=['lib/src/*.c', 'linter/src/cypher-lint.c'],
  mechanism=[('release calls in cleanup code', 'lib/src/*.c')],
  observe=['heap consistency'],
  technique='release typestate over all acyclic paths of each function in LLVM IR, with callee summaries',
  note=IR + 'Aliases are followed through direct copies and known fields, not through arbitrary memory.')

P(id='M04', title='Everything written stays within the memory allocated for it',
  statement='Whatever the library writes - nodes with their lists and texts, clones, segments, results, lists that grow, messages, detail strings - lies within the memory allocated for it, '
            'however many elements or characters there are; nothing is copied from beyond the end of it either. Memory that is enlarged holds what is put into it next.',
  over=['inputs'], quant='every allocation, every local array and every write to it on every path, for all lengths',
  why='An allocation short by one byte or element is hidden by the rounding of the allocator, for every length a test happens to use.',
  files=['lib/src/*.c', 'linter/src/cypher-lint.c'],
  mechanism=[('allocations and writes', 'lib/src/ast_*.c'), ('lists and texts that grow', 'lib/src/vector.c'), ('message buffer', 'lib/src/errors.c')],
  observe=['heap consistency'],
  technique='linear size arithmetic over path effects in LLVM IR: size allocated against the extent of every write, with bounds of loop counters from the exit tests of their loops',
  note=IR + 'Sizes are computed without overflow; generated code of the parser generator is left out.')

GR = ('Trusts the leg parser generator: the actions of the elements that matched run in order and those of failed alternatives are dropped.  The effect of the '
      'action functions is read from their LLVM IR; the vector, string buffer and allocation primitives are taken by contract.  ')
P(id='G01', title='Every node the parser builds is complete and well-typed',
  statement='Whatever input is parsed, each AST node the parser creates is given operands that its node type allows: required operands are present, every operand and list element is '
            'of an allowed type and is one of the node\'s children, and text is exactly that collected for the node. Hence parsing never aborts or fails with EINVAL because of a malformed node.',
  over=['inputs', 'programs'], quant='every production of the grammar, every order in which its elements can match, every node construction reached',
  why='The tests parse a few hundred queries; combinations of optional parts, comments between tokens and nesting are unbounded, and one bad combination aborts the process.',
  files=['lib/src/parser.leg', 'lib/src/parser.c', 'lib/src/ast_*.c'],
  mechanism=[('grammar actions', 'lib/src/parser.leg'), ('action functions', 'lib/src/parser.c'), ('block and sequence accumulators', 'lib/src/parser.c')],
  observe=['types, children and operands of the nodes of every parsed AST', 'no abort while parsing'],
  technique='abstract interpretation of the grammar and of the IR of its action functions (blocks, sequences, rule variables, node types), rule summaries to a fixpoint',
  note=GR)

P(id='G02', title='Nothing that is parsed is lost, duplicated or reordered in the AST',
  statement='Every operand, list element, operator and comment recognised in the input ends up in the AST exactly once, as a child of the node whose source range encloses it, and operands and list elements keep '
            'their source order. After a complete parse no block, node or operator is left over in the parser.',
  over=['inputs', 'programs', 'histories'], quant='every production, every order in which its elements can match, every state of the block, sequence and operator stacks',
  why='Dropped comments or operands and unbalanced stacks only show for particular combinations of optional parts that no test contains.',
  files=['lib/src/parser.leg', 'lib/src/parser.c'],
  mechanism=[('blocks opened and closed by < > and _block_..._', 'lib/src/parser.leg'), ('sequence_add, op_push, op_pop', 'lib/src/parser.c')],
  observe=['children of every node', 'order of list operands', 'roots of a parse result'],
  technique='abstract interpretation of the grammar and of the IR of its action functions: ownership and order of every node on all derivations',
  note=GR)

P(id='G03', title='Node types, flags and operand roles follow the keywords in the source',
  statement='The type of a node is the one its keywords stand for; each flag of a node is true exactly when its keyword (DISTINCT, OPTIONAL, UNIQUE, DETACH, ALL, WITH HEADERS, DESC, *) was given; the direction of a relationship follows its arrow heads; '
            'and an operand introduced by a keyword (WHERE, SKIP, LIMIT, ELSE, AS, FROM, IN, |) is the operand of that role.',
  over=['inputs', 'programs'], quant='every production, every combination of its optional keywords and operands',
  why='Tests cover a few combinations; swapped optional operands or a wrong flag in one of several alternatives go unnoticed.',
  files=['lib/src/parser.leg', 'lib/src/parser.c'],
  mechanism=[('grammar actions', 'lib/src/parser.leg'), ('action functions', 'lib/src/parser.c')],
  observe=['node types, flags and optional operands of parsed ASTs'],
  technique='abstract interpretation of the grammar and of the IR of its action functions, tracking the keywords of each block and before each operand, against spec/syntax.txt',
  note=GR)

P(id='G04', title='Operators bind and group by their precedence, whatever surrounds them',
  statement='In every parsed expression operators bind, tightest first: property and label; subscript and map projection; =~, IN, STARTS WITH, ENDS WITH, CONTAINS, IS NULL and IS NOT NULL; '
            'unary + and -; ^; * / %; + -; < > <= >=; = <>; NOT; AND; XOR; OR; operators of one level group to the left, except ^ which groups to the right, and consecutive < > <= >= form one comparison. '
            'Each operator node carries the operator that was written, and an expression within delimiters is unaffected by the operators outside.',
  over=['inputs', 'programs'], quant='all operators, all pairs of adjacent operators, at every nesting depth and in every context of an expression',
  why='Grouping is decided by predicates that keep a stack of strengths during backtracking; tests try few of the about 800 pairs of operators and hardly any nesting.',
  files=['lib/src/operators.c', 'lib/src/parser.leg', 'lib/src/parser.c'],
  mechanism=[('operator table', 'lib/src/operators.c'), ('OP, PREC_CHK, PREC_PUSH, PREC_POP', 'lib/src/parser.c'), ('precedence climbing rules', 'lib/src/parser.leg')],
  observe=['shape of parsed expressions', 'cypher_ast_*_operator_get_operator'],
  technique='evaluation of the compiled predicates for every operator, and a dataflow of operator and strength stack over all paths of the grammar, against spec/operators.txt',
  note=GR + 'The order of the operators is the one in spec/operators.txt.  NOT is also accepted between two operands, as on the original tree.')

PE = ('Rules are read as parsing expressions with ordered choice and greedy repetition, as leg implements them; the effect of the action functions is read from their LLVM IR.  ')
P(id='G05', title='Parsing terminates on every input',
  statement='Every parse of a finite input returns, whatever the input holds and wherever it ends: neither the parser nor the quick parser repeats or re-enters a rule without consuming input, not even at the end of the input, '
            'and a further segment is parsed only if the last one consumed something or the end of the input was not reached. '
            'No loop of the library can go round without changing anything that decides whether it goes on.',
  over=['inputs', 'programs'], quant='every rule and repetition of both grammars at every place of every input; every round of every loop',
  why='A repetition that matches nothing hangs only on the few inputs that reach it, often a malformed or truncated one that no test contains.',
  files=['lib/src/parser.leg', 'lib/src/quick_parser.leg', 'lib/src/parser.c', 'lib/src/quick_parser.c', 'lib/src/errors.c', 'lib/src/vector.c'],
  mechanism=[('directive, statement, error recovery', 'lib/src/parser.leg'), ('rounds of a parse', 'lib/src/parser.c'), ('directive, statement', 'lib/src/quick_parser.leg')],
  observe=['cypher_parse, cypher_uparse_each, cypher_fparse_each, cypher_quick_parse and all others return'],
  technique='least fixpoint over both grammars of what each expression may do before and at the end of the input (match nothing, consume, fail), and path effects of every loop',
  note=PE + 'How long a parse takes is not bounded: the grammar backtracks without memory, so the time may grow exponentially with the depth of nesting.')

P(id='L01', title='Names, literals and comments match and yield exactly the right text',
  statement='Identifiers, labels, types, property, function and procedure names, parameters, string and number literals, true, false, null, white space and comments '
            'extend exactly as far as the language defines. The value of their node is exactly their text with quotes or backquotes removed, escape sequences replaced, and nothing else changed; '
            'its range covers exactly the text of the terminal.',
  over=['inputs'], quant='every input string at which a terminal is tried: equality over all strings',
  why='Equality over all strings, with every mix of escapes, quotes and newlines, cannot be sampled.',
  files=['lib/src/parser.leg', 'lib/src/parser.c'],
  mechanism=[('terminal rules', 'lib/src/parser.leg'), ('strbuf_append, strbuf_append_block', 'lib/src/parser.c')],
  observe=['cypher_ast_*_get_name, get_value, get_valuestr', 'cypher_astnode_range of terminals'],
  technique='exact equivalence of parsing expressions (automata over derivatives with look-ahead) between the rules of parser.leg and spec/lexical.leg',
  note=PE)

P(id='L02', title='Keywords ignore case, end at word boundaries, and may be spaced out',
  statement='Every keyword of the language is recognised in upper, lower and mixed case and only where it is not followed by another letter, digit, _ or $; keywords of several words and signs may be '
            'separated by any white space and comments, and nothing else is recognised in their place.',
  over=['inputs'], quant='every keyword rule, over all input strings', why='There are over a hundred keyword rules spelled letter by letter; tests use one spelling of each.',
  files=['lib/src/parser.leg'], mechanism=[('keyword rules', 'lib/src/parser.leg')], observe=['acceptance and node types of parsed queries'],
  technique='exact equivalence of parsing expressions between the keyword rules of parser.leg and spec/keywords.txt', note=PE)

P(id='L03', title='Every newline read by the parser starts a new line, and nothing else does',
  statement='Wherever the parser consumes a newline (in white space, comments, strings, backquoted names, commands, and while it recovers from an error), the character after it is registered as the start of a line; '
            'no other position is. Hence line and column of every position reported are those of the input.',
  over=['inputs', 'histories'], quant='every rule that can consume a newline, on every input', why='A newline inside one kind of token, or skipped in error recovery, shifts all later positions; few such inputs are tested.',
  files=['lib/src/parser.leg', 'lib/src/parser.c'], mechanism=[('EOL and _line_start_', 'lib/src/parser.leg'), ('line_start, backtrack_lines, input_position', 'lib/src/parser.c')],
  observe=['line and column of node ranges and errors'],
  technique='automata over the rules of parser.leg: each newline matched is followed at once by the report of a line start, and each report follows a newline', note=PE)

P(id='T01', title='The library keeps no state between calls and leaves constant inputs alone',
  statement='No call into the library changes data shared between calls: it has no writable global or static data, uses no C library function with hidden shared state, and never modifies the configuration, colorization or AST it is '
            'only given to read. So different threads may use different parsers, results and ASTs at the same time, or read the same AST, without interfering with each other.',
  over=['schedules', 'histories', 'programs'], quant='every function of the library, every global object, every schedule of calls from several threads',
  why='A cached value or static buffer gives right answers in every single threaded test; a race cannot be provoked reliably.',
  files=['lib/src/*.c', 'lib/src/parser.leg', 'lib/src/quick_parser.leg'],
  mechanism=[('all state lives in objects owned by the caller', 'lib/src/*.c'), ('const parameters of the public interface', 'lib/src/cypher-parser.h.in')],
  observe=['any two concurrent calls on different objects'],
  technique='effect analysis in LLVM IR: roots of every written address, mutable globals and calls of stateful libc functions, over all functions',
  note=IR + 'Annotations attached to a node through a const pointer are the one documented exception.')

P(id='I01', title='The public interface is complete and nothing else is exported',
  statement='Every function and constant the public header declares is defined in the library and visible to programs that link with it; no internal function or object of the library is visible.',
  over=['programs'], quant='every declaration of the public header, every external symbol of the library',
  why='A test links only what it calls, and gets internal symbols from the static library.',
  files=['lib/src/cypher-parser.h.in', 'lib/src/*.c'],
  mechanism=[('declarations of the public header', 'lib/src/cypher-parser.h.in'), ('visibility pragma of the public header', 'lib/src/cypher-parser.h.in')],
  observe=['link of a program using any public function', 'symbol table of the shared library'],
  technique='comparison of the declarations of the header (clang AST) with linkage and visibility of all definitions in LLVM IR',
  note=IR)

P(id='S01', title='Each segment is delivered once, in order, until end or stop',
  statement='cypher_uparse_each and cypher_fparse_each call the callback exactly once per segment, in input order: ordinals and range of each segment continue where those of the previous one ended, starting from the configuration, and it '
            'holds the errors, root nodes, directive and end of input mark of its own part only. A positive return value ends the parse successfully, a negative one is returned, 0 continues until the end of the input, or after one segment '
            'with CYPHER_PARSE_SINGLE; `last`, if given, is set to the position after the last segment. cypher_uparse and cypher_fparse merge the same segments into the result and return NULL only on failure, and nothing is kept or leaked.',
  over=['inputs', 'histories'], quant='every sequence of segments, every value of flags, configuration and callback result, every failing allocation',
  why='The loop carries position, ordinal, errors, nodes and line starts from one segment to the next; tests use a few short inputs and never fail an allocation.',
  files=['lib/src/parser.c', 'lib/src/segment.c'],
  mechanism=[('cypher_uparse_each, cypher_fparse_each, parse_each, parse_one', 'lib/src/parser.c'), ('cypher_uparse, cypher_fparse', 'lib/src/parser.c'), ('cypher_parse_segment', 'lib/src/segment.c')],
  observe=['segments passed to the callback', 'return value of the parse functions', 'last position'],
  technique='path-sensitive effect summaries of the parse loop (LLVM IR): one inductive step per round, over all paths, with havoc of what callees may write',
  note=IR)

P(id='R01', title='Segments and results hold and return exactly what was parsed',
  statement='A parse segment holds copies of all errors, root nodes, directive, range and end of input mark of its part, and numbers its nodes consecutively from its ordinal; retain and release count references, and the last release frees everything it owns exactly once. '
            'Merging a segment appends its errors, roots and directive in order to those of the result, adds its nodes, and marks the end of input if the segment that has it holds a directive or errors. '
            'Every getter of segments, results and errors returns the named member, or NULL for an index beyond the end.',
  over=['inputs', 'histories'], quant='all sizes and contents of segments and results, all sequences of merges, every failing allocation',
  why='Sizes, growth of arrays and failing allocations in the middle of a merge are never reached by tests.',
  files=['lib/src/segment.c', 'lib/src/result.c', 'lib/src/errors.c'],
  mechanism=[('cypher_parse_segment and its getters', 'lib/src/segment.c'), ('cp_result_merge_segment, cypher_parse_result_free', 'lib/src/result.c'), ('cp_errors_vcleanup and getters of errors', 'lib/src/errors.c')],
  observe=['cypher_parse_segment_*', 'cypher_parse_result_*', 'cypher_parse_error_*'],
  technique='path-sensitive effect summaries in LLVM IR: on every path the final memory is compared with the initial memory and the arguments; loops by scalar evolution',
  note=IR)

P(id='P01', title='Line, column and offset of nodes, segments and errors are exact',
  statement='Every position the parser reports (start and end of the ranges of nodes and segments, positions of errors) has the line, column and offset of that place in the input: they count from the initial position of the configuration, columns of further lines from 1, and continue from one segment to the next. '
            'The range of a node starts and ends where its text does, that of a node that extends another starts where the other does, and children are handed to the enclosing node in order. '
            'An error names the character at its position, or the end of the input.',
  over=['inputs'], quant='all inputs, initial positions, backtracking over lines, segment lengths',
  why='Positions depend on which lines a backtracking parse has seen; tests check ranges of short, mostly single-line inputs.',
  files=['lib/src/parser.c', 'lib/src/vector.h'],
  mechanism=[('input_position, line_start, backtrack_lines', 'lib/src/parser.c'), ('block_start, block_end, block_replace, block_merge', 'lib/src/parser.c'), ('_err, finished', 'lib/src/parser.c')],
  observe=['cypher_astnode_range', 'cypher_parse_segment_get_range', 'cypher_parse_error_position', 'cypher_parse_error_context_offset'],
  technique='path-sensitive effect summaries in LLVM IR of the functions that record line starts, compute positions and open and close blocks; inductive step for their loops',
  note=IR)
P(id='P02', title='Every error carries the text of its line around it, and its place in that',
  statement='Every error of a parse has a context: the text of the input around the position of the error, without a gap, up to the ends of its line (line feed, carriage return, or the end of what has been read of the input) as far as there is room for it. '
            'It is marked with "..." at an end where the room was used up before the end of the line was seen there, and only there, is otherwise unchanged, and is no shorter than room and line permit. '
            'The offset told with it is that of the error, counted from its first character.',
  over=['inputs'], quant='all inputs, lengths of lines, kinds of line ends, positions and numbers of errors',
  why='The excerpt depends on the line, its length, how it ends and where the error is in it; tests look at a few short lines.',
  files=['lib/src/util.c', 'lib/src/parser.c'],
  mechanism=[('line_context', 'lib/src/util.c'), ('finished', 'lib/src/parser.c')],
  observe=['cypher_parse_error_context', 'cypher_parse_error_context_offset'],
  technique='path-sensitive effect summaries in LLVM IR of the function that makes the excerpt, with an inductive step over its loop (each end moves by one, only while not at an end of the line) and of the loop over the errors',
  note=IR)
P(id='E01', title='Errors are recorded once, at the furthest place, naming what was expected',
  statement='A syntax error is recorded at the furthest place the parser reached after the error before, as one error following those recorded earlier; nothing noted before that place, or at or before the last error, appears in it. '
            'Its message is "Invalid input", the character found there (special characters as escape sequence, the end as "at end of input"), and every alternative noted there exactly once, in order, separated by commas and "or", in the configured colours. '
            'The label of a missing word or sign is its spelling, and the message always fits the memory allocated for it.',
  over=['inputs'], quant='all sequences of expectations noted and errors recorded, all characters, number and length of labels',
  why='Which expectations survive depends on the order in which a backtracking parse notes them; tests look at a few messages.',
  files=['lib/src/errors.c', 'lib/src/errors.h', 'lib/src/parser.leg'],
  mechanism=[('cp_et_note_potential_error', 'lib/src/errors.c'), ('cp_et_reify_potentials, error_report, chardesc', 'lib/src/errors.c'), ('error actions ~{ERR(..)}', 'lib/src/parser.leg')],
  observe=['cypher_parse_error_position', 'cypher_parse_error_message'],
  technique='path-sensitive effect summaries in LLVM IR with inductive step for the search and the loops that write the message; spelling of labels compared with the grammar',
  note=IR)

P(id='N01', title='Input reaches the parser completely, in order and unchanged',
  statement='The text parsed is exactly the text given: from memory every byte of the string or of the given length, whatever its size, from a stream every byte up to the end of the stream, in order, each once, however it is divided into reads. '
            'A failing read or allocation ends the parse with a failure and the errno of the cause, and is never taken for the end of the input. '
            'A parse that stops early or fails leaves nothing allocated.',
  over=['inputs', 'faults'], quant='all sizes of input, all sequences of read results, every failing read or allocation',
  why='Tests parse short strings in a single read; sizes beyond one buffer, beyond INT_MAX and read errors are never reached.',
  files=['lib/src/parser.c', 'lib/src/quick_parser.c', 'lib/src/parser.leg', 'lib/src/quick_parser.leg'],
  mechanism=[('source_from_buffer, source_from_stream', 'lib/src/parser.c'), ('YY_INPUT, safe_yyparsefrom, abort_parse', 'lib/src/parser.c'), ('cypher_quick_fparse, cypher_quick_uparse', 'lib/src/quick_parser.c')],
  observe=['cypher_uparse_each', 'cypher_fparse_each', 'cypher_quick_uparse', 'cypher_quick_fparse'],
  technique='path-sensitive effect summaries in LLVM IR of the input sources and of the code that pulls from them, on all paths and for all sizes',
  note=IR)

P(id='V01', title='Lists and texts keep everything put into them, however long',
  statement='However many elements a list in a query has and however long a text is, the parser keeps all of them, in order and unchanged, within the memory allocated: growing keeps what is there, taking the last off yields the last put in. '
            'Running out of memory is reported as failure and leaves the list or text as before.',
  over=['inputs', 'histories'], quant='all numbers of elements and lengths of text, all sequences of additions and removals, every failing allocation',
  why='Growth happens at sizes tests rarely reach, and a fault shows only for elements around the boundary.',
  files=['lib/src/vector.h', 'lib/src/string_buffer.h', 'lib/src/vector.c', 'lib/src/string_buffer.c', 'lib/src/parser.c'],
  mechanism=[('cp_vector_push, cp_vector_pop, cp_vector_reserve', 'lib/src/vector.c'), ('cp_sb_append', 'lib/src/string_buffer.c'), ('_sequence_add, _sbuf_add', 'lib/src/parser.c')],
  observe=['cypher_astnode_nchildren', 'cypher_astnode_get_child', 'cypher_ast_string_get_value'],
  technique='path-sensitive effect summaries in LLVM IR of the containers and of every function that fills them: final memory against initial memory, on all paths',
  note=IR)

P(id='C01', title='New configurations have the defaults and each setter changes just its setting',
  statement='A new parser configuration starts at line 1, column 1, offset 0 and ordinal 0, without colours; setting the initial position, ordinal or colours changes that and nothing else. '
            'No-colour output adds nothing to the text and the ANSI colours are switched off by the sequence that follows each. '
            'The functions for strings, cypher_parse, cypher_parse_each and cypher_quick_parse, parse the whole string with the arguments given.',
  over=['inputs', 'histories'], quant='all values of settings, all orders of setters, all strings and flags',
  why='Tests set one value on one configuration and look at its direct effect only.',
  files=['lib/src/parser_config.c', 'lib/src/parser_config.h', 'lib/src/cypher-parser.h.in'],
  mechanism=[('cypher_parser_new_config, cypher_parser_config_set_*', 'lib/src/parser_config.c'), ('cypher_parser_no_colorization, cypher_parser_ansi_colorization', 'lib/src/parser_config.c')],
  observe=['cypher_parser_new_config', 'cypher_parser_config_set_initial_position', 'cypher_parse'],
  technique='effect analysis in LLVM IR: exact set of memory written by each setter, contents of constant initialisers, arguments of the wrapped calls',
  note=IR)

P(id='Q01', title='The quick parser splits the input where statements and commands end',
  statement='cypher_quick_uparse and cypher_quick_fparse deliver, once and in order, every statement up to the semicolon or end of the input that ends it, and every command (unless CYPHER_PARSE_ONLY_STATEMENTS) up to the semicolon or end of line; a semicolon within a comment, string or backquoted name ends nothing, and the text delivered is without surrounding white space and comments. '
            'Each segment has its kind, text, range, the position after it and whether the end of the input was reached, with lines and columns counted through the whole input. '
            'A positive value of the callback ends the parse successfully, a negative one is returned, 0 continues until the end of the input, or after one segment with CYPHER_PARSE_SINGLE.',
  over=['inputs', 'histories'], quant='all inputs, flags and callback results, every failing allocation',
  why='Where a segment ends depends on every character before it; tests use a few inputs.',
  files=['lib/src/quick_parser.leg', 'lib/src/quick_parser.c'],
  mechanism=[('rules of the grammar', 'lib/src/quick_parser.leg'), ('parse, segment, input_position, line_start', 'lib/src/quick_parser.c'), ('cypher_quick_parse_segment_*', 'lib/src/quick_parser.c')],
  observe=['segments passed to the callback', 'cypher_quick_parse_segment_*', 'return value of cypher_quick_uparse'],
  technique='equality of parsing expressions (automata built from the grammar source and a reference) and path-sensitive effect summaries in LLVM IR of the parse loop, the segment and its getters',
  note=IR)

P(id='B01', title='Deeply nested input is parsed or refused without exhausting the stack',
  statement='However deeply expressions, patterns, lists or maps are nested in the input, parsing, cloning, printing and freeing end normally or with an error.',
  over=['inputs'], quant='all depths of nesting', why='Tests nest a few levels.',
  files=['lib/src/parser.leg', 'lib/src/ast.c'], mechanism=[('recursive rules of the grammar', 'lib/src/parser.leg'), ('cypher_ast_free, cypher_ast_clone', 'lib/src/ast.c')],
  observe=['cypher_uparse', 'cypher_ast_free'],
  na='The parser is recursive descent and the tree functions recurse over children: stack use grows with the input by design, so no static bound exists, '
     'and the size of the stack is a property of the calling program that the sources do not determine.')

P(id='B02', title='Parsing takes time in proportion to the length of the input',
  statement='The time to parse an input grows linearly with its length, whatever the input.',
  over=['inputs'], quant='all inputs', why='Tests parse short inputs.',
  files=['lib/src/parser.leg'], mechanism=[('ordered choice with backtracking', 'lib/src/parser.leg')],
  observe=['cypher_uparse'],
  na='The generated parser backtracks without memoisation: how often a rule is tried again at one place depends on the input, and no cost bound in reach of a '
     'dataflow argument separates the grammar as it is from a slower one without flagging harmless restructuring of alternatives.')

P(id='B03', title='Exactly the statements of the Cypher language are accepted without errors',
  statement='A statement is parsed without errors if and only if it is a statement of the Cypher language supported.',
  over=['inputs'], quant='all inputs', why='Tests parse a few statements of each kind.',
  files=['lib/src/parser.leg'], mechanism=[('productions of the grammar', 'lib/src/parser.leg')],
  observe=['cypher_parse_result_nerrors'],
  na='The repository holds no definition of the language other than the grammar itself, and equality of context-free languages is undecidable; what can be decided of '
     'it is claimed elsewhere: terminals and keywords (L01, L02), operators (G04), and what each production builds (G01-G03).')
