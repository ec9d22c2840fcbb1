"""The properties, in one table; gen.py writes properties.jsonl and MANIFEST.json from it."""

BASE_NOTE = ("Every obligation is discharged for all inputs on the real code's LLVM IR. Trusted: the symbolic verifier in bmv/ (IR "
             "semantics, memory model), clang's C++ front end and sroa, z3/cvc5, the C++ runtime models listed in the evidence file. ")

PROPS = [
    dict(
        id='P01', title='Uint(N) operators are exact modulo 2^N',
        statement='For every width N from 1 to 128 and all operand values below 2^N, evaluating +, -, *, /, %, <<, >>, &, |, ^ or a '
                  'comparison on two Uint(N) operands yields the mathematical result reduced modulo 2^N (Bool for comparisons), with type '
                  'Uint(N). Division or remainder by zero and shifts by N or more are reported as division_by_zero and shift_too_much '
                  'instead of yielding a value.',
        over=['inputs'], quant='all 16 non-logical binary operators, all widths 1..128, all pairs of operand values',
        why='The tests run a few BMS programs on 8 to 64 bit constants; the operand space is 2^256 per width and operator, and errors sit '
            'at widths 1, 127, 128 and at single operand values.',
        files=['src/bms/evaluation/operations.cpp', 'src/bms/concrete_value.hpp', 'src/bms/concrete_type.hpp'],
        functions=['evaluate_binary_operator(Concrete_Value, Expression_Type, Concrete_Value)', 'Concrete_Value::convert_to',
                   'Concrete_Type::Uint', 'Concrete_Type::get_mask'],
        note=BASE_NOTE),
    dict(
        id='P02', title='Int, Bool, mixed, prefix and conditional evaluation is exact',
        statement='Evaluating an operator on Int operands yields the mathematical result whenever it fits in 128 bits (division truncates '
                  'toward zero, the remainder has the sign of the dividend, a zero divisor is reported), and evaluating a Bool operator '
                  'yields its truth table. An Int operand next to a Uint(N) operand takes part with its exact value, or the evaluation '
                  'fails with int_to_uint_range_error if that value is not in [0, 2^N). Prefix operators and if-expressions yield the '
                  'exact negation, complement or selected operand, in the operand\'s (common) type.',
        over=['inputs'], quant='all operators, all operand kinds and widths, all 128-bit operand values whose Int result is representable',
        why='The operand space is unbounded for tests; division signs, mixed operand order and boundary values are each a handful of '
            'points in it.',
        files=['src/bms/evaluation/operations.cpp', 'src/bms/concrete_value.hpp'],
        functions=['evaluate_binary_operator', 'evaluate_unary_operator', 'evaluate_if_expression', 'Concrete_Value::convert_to'],
        note=BASE_NOTE + 'Int results outside 128 bits (signed overflow in the implementation) are excluded by the statement.'),
    dict(
        id='P03', title='Operator typing accepts exactly the well-typed operations',
        statement='For every operator and every combination of operand types, the type check accepts exactly the operations the language '
                  'defines (arithmetic on Int/Uint, bitwise and shifts on Uint, logical on Bool, equality on all but Void, relational on '
                  'integers; equal Uint widths; Int mixes with Uint and becomes it) and yields the operand type, or Bool for comparisons. '
                  'Every rejected operation is reported with the error that names the reason (Void operand, invalid operator, differing '
                  'widths, incompatible types, or the unsupported operator class for that type).',
        over=['inputs'], quant='all 27 expression kinds x all pairs of types (4 kinds, all widths)',
        why='The table has 27 x 131 x 131 entries; the error tests sample about a dozen.',
        files=['src/bms/evaluation/operations.cpp', 'src/bms/expression_type.hpp', 'src/bms/concrete_type.hpp'],
        functions=['check_binary_operator', 'check_unary_operator', 'get_common_type', 'is_binary', 'is_prefix_unary'],
        note=BASE_NOTE),
    dict(
        id='P04', title='Accepted operations evaluate safely to a value of the predicted type',
        statement='For every operator and any two operand values, evaluation either yields a value of exactly the type predicted by the '
                  'type check and within that type\'s range, or fails with an error that applies to the operands: type_error exactly for '
                  'what the type check rejects, otherwise division_by_zero, shift_too_much or int_to_uint_range_error. It never aborts, '
                  'throws an internal assertion or has undefined behaviour, and assert accepts exactly one Bool and fails exactly on false.',
        over=['inputs'], quant='all operators, all operand types (every width) and values; Int operands whose exact result fits 128 bits',
        why='Agreement between the type checker and the evaluator is a statement about all operator/type pairs, which the tests sample.',
        files=['src/bms/evaluation/operations.cpp', 'src/bms/evaluation/builtin_function.hpp', 'src/bms/concrete_value.hpp'],
        functions=['evaluate_binary_operator', 'check_binary_operator', 'evaluate_builtin_function', 'check_builtin_function'],
        note=BASE_NOTE + 'Argument lists of assert are verified for lengths 0, 1 and 2.'),
    dict(
        id='P05', title='Evaluation with unknown operands is sound',
        statement='Evaluating an operator, prefix operator, if-expression or assert on operands of which some are unknown gives a result '
                  'consistent with every concrete choice of the unknowns: the same type, the same value where the result is known, and '
                  'success whenever some choice of the unknown operands evaluates successfully. With all operands known it gives exactly '
                  'the concrete result or error, and ill-typed operations are rejected without knowing any operand. A known zero divisor '
                  'is reported even if the other operand is unknown.',
        over=['inputs'], quant='all operators, operand types, values, and all subsets of unknown operands',
        why='Constant folding runs on arbitrary partially known values; the tests reach only a few such combinations.',
        files=['src/bms/evaluation/operations.cpp', 'src/bms/value.hpp'],
        functions=['evaluate_binary_operator(Value, Expression_Type, Value)', 'evaluate_unary_operator(Expression_Type, Value)',
                   'evaluate_if_expression(Value, Value, Value)', 'evaluate_builtin_function(Builtin_Function, span<const Value>)',
                   'Value::convert_to'],
        note=BASE_NOTE),
    dict(
        id='P06', title='Conversions preserve the value or fail',
        statement='Converting a value to its own type is the identity, and converting an Int to Uint(N) yields the same number if it lies '
                  'in [0, 2^N) and fails with int_to_uint_range_error otherwise (or, when truncating, keeps the low N bits). Every other '
                  'conversion fails with type_error. An unknown value converts exactly when its type does and stays unknown.',
        over=['inputs'], quant='all pairs of types (every width), all 128-bit values, both conversion modes, known and unknown',
        why='The boundary lies at a different value for each of 128 widths; tests convert a few small constants.',
        files=['src/bms/concrete_value.hpp', 'src/bms/concrete_type.hpp', 'src/bms/value.hpp', 'src/bms/evaluation/operations.cpp'],
        functions=['Concrete_Value::convert_to', 'Value::convert_to', 'Concrete_Type::is_convertible_to', 'Concrete_Type::get_mask',
                   'Concrete_Type::can_represent', 'evaluate_conversion'],
        note=BASE_NOTE),
    dict(
        id='P07', title='Integer literals denote exactly their digits',
        statement='Parsing the digits of an integer literal in any base yields exactly the number they denote, for every length, and is '
                  'rejected when the number does not fit the result type or a character is not a digit of the base. A literal with prefix '
                  '0b, 0x, 0 or none is read in base 2, 16, 8 or 10; Int literals may be negative.',
        over=['inputs'], quant='all character sequences of every length, all bases used by the language',
        why='Values depend on the whole digit sequence; tests parse a handful of short literals, and overflow starts beyond 128 bits.',
        files=['src/common/parse.cpp', 'src/common/parse.hpp'],
        functions=['parse_uinteger_literal', 'parse_integer_literal', 'match_integer_literal'],
        note=BASE_NOTE),
    dict(
        id='P08', title='Lexical matchers match maximally, for inputs of any length',
        statement='The matchers for whitespace, identifiers, digits, comments and string literals return the longest prefix of their input '
                  'that belongs to their class, never reach beyond the input, and return no match exactly when the input does not start '
                  'with one. Block comments end at the first */ and string literals at the first unescaped quote; if there is none, the match '
                  'covers the rest of the input and is flagged as unterminated.',
        over=['inputs'], quant='all character sequences of every length and content',
        why='The matchers are loops over unbounded input; unit tests use a few literals.',
        files=['src/common/parse.cpp', 'src/common/parse.hpp'],
        functions=['match_whitespace', 'match_identifier', 'match_digits', 'match_line_comment', 'match_block_comment',
                   'match_string_literal', 'match_integer_literal'],
        note=BASE_NOTE),
    dict(
        id='P09', title='Tokenization partitions the source into the longest tokens at exact positions',
        statement='For every source text, the tokens are in order, nonempty and disjoint, and lie within the source with nothing but whitespace '
                  'between them; each is the longest token at its position (a comment, string or integer literal, keyword, identifier or '
                  'operator) with exactly the type its spelling has. The line and column of every token are those of its first character '
                  '(tabs count four columns). Tokenization succeeds exactly if there is a token at every position where one is expected, and '
                  'otherwise reports which problem there is and where.',
        over=['inputs'], quant='all source texts of every length',
        why='Sources are unbounded, and line and column at a token depend on everything in front of it.',
        files=['src/bms/tokenization/tokenize.cpp', 'src/bms/tokenization/token_type.hpp', 'src/common/source_position.hpp'],
        functions=['tokenize', 'Tokenizer::tokenize', 'Tokenizer::try_match', 'Tokenizer::advance_position_by', 'keyword_by_name',
                   'match_fixed_length_token', 'token_type_of', 'token_type_length', 'Local_Source_Span::to_right'],
        note=BASE_NOTE),
    dict(
        id='P10', title='Result, Variant and Tribool keep exactly what was put in',
        statement='After every construction, copy, move, assignment, swap and visit, a Result or Variant holds exactly one living '
                  'alternative with the value that was put in; every object constructed is destroyed exactly once, and accessing an '
                  'alternative that is not held is rejected. Tribool implements Kleene logic: its operators give a definite answer exactly '
                  'when all definite choices of the maybe operands agree.',
        over=['inputs', 'histories'], quant='all combinations of held alternatives, values, operations and their second operand',
        why='Lifetimes are a statement about every transition between alternatives, of which the unit tests exercise a few.',
        files=['src/common/result.hpp', 'src/common/variant.hpp', 'src/common/tribool.hpp'],
        functions=['Result<T, E>', 'Result<void, E>', 'Variant<Ts...>', 'visit', 'Tribool operators'],
        note=BASE_NOTE + 'Class templates are verified for instantiations with a type that counts its lifetimes, and with trivial types.'),
    dict(
        id='P11', title='The HTML writer produces well-formed HTML that decodes to its input',
        statement='Inner text and attribute values of any length and content are written such that an HTML reader decodes them to exactly '
                  'the given characters, apart from the indentation and line breaks of the requested style; attribute values are quoted '
                  'where HTML requires it and quotes are balanced. Tags are written with their exact name and delimiters. The writer tracks open '
                  'tags, indentation and the start of a line in every sequence of calls, and reports a document as done only after the '
                  'preamble with all tags closed.',
        over=['inputs', 'histories'], quant='all texts, values and names of every length; every reachable writer state; all formatting styles',
        why='Escaping concerns every character at every position, and the state depends on the whole history of calls.',
        files=['src/bmd/html/html_writer.cpp', 'src/bmd/html/html_writer.hpp'],
        functions=['HTML_Writer::write_preamble', 'HTML_Writer::write_empty_tag', 'HTML_Writer::write_comment_tag', 'HTML_Writer::begin_tag',
                   'HTML_Writer::begin_tag_with_attributes', 'HTML_Writer::end_tag', 'HTML_Writer::write_inner_text',
                   'HTML_Writer::write_escaped_text', 'HTML_Writer::write_whitespace', 'Attribute_Writer::write_attribute',
                   'Attribute_Writer::end', 'Attribute_Writer::end_empty', 'HTML_Writer::is_done'],
        note=BASE_NOTE + 'string_view::find and find_first_of are assumed by contract; indentation depth below 2^16, width below 256.'),
    dict(
        id='P12', title='Vocabularies of the languages are consistent and unambiguous',
        statement='Every token, operator, annotation, directive and code language has exactly the spelling the language defines, different '
                  'ones have different spellings, and looking up any string finds the annotation or directive of exactly that name, or nothing. '
                  'Operator classes of tokens and expressions agree, and operator precedence is a strict partial order in which comparisons bind '
                  'looser than arithmetic and all other binary operators require parentheses. Directives appear in the HTML with the tag they '
                  'are named after and only where their content rules allow them.',
        over=['inputs'], quant='all enumerators, all pairs and triples of operators, all strings of every length looked up',
        why='Lookups take arbitrary strings (reading past a table shows only for some of them), and consistency ranges over all pairs.',
        files=['src/bms/util.cpp', 'src/bms/tokenization/token_type.hpp', 'src/bms/expression_type.hpp', 'src/bmd/enums.cpp',
               'src/bmd/directive_type.hpp'],
        functions=['token_type_code_name', 'expression_type_token', 'is_binary_operator', 'compare_precedence', 'annotation_type_by_name',
                   'directive_type_by_id', 'directive_type_tag', 'directive_content_allows', 'code_language_name'],
        note=BASE_NOTE),
    dict(
        id='P13', title='The virtual machine executes every instruction as defined',
        statement='For every program, instruction counter, stack and set of frames, one cycle executes exactly the current instruction: it pops '
                  'its operands and pushes its result, accesses only the variable it names in the innermost frame, evaluates operators on the '
                  'operands in order, and continues at the next instruction or at the target of a taken jump, call or return. Whatever the '
                  'instruction cannot do (pop from an empty stack, load an unassigned variable, jump or call outside of the program, jump to '
                  'itself, jump on a value that is not a Bool, return without a frame, a failed evaluation) is reported as the error of that '
                  'kind, and nothing outside of the machine is read or written. Variables of different frames never interfere: a lookup sees '
                  'only the innermost frame, and returning removes exactly that frame.',
        over=['inputs', 'histories'], quant='all instructions, all programs, stacks and frames of every size, all values',
        why='Stacks and frames are unbounded and every instruction can be reached in every state; tests only run well-formed programs.',
        files=['src/bms/vm/vm.cpp', 'src/bms/vm/vm.hpp', 'src/bms/vm/linear_map_stack.hpp', 'src/bms/vm/instructions.hpp'],
        functions=['Virtual_Machine::cycle', 'Virtual_Machine::push', 'Virtual_Machine::pop', 'Virtual_Machine::jump_to',
                   'Virtual_Machine::reset', 'Virtual_Machine::clear', 'Linear_Map_Stack::find', 'Linear_Map_Stack::emplace',
                   'Linear_Map_Stack::assign', 'Linear_Map_Stack::push_frame', 'Linear_Map_Stack::pop_frame'],
        note=BASE_NOTE),
]

NOT_APPLICABLE = []
NOTES = ''
