"""Property -> harnesses (contracts).  `split`: sizes of the leading vf_choose forks run as separate jobs."""

# the lexical matchers, as assumed by their callers (proved in lex.cpp against the same contracts)
LEX_STUBS = {
    r'match_whitespace\(std::basic_string_view': 'vf_tok_whitespace',
    r'match_line_comment\(std::basic_string_view': 'vf_tok_line_comment',
    r'match_block_comment\(std::basic_string_view': 'vf_tok_block_comment',
    r'match_string_literal\(std::basic_string_view': 'vf_tok_string_literal',
    r'match_identifier\(std::basic_string_view': 'vf_tok_identifier',
    r'match_integer_literal\(std::basic_string_view': 'vf_tok_integer_literal',
    r'^std::basic_string_view<char, std::char_traits<char> >::find_first_not_of\(char const\*, unsigned long\) const$':
        'vf_tok_find_first_not_of',
}
TOKEN_SINK = {
    r'^std::vector<bit_manipulation::bms::Token, .*>::push_back\(': 'vf_tok_push',
    r'^.*std::vector<bit_manipulation::bms::Token, .*>::emplace_back<bit_manipulation::bms::Token( const)?&?>\(': 'vf_tok_push',
    r'^.*std::vector<bit_manipulation::bms::Token, .*>::emplace_back<bit_manipulation::Local_Source_Span( const)?&?, '
    r'bit_manipulation::bms::Token_Type( const)?&?>\(': 'vf_tok_emplace',
}

ANON = r'^bit_manipulation::bms::\(anonymous namespace\)::'
TRY_MATCH = ANON + r'Tokenizer::try_match\(std::basic_string_view<char, std::char_traits<char> >\) const$'
ADVANCE = ANON + r'Tokenizer::advance_position_by\(unsigned long\)$'

HTML_STUBS = {
    r'is_html_identifier\(std::basic_string_view': 'vf_html_identifier',
    r'^std::basic_string_view<char, std::char_traits<char> >::find_first_of\(char const\*, unsigned long, unsigned long\) const$':
        'vf_lib_find_first_of',
    r'^std::basic_string_view<char, std::char_traits<char> >::find\(char, unsigned long\) const$': 'vf_lib_find_char',
}

LMS = r'^bit_manipulation::bms::Linear_Map_Stack::'
CV = r'bit_manipulation::bms::Concrete_Value'
VM_STUBS = {
    LMS + r'find\(': 'vf_vm_find',
    LMS + r'assign\(': 'vf_vm_assign',
    LMS + r'push_frame\(': 'vf_vm_push_frame',
    LMS + r'pop_frame\(': 'vf_vm_pop_frame',
    r'^bit_manipulation::bms::evaluate_conversion\(' + CV: 'vf_vm_convert',
    r'^bit_manipulation::bms::evaluate_unary_operator\(bit_manipulation::bms::Expression_Type, ' + CV: 'vf_vm_unary',
    r'^bit_manipulation::bms::evaluate_binary_operator\(' + CV: 'vf_vm_binary',
    r'^bit_manipulation::bms::evaluate_builtin_function\(bit_manipulation::bms::Builtin_Function, std::span<' + CV + ' const': 'vf_vm_builtin',
}

DESTROY_STUB = {r'^void std::_Destroy<bit_manipulation::bms::(Linear_Map_Stack::Entry|Concrete_Value|.*Variant<.*>)\*, ': 'vf_vm_destroy'}

ESCAPED_STUB = {r'^bit_manipulation::bmd::HTML_Writer::write_escaped_text\(std::basic_string_view': 'vf_html_escaped_text'}

CHECKS = {
    'P01': dict(
        file='ops.cpp',
        harnesses=[dict(name='uint_binary', split=[18])],
    ),
    'P02': dict(
        file='ops.cpp',
        harnesses=[dict(name='int_binary', split=[18]), dict(name='bool_binary'), dict(name='mixed_binary', split=[18]),
                   dict(name='unary'), dict(name='if_expression')],
    ),
    'P03': dict(
        file='ops.cpp',
        harnesses=[dict(name='binary_typing', split=[27]), dict(name='unary_typing'), dict(name='common_type')],
    ),
    'P04': dict(
        file='ops.cpp',
        harnesses=[dict(name='binary_total', split=[18]), dict(name='builtin_assert')],
    ),
    'P05': dict(
        file='ops.cpp',
        harnesses=[dict(name='partial_binary', split=[18]), dict(name='partial_unary'), dict(name='partial_if'),
                   dict(name='partial_assert')],
    ),
    'P06': dict(
        file='ops.cpp',
        harnesses=[dict(name='conversion'), dict(name='partial_conversion'), dict(name='value_helpers'),
                   dict(name='type_helpers')],
    ),
    'P07': dict(
        file='lex.cpp',
        harnesses=[dict(name='uinteger_value', split=[4]), dict(name='integer_value', split=[4, 2]), dict(name='integer_literal')],
    ),
    'P08': dict(
        file='lex.cpp',
        harnesses=[dict(name='whitespace'), dict(name='find_not_whitespace'), dict(name='identifier'), dict(name='is_identifier'), dict(name='is_html_identifier'),
                   dict(name='line_comment'), dict(name='block_comment'), dict(name='string_literal'),
                   dict(name='digits', split=[10]), dict(name='char_classes')],
    ),
    'P09': dict(
        file='tok.cpp',
        harnesses=[dict(name='tokenize', opts=dict(eager=True, unfold=1, replace={**LEX_STUBS, **TOKEN_SINK, TRY_MATCH: 'vf_tok_match',
                                                            ADVANCE: 'vf_tok_advance'})),
                   dict(name='tokenize_match', opts=dict(eager=True, unfold=1, replace={**LEX_STUBS, '=vf_real_try_match': TRY_MATCH})),
                   dict(name='tokenize_advance', opts=dict(replace={'=vf_real_advance': ADVANCE})),
                   dict(name='lemma_columns', split=[6])],
    ),
    'P10': dict(
        file='util.cpp',
        harnesses=[dict(name='result'), dict(name='void_result'), dict(name='variant2', split=[9]), dict(name='variant3', split=[9]),
                   dict(name='variant_trivial', split=[10]), dict(name='tribool')],
    ),
    'P11': dict(
        file='html.cpp',
        harnesses=[dict(name='writer_tags', split=[7], opts=dict(replace=HTML_STUBS)), dict(name='writer_escaped_text', split=[2], opts=dict(eager=True, unfold=1, replace=HTML_STUBS)),
                   dict(name='writer_attribute', opts=dict(eager=True, unfold=1, replace=HTML_STUBS)),
                   dict(name='writer_text', split=[2, 4], opts=dict(eager=True, unfold=1, replace={**HTML_STUBS, **ESCAPED_STUB}))],
    ),
    'P12': dict(
        file='tables.cpp',
        harnesses=[dict(name='token_names'), dict(name='token_classes'), dict(name='operators'), dict(name='precedence'),
                   dict(name='annotations', split=[18]), dict(name='directives_by_id', split=[13]), dict(name='directives'),
                   dict(name='languages')],
    ),
    'P13': dict(
        file='vm.cpp',
        harnesses=[dict(name='vm_cycle', split=[14], opts=dict(replace=VM_STUBS)),
                   dict(name='vm_interface', opts=dict(replace=DESTROY_STUB)),
                   dict(name='map_find', opts=dict(replace=DESTROY_STUB)), dict(name='map_assign', opts=dict(replace=dict(DESTROY_STUB, **{LMS + r'find\(': 'vf_map_find'}))), dict(name='map_push_frame', opts=dict(replace=DESTROY_STUB)),
                   dict(name='map_pop_frame', opts=dict(replace=DESTROY_STUB))],
    ),
}
