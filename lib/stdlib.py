"""Signatures of the library, as a user reads them in the documentation.  Frozen: no check derives them from the code under test."""

SIGS = [
    ('abs', ['f64'], 'f64'),
    ('acos', ['f64'], 'f64'),
    ('add', ['any', 'any'], 'any'),
    ('and_also', ['bool', 'bool'], 'any'),
    ('args_os', [], '[str]'),
    ('asin', ['f64'], 'f64'),
    ('atan', ['f64'], 'f64'),
    ('atan2', ['f64', 'f64'], 'f64'),
    ('backtrace', [], 'void'),
    ('call', ['any', 'str', '[]'], 'void'),
    ('call_ret', ['any', 'str', '[]'], 'any'),
    ('ceil', ['f64'], 'f64'),
    ('chars', ['str'], '[str]'),
    ('check__in_string_imports', ['str', 'str', '[]'], 'res[[{}]]'),
    ('check__in_string_imports_usetr', ['str', 'str', '[]', 'bool'], 'res[[{}]]'),
    ('clear(mut)', ['[]'], 'void'),
    ('clone', ['any'], 'any'),
    ('cos', ['f64'], 'f64'),
    ('cross', ['vec4', 'vec4'], 'vec4'),
    ('cv', ['mat4', 'f64'], 'vec4'),
    ('cw', ['mat4'], 'vec4'),
    ('cx', ['mat4'], 'vec4'),
    ('cy', ['mat4'], 'vec4'),
    ('cz', ['mat4'], 'vec4'),
    ('debug', [], 'void'),
    ('det', ['mat4'], 'f64'),
    ('dir__angle', ['f64'], 'vec4'),
    ('div', ['any', 'any'], 'any'),
    ('dot', ['any', 'any'], 'f64'),
    ('download__url_file', ['str', 'str'], 'res[str]'),
    ('eprint', ['any'], 'void'),
    ('eprintln', ['any'], 'void'),
    ('equal', ['any', 'any'], 'bool'),
    ('err', ['any'], 'res'),
    ('errstr__string_start_len_msg', ['str', 'f64', 'f64', 'str'], 'str'),
    ('exp', ['f64'], 'f64'),
    ('explain_where', ['f64', 'any'], 'sec[f64]'),
    ('explain_why', ['bool', 'any'], 'sec[bool]'),
    ('floor', ['f64'], 'f64'),
    ('fmt__tab_string', ['f64', 'str'], 'str'),
    ('functions', [], 'any'),
    ('functions__module', ['any'], 'any'),
    ('greater', ['any', 'any'], 'bool'),
    ('greater_or_equal', ['any', 'any'], 'bool'),
    ('has', ['{}', 'str'], 'bool'),
    ('head', ['link'], 'any'),
    ('insert(mut,_,_)', ['[]', 'f64', 'any'], 'void'),
    ('insert_ref(mut,_,_)', ['[]', 'f64', 'any'], 'void'),
    ('inv', ['mat4'], 'mat4'),
    ('is_empty', ['link'], 'bool'),
    ('is_err', ['res'], 'bool'),
    ('is_nan', ['f64'], 'bool'),
    ('is_ok', ['res'], 'bool'),
    ('join__thread', ['thr'], 'res'),
    ('json_from_meta_data', ['[[]]'], 'str'),
    ('json_string', ['str'], 'str'),
    ('keys', ['{}'], '[str]'),
    ('len', ['[]'], 'f64'),
    ('less', ['any', 'any'], 'bool'),
    ('less_or_equal', ['any', 'any'], 'bool'),
    ('linear_to_srgb__color', ['vec4'], 'vec4'),
    ('ln', ['f64'], 'f64'),
    ('load', ['str'], 'res'),
    ('load__meta_file', ['str', 'str'], 'res[[[]]]'),
    ('load__meta_url', ['str', 'str'], 'res[[[]]]'),
    ('load__source_imports', ['str', '[]'], 'res'),
    ('load__source_imports_tr_usetr', ['str', '[]', 'bool', 'bool'], 'res'),
    ('load_data__file', ['str'], 'res'),
    ('load_data__string', ['str'], 'res'),
    ('load_string__file', ['str'], 'res[str]'),
    ('load_string__url', ['str'], 'res[str]'),
    ('log10', ['f64'], 'f64'),
    ('log2', ['f64'], 'f64'),
    ('max', ['[f64]'], 'f64'),
    ('meta__syntax_in_string', ['any', 'str', 'str'], 'res[[[]]]'),
    ('min', ['[f64]'], 'f64'),
    ('module__in_string_imports', ['str', 'str', '[]'], 'res'),
    ('module__in_string_imports_tr_usetr', ['str', 'str', '[]', 'bool', 'bool'], 'res'),
    ('mov', ['vec4'], 'mat4'),
    ('mul', ['any', 'any'], 'any'),
    ('mvp__model_view_projection', ['mat4', 'mat4', 'mat4'], 'mat4'),
    ('neck', ['link'], 'link'),
    ('neg', ['any'], 'any'),
    ('next', ['in'], 'opt'),
    ('none', [], 'opt'),
    ('norm', ['vec4'], 'f64'),
    ('not', ['any'], 'any'),
    ('not_equal', ['any', 'any'], 'bool'),
    ('now', [], 'f64'),
    ('ok', ['any'], 'res'),
    ('or_else', ['bool', 'bool'], 'any'),
    ('ortho__pos_right_up_forward', ['vec4', 'vec4', 'vec4', 'vec4'], 'mat4'),
    ('parse_number', ['str'], 'opt[f64]'),
    ('pop(mut)', ['[]'], 'any'),
    ('pow', ['any', 'any'], 'any'),
    ('print', ['any'], 'void'),
    ('println', ['any'], 'void'),
    ('proj__fov_near_far_ar', ['f64', 'f64', 'f64', 'f64'], 'mat4'),
    ('push(mut,_)', ['[]', 'any'], 'void'),
    ('push_ref(mut,_)', ['[]', 'any'], 'void'),
    ('random', [], 'f64'),
    ('read_line', [], 'str'),
    ('read_number', ['str'], 'f64'),
    ('rem', ['any', 'any'], 'any'),
    ('remove(mut,_)', ['[]', 'f64'], 'any'),
    ('reverse(mut)', ['[]'], 'void'),
    ('rot__axis_angle', ['vec4', 'f64'], 'mat4'),
    ('round', ['f64'], 'f64'),
    ('rv', ['mat4', 'f64'], 'vec4'),
    ('rw', ['mat4'], 'vec4'),
    ('rx', ['mat4'], 'vec4'),
    ('ry', ['mat4'], 'vec4'),
    ('rz', ['mat4'], 'vec4'),
    ('s', ['vec4', 'f64'], 'f64'),
    ('save__data_file', ['any', 'str'], 'res[str]'),
    ('save__string_file', ['str', 'str'], 'res[str]'),
    ('scale', ['vec4'], 'mat4'),
    ('sin', ['f64'], 'f64'),
    ('sleep', ['f64'], 'void'),
    ('some', ['any'], 'opt'),
    ('sqrt', ['f64'], 'f64'),
    ('srgb_to_linear__color', ['vec4'], 'vec4'),
    ('str', ['any'], 'str'),
    ('str__color', ['vec4'], 'str'),
    ('sub', ['any', 'any'], 'any'),
    ('swap(mut,_,_)', ['[]', 'f64', 'f64'], 'void'),
    ('syntax__in_string', ['str', 'str'], 'res'),
    ('tail', ['link'], 'link'),
    ('tan', ['f64'], 'f64'),
    ('tau', [], 'f64'),
    ('tip', ['link'], 'opt'),
    ('trim', ['str'], 'str'),
    ('trim_left', ['str'], 'str'),
    ('trim_right', ['str'], 'str'),
    ('typeof', ['any'], 'str'),
    ('unwrap', ['any'], 'any'),
    ('unwrap_err', ['any'], 'any'),
    ('unwrap_or', ['any', 'any'], 'any'),
    ('w', ['vec4'], 'f64'),
    ('wait_next', ['in'], 'any'),
    ('where', ['sec[f64]'], '[]'),
    ('why', ['sec[bool]'], '[]'),
    ('x', ['vec4'], 'f64'),
    ('y', ['vec4'], 'f64'),
    ('z', ['vec4'], 'f64'),
]
