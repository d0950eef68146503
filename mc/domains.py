"""Value alphabets shared by the checks: one representative per class of text the document format can represent"""
TEXT = [
    'x', '', ' ', '  lead', 'trail  ', 'in  ner', 'a"b', '"', "a'b", "'", '"\'', '\'"\'"', '{}', '{0}', '{flags}', '{x', '%s', '%(a)s', '\\',
    '\\1', 'a\\"b', '&', '&amp;', '&#65;', '<', '>', '&<>', ']]>', '<a/>', '<!-- c -->', '<?x?>', '\n', 'a\nb', 'a\r\nb', '\r', 'a\rb',
    '\t', 'a\tb', '\n \n', 'é', 'e\u0301', 'ß', 'İ', '中文', '😀', '\u0085', '\u2028', '\xa0', '\ufeff', '\ufffd', '\ud7ff', '\ue000',
    '\U00010000', '\U0010ffff', '\x7f', '\x80', 'None', 'True', 'False', '0', '-1', '1e3', '" or "1"="1', "'] | //Entry[", 'text()', '$v', '.*',
    '[', '(', '^a$', 'Title', 'Password', 'A' * 1000, 'é中' * 9000, 'a,b', 'a;b', ';', '{REF:T@I:00000000000000000000000000000000}', '{REF:',
    'x\u0085', '\u2028x\u2029', '\xa0x\xa0', '\ufeffx', 'x\u200b\u200d', '\u202ex', 'x\x7f', '\ttab\t', '\nnl\n', '/', '../x', 'a/b', '+', 'a+b=', 'Protected', 'X' * 65536,
    # what users store
    'http://a b/?q=1&r=%20#x', 'HTTP://User:pw@Host:80/', 'https://example.com/', '{USERNAME}{TAB}{PASSWORD}{ENTER}', 'otpauth://totp/a:b?secret=JBSWY3DP&period=30', 'Me@EXAMPLE.com', '0012', '+49 30', '2020-01-01T00:00:00Z', 'C:\\x\\y', 'YWJj',
    '{PASSWORD}', 'cmd://"a b" -x', '{"a": [1]}', '- a\n- b\n', '***',
]
TEXT_SMALL = ['x', '', 'a"b\'c', '{}', '&<', ' \n', 'é😀', '\r']
NAMES = [t for t in TEXT if t]
# texts that a careless comparison takes for each other
NEAR = ['a', 'A', ' a', 'a ', 'a\n', '\ta', 'a\u200b', 'a\xa0', 'aa', 'ab', 'a b', 'a  b', 'á', 'a\u0301', 'ａ', 'ß', 'ss', '.', '.*', 'a*', 'a?', '^a', 'a$', '[a]', '(a)', '"', '"a"', "'", "a'b\"c", '{}', '{a}', '{flags}',
        '%s', '%(a)s', '\\a', '0', '00', '1', '1.0', 'None', 'True', '&', '&amp;', '<a>', 'a/b', 'a;b', 'a,b', '{REF:T@I:x}', 'a' * 255, 'a' * 256, 'a' * 5000, 'a' * 4999 + 'b', '\u2028', 'İ', 'i', 'I', '😀', '😁']
