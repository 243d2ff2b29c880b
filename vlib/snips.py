"""Pieces of text that a program may treat specially, alone and among other characters."""
ASCII = ['\r\n', '\n\r', '\n', '\r', '\t', ' ', '  ', '\r\n ', '\n\n', '\r\n.\r\n', '""', '"', "'", "''", '\\', '\\n', '\\"', '\\\\', '%', '%20', '%41', '%s', '%(a)s', '%%', '&', '&amp;',
         '&lt;', '&#65;', '&#x41;', '<', '>', '<>', '<a>', '</a>', '<!--', ']]>', '<![CDATA[', '<?xml', '=?utf-8?q?a?=', '=?utf-8?B?QQ==?=', '=41', '=', '==', '/TYPE=PLMN',
         '/TYPE=IPv4', '/type=plmn', '@', 'a@b', '::', ':', ';', ';;', ',', ',,', '.', '..', '-', '--', '_', '+', '++', '*', '#', '?', '!', '~', '^', '`', '|', '$', '$1', '$HOME',
         '${a}', '{}', '{0}', '{', '}', '[', ']', '(', ')', '\\1', '\\x41', '\\u0041', '0x41', '007', '0', '00', '-1', '+1', '1e5', '1.0', '1.50', 'None', 'none', 'True', 'null', 'NULL',
         'nan', 'inf', '<not inserted>', '<unknown>', 'http://a/?b=c#d', 'HTTP://A', 'cid:', 'cid:a', 'mailto:', 'tel:+1', 'sms:', 'data:', 'file:', 'www.', 'INBOX', 'Re: ', 'begin',
         'From ', 'Content-Type', 'charset=utf-8', ';charset=utf-8', '; q=1', 'name="a"', '|', ',b', 'A', 'ABC', 'abc', 'aA', 'i', 'I', 'ab' * 8, '..gif', '.tar.gz', '.', 'a.b.c',
         '+CMGS', 'AT', '//', '/', 'a/b', '*/*', '0000', '<0000>']
ASCII = list(dict.fromkeys(ASCII))
# characters below 256, as octets of text in some encoding or in none
LATIN = ASCII + ['\xef\xbb\xbf', '\xff\xfe', '\xfe\xff', '\xc3\xa9', '\xe2\x82\xac', '\xa0', '\xc2\xa0', '\x80', '\x85', '\xad', '\xff', '\xff\xff', '\xe9', '\xc3', '\xdf', '\x7f', '\x01', '\x1a',
                 '\x1b', '\x1be', '\x1b\x1b', '\x1b$B', '\x1f', '\x0c', '\x0b', '\x08', '\x7f\x7f', '\xc9\xe9', '\xb5', '\xaa', '\xb2', '\xed\xa0\x80', '\xf0\x9f\x98\x80']
# characters of the BMP
BMP = ASCII + ['\xe9', 'e\u0301', 'E\u0301', 'n\u0303', 'a\u0308', 'A\u030a', '\u212b', '\u2126', '\u03a9', '\u0130', '\u0131', 'i\u0307', '\u017f', '\xdf', '\u1e9e', '\ufb01', '\xaa', '\xb2',
               '\xbd', '\u2460', '\u2019', '\u2018', '\u201c', '\u201d', '\u2013', '\u2014', '\u2026', '\u2022', '\xa0', '\u202f', '\u3000', '\u2003', '\ufeff', '\u200b', '\u200d', '\u200e',
               '\u202e', '\u2028', '\u2029', '\x85', '\xad', '\ud7a3', '\u1100\u1161', '\uac00', '\u0660', '\uff11', '\uff21', '\u0391', '\u0410', '\u0430', '\xe7', '\xc7', '\u20ac', '\xa4',
               '\xb5', '\u03bc', '\u0394', '\u2206', '\x1b', '\x1be', '\x1b\x1b', '\x00', '\x00\x00', '\x0c', '\x0b', '\x7f', '\ufffd', '\ufffe', '\uffff', '\xff\xfe', '\xfe\xff', '\xc3\xa9',
               '\xef\xbb\xbf', '\xe9\xe8', '\xa1', '\xbf', '\xa3', '\xa5', '\xc9', '\xe0', '\u0645\u0631', '\u05d0', '\u0e01', '\u4e2d', '\u3042\u3099', '\u263a\ufe0f', '\u01c5', '\u0149']


def around(s):
    """texts that hold the piece"""
    return list(dict.fromkeys([s, 'a' + s, s + 'a', 'a' + s + 'b', s + s, 'A1' + s + 'b' + s + 'c', s + 'x' + s, s * 3 + 'y', 'some words' + s + 'and others']))


def cases(pieces, **more):
    """cases of an enumeration: one piece each"""
    return lambda tier: [dict(more, piece=s) for s in dict.fromkeys(pieces)]


def split(c):
    """its single texts"""
    return [dict(c, text=t) for t in around(c['piece'])]


def texts(c):
    return [c['text']] if 'text' in c else around(c['piece'])
