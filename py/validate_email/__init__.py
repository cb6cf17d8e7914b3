"""A stand-in for validate-email 1.3: the address syntax of RFC 2822."""
import re

WSP = r'[\s]'
CRLF = r'(?:\r\n)'
CTL = r'\x01-\x08\x0b\x0c\x0f-\x1f\x7f'
PAIR = r'(?:\\.)'
FWS = r'(?:(?:' + WSP + r'*' + CRLF + r')?' + WSP + r'+)'
CTEXT = r'[' + CTL + r'\x21-\x27\x2a-\x5b\x5d-\x7e]'
COMMENT = r'\((?:' + FWS + r'?(?:' + CTEXT + '|' + PAIR + r'))*' + FWS + r'?\)'
CFWS = r'(?:' + FWS + r'?' + COMMENT + ')*(?:' + FWS + '?' + COMMENT + '|' + FWS + ')'
ATEXT = r'[\w!#$%&\'\*\+\-/=\?\^`\{\|\}~]'
DOT = CFWS + r'?' + ATEXT + r'+(?:\.' + ATEXT + r'+)*' + CFWS + r'?'
QTEXT = r'[' + CTL + r'\x21\x23-\x5b\x5d-\x7e]'
QUOTED = CFWS + r'?"(?:' + FWS + r'?(?:' + QTEXT + '|' + PAIR + r'))*' + FWS + r'?"' + CFWS + r'?'
DTEXT = r'[' + CTL + r'\x21-\x5a\x5e-\x7e]'
LITERAL = CFWS + r'?\[(?:' + FWS + r'?(?:' + DTEXT + '|' + PAIR + r'))*' + FWS + r'?\]' + CFWS + r'?'
ADDRESS = re.compile('^(?:' + DOT + '|' + QUOTED + ')@(?:' + DOT + '|' + LITERAL + ')$')


def validate_email(email, check_mx=False, verify=False, debug=False, smtp_timeout=10):
    return ADDRESS.match(email) is not None
