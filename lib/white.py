"""White space as the language of the implementation under test defines it."""
import os

JAVASCRIPT = os.environ.get('VERIF_IMPL') == 'js'

if JAVASCRIPT:
    CHARS = '\t\n\x0b\x0c\r \xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000\ufeff'
    is_space = frozenset(CHARS).__contains__

    def strip(s):
        return s.strip(CHARS)

    def lstrip(s):
        return s.lstrip(CHARS)

    def adapt(words):
        """Characters that are blank in JavaScript only give way to some that are blank in Python only, and the other way round."""
        swap = str.maketrans('\ufeff\x1f\x85\x1c', '\x1f\ufeff\u1680\u205f')
        return [w.translate(swap) for w in words]
else:
    is_space = str.isspace
    strip = str.strip
    lstrip = str.lstrip

    def adapt(words):
        return words
