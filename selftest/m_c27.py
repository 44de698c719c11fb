"""C27: one edit each of the functions that reduce and indent lines, and other ways to write them"""
G = 'pp/yugen.py'
FILT = """    def _filter( ln ):
        _empty = _filter.empty
        _filter.empty = not ln.strip()
        return not _empty or not _filter.empty

    _filter.empty = False

    return '\\n'.join([ x.rstrip() for x in re_LINE.findall( text ) if _filter( x )]) + '\\n'
"""
KEEP = """            if i in empty:
                if not prev_empty:
                    result += ln
                    prev_empty = True
            else:
                result += ln
                prev_empty = False
"""
OFFS = """                if prev_empty:
#                   -- reduce number of empty lines
                    total += len( ln )
"""


def one(name, old, new):
    return (name, 'C27', G, old, new)


MUTANTS = [
    one('splitlines again', "for x in re_LINE.findall( text ) if", "for x in text.splitlines() if"),
    one('splitlines with browse', "lnlist = re_LINE.findall( text )", "lnlist = text.splitlines( True )"),
    one('splitlines in trim', "re_LINE.findall( dedent( plain ))", "dedent( plain ).splitlines( True )"),
    one('splitlines in indent', "ln = re_LINE.findall( self )", "ln = self.splitlines( True )"),
    one('white space divides', "re_LINE = re.compile( r'[^\\r\\n]*(?:\\r\\n|\\r|\\n)|[^\\r\\n]+' )", "re_LINE = re.compile( r'[^\\r\\n\\f]*(?:\\r\\n|\\r|\\n|\\f)|[^\\r\\n\\f]+' )"),
    one('all empty go', "        return not _empty or not _filter.empty\n", "        return not _filter.empty\n"),
    one('every second', "        return not _empty or not _filter.empty\n", "        _filter.empty = _filter.empty and not _empty\n        return not _empty or _filter.empty\n"),
    one('first empty goes', "    _filter.empty = False\n", "    _filter.empty = True\n"),
    one('line after empty goes', "        return not _empty or not _filter.empty\n", "        return not _empty\n"),
    one('strip', "[ x.rstrip() for x in re_LINE", "[ x.strip() for x in re_LINE"),
    one('no end', "if _filter( x )]) + '\\n'\n", "if _filter( x )])\n"),
    one('crlf', "if _filter( x )]) + '\\n'\n", "if _filter( x )]) + '\\r\\n'\n"),
    one('spaced', "    return '\\n'.join([ x.rstrip() for", "    return ' \\n'.join([ x.rstrip() for"),
    one('browse drops all', KEEP, "            if i not in empty:\n                result += ln\n"),
    one('browse never forgets', KEEP, KEEP.replace("                prev_empty = False\n", "                pass\n")),
    one('browse keeps two', KEEP, KEEP.replace("if not prev_empty:", "if not prev_empty or i == 2:")),
    one('browse strips', KEEP, KEEP.replace("            else:\n                result += ln\n", "            else:\n                result += ln.rstrip() + EOL\n").replace("result += ln.rstrip() + EOL", "result += ln.strip() + EOL")),
    one('offset counts lines', OFFS, OFFS.replace("total += len( ln )", "total += 1")),
    one('offset not cumulative', OFFS, OFFS.replace("total += len( ln )", "total = len( ln )")),
    one('offset moves', "                    if pos == _pos:\n                        offset[ -1 ] = ( pos, total )\n", "                    pos += len( ln )\n                    if pos == _pos:\n                        offset[ -1 ] = ( pos, total )\n"),
    one('offset of first empty lost', "                else:\n                    pos += len( ln )\n                    prev_empty = True\n", "                else:\n                    prev_empty = True\n"),
    one('offset prev stays', "            else:\n                pos += len( ln )\n                prev_empty = False\n\n#       -- merge", "            else:\n                pos += len( ln )\n\n#       -- merge"),
    one('trim indents first', "        return self.indent.join( re_LINE", "        return self.indent + self.indent.join( re_LINE"),
    one('trim does not indent', "        return self.indent.join( re_LINE", "        return ''.join( re_LINE"),
    one('indent twice', "            return PLAIN( indent.join( ln )", "            return PLAIN( ( indent + indent ).join( ln )"),
    one('browse indents first', "(( self.indent if i else '' ) + ln[ c: ])", "( self.indent + ln[ c: ])"),
    one('browse indents none', "(( self.indent if i else '' ) + ln[ c: ])", "ln[ c: ]"),
]

REFACTORS = [
    ('c27-loop', G, FILT, """    lines = []
    previous = False
    for x in re_LINE.findall( text ):
        x = x.rstrip()
        if x or not previous:
            lines.append( x )
        previous = not x

    return '\\n'.join( lines ) + '\\n'
"""),
    ('c27-split', G, FILT, """    lines = text.split( '\\n' )
    if not lines[ -1 ]:
        lines.pop()
    result = []
    for i, x in enumerate( lines ):
        if x.strip() or i == 0 or lines[ i - 1 ].strip():
            result.append( x.rstrip())
    return EOL.join( result ) + EOL
"""),
    ('c27-string', G, FILT, """    result = ''
    was_empty = False
    for x in re_LINE.findall( text ):
        is_empty = x.isspace()
        if not ( is_empty and was_empty ):
            result += x.rstrip() + '\\n'
        was_empty = is_empty
    return result
"""),
    ('c27-browse', G, KEEP, """            if i not in empty or not prev_empty:
                result += ln
            prev_empty = i in empty
"""),
    ('c27-browse-one-pass', '', [(G, "        empty = set()\n        for i, ln in enumerate( lnlist ):\n            ( rest, _ ) = ps_space( ln )\n            if rest == EOL:\n                empty.add( i )\n\n#       -- only reduce", "        empty = [ i for i, ln in enumerate( lnlist ) if not ln.strip( ' \\t\\n' )]\n\n#       -- only reduce")]),
    ('c27-trim', G, "        return self.indent.join( re_LINE.findall( dedent( plain )))", "        lines = re_LINE.findall( dedent( plain ))\n        return lines[ 0 ] + ''.join( self.indent + x for x in lines[ 1: ])"),
    ('c27-lines', '', [(G, "re_LINE = re.compile( r'[^\\r\\n]*(?:\\r\\n|\\r|\\n)|[^\\r\\n]+' )", "re_LINE = re.compile( r'[^\\r\\n]*(?:\\r\\n|\\r|\\n)|[^\\r\\n]+' )\n\ndef _lines( text ):\n    return re_LINE.findall( text )\n"),
                      (G, "for x in re_LINE.findall( text ) if", "for x in _lines( text ) if"), (G, "lnlist = re_LINE.findall( text )", "lnlist = _lines( text )"),
                      (G, "ln = re_LINE.findall( self )", "ln = _lines( self )")]),
]
