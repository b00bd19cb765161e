"""Contract units over peg-runtime"""
from vxlib import part, Unit

def s(*names): return ''.join(part(n) for n in names)
TAIL = "}\nfn main() {}\n"

def str_part(posrepr, spec_repr=None, show=False):
    t = part('str').replace('//#POSITION_REPR\n', part(posrepr))
    t = t.replace('//#LINECOL_SHOW\n', part('linecol_show') if show else '')
    if spec_repr:
        t = t.replace("open spec fn s_repr(&self, p: int, r: LineCol) -> bool { true }", spec_repr)
        t = t.replace("use super::lem::*;", "use super::lem::*; use crate::lclem::*;", 1)
    return t

REPR = """open spec fn s_repr(&self, p: int, r: LineCol) -> bool {
            r.offset == p && r.line == 1 + newlines(prefix(self, p)) && r.column == 1 + tail_len(prefix(self, p))
        }"""

def c10():
    return [Unit('str', part('core') + str_part('posrepr_trusted') + '}\n' + TAIL, r'for str::|fn call_custom', 'peg-runtime/str.rs')]
def c11():
    return [Unit('slice', part('core') + part('slice') + '}\n' + TAIL, r'for \[', 'peg-runtime/slice.rs')]
def c12():
    return [Unit('linecol', part('core') + str_part('posrepr', REPR, True) + '}\n' + part('stdx') + part('fmt') + part('linecol') + TAIL,
                 r'position_repr|Display for LineCol', 'peg-runtime/str.rs: position_repr, Display for LineCol')]
def err(tokens, display):
    return part('error').replace('//#TOKENS', tokens).replace('//#DISPLAY', display)
def c13():
    tok = part('error_tokens')
    trusted_tok = "#[verifier::external_body]\n" + tok.split("        //@@closure")[0].replace('sel="ExpectedSet::tokens"', 'sel="ExpectedSet::tokens" trusted') + "        //@@end\n"
    return [
        Unit('tokens', part('core') + err(tok, part('error_order')) + '}\n' + part('stdx') + TAIL, r'ExpectedSet::tokens|mark_failure|ErrorState', 'ExpectedSet::tokens'),
        Unit('display', part('core') + err(trusted_tok, part('error_order') + part('error_display')) + '}\n' + part('stdx') + part('fmt') + TAIL,
             r'Display for', 'Display for ExpectedSet and ParseError'),
    ]
def errstate():
    return [Unit('errorstate', part('core') + err('', '') + '}\n' + part('stdx') + TAIL, r'ErrorState', 'peg-runtime/error.rs: ErrorState')]
