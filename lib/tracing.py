"""Parsers generated with the trace feature: the same contracts, and contracts about what is printed."""
import re
from gram import *

class LogSpec(Spec):
    """t* is the debugging output of an expression instead of the failures it reports"""
    log = True
    def trule(self, r, s, t):
        R = lambda q: 'i_repr(i, %s)' % q
        l = lambda w, n: js('[PEG_TRACE] %s rule `%s` at {}%s' % (w, r.name, n))
        return 'sy1(%s, %s) + %s + match %s { Pr::M(q, _) => sy2(%s, %s, %s), Pr::F => sy1(%s, %s) }' % (
            l('Attempting to match', ''), R('p'), t, s, l('Matched', ' to {}'), R('p'), R('q'), l('Failed to match', ''), R('p'))

def logify(text):
    text = re.sub(r'(//@@item .*struct ParseState" pub)', r'\1 log', text)
    text = re.sub(r'(//@@fn src=\S*_gen\.rs .*)', r'\1 log', text)
    text = re.sub(r'/\*E\*/ ev\(\*final\(__err_state\)\) == run\(ev\(\*old\(__err_state\)\), (.*)\),', r'/*E*/ lg(*final(__state)) == run(lg(*old(__state)), \1), final(__err_state).suppress_fail == old(__err_state).suppress_fail,', text)
    text = re.sub(r'let ghost (e_\d+) = ev\(\*__err_state\);', r'let ghost \1 = ev(*__err_state); let ghost lg\1 = lg(*__state);', text)
    text = re.sub(r'run\((e_\d+),', r'run(lg\1,', text)
    text = text.replace('run(ev(*__err_state),', 'run(lg(*__state),').replace('/*E*/ ev(*__err_state) == run', '/*E*/ lg(*__state) == run')
    return text
