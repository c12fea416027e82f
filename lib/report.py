"""Result of one check: obligations, what was analysed, violations."""
from collections import OrderedDict
class ToolError(Exception): pass
class Res:
    def __init__(s, prop):
        s.prop = prop; s.obl = 0; s.dis = 0; s.bad = OrderedDict(); s.cov = OrderedDict(); s.rules = OrderedDict(); s.samples = []
    def rule(s, name, text): s.rules[name] = {'rule': text, 'obligations': 0, 'discharged': 0}; s.cur = name
    def ob(s, ok, key, where, msg, rule=None):
        """one obligation.  key: stable identity (no line numbers); where: file:line; msg: what is wrong if not ok"""
        r = s.rules[rule or s.cur]
        s.obl += 1; r['obligations'] += 1
        if ok:
            s.dis += 1; r['discharged'] += 1
            if r['obligations'] in (1, 7): s.samples.append('%s: %s @ %s: holds' % (rule or s.cur, key, where))
        else: s.bad.setdefault('%s|%s' % (rule or s.cur, key), (where, msg))
        return ok
    def need(s, n, least, what):
        """anchor check: an analysis that found nothing to analyse gives no answer"""
        s.cov[what] = n
        if n < least: raise ToolError('%s: found %d, expected at least %d; the code this rule is anchored to is not where it was' % (what, n, least))
