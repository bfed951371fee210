"""Result containers shared by the checks."""
import re


class Violation:
    def __init__(self, rule, msg, fn='?', file='?', line=None, trace=(), key=None):
        self.rule = rule; self.msg = msg; self.fn = fn; self.file = file; self.line = line; self.trace = list(trace)
        # identifies the finding without line numbers
        self.key = key or re.sub(r'[^A-Za-z0-9_:.,()~=-]+', '_', '%s|%s|%s' % (rule, fn, msg[:160]))

    def text(self, pid):
        out = ['property %s' % pid, 'rule     %s' % self.rule, 'where    %s:%s in %s' % (self.file, self.line, self.fn), 'what     %s' % self.msg, 'key      %s' % self.key, '']
        if self.trace:
            out.append('path through the program (entry first):')
            out.extend('  ' + str(x) for x in self.trace)
        return '\n'.join(out) + '\n'


class Result:
    def __init__(self):
        self.violations = []
        self.coverage = {}
        self.anchors = {}       # name -> count; a zero makes the check fail with an error
        self.undecided = 0
        self.assumptions = []

    def bad(self, *a, **k):
        self.violations.append(Violation(*a, **k))
