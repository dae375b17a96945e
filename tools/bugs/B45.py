PROPERTY = 'C24'
NEEDS = 'an input that is falsy, such as the digit 0'
BREAKS = 'falsy letters are taken for the empty word, so the expression is matched against a shorter word'
EDITS = [('aalpy/SULs/RegexSUL.py', '        if letter is not None:\n            self.string', '        if letter:\n            self.string')]
DEMO = "\nfrom aalpy.SULs import RegexSUL\ns = RegexSUL('10*')\nassert s.query((1, 0)) == [True, True]\nassert RegexSUL('1').query((1, 0)) == [True, False]\n"
