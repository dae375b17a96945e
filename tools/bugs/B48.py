PROPERTY = 'C25'
NEEDS = 'a line with one delimiter too many'
BREAKS = 'a malformed word of a log is cut instead of refused: part of the log is silently lost'
EDITS = [('aalpy/utils/DataHandler.py', 'if len(i_o) != 2:', 'if len(i_o) < 2:')]
DEMO = "\nimport tempfile, builtins, sys\nfrom aalpy.utils import IODelimiterTokenizer\nwith tempfile.NamedTemporaryFile('w', suffix='.txt') as f:\n    f.write('o,a/1/2,b/3\\n'); f.flush()\n    try:\n        d = IODelimiterTokenizer().tokenize_data(f.name)\n    except (SystemExit, Exception):\n        sys.exit(0)\n    print('read', d); sys.exit(1)\n"
