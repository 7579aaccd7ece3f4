"""writes known-findings.txt: one line per repair commit in /repo"""
import os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# first 7 digits of the commit -> property that the unrepaired code breaks
P = {'4c44d68': 'C14', 'bcceb23': 'C14', 'a3803fb': 'C07', '741659e': 'C06', 'f51d653': 'C09', 'fc00a11': 'C09', 'e2de0d3': 'C08',
     '1ebe222': 'C05', '2dd26ff': 'C05', 'f32def3': 'C01', '27d8ac9': 'C14', '43675fe': 'C01', '74272d2': 'C03', '50ba9bd': 'C03',
     'dcaea11': 'C03', '7f917ec': 'C02', '56b4f1b': 'C02', 'bcbe46c': 'C01', 'e3207a2': 'C04', '311f99a': 'C04', '31428fd': 'C04',
     'd53f0b0': 'C06', 'c0d05eb': 'C08', 'a21dda4': 'C23', 'cb338f6': 'C10', 'bdc1f93': 'C10', '9e4e9e8': 'C10', '8a87d37': 'C10',
     '605e6f6': 'C11', '3505836': 'C11', 'ced7140': 'C11', '6851a36': 'C11', 'd65249c': 'C10', '1d9b87b': 'C15', '0899296': 'C15',
     'a119c4b': 'C16', '1d0eb57': 'C16', 'd6aaf2f': 'C15', '224949a': 'C17', '6325774': 'C17', '1a0c7c4': 'C17', '14529e1': 'C19',
     'b607ded': 'C22', '06cf3c4': 'C22', 'd0265ad': 'C12', '8bd0bd3': 'C24'}
out = ["# genuine defects of max-ym/lokky.  'fixed:' entries suppress nothing; 'known:' entries would be listed as",
       "#   known: property=<id> harness=<harness> at=<message of the check> | <what fails>"]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        out.append('fixed: property=%s %s %s' % (P[h[:7]], h, s[5:]))
open(os.path.join(H, 'known-findings.txt'), 'w').write('\n'.join(out) + '\n')
