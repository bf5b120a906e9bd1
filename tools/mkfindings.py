"""the fixed defects, from the fix commits in /repo"""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = {  # commit subject -> property, what failed
 'store beam section shear factors as floats': ('C01', 'shear factors of beam sections were stored as integers'),
 'accept the drift force, motion and section force record names': ('C10', 'records of these types were not recognised after a skipped record'),
 'read section records whose optional fields are left out in mid-line': ('C01', 'GBEAMG/GCHAN... with optional fields missing failed or read the next record'),
 'read all values of complex node results': ('C12', 'complex node results lost their imaginary parts (C01 too)'),
 'raise when a source ends in the middle of its data': ('C05', 'a truncated source was converted without an error (C04 too)'),
 'raise instead of stopping at a line that is not a record': ('C04', 'a malformed record name ended the file silently'),
 'skip TSLAYER records of unformatted files': ('C10', 'TSLAYER in an unformatted file desynchronised the reader'),
 'forget the element types of the previous file': ('C03', 'element types of an earlier conversion were used by a later one'),
 'give lower level data their top level, so that hierarchy transformations work': ('C15', 'transformations and nodes at a level raised for all lower level data (C13 too)'),
 'close the files of a failed conversion and remove its partial groups': ('C04', 'a failed conversion left its files open and partial groups in the output (C08 too)'),
 'refuse to append records to a group that already exists': ('C08', 'appending the same model twice appended its rows to the tables already there'),
 'raise when the output could not be written': ('C07', 'errors at flush and close of the output were ignored'),
 'let conversions in several threads wait for each other': ('C17', 'concurrent conversions shared the parser state'),
 'leave nothing open when a file cannot be opened, close all files': ('C11', 'a failing open left the HDF5 file open'),
 'iteration over and repr of a File': ('C11', 'iter() and repr() of a File raised'),
 'do not hand out the arrays HydroData works with': ('C16', 'changing the answer of a hydrodynamic query changed later answers'),
 'section forces when several bodies have sections': ('C14', 'section forces of all bodies were mixed'),
 'file names in lower case': ('C09', 'lower case names were refused or their lower-level files not found (C02 too)'),
 'keep the top level when HIERARCH records come in several runs': ('C10', 'a second run of HIERARCH records put the following records under the wrong group'),
}
EXTRA = json.load(open(os.path.join(ROOT, 'tools', 'findings_extra.json'))) if os.path.exists(os.path.join(ROOT, 'tools', 'findings_extra.json')) else {}
F.update({k: tuple(v) for k, v in EXTRA.items()})
out = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse', 'b5ab21a..HEAD'], capture_output=True, text=True).stdout
for ln in log.strip().split('\n'):
    h, s = ln.split(' ', 1)
    assert s.startswith('fix: '), ln
    p, w = F[s[5:]]
    out.append(dict(status='fixed', property=p, commit=h, what=w, text='fixed: property=%s %s %s' % (p, h, w)))
kp = os.path.join(ROOT, 'tools', 'findings_known.json')
if os.path.exists(kp):
    out += json.load(open(kp))
with open(os.path.join(ROOT, 'known_findings.json'), 'w') as f:
    json.dump(dict(findings=out), f, indent=1); f.write('\n')
