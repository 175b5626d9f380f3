"""Writes known_findings.json: fixed defects (by commit subject in /repo) and open findings (none suppresses a fixed one)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [  # (property, commit subject start)
 ('P01', 'replace numpy aliases removed'), ('P01', 'AperModel2D subpixel rows'), ('P01', 'AperModel2D PSF kernel is centered'),
 ('P17', 'AperModel1DRot PSF kernel'), ('P03', 'averaging (not summing)'), ('P04', 'AperModel2D.update_model uses the new'),
 ('P03', 'zero-dispersion collapse'), ('P04', "models don't share"), ('P04', "FitEmissionLines2D instances don't share"),
 ('P06', 'masked pixels with non-finite'), ('P25', 'IFU cubes are rebinned'), ('P15', 'FitEmissionLines1D.fit with Monte Carlo'),
 ('P15', 'instrument-corrected dispersion errors'), ('P14', 'FitEmissionLines1D with line groups'), ('P09', 'trim_spectrum_1D works'),
 ('P11', 'mask_edges_1D masks'), ('P14', '1D line profiles have'), ('P18', 'Moffat PSF kernel includes'),
 ('P20', '1 sigma errors of a second group'), ('P20', 're-analyzing an MCMC chain'), ('P01', 'absvalsigma with a fixed'),
 ('P19', 'MCMC fits work without'), ('P20', 'posterior peaks of constant'), ('P24', '2D fit corner plot'),
 ('P24', 'plotting calls removed'), ('P24', 'box_integrate weights'), ('P16', 'dispersion aperture corrections use'),
 ('P18', 'Moffat PSF with PSF_FWHM=0'),
]
FINDINGS = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse'], capture_output=True, text=True).stdout.splitlines()
fixed, used = [], set()
extra = os.path.join(V, 'tools', 'fixed_extra.json')
if os.path.exists(extra):
    MAP += [tuple(x) for x in json.load(open(extra))]
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    m = [p for p, t in MAP if s[5:].startswith(t)]
    if not m:
        print('NO PROPERTY:', l)
        continue
    fixed.append('fixed: property=%s %s %s' % (m[0], h, s[5:]))
json.dump({'findings': FINDINGS, 'fixed': fixed}, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
print(len(fixed), 'fixed')
