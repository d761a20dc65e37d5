"""Writes known_findings.txt: the record of repaired defects (and of known, unrepaired ones)."""
import os
import subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXES = {  # subject of the commit -> (property, what failed)
    "serialise a transition's label images whenever they are present": ('C02', 'the label image of a transition was written only if an image was present too'),
    'keep the fractional part of a drift vector read from a proto': ('C02', 'a drift vector read from a proto was truncated to integers'),
    'keep the label image when a drift is applied to an observation': ('C02', 'applying a drift dropped the label image'),
    'compare atomic grids without atoms instead of raising': ('C04', 'comparing grids without atoms raised'),
    "place the human prior's rate peak towards each neighbor": ('C08', 'the rate peak of the human prior lay off the neighbor it belongs to'),
    'do not turn a clipped waiting time into a transition': ('C06', 'a waiting time clipped to the dwell time was applied as a transition'),
    'pass the beam voltage and current of a control on to the material': ('C09', 'voltage and current were lost in the conversion to the material frame'),
    'give logged episodes the same id as their logged steps': ('C17', 'episode and step records carried different ids'),
    'do not log the current episode again on every flush': ('C17', 'every flush logged the current episode again'),
    'keep logging when the microscope agent rescans for a lost silicon': ('C17', 'logging failed when the agent rescanned'),
    'use the same silicon atom for every part of the features': ('C15', 'parts of the features used different silicon atoms'),
    'render the environment after a step': ('C12', 'rendering after a step raised'),
    'close the figure of a rendered frame': ('C12', 'every rendered frame left a figure open'),
    'format durations just short of a full second': ('C31', '999.6 ms and the like were formatted as 0:00.1000'),
    'generate videos of episodes without controls': ('C18', 'filming an episode whose steps have no controls raised'),
    'do not keep the figures of videos open': ('C18', 'every video left a figure open'),
    'generate grid masks that are not square': ('C19', 'masks that are not square were transposed or raised'),
    'draw round atoms in fields of view that are not square': ('C19', 'atoms were stretched in views that are not square'),
    'classify lattice atoms independently of the order and wrap-around of bond angles': ('C22', 'classes depended on the order and wrap-around of bond angles'),
    'do not accumulate drift in the initial shift given to align_latest': ('C20', 'the initial shift given was modified in place and leaked into later calls'),
    'do not merge atoms into the first grid in place': ('C21', 'merging modified the first grid given'),
    'keep the drift finite when no atoms are close enough to align to': ('C20', 'the drift was nan when no atoms paired up'),
    'propagate atomic numbers into a copy of the given ones': ('C21', 'the atomic numbers given were modified in place'),
    'detect each atom once': ('C25', 'the detector reported atoms more than once'),
    'report atoms of a single pixel at their place instead of a corner': ('C25', 'single-pixel atoms were reported in the corner'),
    'mask silicon that overlaps with carbon': ('C25', 'silicon overlapping carbon was reported as both'),
    'detect atoms in images without carbon or without silicon': ('C25', 'images with one species only raised'),
    'detect atoms in double precision images': ('C25', 'double precision images raised'),
    'normalise detected positions by the side they lie along': ('C25', 'positions in elongated images were normalised by the wrong side'),
    'find the record files of a directory of trajectories': ('C23', 'no record file of a directory was found'),
    'do not take a partial copy of model weights for a complete one': ('C32', 'an interrupted extraction was taken for complete model weights ever after'),
}
FIXES.update(__import__('fixes_more').FIXES if os.path.exists(os.path.join(ROOT, 'tools', 'fixes_more.py')) else {})
KNOWN = []
out = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True, check=True).stdout
for line in log.splitlines():
  h, s = line.split(' ', 1)
  if s.startswith('fix: '):
    p, w = FIXES[s[5:]]
    out.append(f'fixed: property={p} {h} {w}')
open(os.path.join(ROOT, 'known_findings.txt'), 'w').write('\n'.join(KNOWN + out) + '\n')
print(len(out), 'fixed')
