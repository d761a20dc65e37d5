import json, os, subprocess, shutil, textwrap
SH='''#!/bin/bash
export JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH=$PWD
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
W='/tmp/plant/repo'
def plant(id, prop, edits, needs, breaks, demo):
  if not os.path.isdir(W): subprocess.run(['cp','-a','/repo',W],check=True)
  for f,a,b in edits:
    p=f'{W}/putting_dune/{f}'; s=open(p).read()
    assert s.count(a)==1,(id,f,s.count(a))
    open(p,'w').write(s.replace(a,b))
  d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
  diff=subprocess.run(['git','-C',W,'diff'],capture_output=True,text=True,check=True).stdout
  assert diff
  open(d+'/patch.diff','w').write(diff)
  subprocess.run(['git','-C',W,'checkout','-q','--','.'],check=True)
  open(d+'/demo.sh','w').write(SH); os.chmod(d+'/demo.sh',0o755)
  open(d+'/demo.py','w').write(textwrap.dedent(demo).lstrip())
  json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
  print(id)
