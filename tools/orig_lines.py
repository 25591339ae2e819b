#!/usr/bin/env python3
# tells for each planted bug whether the lines it removes belong to the original repository
import subprocess,re,glob,os,sys
base='c8488e2'
for d in sorted(glob.glob('/verif/seeded/*')):
    f=None; ok=True; any_rem=False; notes=[]
    for l in open(d+'/patch.diff',errors='replace'):
        l=l.rstrip('\n')
        if l.startswith('--- a/'): f=l[6:]; blame=None
        elif l.startswith('@@'):
            n=int(re.match(r'@@ -(\d+)',l).group(1))
            if blame is None:
                out=subprocess.run(['git','-C','/repo','blame','-s','-l',f],capture_output=True,text=True,errors='replace').stdout.splitlines()
                blame=out
        elif l.startswith('-') and not l.startswith('---'):
            any_rem=True
            h=blame[n-1].split()[0].lstrip('^')
            r=subprocess.run(['git','-C','/repo','merge-base','--is-ancestor',h[:39],base]).returncode
            if r!=0: ok=False; notes.append(f'{f}:{n}')
            n+=1
        elif l.startswith(' '): n+=1
    print(os.path.basename(d),'ok' if ok and any_rem else ('ADDONLY' if not any_rem else 'OURS'),*notes)
