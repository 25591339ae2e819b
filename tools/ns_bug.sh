#!/bin/bash
# ns_bug.sh SLOT ID... : try_bug.sh for each ID within a mount namespace of its own, on copies of /repo, /verif and /opt/vp
slot=/tmp/ns$1; shift
mkdir -p $slot/repo $slot/verif $slot/vp
for x in repo verif; do
  if [ -d $slot/$x/.git ]; then
    # keep build products, and the times of unchanged files
    (cd /$x && git ls-files -co --exclude-standard -z | xargs -0 cp -au --parents -t $slot/$x/)
    (cd $slot/$x && rm -rf $slot/$x/.git && cp -a /$x/.git $slot/$x/ && [ $x = repo ] && git checkout -q -- .)
  else
    cp -a /$x/. $slot/$x/
  fi
done
cp -a /opt/vp/. $slot/vp/
unshare -m bash -c '
  mount --bind '$slot'/repo /repo && mount --bind '$slot'/verif /verif && mount --bind '$slot'/vp /opt/vp || exit 9
  for id in "$@"; do bash /verif/tools/try_bug.sh $id; done' x "$@"
