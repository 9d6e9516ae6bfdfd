#!/bin/bash
# tryseed.sh ID...: does the planted change build, pass the stable tests and break its demo?  Works on /repo and undoes everything.
for id in "$@"; do
  d=/verif/seeded/$id
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/seed.$id.json > /tmp/seed.$id.log 2>&1
  miss=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.$id.json'))
m=sorted(set(b['stable'])-set(o['passed'])); print(len(m), m[:4])")
  cp -r $d /tmp/seeddemo.$$; (cd /repo && bash /tmp/seeddemo.$$/demo.sh > /tmp/seed.$id.demo 2>&1); bad=$?
  git -C /repo checkout -q -- .
  rm -rf /tmp/seeddemo.$$
  echo "$id: stable tests lost: $miss; demo with the change: $bad ($(tail -1 /tmp/seed.$id.demo | cut -c1-100))"
done
bash /opt/vp/build.sh > /tmp/seed.build.log 2>&1 || echo "clean build failed"
for id in "$@"; do
  (cd /repo && bash /verif/seeded/$id/demo.sh > /tmp/seed.$id.demo0 2>&1); echo "$id: demo on the clean tree: $? ($(tail -1 /tmp/seed.$id.demo0 | cut -c1-100))"
done
