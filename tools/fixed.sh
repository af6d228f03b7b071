#!/bin/bash
# print "fixed:" lines for fix commits of /repo (helper to maintain known-findings.txt)
git -C /repo log --reverse --format='%h %s' | grep ' fix:'
