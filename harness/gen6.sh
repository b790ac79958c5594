#!/bin/sh
# Regenerates fam6/common.go from fam4/common.go (the two families have the
# same API; what differs is in fam4/conv.go and fam6/conv.go).
cd "$(dirname "$0")" && sed -e 's/package fam4/package fam6/' -e 's#addrs.v1/ipv4#addrs.v1/ipv6#' \
  -e 's/This file is written for IPv4; fam6\/common.go is the same text with the/Generated from fam4\/common.go by gen6.sh: the same text with the/' fam4/common.go > fam6/common.go
